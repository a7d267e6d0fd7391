// C24: the compatibility library for DynaMix 1
#pragma once
#include "vp.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <mutex>
#include <atomic>

namespace vp1 {
using dynamix::v1compat::object;
constexpr int NM = 14;

// an argument passed by value
struct probe {
    int v;
    int* heap;
    explicit probe(int x) : v(x), heap(new int(x)) {}
    probe(const probe& o) : v(o.v), heap(o.heap ? new int(*o.heap) : nullptr) {}
    probe(probe&& o) noexcept : v(o.v), heap(o.heap) { o.heap = nullptr; o.v = -77; }
    probe& operator=(const probe&) = delete;
    ~probe() { delete heap; }
    int value() const { return heap && *heap == v ? v : -1000000; }
};

struct user_error { int mixin; };

// what the mixins do in a call and what they have seen
struct script {
    int v = 0;              // base of arguments
    double ret[NM + 1] = {}; // results of mixins, the last is of the default implementation
    int want[NM] = {};      // 1: call next bidder if there is one, 2: call next bidder always, 3: throw
    bool has_next[NM] = {}; // mixin can call next bidder in this message
    const dynamix::object* obj = nullptr;
    int msg = 0;
    bool multi = false;
    const void* addr[6] = {}; // of arguments passed by reference
    std::string trace;
    int calls = 0;
    int depth = 0;
};
inline thread_local script* cur = nullptr;

inline std::string text(int v) { return "argument which is long enough for the heap " + std::to_string(v); }

struct rec_base {
    script& s = *cur;
    int refs;
    bool bad = false;
    rec_base() : refs(s.calls++) {}
    void arg_int(int i, int a) { seen(i, a == s.v + i); }
    void arg_cstr(int i, const std::string& a) { seen(i, a == text(s.v + i) && &a == s.addr[i]); }
    void arg_str(int i, const std::string& a) { seen(i, a == text(s.v + i)); }
    void arg_ref(int i, int& a) { seen(i, a == s.v + i + refs && &a == s.addr[i]); ++a; }
    void arg_probe(int i, const probe& a) { seen(i, a.value() == s.v + i); }
    void arg_rv(int i, const std::unique_ptr<int>& a) { seen(i, a && *a == s.v + i && &a == s.addr[i]); }
    void arg_mo(int i, const std::unique_ptr<int>& a) { seen(i, a && *a == s.v + i); }
    void seen(int i, bool ok) { if (!ok) { s.trace += "(bad argument " + std::to_string(i) + ")"; } }
};

struct rec : public rec_base {
    int mixin;
    rec(const void* self, int m, int msg);
    template <typename Obj>
    void owner(Obj* o) { if (o != s.obj) s.trace += "(bad owner)"; }
    bool next(bool has) {
        if (has) s.trace += "n";
        if (s.want[mixin] == 1 && has) { s.trace += "["; return true; }
        if (s.want[mixin] == 2) { s.trace += "["; return true; }
        return false;
    }
    void returned(double d) { s.trace += "=" + std::to_string(int(d * 2)) + "]"; }
    template <typename T>
    T ret() {
        if (s.want[mixin] == 3) { s.trace += "!"; throw user_error{mixin}; }
        return T(s.ret[mixin]);
    }
};

struct drec : public rec_base {
    drec(const dynamix::object& o, int msg) {
        s.trace += "D";
        if (&o != s.obj) s.trace += "(bad self)";
        if (msg != s.msg) s.trace += "(bad message)";
    }
    template <typename T>
    T ret() { return T(s.ret[NM]); }
};

// arguments of the calls
inline int make_int(int i) { return cur->v + i; }
struct cstr_arg { std::string s; int i; operator const std::string&() { cur->addr[i] = &s; return s; } };
inline cstr_arg make_cstr(int i) { return {text(cur->v + i), i}; }
inline std::string make_str(int i) { return text(cur->v + i); }
struct ref_arg { int v; int i; operator int&() { cur->addr[i] = &v; return v; } };
inline ref_arg make_ref(int i) { return {cur->v + i, i}; }
inline probe make_probe(int i) { return probe(cur->v + i); }
struct rv_arg { std::unique_ptr<int> p; int i; operator std::unique_ptr<int>&&() && { cur->addr[i] = &p; return std::move(p); } };
inline rv_arg make_rv(int i) { return {std::make_unique<int>(cur->v + i), i}; }
inline std::unique_ptr<int> make_mo(int i) { return std::make_unique<int>(cur->v + i); }
inline void after(int i, bool ok) { if (!ok) cur->trace += "(bad after " + std::to_string(i) + ")"; }
inline void after_int(int i, int a) { after(i, a == cur->v + i); }
inline void after_cstr(int i, const cstr_arg& a) { after(i, a.s == text(cur->v + i)); }
inline void after_str(int i, const std::string& a) { after(i, a == text(cur->v + i)); }
inline void after_ref(int i, const ref_arg& a) { after(i, a.v == cur->v + i + cur->calls); }
inline void after_probe(int i, const probe& a) { after(i, a.value() == cur->v + i); }

// mixins
struct live_set {
    std::mutex m;
    std::map<const void*, int> live;
    void add(const void* p, int i) {
        std::lock_guard l(m);
        if (!live.emplace(p, i).second) vp::fail("live", "mixin %d constructed at %p where there is one", i, p);
    }
    void del(const void* p, int i) {
        std::lock_guard l(m);
        auto f = live.find(p);
        if (f == live.end() || f->second != i) vp::fail("live", "mixin %d destroyed at %p where there is none", i, p);
        live.erase(f);
    }
};
inline live_set& live() { static live_set& s = *new live_set; return s; }

template <int I>
struct base_impl {
    int val = -1;
    int index = I;
    base_impl() { live().add(this, I); }
    base_impl(const base_impl& o) : val(o.val) { live().add(this, I); }
    base_impl& operator=(const base_impl& o) { val = o.val; return *this; }
    ~base_impl() { live().del(this, I); val = index = -999; }
};
template <int I, bool Copyable, bool Movable> struct base : public base_impl<I> {
    base() = default;
    base(const base&) = default;
    base& operator=(const base&) = default;
};
template <int I, bool M> struct base<I, false, M> : public base_impl<I> {
    base() = default;
    base(const base&) = delete;
    base& operator=(const base&) = delete;
};
template <int I> struct base<I, true, true> : public base_impl<I> {
    base() = default;
    base(const base&) = default;
    base(base&& o) noexcept : base_impl<I>(o) {}
    base& operator=(const base&) = default;
};

struct mixin_desc {
    int i;
    const char* name;
    bool dep;
    uintptr_t user;
    bool copyable;
    size_t align;
    const dynamix::mixin_info& info;
    void* (*get)(dynamix::object&);
    bool (*has)(const dynamix::object&);
    void (*add)(dynamix::gradual_mutation&);
    void (*add_if_lacking)(dynamix::gradual_mutation&);
    void (*remove)(dynamix::gradual_mutation&);
    int& (*val)(dynamix::object&);
};
template <typename M>
mixin_desc make_desc(int i, const char* name, bool dep, uintptr_t user, bool copyable, size_t align) {
    return {i, name, dep, user, copyable, align ? align : alignof(M), dynamix::g::get_mixin_info<M>(),
        [](dynamix::object& o) -> void* { return o.get<M>(); },
        [](const dynamix::object& o) { return o.has<M>(); },
        [](dynamix::gradual_mutation& m) { m.add<M>(); },
        [](dynamix::gradual_mutation& m) { m.add_if_lacking<M>(); },
        [](dynamix::gradual_mutation& m) { m.remove<M>(); },
        [](dynamix::object& o) -> int& { return o.get<M>()->val; }};
}

// messages
struct impl_desc { int mixin, bid, prio; bool next; };
struct collect {
    size_t num = 999;
    std::vector<double> got;
    size_t stop_after = 99;
    void set_num_results(size_t n) { num = n; }
    template <typename T>
    bool add_result(const T& t) { got.push_back(double(t)); return got.size() < stop_after; }
};
template <typename T>
struct last {
    using result_type = double;
    double res = 0;
    size_t num = 0, n = 0;
    void set_num_results(size_t x) { num = x; }
    bool add_result(const T& t) { res = double(t); ++n; return true; }
    double result() const { return n == num ? res * 1000 + double(n) : -1; }
};
template <typename C>
void dirty(C& c) { c.set_num_results(1); c.add_result(3); c.add_result(0); c.add_result(1); }
using kinds = std::vector<const char*>;
struct msg_desc {
    const char* name;
    bool multi, is_const, has_default;
    const char* ret;
    kinds args;
    std::vector<impl_desc> impls;
    const dynamix::feature_info& info;
    bool (*implements)(const object&);
    double (*call)(object&);
    double (*comb)(object&, int kind, collect&);
};

// rules
enum rule_kind { deprecated_mixin, mandatory_mixin, substitute_mixin, dep_rule, oneshot_rule, exclusive_rule, throwing_rule, custom_rule };
inline std::atomic<int> live_rules{0};
template <typename R>
struct counted : public R {
    counted() { ++live_rules; }
    ~counted() override { --live_rules; }
};
struct rule_factory { rule_kind kind; int a, b; dynamix::v1compat::mutation_rule* (*make)(); };
}

namespace v1g {
// made when first used: they refer to infos of other translation units
const std::vector<vp1::mixin_desc>& get_mixins();
const std::vector<vp1::msg_desc>& get_msgs();
extern vp1::rule_factory rules[];
extern const int num_rules;
void set_master(dynamix::v1compat::dependent_mixins_dep& r, int i);
void set_master(dynamix::v1compat::dependent_mixins_oneshot& r, int i);
void add_to(dynamix::v1compat::impl::mixin_list& l, int i);
}
