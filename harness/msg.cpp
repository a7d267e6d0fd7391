// Messages (C03): C++ messages of all mechanisms, categories of arguments and results; runtime-generated bids,
// priorities, payload kinds, compositions and behaviours of implementations (next implementers and bidders, throwing)
// compared with a model of dispatch
#include "vp.hpp"
#include "lockmon.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <memory>
#include <optional>

namespace dm = dynamix;
using namespace vp;

// ------------------------------------------------------------------------------------------------
// arguments

int64_t live_vals = 0;
struct val {
    static constexpr uint64_t alive = 0xA11FE, moved = 0x30FED, dead = 0xDEAD;
    uint64_t v, st = alive;
    std::unique_ptr<uint64_t> own; // makes wrong moves and bitwise copies visible for sanitizers
    explicit val(uint64_t v) : v(v), own(new uint64_t(v)) { ++live_vals; }
    val(const val& o) : v(o.v) {
        VP_CHECK("msg-arg", o.st == alive, "copy of an argument which was moved from or is dead");
        own.reset(new uint64_t(*o.own));
        ++live_vals;
    }
    val(val&& o) noexcept : v(o.v), st(o.st), own(std::move(o.own)) {
        VP_CHECK("msg-arg", st == alive, "move of an argument which was moved from or is dead");
        o.st = moved;
        o.v = 0;
        ++live_vals;
    }
    val& operator=(const val&) = delete;
    ~val() {
        VP_CHECK("msg-arg", st != dead, "argument destroyed twice");
        st = dead;
        --live_vals;
    }
};

uint64_t dg(int x) { return uint64_t(int64_t(x)) * 3 + 1; }
uint64_t dg(short x) { return uint64_t(int64_t(x)) * 5 + 2; }
uint64_t dg(double x) { return uint64_t(int64_t(x * 16)) * 7 + 3; }
uint64_t dg(const char* s) { return hash_str(s); }
uint64_t dg(const std::string& s) { return hash_str(s) + 4; }
uint64_t dg(const val& x) {
    VP_CHECK("msg-arg", x.st == val::alive && x.own && *x.own == x.v, "an implementation got an argument which was moved from or is dead");
    return x.v * 11 + 5;
}
uint64_t dg(const std::unique_ptr<int>& x) {
    VP_CHECK("msg-arg", !!x, "an implementation got an argument which was moved from");
    return uint64_t(*x) * 13 + 6;
}

// ------------------------------------------------------------------------------------------------
// messages

class tobj : public dm::object {
public:
    using dm::object::object;
};

DYNAMIX_DECLARE_SIMPLE_MSG(s_uni, int(tobj&));
DYNAMIX_DECLARE_SIMPLE_MSG(s_multi, int(tobj&, int&, val));
DYNAMIX_DECLARE_SIMPLE_MSG(s_cmulti, val(const tobj&, int&, const val&));
DYNAMIX_DECLARE_SIMPLE_MSG(s_mo, std::unique_ptr<int>(tobj&, int&, std::unique_ptr<int>, val&&));
DYNAMIX_DECLARE_MSG(f_void_msg, f_void, void, (dm::object&, int&));
DYNAMIX_DECLARE_MSG(f_val_msg, f_val, val, (const dm::object&, int&, val, const val&));
DYNAMIX_DECLARE_MSG(f_ovl1_msg, f_ovl, int, (tobj&, int&, val));
DYNAMIX_DECLARE_MSG(f_ovl2_msg, f_ovl, int, (const tobj&, int&, const std::string&));
#define VP_EXPORT
DYNAMIX_DECLARE_EXPORTED_MSG(VP_EXPORT, f_ref_msg, f_ref, int&, (tobj&, int&, int, const char*, double, short));
DYNAMIX_DECLARE_EXPORTED_MSG(VP_EXPORT, f_none_msg, f_none, int, (const tobj&));
constexpr int num_msgs = 10;

template <typename M> constexpr int msg_index = -1;
template <> constexpr int msg_index<s_uni> = 0;
template <> constexpr int msg_index<s_multi> = 1;
template <> constexpr int msg_index<s_cmulti> = 2;
template <> constexpr int msg_index<s_mo> = 3;
template <> constexpr int msg_index<f_void_msg> = 4;
template <> constexpr int msg_index<f_val_msg> = 5;
template <> constexpr int msg_index<f_ovl1_msg> = 6;
template <> constexpr int msg_index<f_ovl2_msg> = 7;
template <> constexpr int msg_index<f_ref_msg> = 8;
template <> constexpr int msg_index<f_none_msg> = 9;
const bool is_multi[num_msgs] = {false, true, true, false, true, false, true, true, false, true};
const bool has_acc[num_msgs] = {false, true, true, true, true, true, true, true, true, false};
const bool move_only[num_msgs] = {false, false, false, true, false, false, false, false, false, false};
// result: 0 value, 1 nothing, 2 reference to the first argument
const int res_kind[num_msgs] = {0, 0, 0, 0, 1, 0, 0, 0, 2, 0};
const char* msg_names[num_msgs] = {"s_uni", "s_multi", "s_cmulti", "s_mo", "f_void_msg", "f_val_msg", "f_ovl1_msg", "f_ovl2_msg", "f_ref_msg", "f_none_msg"};

// ------------------------------------------------------------------------------------------------
// behaviour of implementations

constexpr int num_mixins = 10;
enum action { a_return, a_next, a_set, a_top, a_throw, a_next_any, a_set_any, a_top_any, a_other, a_count };

struct payload_error {
    int mixin, msg;
};
struct script_t {
    action act[num_mixins][num_msgs] = {};
};
script_t script;
std::vector<std::string> trace; // what implementations have seen
const dm::object* cur_obj = nullptr;
const dm::mixin_info* cur_infos[num_mixins] = {};
int depth = 0;

uint64_t h3(uint64_t a, uint64_t b, uint64_t c) { return hash_mix(hash_mix(hash_mix(17, a), b), c); }
uint64_t hash_args(uint64_t h) { return h; }
template <typename A, typename... R>
uint64_t hash_args(uint64_t h, const A& a, const R&... r) { return hash_args(hash_mix(h, dg(a)), r...); }
std::string entry(int mixin, int msg, uint64_t digest) {
    char b[80];
    snprintf(b, sizeof(b), "m%d.%s(%llx)", mixin, msg_names[msg], (unsigned long long)digest);
    return b;
}
int next_acc(int a, int mixin) { return int((unsigned(a) * 31u + unsigned(mixin) + 1u) & 0xffffff); }

void touch(int& a, int mixin) { a = next_acc(a, mixin); }
template <typename T> void touch(T&&, int) {}
void sink(val&& v) { if (v.st == val::alive) val x(std::move(v)); }
void sink(std::unique_ptr<int>&& v) { std::unique_ptr<int> x(std::move(v)); }
template <typename T> void sink(T&&) {}

template <typename R, typename... A>
R make_res(uint64_t h, [[maybe_unused]] A&... a) {
    if constexpr (std::is_same_v<R, void>) return;
    else if constexpr (std::is_same_v<R, int&>) return std::get<0>(std::tie(a...));
    else if constexpr (std::is_same_v<R, int>) return int(h & 0x7fffffff);
    else if constexpr (std::is_same_v<R, val>) return val(h);
    else return R(new int(int(h & 0x7fffffff)));
}
template <typename F> uint64_t res_of(F f, const int* acc) {
    using R = decltype(f());
    if constexpr (std::is_same_v<R, void>) { f(); return 0; }
    else if constexpr (std::is_same_v<R, int&>) {
        int& r = f();
        VP_CHECK("msg-result", &r == acc, "a reference which was returned got lost");
        return uint64_t(r);
    }
    else if constexpr (std::is_same_v<R, int>) return uint64_t(f());
    else if constexpr (std::is_same_v<R, val>) { R r = f(); return dg(r); }
    else { R r = f(); return dg(r); }
}
uint64_t res_of_hash(int msg, uint64_t h, int acc) {
    switch (res_kind[msg]) {
    case 1: return 0;
    case 2: return uint64_t(acc);
    }
    if (msg == 2 || msg == 5) return h * 11 + 5;
    if (msg == 3) return uint64_t(int(h & 0x7fffffff)) * 13 + 6;
    return uint64_t(int(h & 0x7fffffff));
}

const int* acc_of() { return nullptr; }
template <typename... R> const int* acc_of(int& a, R&&...) { return &a; }

uint64_t call_other(const dm::object* o);

// mutation of the object by the implementation which runs last (by an external mixin which stays: not necessarily as the last
// thing it does) or by a default implementation
const dm::type* mutate_to_type = nullptr;
int mutate_by = -1; // -1: default implementation
bool mutate_early = false;
void mutate_self() {
    auto t = mutate_to_type;
    mutate_to_type = nullptr;
    const_cast<dm::object*>(cur_obj)->reset_type(*t);
}

// the body of all implementations
template <typename Msg, typename Mixin, typename... A>
typename dm::msg_traits<Msg>::ret_t body(Mixin* self, A&&... args) {
    using ret = typename dm::msg_traits<Msg>::ret_t;
    using bare = std::remove_const_t<Mixin>;
    constexpr int I = bare::index;
    constexpr int M = msg_index<Msg>;
    VP_CHECK("msg-this", self->magic == bare::magic_value, "implementation of %s was called with a wrong object", msg_names[M]);
    VP_CHECK("msg-this", dm::object_of(self) == cur_obj, "object of the mixin is not the one which was called");
    VP_CHECK("msg-this", cur_obj->get(*cur_infos[I]) == self, "implementation was called on another mixin");
    static_assert(std::is_const_v<Mixin> || !dm::msg_traits<Msg>::is_const || true);
    uint64_t d = hash_args(5, args...);
    trace.push_back(entry(I, M, d));
    (touch(std::forward<A>(args), I), ...);
    if (mutate_to_type && mutate_by == I && mutate_early) {
        mutate_self();
        VP_CHECK("msg-mutate", self->magic == bare::magic_value && dm::object_of(self) == cur_obj && cur_obj->get(*cur_infos[I]) == self, "an external mixin which mutates its object is not the same any more");
    }
    uint64_t nested = 0;
    auto act = script.act[I][M];
    if (++depth > 200) act = a_return;
    struct leave { ~leave() { --depth; } } leave_;
    constexpr bool mo = M == 3;
    switch (act) {
    case a_next:
        if (dm::has_next_impl_msg<Msg>(self)) nested = 1 + res_of([&]() -> ret { return dm::call_next_impl_msg<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
        else trace.push_back("no next");
        break;
    case a_set: case a_top:
        if (dm::has_next_bidder_set<Msg>(self)) {
            if (act == a_top || mo) nested = 2 + res_of([&]() -> ret { return dm::call_next_bidder_top<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
            else if constexpr (!mo) nested = 3 + res_of([&]() -> ret { return dm::call_next_bidder_set<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
        }
        else trace.push_back("no bidders");
        break;
    case a_throw: throw payload_error{I, M};
    case a_next_any: case a_set_any: case a_top_any: {
        // the error of a nested one is also a feature_error: only this one's is caught
        auto ts = trace.size();
        try {
            if (act == a_next_any) nested = 4 + res_of([&]() -> ret { return dm::call_next_impl_msg<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
            else if (act == a_top_any || mo) nested = 5 + res_of([&]() -> ret { return dm::call_next_bidder_top<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
            else if constexpr (!mo) nested = 6 + res_of([&]() -> ret { return dm::call_next_bidder_set<Msg>(self, std::forward<A>(args)...); }, acc_of(args...));
        }
        catch (dm::feature_error&) {
            if (trace.size() != ts) throw;
            trace.push_back("nothing further");
        }
        break;
    }
    case a_other:
        nested = 7 + call_other(cur_obj);
        break;
    default: break;
    }
    auto h = h3(uint64_t(I), uint64_t(M), nested) ^ d;
    if constexpr (!mo) (sink(std::forward<A>(args)), ...);
    if (mutate_to_type && mutate_by == I) mutate_self();
    return make_res<ret>(h, args...);
}

// ------------------------------------------------------------------------------------------------
// mixins

template <int I> struct mx;
#define VP_DECL(i) const dm::mixin_info& _dynamix_get_mixin_info(const mx<i>*) { return *cur_infos[i]; }
VP_DECL(0) VP_DECL(1) VP_DECL(2) VP_DECL(3) VP_DECL(4) VP_DECL(5) VP_DECL(6) VP_DECL(7) VP_DECL(8) VP_DECL(9)

DYNAMIX_MAKE_FUNC_TRAITS(f_void);
DYNAMIX_MAKE_FUNC_TRAITS(f_val);
DYNAMIX_MAKE_FUNC_TRAITS(f_ovl);
DYNAMIX_MAKE_FUNC_TRAITS(f_ref);
DYNAMIX_MAKE_FUNC_TRAITS(f_none);

int64_t live_mixins = 0;
template <int I> struct alignas(I % 4 == 3 ? 64 : I % 4 == 2 ? 16 : 8) mx_data {
    static constexpr int index = I;
    static constexpr uint64_t magic_value = 0x1234500 + I;
    uint64_t magic = magic_value;
    char pad[I * 5 + 1] = {};
    mx_data() { ++live_mixins; }
    mx_data(const mx_data&) { ++live_mixins; }
    mx_data(mx_data&&) noexcept(I % 3 != 1) { ++live_mixins; }
    ~mx_data() { magic = 0; --live_mixins; }
};
// member functions in a base: implements<> has to find them in it
template <int I> struct mx_base : mx_data<I> {
    mx<I>* self() { return static_cast<mx<I>*>(this); }
    const mx<I>* self() const { return static_cast<const mx<I>*>(this); }
    int f_none() const { return body<f_none_msg>(self()); }
    val f_val(int& acc, val v, const val& w) const { return body<f_val_msg>(self(), acc, std::move(v), w); }
};
template <int I> struct mx : mx_base<I> {
    void f_void(int& acc) { body<f_void_msg>(this, acc); }
    int f_ovl(int& acc, val v) { return body<f_ovl1_msg>(this, acc, std::move(v)); }
    int f_ovl(int& acc, const std::string& s) const { return body<f_ovl2_msg>(this, acc, s); }
    int& f_ref(int& acc, int a, const char* s, double d, short x) { return body<f_ref_msg>(this, acc, std::move(a), s, d, x); }
};

DYNAMIX_DEFINE_SIMPLE_MSG(s_uni, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(s_multi, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(s_cmulti, multicast, true, nullptr);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(s_mo, unicast, false, nullptr);
DYNAMIX_DEFINE_MSG(f_void_msg, multicast, f_void, void, (dm::object&, int&));
DYNAMIX_DEFINE_MSG(f_val_msg, unicast, f_val, val, (const dm::object&, int&, val, const val&));
DYNAMIX_DEFINE_MSG_EX(f_ovl1_msg, multicast, true, nullptr, f_ovl, int, (tobj&, int&, val));
DYNAMIX_DEFINE_MSG_EX(f_ovl2_msg, multicast, false, nullptr, f_ovl, int, (const tobj&, int&, const std::string&));
DYNAMIX_DEFINE_MSG(f_ref_msg, unicast, f_ref, int&, (tobj&, int&, int, const char*, double, short));
int f_none_default(const tobj& o) {
    VP_CHECK("msg-this", &o == cur_obj, "default implementation was called with another object");
    trace.push_back("default f_none_msg");
    if (mutate_to_type && mutate_by == -1) mutate_self();
    return 77;
}
DYNAMIX_DEFINE_MSG_EX(f_none_msg, multicast, false, f_none_default, f_none, int, (const tobj&));

// default implementations
template <typename Msg, typename O, typename... A>
typename dm::msg_traits<Msg>::ret_t def_body(O& o, A&&... args) {
    VP_CHECK("msg-this", &o == cur_obj, "default implementation was called with another object");
    trace.push_back("default " + entry(99, msg_index<Msg>, hash_args(5, args...)));
    if (mutate_to_type && mutate_by == -1) mutate_self();
    (touch(std::forward<A>(args), 99), ...);
    using ret = typename dm::msg_traits<Msg>::ret_t;
    auto h = h3(99, uint64_t(msg_index<Msg>), 0) ^ 0x55;
    (sink(std::forward<A>(args)), ...);
    return make_res<ret>(h, args...);
}
int d_uni(tobj& o) { return def_body<s_uni>(o); }
int d_multi(tobj& o, int& a, val v) { return def_body<s_multi>(o, a, std::move(v)); }
val d_cmulti(const tobj& o, int& a, const val& v) { return def_body<s_cmulti>(o, a, v); }
std::unique_ptr<int> d_mo(tobj& o, int& a, std::unique_ptr<int> p, val&& v) { return def_body<s_mo>(o, a, std::move(p), std::move(v)); }
void d_void(dm::object& o, int& a) { def_body<f_void_msg>(o, a); }
val d_val(const dm::object& o, int& a, val v, const val& w) { return def_body<f_val_msg>(o, a, std::move(v), w); }
int d_ovl1(tobj& o, int& a, val v) { return def_body<f_ovl1_msg>(o, a, std::move(v)); }
int d_ovl2(const tobj& o, int& a, const std::string& s) { return def_body<f_ovl2_msg>(o, a, s); }
int& d_ref(tobj& o, int& a, int b, const char* s, double d, short x) { return def_body<f_ref_msg>(o, a, std::move(b), s, d, x); }
int d_none(const tobj& o) { return def_body<f_none_msg>(o); }

dm::common_feature_info& feat(int m) {
    switch (m) {
#define VP_F(i, msg) case i: return const_cast<dm::common_feature_info&>(msg::get_info_safe());
    VP_F(0, s_uni) VP_F(1, s_multi) VP_F(2, s_cmulti) VP_F(3, s_mo) VP_F(4, f_void_msg) VP_F(5, f_val_msg) VP_F(6, f_ovl1_msg) VP_F(7, f_ovl2_msg) VP_F(8, f_ref_msg)
    default: return const_cast<dm::common_feature_info&>(f_none_msg::get_info_safe());
    }
}
void* default_of(int m) {
    switch (m) {
    case 0: return (void*)&d_uni;
    case 1: return (void*)&d_multi;
    case 2: return (void*)&d_cmulti;
    case 3: return (void*)&d_mo;
    case 4: return (void*)&d_void;
    case 5: return (void*)&d_val;
    case 6: return (void*)&d_ovl1;
    case 7: return (void*)&d_ovl2;
    case 8: return (void*)&d_ref;
    default: return (void*)&d_none;
    }
}
// not constant: linkers may resolve static infos of messages
struct static_settings { bool clash; void* def; };
std::vector<static_settings> statics;

// payloads from functions
template <int I> struct plain {
    static int uni(mx<I>* m) { return body<s_uni>(m); }
    static int& ref(mx<I>* m, int& acc, int a, const char* s, double d, short x) { return body<f_ref_msg>(m, acc, std::move(a), s, d, x); }
    static val cmulti(const mx<I>* m, int& a, const val& v) { return body<s_cmulti>(m, a, v); }
};

using perks = dm::util::builder_perks;
perks mk_bid(int b, rng& r) {
    using namespace dm::util::builder_literals;
    if (b < 0) return r.chance(50) ? -feature_bid(-b) : feature_bid(b);
    switch (b) {
    case 1: return 1_bid;
    case 2: return 2_bid;
    }
    return feature_bid(b);
}
perks mk_prio(int p, rng& r) {
    using namespace dm::util::builder_literals;
    if (p == 1 && r.chance(50)) return 1_prio;
    if (p < 0) return r.chance(50) ? -order_priority(-p) : order_priority(p);
    return order_priority(p);
}

template <int I>
void add_payload(dm::util::mixin_info_data_builder<mx<I>>& b, int msg, int bid, int prio, rng& r) {
    using M = mx<I>;
    perks pa, pb;
    using namespace dm::util::builder_literals;
    switch (r.below(4)) {
    case 0: pa = feature_bid_priority(bid, prio); break;
    case 1: pa = mk_bid(bid, r); pb = mk_prio(prio, r); break;
    case 2: pa = mk_prio(prio, r); pb = mk_bid(bid, r); break;
    default:
        if (bid) pa = mk_bid(bid, r);
        if (prio) pb = mk_prio(prio, r);
    }
    bool fn = r.chance(50);
    switch (msg) {
    case 0: if (fn) b.template implements_by<s_uni>([](M* m) { return body<s_uni>(m); }, pa, pb);
        else b.template implements_by<s_uni>(&plain<I>::uni, pa, pb);
        break;
    case 1: if (fn) b.template implements_by<s_multi>([](M* m, int& a, val v) { return body<s_multi>(m, a, std::move(v)); }, pa, pb);
        else { auto f = [](auto* m, int& a, val v) -> int { return body<s_multi>(m, a, std::move(v)); }; b.template implements_by<s_multi>(f, pa, pb); }
        break;
    case 2: if (fn) b.template implements_by<s_cmulti>([](const M* m, int& a, const val& v) { return body<s_cmulti>(m, a, v); }, pa, pb);
        else b.implements_with_payload(s_cmulti::info, dm::fwd_any(reinterpret_cast<dm::feature_payload>(&plain<I>::cmulti)), pa, pb);
        break;
    case 3: b.template implements_by<s_mo>([](M* m, int& a, std::unique_ptr<int> p, val&& v) { return body<s_mo>(m, a, std::move(p), std::move(v)); }, pa, pb); break;
    case 4: if (fn) b.template implements<f_void_msg>(pa, pb);
        else b.template implements_by<f_void_msg>([](M* m, int& a) { m->f_void(a); }, pa, pb);
        break;
    case 5: if (fn) b.template implements<f_val_msg>(pa, pb);
        else b.template implements_by<f_val_msg>([](const M* m, int& a, val v, const val& w) { return body<f_val_msg>(m, a, std::move(v), w); }, pa, pb);
        break;
    case 6: b.template implements<f_ovl1_msg>(pa, pb); break;
    case 7: b.template implements<f_ovl2_msg>(pa, pb); break;
    case 8: if (fn) b.template implements<f_ref_msg>(pa, pb);
        else b.template implements_by<f_ref_msg>(&plain<I>::ref, pa, pb);
        break;
    case 9: b.template implements<f_none_msg>(pa, pb); break;
    }
}

struct pinfo { int bid, prio; };
struct minfo {
    std::unique_ptr<dm::util::mixin_info_data> data;
    std::map<int, pinfo> impl; // by message
    std::string name;
};

template <int I>
void make_mixin(minfo& m, rng& r, const std::vector<int>& msgs, int bid_range) {
    m.data = std::make_unique<dm::util::mixin_info_data>();
    m.name = "mx" + std::to_string(I);
    dm::util::mixin_info_data_builder<mx<I>> b(*m.data, std::string_view("temp"));
    b.store_name(m.name);
    for (auto msg : msgs) {
        int bid = r.chance(40) ? 0 : r.range(-bid_range, bid_range);
        int prio = r.chance(40) ? 0 : r.range(-bid_range, bid_range);
        m.impl[msg] = {bid, prio};
        add_payload<I>(b, msg, bid, prio, r);
    }
    cur_infos[I] = &m.data->info;
}

// ------------------------------------------------------------------------------------------------
// model

struct ment { int mixin, bid, prio, pos; };
struct model {
    std::vector<int> list; // mixins of the object
    const std::vector<minfo>* mixins;
    bool def[num_msgs];
    std::vector<std::string> tr;
    int depth = 0;
    int deepest = 0;

    std::vector<ment> table(int msg) const {
        std::vector<ment> t;
        for (size_t i = 0; i < list.size(); ++i) {
            auto& im = (*mixins)[size_t(list[i])].impl;
            auto f = im.find(msg);
            if (f != im.end()) t.push_back({list[i], f->second.bid, f->second.prio, int(i)});
        }
        std::sort(t.begin(), t.end(), [](auto& a, auto& b) {
            if (a.bid != b.bid) return a.bid > b.bid;
            if (a.prio != b.prio) return a.prio < b.prio;
            return a.pos > b.pos;
        });
        return t;
    }
    static size_t set_end(const std::vector<ment>& t, size_t b) {
        size_t e = b;
        while (e < t.size() && t[e].bid == t[b].bid) ++e;
        return e;
    }
    struct err { int kind; int mixin, msg; }; // 0 payload, 1 feature error
    struct args { bool acc; int* a; std::vector<uint64_t> rest; };
    uint64_t digest(const args& x) const {
        uint64_t h = 5;
        if (x.acc) h = hash_mix(h, dg(*x.a));
        for (auto r : x.rest) h = hash_mix(h, r);
        return h;
    }
    uint64_t call_set(int msg, const std::vector<ment>& t, size_t b, const args& x) {
        auto e = set_end(t, b);
        for (size_t i = e - 1; i > b; --i) call(msg, t, i, x);
        return call(msg, t, b, x);
    }
    uint64_t call(int msg, const std::vector<ment>& t, size_t i, const args& x) {
        int I = t[i].mixin;
        auto d = digest(x);
        tr.push_back(entry(I, msg, d));
        if (x.acc) *x.a = next_acc(*x.a, I);
        uint64_t nested = 0;
        auto act = script.act[I][msg];
        if (++depth > 200) act = a_return;
        deepest = std::max(deepest, depth);
        struct leave { int& d; ~leave() { --d; } } leave_{depth};
        bool mo = move_only[msg];
        auto nset = set_end(t, i);
        auto cur = t[i].bid;
        (void)cur;
        switch (act) {
        case a_next: if (i + 1 < t.size()) nested = 1 + call(msg, t, i + 1, x); else tr.push_back("no next"); break;
        case a_set: case a_top:
            if (nset < t.size()) nested = act == a_top || mo ? 2 + call(msg, t, nset, x) : 3 + call_set(msg, t, nset, x);
            else tr.push_back("no bidders");
            break;
        case a_throw: throw err{0, I, msg};
        case a_next_any: if (i + 1 < t.size()) nested = 4 + call(msg, t, i + 1, x); else tr.push_back("nothing further"); break;
        case a_set_any: case a_top_any:
            if (nset < t.size()) nested = act == a_top_any || mo ? 5 + call(msg, t, nset, x) : 6 + call_set(msg, t, nset, x);
            else tr.push_back("nothing further");
            break;
        case a_other: nested = 7 + other(); break;
        default: break;
        }
        auto h = h3(uint64_t(I), uint64_t(msg), nested) ^ d;
        return res_of_hash(msg, h, x.acc ? *x.a : 0);
    }
    uint64_t other() {
        try { return top(0, {false, nullptr, {}}); }
        catch (err& e) { tr.push_back(e.kind ? "other: feature_error" : "other: payload_error"); return 1000; }
    }
    uint64_t top(int msg, const args& x) {
        auto t = table(msg);
        if (t.empty()) {
            if (!def[msg]) throw err{1, 0, msg};
            tr.push_back("default " + entry(99, msg, digest(x)));
            if (x.acc) *x.a = next_acc(*x.a, 99);
            return res_of_hash(msg, h3(99, uint64_t(msg), 0) ^ 0x55, x.acc ? *x.a : 0);
        }
        return is_multi[msg] ? call_set(msg, t, 0, x) : call(msg, t, 0, x);
    }
};

uint64_t call_other(const dm::object* o) {
    auto obj = static_cast<tobj*>(const_cast<dm::object*>(o));
    try { return uint64_t(s_uni::call(*obj)); }
    catch (payload_error&) { trace.push_back("other: payload_error"); }
    catch (dm::feature_error&) { trace.push_back("other: feature_error"); }
    return 1000;
}

// ------------------------------------------------------------------------------------------------

struct combinator {
    size_t num = 0;
    size_t stop;
    std::vector<uint64_t> got;
    void set_num_results(size_t n) { VP_CHECK("msg-combinator", num == 0 && got.empty(), "set_num_results twice or too late"); num = n; }
    bool add_result(int r) {
        VP_CHECK("msg-combinator", num != 0, "a result before the number of results");
        got.push_back(uint64_t(r));
        return got.size() < stop;
    }
    bool add_result(const val& r) { VP_CHECK("msg-combinator", num != 0, "a result before the number of results"); got.push_back(dg(r)); return got.size() < stop; }
};

void run(rng& r) {
    if (statics.empty()) for (int m = 0; m < num_msgs; ++m) {
        statics.push_back({feat(m).allow_clashes, feat(m).default_payload});
        VP_CHECK("msg-info", feat(m).name.to_std() == msg_names[m], "message %s is named %s", msg_names[m], std::string(feat(m).name.to_std()).c_str());
        // declared above: s_mo, f_ovl2 and f_none do not allow clashes
        VP_CHECK("msg-info", feat(m).allow_clashes == (m != 3 && m != 7 && m != 9), "clash setting of %s is %d", msg_names[m], feat(m).allow_clashes);
        VP_CHECK("msg-info", feat(m).default_payload == (m == 9 ? (void*)&f_none_default : nullptr), "default of %s", msg_names[m]);
    }
    auto live_vals0 = live_vals;
    live_mixins = 0;
    dm::domain_settings ds = {};
    ds.canonicalize_types = r.chance(20);
    dm::domain dom("msg", ds);
    // settings of messages
    bool clash[num_msgs], def[num_msgs];
    for (int m = 0; m < num_msgs; ++m) {
        auto& f = feat(m);
        clash[m] = r.chance(70);
        def[m] = r.chance(50);
        f.allow_clashes = clash[m];
        f.default_payload = def[m] ? default_of(m) : nullptr;
    }
    // shift ids
    dm::common_feature_info filler[3];
    const char* fn[] = {"fa", "fb", "fc"};
    int nf = r.range(0, 3);
    for (int i = 0; i < nf; ++i) { filler[i].name = dnmx_sv::from_std(std::string_view(fn[i])); dom.register_feature(filler[i]); }
    for (int m = 0; m < num_msgs; ++m) if (r.chance(30)) dom.register_feature(feat(m));
    std::vector<minfo> mixins(num_mixins);
    int bid_range = r.range(1, 3);
    int density = r.range(20, 95);
    bool focus = r.chance(40);
    int focus_msg = r.range(0, num_msgs - 1);
    for (int i = 0; i < num_mixins; ++i) {
        std::vector<int> ms;
        for (int m = 0; m < num_msgs; ++m) if (r.chance(density) && (!focus || m == focus_msg || r.chance(20))) ms.push_back(m);
        for (size_t k = ms.size(); k > 1; --k) std::swap(ms[k - 1], ms[r.below(uint32_t(k))]);
        switch (i) {
#define VP_M(i) case i: make_mixin<i>(mixins[i], r, ms, bid_range); break;
        VP_M(0) VP_M(1) VP_M(2) VP_M(3) VP_M(4) VP_M(5) VP_M(6) VP_M(7) VP_M(8) VP_M(9)
        }
    }
    std::vector<int> order;
    for (int i = 0; i < num_mixins; ++i) order.push_back(i);
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(uint32_t(k))]);
    for (auto i : order) mixins[size_t(i)].data->register_in(dom);
    for (int m = 0; m < num_msgs; ++m) if (!feat(m).id.i || feat(m).id == dm::invalid_feature_id) if (feat(m).id == dm::invalid_feature_id) dom.register_feature(feat(m));
    for (int i = 0; i < num_mixins; ++i) for (auto& im : mixins[size_t(i)].impl) {
        log("mixin %d implements %s bid %d prio %d", i, msg_names[im.first], im.second.bid, im.second.prio);
        // the builder has stored what it was told
        bool found = false;
        for (auto& f : mixins[size_t(i)].data->info.features_span()) if (f.info == &feat(im.first)) {
            found = true;
            VP_CHECK("msg-builder", f.bid == im.second.bid && f.priority == im.second.prio, "mixin %d, %s: bid %d priority %d and not %d %d", i, msg_names[im.first], f.bid, f.priority, im.second.bid, im.second.prio);
            VP_CHECK("msg-builder", f.payload, "no payload");
        }
        VP_CHECK("msg-builder", found, "mixin %d does not implement %s", i, msg_names[im.first]);
    }
    {
        tobj obj(dom);
        std::optional<tobj> moved;
        tobj* o = &obj;
        int rounds = r.range(2, 6);
        for (int round = 0; round < rounds; ++round) {
            // a new composition
            std::vector<int> l;
            int n = r.range(0, 7);
            if (!round && r.chance(20)) n = 0;
            for (int i = 0; i < n; ++i) {
                int x = r.range(0, num_mixins - 1);
                if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x);
            }
            std::vector<const dm::mixin_info*> infos;
            for (auto x : l) infos.push_back(cur_infos[x]);
            if (ds.canonicalize_types) std::sort(l.begin(), l.end(), [](int a, int b) { return dnmx_mixin_canonical_order(cur_infos[a], cur_infos[b]); });
            model mod;
            mod.list = l;
            mod.mixins = &mixins;
            std::copy(def, def + num_msgs, mod.def);
            bool clashes = false;
            for (int m = 0; m < num_msgs; ++m) {
                auto t = mod.table(m);
                for (size_t i = 0; !clash[m] && i + 1 < t.size(); ++i) clashes |= t[i].bid == t[i + 1].bid && t[i].prio == t[i + 1].prio;
            }
            const dm::type* type = nullptr;
            try { type = &dom.get_type(infos); }
            catch (dm::type_error&) {}
            std::string ls;
            for (auto x : l) ls += std::to_string(x) + " ";
            log("object %s%s", ls.c_str(), clashes ? "(clash)" : "");
            VP_CHECK("msg-clash", !!type == !clashes, "clash of %s: expected %d, reported %d", ls.c_str(), clashes, !type);
            if (!type) { count("clashes"); continue; }
            if (r.chance(15) && !moved) {
                // messages find the object after it was moved
                moved.emplace(std::move(*o));
                o = &*moved;
                count("calls of a moved object");
            }
            o->reset_type(*type);
            cur_obj = o;
            for (int m = 0; m < num_msgs; ++m) {
                auto t = mod.table(m);
                VP_CHECK("msg-implements", type->implements_strong(feat(m)) == !t.empty(), "implements_strong %s", msg_names[m]);
                VP_CHECK("msg-implements", type->implements(feat(m)) == (!t.empty() || def[m]), "implements %s", msg_names[m]);
            }
            int calls = r.range(3, 24);
            for (int c = 0; c < calls; ++c) {
                for (auto& a : script.act) for (auto& b : a) {
                    auto k = r.below(20);
                    b = k < 8 ? a_return : k == 8 ? (r.chance(50) ? a_throw : a_return) : action(r.below(a_count));
                    if (b == a_throw && r.chance(60)) b = a_next;
                }
                // s_uni must not call itself
                for (auto& a : script.act) if (a[0] == a_other) a[0] = a_next;
                int msg = focus && r.chance(60) ? focus_msg : r.range(0, num_msgs - 1);
                int how = int(r.below(4)); // 0 call of the message, 1 function, 2 caller, 3 v1 combinator
                bool sealed = r.chance(10);
                if (sealed) o->seal();
                int acc = int(r.below(1000)), macc = acc;
                uint64_t v1 = r.below(100000), v2 = r.below(100000);
                int x1 = int(r.below(1000)) - 500;
                double x2 = r.below(1000) / 16.0;
                short x3 = short(r.below(1000));
                std::string str = r.chance(50) ? "short" : "a string which does not fit into the small buffer " + std::to_string(v1);
                model::args ma{has_acc[msg], &macc, {}};
                switch (msg) {
                case 1: case 6: ma.rest = {v1 * 11 + 5}; break;
                case 2: ma.rest = {v1 * 11 + 5}; break;
                case 3: ma.rest = {uint64_t(int(v1)) * 13 + 6, v2 * 11 + 5}; break;
                case 5: ma.rest = {v1 * 11 + 5, v2 * 11 + 5}; break;
                case 7: ma.rest = {dg(str)}; break;
                case 8: ma.rest = {dg(x1), dg(str.c_str()), dg(x2), dg(x3)}; break;
                }
                trace.clear();
                mod.tr.clear();
                mod.depth = 0;
                depth = 0;
                const bool mutating = !sealed && r.chance(10);
                if (mutating) for (auto& a : script.act) for (auto& b : a) b = a_return;
                bool comb = !mutating && how == 3 && (msg == 1 || msg == 2 || msg == 6 || msg == 7 || msg == 9 || msg == 0);
                combinator cb;
                cb.stop = r.chance(50) ? 1000 : size_t(r.range(1, 4));
                const dm::type* target = nullptr;
                if (mutating) {
                    std::vector<const dm::mixin_info*> ti;
                    bool has[num_mixins] = {};
                    int tn = r.range(0, 6);
                    for (int i = 0; i < tn; ++i) {
                        int x = r.chance(50) && !l.empty() ? l[r.below(uint32_t(l.size()))] : r.range(0, num_mixins - 1);
                        if (!has[x]) ti.push_back(cur_infos[x]);
                        has[x] = true;
                    }
                    try { target = &dom.get_type(ti); }
                    catch (dm::type_error&) {}
                    auto t = mod.table(msg);
                    mutate_to_type = target;
                    mutate_by = t.empty() ? -1 : t[0].mixin;
                    mutate_early = !t.empty() && cur_infos[mutate_by]->external() && target && target->has(*cur_infos[mutate_by]) && r.chance(70);
                }
                // model
                std::string mout;
                uint64_t mres = 0;
                std::vector<uint64_t> mcomb;
                size_t mnum = 0;
                try {
                    if (comb) {
                        auto t = mod.table(msg);
                        if (t.empty()) {
                            mnum = 1;
                            mcomb.push_back(mod.top(msg, ma));
                        }
                        else {
                            mnum = model::set_end(t, 0);
                            for (size_t i = mnum; i-- > 0;) {
                                mcomb.push_back(mod.call(msg, t, i, ma));
                                if (mcomb.size() >= cb.stop) break;
                            }
                        }
                    }
                    else mres = mod.top(msg, ma);
                    mout = "ok";
                }
                catch (model::err& e) { mout = e.kind ? "feature_error" : "payload_error " + std::to_string(e.mixin) + " " + std::to_string(e.msg); }
                // real
                std::string out;
                uint64_t res = 0;
                const dm::object* keep_obj = cur_obj;
                log("call %s how %d", msg_names[msg], how);
                {
                    val a1(v1), a2(v2);
                    const tobj& co = *o;
                    try {
                        if (comb) {
                            switch (msg) {
                            case 0: s_uni::traits::caller::call_with_v1_combinator(s_uni::info, cb, *o); break;
                            case 1: s_multi::traits::caller::call_with_v1_combinator(s_multi::info, cb, *o, acc, std::move(a1)); break;
                            case 2: s_cmulti::traits::caller::call_with_v1_combinator(s_cmulti::info, cb, co, acc, a1); break;
                            case 6: f_ovl1_msg::traits::caller::call_with_v1_combinator(f_ovl1_msg::info, cb, *o, acc, std::move(a1)); break;
                            case 7: f_ovl2_msg::traits::caller::call_with_v1_combinator(f_ovl2_msg::info, cb, co, acc, str); break;
                            case 9: f_none_msg::traits::caller::call_with_v1_combinator(f_none_msg::info, cb, co); break;
                            }
                            count("calls with combinators");
                        }
                        else switch (msg) {
                        case 0: res = res_of([&] { return s_uni::call(*o); }, nullptr); break;
                        case 1: // lvalue arguments stay intact
                            if (how & 1) { res = res_of([&] { return s_multi::call(*o, acc, a1); }, &acc); VP_CHECK("msg-arg", dg(a1) == v1 * 11 + 5, "argument of the caller changed"); }
                            else res = res_of([&] { return s_multi::call(*o, acc, std::move(a1)); }, &acc);
                            break;
                        case 2: res = res_of([&] { return s_cmulti::call(co, acc, a1); }, &acc); break;
                        case 3: res = res_of([&] { return s_mo::call(*o, acc, std::make_unique<int>(int(v1)), std::move(a2)); }, &acc); break;
                        case 4: res = res_of([&] { if (how & 1) f_void(*o, acc); else f_void_msg::call(*o, acc); }, &acc); break;
                        case 5: res = res_of([&] { return how & 1 ? f_val(co, acc, std::move(a1), a2) : f_val_msg::call(*o, acc, val(v1), a2); }, &acc); break;
                        case 6: res = res_of([&] { return how & 1 ? f_ovl(*o, acc, std::move(a1)) : f_ovl1_msg::call(*o, acc, std::move(a1)); }, &acc); break;
                        case 7: res = res_of([&] { return how & 1 ? f_ovl(co, acc, str) : f_ovl2_msg::call(co, acc, str); }, &acc); break;
                        case 8: res = res_of([&]() -> int& { return how & 1 ? f_ref(*o, acc, x1, str.c_str(), x2, x3) : f_ref_msg::call(*o, acc, x1, str.c_str(), x2, x3); }, &acc); break;
                        case 9: res = res_of([&] { return how & 1 ? f_none(co) : f_none_msg::call(*o); }, nullptr); break;
                        }
                        out = "ok";
                    }
                    catch (payload_error& e) { out = "payload_error " + std::to_string(e.mixin) + " " + std::to_string(e.msg); }
                    catch (dm::feature_error&) { out = "feature_error"; }
                }
                VP_CHECK("msg-this", keep_obj == cur_obj, "broken harness");
                if (target) {
                    // (nothing can run otherwise)
                    const bool ran = !mutate_to_type;
                    mutate_to_type = nullptr;
                    VP_CHECK("msg-mutate", ran == (mout == "ok"), "call of %s: object was%s mutated by the implementation", msg_names[msg], ran ? "" : " not");
                    VP_CHECK("msg-mutate", &o->get_type() == (ran ? target : type), "call of %s: wrong type after mutation by the implementation", msg_names[msg]);
                    if (ran) count(mutate_by < 0 ? "mutations by default implementations" : mutate_early ? "mutations by external mixins" : "mutations by last implementations");
                }
                VP_CHECK("msg-arg", live_vals == live_vals0, "%lld arguments leaked", (long long)(live_vals - live_vals0));
                if (sealed) {
                    // there is no unseal
                    tobj fresh(*type);
                    moved.reset();
                    moved.emplace(std::move(fresh));
                    o = &*moved;
                    cur_obj = o;
                }
                auto dump = [&] {
                    log("expected %s", mout.c_str());
                    for (auto& t : mod.tr) log("   %s", t.c_str());
                    log("got %s", out.c_str());
                    for (auto& t : trace) log("   %s", t.c_str());
                };
                if (trace != mod.tr) {
                    dump();
                    fail("msg-order", "call of %s: other implementations ran, or in another order or with other arguments", msg_names[msg]);
                }
                if (out != mout) { dump(); fail("msg-outcome", "call of %s: %s and not %s", msg_names[msg], out.c_str(), mout.c_str()); }
                if (comb && out == "ok") {
                    VP_CHECK("msg-combinator", cb.num == mnum && cb.got == mcomb, "combinator got %zu of %zu results and not %zu of %zu", cb.got.size(), cb.num, mcomb.size(), mnum);
                }
                else if (out == "ok" && res != mres) { dump(); fail("msg-result", "call of %s: result %llx and not %llx", msg_names[msg], (unsigned long long)res, (unsigned long long)mres); }
                if (has_acc[msg]) VP_CHECK("msg-arg", acc == macc, "argument by reference is %d and not %d", acc, macc);
                count("calls");
                count(("outcome " + out.substr(0, 13)).c_str());
                count("implementations run", trace.size());
                if (mod.deepest > 2) count("calls with deep chains");
                sig(uint64_t(msg) * 16 + uint64_t(how));
                for (auto& t : trace) sig(t.substr(0, t.find('(')));
                if (trace.size() > 1) nontrivial();
                if (target) {
                    for (uint32_t i = 0; i < o->num_mixins(); ++i) {
                        auto info = o->get_type().mixins[i];
                        VP_CHECK("msg-mutate", dm::object_of(o->get_at(i)) == o && o->get(*info) == o->get_at(i), "object is broken after a mutation by an implementation");
                    }
                    o->reset_type(*type);
                }
            }
        }
    }
    cur_obj = nullptr;
    VP_CHECK("msg-mixins", live_mixins == 0, "%lld mixins leaked", (long long)live_mixins);
    for (auto i : order) mixins[size_t(i)].data->unregister_from(dom);
    for (int m = 0; m < num_msgs; ++m) {
        if (feat(m).id != dm::invalid_feature_id) dom.unregister_feature(feat(m));
        feat(m).allow_clashes = statics[size_t(m)].clash;
        feat(m).default_payload = statics[size_t(m)].def;
    }
    for (int i = 0; i < nf; ++i) dom.unregister_feature(filler[i]);
    for (auto& c : cur_infos) c = nullptr;
}

int main(int argc, char** argv) { return run_main(argc, argv, run); }
