// C25: the small building blocks; C16 (profile "c"): what a C user has of the headers
#include "bits_api.h"
#include "track.hpp"
#include <dynamix/alloc_util.hpp>
#include <dynamix/any.hpp>
#include <dynamix/bits/make_from_tuple.hpp>
#include <dynamix/bits/make_nullptr.hpp>
#include <dynamix/bits/q_const.hpp>
#include <dynamix/bits/type_name_from_typeid.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/compat/pmr/deque.hpp>
#include <dynamix/compat/pmr/map.hpp>
#include <dynamix/compat/pmr/set.hpp>
#include <dynamix/compat/pmr/string.hpp>
#include <dynamix/compat/pmr/vector.hpp>
#include <dynamix/dm_this.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/error_return.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/feature_id.hpp>
#include <dynamix/mixin_id.hpp>
#include <dynamix/mixin_index.hpp>
#include <dynamix/mixin_info_data_literals.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_mixin_data.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/size.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <array>
#include <list>
#include <memory>

using namespace vp;
namespace dm = dynamix;

extern "C" const bits_api bits_cpp = {
    [] { return dnmx_make_mixin_info(); }, dnmx_make_feature_info, dnmx_set_mixin_info_size_and_alignment, dnmx_mixin_canonical_order, dnmx_get_domain_name,
    dnmx_get_domain_settings, dnmx_get_domain_user_data, dnmx_get_domain_context, dnmx_object_unchecked_get_mut_at, dnmx_object_unchecked_get_at, dnmx_ftable_at,
    dnmx_type_is_copyable, dnmx_mixin_common_move_func_copy, dnmx_mixin_noop_init_func, dnmx_mixin_noop_copy_func, dnmx_mixin_noop_move_func,
    dnmx_mixin_noop_cmp_func,
};
static const abi_entry abi_cpp[] = {ABI_LIST ABI_CONST};

static const block* find_block(const void* p) { return mon().find_block(uintptr_t(p)); }
static int sign(int x) { return (x > 0) - (x < 0); }

// ---------------------------------------------------------------------------------------------------
// ids and constants

static_assert(dm::invalid_mixin_id.i == 0xffffffffu && dm::invalid_feature_id.i == 0xffffffffu && dm::invalid_mixin_index == 0xffffffffu);
static_assert(dm::mixin_id{3} == dm::mixin_id{3} && dm::mixin_id{3} != dm::mixin_id{4} && !(dm::mixin_id{3} != dm::mixin_id{3}) && !(dm::mixin_id{3} == dm::mixin_id{4}));
static_assert(dm::feature_id{3} == dm::feature_id{3} && dm::feature_id{3} != dm::feature_id{4} && !(dm::feature_id{3} != dm::feature_id{3}) && !(dm::feature_id{3} == dm::feature_id{4}));
static_assert(dm::result_success == 0 && dm::sizeof_ptr == sizeof(void*));
static_assert(std::is_same_v<dm::q_const<true, int>, const int> && std::is_same_v<dm::q_const<false, int>, int> && std::is_same_v<dm::q_const<true, void>, const void> &&
              std::is_same_v<dm::q_const<false, void>, void> && std::is_same_v<dm::q_const<false, const int>, const int> && std::is_same_v<dm::q_const<true, int*>, int* const>);
static_assert(std::is_same_v<decltype(dm::impl::make_nullptr<int>()), int*> && std::is_same_v<decltype(dm::impl::make_nullptr<const long>()), const long*>);
static_assert(dm::util::next_multiple(0, 8) == 0 && dm::util::next_multiple(1, 8) == 8 && dm::util::next_multiple(8, 8) == 8 && dm::util::next_multiple(9, 8) == 16);
static_assert(std::is_base_of_v<std::runtime_error, dm::exception> && std::is_base_of_v<dm::exception, dm::domain_error> && std::is_base_of_v<dm::exception, dm::type_error> &&
              std::is_base_of_v<dm::exception, dm::object_error> && std::is_base_of_v<dm::exception, dm::feature_error>);
static_assert(!std::is_base_of_v<dm::domain_error, dm::type_error> && !std::is_base_of_v<dm::type_error, dm::object_error> && !std::is_base_of_v<dm::object_error, dm::feature_error> &&
              !std::is_base_of_v<dm::feature_error, dm::domain_error>);
static_assert(!std::is_copy_constructible_v<dm::common_mixin_info> && !std::is_copy_assignable_v<dm::common_mixin_info> && !std::is_copy_constructible_v<dm::common_feature_info> &&
              !std::is_copy_assignable_v<dm::common_feature_info>);

static uint32_t num(rng& r) {
    switch (r.below(5)) {
    case 0: return r.below(4);
    case 1: return ~r.below(4);
    case 2: return 0x80000000u + r.below(3) - 1;
    case 3: return 1u << r.below(32);
    default: return uint32_t(r.next());
    }
}

static void ids(rng& r) {
    uint32_t a = num(r), b = r.chance(30) ? a : num(r);
    dm::mixin_id ma{a}, mb{b};
    dm::feature_id fa{a}, fb{b};
    VP_CHECK("bits-id", (ma == mb) == (a == b) && (ma != mb) == (a != b), "mixin ids %u and %u", a, b);
    VP_CHECK("bits-id", (fa == fb) == (a == b) && (fa != fb) == (a != b), "feature ids %u and %u", a, b);
    dm::mixin_info mi = dnmx_make_mixin_info();
    VP_CHECK("bits-id", mi.iid() == dnmx_invalid_id && !mi.registered() && mi.id == dm::invalid_mixin_id && !mi.dom, "a new mixin info has an id");
    mi.id = ma;
    VP_CHECK("bits-id", mi.iid() == a && mi.registered() == (a != 0xffffffffu), "id %u of a mixin info", a);
    dm::feature_info fi = dnmx_make_feature_info();
    VP_CHECK("bits-id", fi.iid() == dnmx_invalid_id && fi.id == dm::invalid_feature_id, "a new feature info has an id");
    fi.id = fa;
    VP_CHECK("bits-id", fi.iid() == a, "id %u of a feature info", a);
    sig(a), sig(b);
    count("ids");
}

static void multiples(rng& r) {
    for (int i = 0; i < 8; ++i) {
        uint32_t s = num(r), n = r.chance(50) ? 1u << r.below(31) : std::max(1u, num(r));
        if (uint64_t(s) + n - 1 > 0xffffffffu) continue;
        auto x = dm::util::next_multiple(s, n);
        VP_CHECK("bits-multiple", x % n == 0 && x >= s && x - s < n, "next multiple of %u for %u is %u", n, s, x);
        sig(s), sig(n);
        count("multiples");
    }
}

// ---------------------------------------------------------------------------------------------------
// shared holders

namespace {
struct payload {
    static inline std::set<const payload*> live;
    static inline int copies, moves, defaults;
    int64_t v;
    std::unique_ptr<int> guard{new int(1)};
    payload() : v(-1) { add(); ++defaults; }
    explicit payload(int64_t v) : v(v) { add(); }
    payload(const payload& o) : v(o.v) { VP_CHECK("bits-any", live.count(&o), "copy of a dead value"); if (fault::hit(fault::copy)) throw fault::injected(); add(); ++copies; }
    payload(payload&& o) : v(o.v) { VP_CHECK("bits-any", live.count(&o), "move of a dead value"); o.v = -2; add(); ++moves; }
    ~payload() { VP_CHECK("bits-any", live.erase(this), "value is destroyed twice"); }
    void add() { VP_CHECK("bits-any", live.insert(this).second, "value constructed over a live one"); }
};
struct alignas(64) wide_payload : payload { using payload::payload; char more[100]; };
}

template <typename P>
static void holders(rng& r) {
    mon().reset();
    auto live_before = payload::live.size();
    {
        resource res0{own_obj0}, res1{own_obj1};
        resource* res[] = {&res0, &res1};
        struct held { bool owned; P* ptr; int res; int holders; int64_t v; };
        std::list<held> values;
        struct holder { dm::any a; dm::t_any<P> t; held* h = nullptr; };
        std::vector<holder> hs(6);
        P outside[2]{P(100), P(200)};
        auto drop = [&](holder& h) {
            if (!h.h) return;
            if (!--h.h->holders && h.h->owned) h.h->v = -3; // dead now
            h.h = nullptr;
        };
        auto check = [&] {
            size_t owned = 0;
            for (auto& v : values) {
                if (v.owned) VP_CHECK("bits-any", payload::live.count(v.ptr) == size_t(v.holders > 0), "value with %d holders is %s", v.holders, v.holders ? "dead" : "alive");
                if (v.owned && v.holders) {
                    ++owned;
                    auto b = find_block(v.ptr);
                    VP_CHECK("bits-any", b && b->owner == (v.res ? own_obj1 : own_obj0), "value is in memory of another allocator");
                }
            }
            VP_CHECK("bits-any", payload::live.size() == live_before + 2 + owned, "%zu values are alive and not %zu", payload::live.size(), live_before + 2 + owned);
            for (auto& h : hs) {
                bool has = h.a || h.t;
                VP_CHECK("bits-any", has == !!h.h, "holder has a value %d and not %d", has, !!h.h);
                if (!has) continue;
                P* p = h.a ? static_cast<P*>(h.a.get()) : h.t.get();
                VP_CHECK("bits-any", p == h.h->ptr, "holder shows another value");
                VP_CHECK("bits-any", p->v == h.h->v, "value is %lld and not %lld", (long long)p->v, (long long)h.h->v);
            }
            for (auto& o : outside) VP_CHECK("bits-any", payload::live.count(&o), "outside value destroyed");
            for (auto it = values.begin(); it != values.end();) it = it->holders ? std::next(it) : values.erase(it);
        };
        int n = r.range(4, 30);
        for (int i = 0; i < n; ++i) {
            auto& h = r.pick(hs);
            int op = r.range(0, 9), al = r.range(0, 1);
            bool erased = r.chance(50), shoot = r.chance(15);
            sig(uint64_t(op * 100 + al * 10 + erased * 2 + shoot));
            log("holder %d: op %d allocator %d erased %d fault %d", int(&h - hs.data()), op, al, erased, shoot);
            dm::allocator alloc(res[al]);
            int c = payload::copies, m = payload::moves, d = payload::defaults;
            auto set = [&](dm::t_any<P> t, bool owned, int64_t v) {
                P* p = t.get();
                drop(h);
                h.a.reset(), h.t.reset();
                held* x = nullptr;
                for (auto& y : values) if (y.ptr == p && y.holders) x = &y;
                if (!x) { values.push_back({owned, p, al, 0, v}); x = &values.back(); }
                ++x->holders;
                h.h = x;
                if (erased) h.a = std::move(t);
                else h.t = std::move(t);
            };
            if (shoot) fault::arm(1, fault::alloc | fault::copy);
            size_t blocks = mon().blocks.size(), alive = payload::live.size();
            try {
                switch (op) {
                case 0: {
                    auto t = dm::make_any<P>(alloc);
                    VP_CHECK("bits-any", payload::defaults == d + 1 && payload::copies == c && payload::moves == m && t->v == -1, "default value is not constructed");
                    set(std::move(t), true, -1);
                    break;
                }
                case 1: {
                    P x{int64_t(i)};
                    --alive; // made and gone
                    alive += 1;
                    auto t = dm::make_any(alloc, x);
                    static_assert(std::is_same_v<decltype(t), dm::t_any<P>>);
                    VP_CHECK("bits-any", payload::copies == c + 1 && payload::moves == m && x.v == i, "value is not constructed by one copy");
                    set(std::move(t), true, i);
                    break;
                }
                case 2: {
                    P x{int64_t(i)};
                    auto t = dm::make_any(alloc, std::move(x));
                    static_assert(std::is_same_v<decltype(t), dm::t_any<P>>);
                    VP_CHECK("bits-any", payload::copies == c && payload::moves == m + 1 && x.v == -2, "value is not constructed by one move");
                    set(std::move(t), true, i);
                    break;
                }
                case 3: case 4: {
                    auto& o = outside[al];
                    auto t = op == 3 ? dm::fwd_any(o) : dm::fwd_any(&o);
                    VP_CHECK("bits-any", payload::copies == c && payload::moves == m && payload::defaults == d && t.get() == &o && !t.use_count(), "forwarding copies or owns");
                    set(std::move(t), false, o.v);
                    break;
                }
                case 5: { // copy
                    auto& o = r.pick(hs);
                    if (&o == &h || !o.h) break;
                    drop(h);
                    h.h = o.h, ++o.h->holders;
                    h.a = o.a, h.t = o.t;
                    break;
                }
                case 6: { // move
                    auto& o = r.pick(hs);
                    if (&o == &h || !o.h) break;
                    drop(h);
                    h.h = o.h, o.h = nullptr;
                    h.a = std::move(o.a), h.t = std::move(o.t);
                    break;
                }
                case 7: drop(h); h.a.reset(), h.t.reset(); break;
                case 8: // to an erased holder and back
                    if (h.t) { h.a = h.t; h.t.reset(); }
                    else if (h.a) { h.t = std::static_pointer_cast<P>(h.a); h.a.reset(); }
                    break;
                case 9:
                    if (h.h) { // change through one holder is seen through all
                        h.h->ptr->v = h.h->v = 1000 + i;
                        for (auto& v : values) if (v.ptr == h.h->ptr) v.v = h.h->v;
                    }
                    break;
                }
                if (fault::ctl().fired) VP_CHECK("bits-any", false, "a failure is not reported");
            }
            catch (std::bad_alloc&) {
                VP_CHECK("bits-any", fault::ctl().fired, "bad_alloc with memory");
                VP_CHECK("bits-any", mon().blocks.size() == blocks && payload::live.size() == alive, "a failed construction leaves something");
                count("failed holders");
            }
            catch (fault::injected&) {
                VP_CHECK("bits-any", mon().blocks.size() == blocks && payload::live.size() == alive, "a failed construction leaves something");
                count("failed holders");
            }
            fault::disarm();
            fault::ctl().fired = false;
            check();
            count("holder operations");
        }
        for (auto& h : hs) drop(h);
        hs.clear();
        check();
    }
    VP_CHECK("bits-any", payload::live.size() == live_before && mon().blocks.empty(), "%zu values and %zu blocks are left", payload::live.size() - live_before, mon().blocks.size());
    nontrivial();
}

// ---------------------------------------------------------------------------------------------------
// from tuple

namespace {
std::vector<std::pair<std::string, const void*>> g_args;
struct arg { // copies and moves are seen
    int v;
    explicit arg(int v = 0) : v(v) {}
    arg(const arg& o) : v(o.v) { ++copies; }
    arg(arg&& o) noexcept : v(o.v) { o.v = -1; ++moves; }
    arg& operator=(const arg&) = default;
    void operator&() const = delete;
    static inline int copies, moves;
};
struct move_only {
    std::unique_ptr<int> p;
    explicit move_only(int v = 0) : p(new int(v)) {}
};
struct probe { // tells what it gets; neither copied nor moved
    template <typename... A>
    explicit probe(A&&... a) { (add<A>(a), ...); }
    probe(const probe&) = delete;
    probe& operator=(const probe&) = delete;
    template <typename A>
    static void add(A& a) {
        std::string s = typeid(std::remove_cv_t<std::remove_reference_t<A>>).name();
        if (std::is_const_v<std::remove_reference_t<A>>) s += " const";
        if (std::is_volatile_v<std::remove_reference_t<A>>) s += " volatile";
        s += std::is_lvalue_reference_v<A> ? "&" : "&&";
        g_args.push_back({s, (const void*)std::addressof(a)});
    }
    int field = 5;
};
struct own_new { // constructed where it is told to be, and not by its own operator
    int a, b;
    own_new(int a, int b) : a(a), b(b) {}
    static void* operator new(size_t, void*) { fail("bits-tuple", "an operator new of the class is used"); }
    static void* operator new(size_t) { fail("bits-tuple", "an operator new of the class is used"); }
    static void operator delete(void*) {}
    own_new* operator&() = delete;
};
struct values { // takes values
    arg x;
    arg y;
    std::unique_ptr<int> p;
    int z;
    values(arg x, arg&& y, std::unique_ptr<int> p, const int& z) : x(std::move(x)), y(std::move(y)), p(std::move(p)), z(z) {}
};
struct agg_like { int a; double b; char c[5]; };
struct throwing {
    throwing(int, arg) { throw fault::injected(); }
    ~throwing() { fail("bits-tuple", "an object which was not constructed is destroyed"); }
};
struct listy { // no initialiser lists
    int by = 0;
    listy(int, int) : by(1) {}
    listy(std::initializer_list<int>) : by(2) {}
};
struct narrow { short s; narrow(short s) : s(s) {} };
}

template <typename Tuple>
static void tuple_as(Tuple&& t, const char* what) {
    alignas(probe) unsigned char mem[sizeof(probe) + 16];
    memset(mem, 0xcd, sizeof(mem));
    g_args.clear();
    {
        auto p = std::make_from_tuple<probe>(std::forward<Tuple>(t));
        (void)p;
    }
    auto want = std::move(g_args);
    g_args.clear();
    dm::impl::make_from_tuple<probe>(mem, std::forward<Tuple>(t));
    VP_CHECK("bits-tuple", g_args.size() == want.size(), "%s: %zu arguments instead of %zu", what, g_args.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
        VP_CHECK("bits-tuple", g_args[i].first == want[i].first, "%s: argument %zu is %s and not %s", what, i, g_args[i].first.c_str(), want[i].first.c_str());
        VP_CHECK("bits-tuple", g_args[i].second == want[i].second, "%s: argument %zu is another object", what, i);
    }
    VP_CHECK("bits-tuple", reinterpret_cast<probe*>(mem)->field == 5, "%s: nothing is constructed", what);
    for (size_t i = sizeof(probe); i < sizeof(mem); ++i) VP_CHECK("bits-tuple", mem[i] == 0xcd, "%s: memory after the object is changed", what);
    reinterpret_cast<probe*>(mem)->~probe();
    count("tuples");
    count("tuple arguments", want.size());
}
template <typename Tuple>
static void tuple(Tuple t) {
    tuple_as(t, "lvalue tuple");
    tuple_as(std::as_const(t), "const tuple");
    tuple_as(std::move(t), "rvalue tuple");
    tuple_as(std::move(std::as_const(t)), "const rvalue tuple");
}
template <typename T>
struct buf {
    alignas(T) unsigned char mem[sizeof(T)];
    bool made = false;
    buf() { memset(mem, 0xcd, sizeof(mem)); }
    template <typename Tuple>
    T& from(Tuple&& t) {
        dm::impl::make_from_tuple<T>(static_cast<void*>(mem), std::forward<Tuple>(t));
        made = true;
        return *reinterpret_cast<T*>(mem);
    }
    ~buf() { if (made) reinterpret_cast<T*>(mem)->~T(); }
};

static void tuples(rng& r) {
    int v = r.range(0, 1000), w = r.range(0, 1000);
    const int cv = 7;
    arg a(v), b(w);
    const arg ca(3);
    volatile int vol = 1;
    move_only mo(v);
    tuple(std::tuple<>());
    tuple(std::tuple<int>(v));
    tuple(std::tuple<const int>(v));
    tuple(std::tuple<int&>(v));
    tuple(std::tuple<const int&>(cv));
    tuple(std::tuple<volatile int&>(vol));
    tuple(std::tuple<arg>(a));
    tuple(std::tuple<arg&, const arg&, arg>(a, ca, b));
    tuple(std::tuple<arg, arg, arg, arg, arg, arg, arg, arg, arg, arg, arg>());
    tuple(std::pair<arg, int&>(a, v));
    tuple(std::pair<const arg, double>(a, 1.5));
    tuple(std::array<arg, 3>{a, b, ca});
    tuple(std::array<int, 0>{});
    tuple(std::tuple<std::tuple<int>, std::pair<int, int>>());
    tuple(std::tuple<const char*, std::string_view, std::nullptr_t>("x", "y", nullptr));
    tuple(std::tuple<int (&)(int)>(std::abs));
    { // references to rvalues
        std::tuple<arg&&, const arg&&, arg&, arg> t(std::move(a), std::move(ca), b, b);
        tuple_as(t, "tuple of references");
        tuple_as(std::as_const(t), "const tuple of references");
        tuple_as(std::move(t), "rvalue tuple of references");
    }
    tuple_as(std::forward_as_tuple(v, cv, std::move(a), ca, move_only(1), mo), "forwarded arguments");
    tuple_as(std::tie(v, w, a), "tied arguments");
    tuple_as(std::tuple<move_only, move_only>(), "arguments which can only be moved");
    { auto t = std::tuple<move_only>(); tuple_as(t, "argument which can only be moved"); }

    // values
    {
        auto t = std::make_tuple(arg(v), arg(w), std::make_unique<int>(v), w);
        arg::copies = arg::moves = 0;
        buf<values> m;
        auto& x = m.from(std::move(t));
        VP_CHECK("bits-tuple", x.x.v == v && x.y.v == w && *x.p == v && x.z == w, "arguments are lost");
        VP_CHECK("bits-tuple", arg::copies == 0 && arg::moves == 3 && std::get<0>(t).v == -1 && std::get<1>(t).v == -1 && !std::get<2>(t), "arguments of a rvalue are not moved once");
    }
    {
        arg o(w);
        std::unique_ptr<int> p(new int(v));
        std::tuple<arg&, arg&&, std::unique_ptr<int>&&, int&> t(a, std::move(o), std::move(p), w);
        a.v = v;
        arg::copies = arg::moves = 0;
        buf<values> m;
        auto& x = m.from(std::move(t));
        VP_CHECK("bits-tuple", x.x.v == v && x.y.v == w && *x.p == v && x.z == w && a.v == v && o.v == -1 && !p, "references are not passed as they are");
        VP_CHECK("bits-tuple", arg::copies == 1 && arg::moves == 2, "%d copies and %d moves of referenced arguments", arg::copies, arg::moves);
    }
    {
        buf<own_new> m;
        auto& x = m.from(std::make_tuple(v, w));
        VP_CHECK("bits-tuple", x.a == v && x.b == w, "arguments are lost");
    }
    { // as T(): no indeterminate values
        buf<agg_like> m;
        auto& x = m.from(std::tuple<>());
        VP_CHECK("bits-tuple", x.a == 0 && x.b == 0 && !x.c[0] && !x.c[4], "no arguments do not initialise a value");
        buf<int> i;
        VP_CHECK("bits-tuple", i.from(std::tuple<>()) == 0, "no arguments do not initialise a value");
        VP_CHECK("bits-tuple", i.from(std::make_tuple(v)) == v, "value is lost");
    }
    {
        buf<std::vector<int>> m;
        auto& x = m.from(std::make_tuple(3, 7));
        VP_CHECK("bits-tuple", (x == std::vector<int>{7, 7, 7}), "arguments become a list");
        buf<listy> l;
        VP_CHECK("bits-tuple", l.from(std::make_tuple(3, 7)).by == 1, "arguments become a list");
        buf<narrow> n;
        VP_CHECK("bits-tuple", n.from(std::make_tuple(v)).s == v, "conversion of an argument");
    }
    {
        buf<throwing> m;
        bool thrown = false;
        try { m.from(std::make_tuple(1, arg(2))); }
        catch (fault::injected&) { thrown = true; }
        VP_CHECK("bits-tuple", thrown, "an exception of a constructor is lost");
    }
    sig(uint64_t(v)), sig(uint64_t(w));
}

// ---------------------------------------------------------------------------------------------------
// names of types

namespace names {
struct a {};
class b { public: struct in {}; enum e { x }; };
enum class en { y };
template <typename... T> struct tpl {};
template <int N> struct num {};
namespace { struct anon {}; }
union un { int i; };
inline namespace v1 { struct inl {}; }
struct type_class_like_struct_enum {};
}
struct class_in_global {};
static void type_names() {
#define TN(t, n) do { VP_CHECK("bits-name", dm::util::get_type_name_from_typeid<t>() == n && dm::util::get_type_name_from_typeid(typeid(t).name()) == n, "name of %s is %s", n, dm::util::get_type_name_from_typeid<t>().c_str()); count("type names"); } while (false)
    TN(int, "int");
    TN(unsigned long, "unsigned long");
    TN(char*, "char*");
    TN(const char*, "char const*");
    TN(const int, "int");
    TN(int&, "int");
    TN(void, "void");
    TN(class_in_global, "class_in_global");
    TN(names::a, "names::a");
    TN(const names::a&, "names::a");
    TN(names::b, "names::b");
    TN(names::b::in, "names::b::in");
    TN(names::b::e, "names::b::e");
    TN(names::en, "names::en");
    TN(names::un, "names::un");
    TN(names::inl, "names::v1::inl");
    TN(names::tpl<>, "names::tpl<>");
    TN(names::type_class_like_struct_enum, "names::type_class_like_struct_enum");
    using t2 = names::tpl<int, names::a>;
    TN(t2, "names::tpl<int, names::a>");
    using t3 = names::tpl<names::tpl<names::b::in>>;
    TN(t3, "names::tpl<names::tpl<names::b::in> >");
    TN(names::num<42>, "names::num<42>");
    TN(names::anon, "names::(anonymous namespace)::anon");
    TN(void (*)(int), "void (*)(int)");
    TN(int[3], "int [3]");
    TN(int (names::a::*)(names::b), "int (names::a::*)(names::b)");
#undef TN
}

// ---------------------------------------------------------------------------------------------------
// descriptions

static void descriptions(rng& r) {
    // settings
    {
        dm::domain_settings_builder b;
        dm::domain_settings want = {};
        int n = r.range(0, 6);
        for (int i = 0; i < n; ++i) {
            bool v = r.chance(50), given = v ? r.chance(50) : true;
            dm::domain_settings_builder* ret = nullptr;
            switch (r.below(3)) {
            case 0: ret = given ? &b.canonicalize_types(v) : &b.canonicalize_types(); want.canonicalize_types = v; break;
            case 1: ret = given ? &b.allow_duplicate_feature_names(v) : &b.allow_duplicate_feature_names(); want.allow_duplicate_feature_names = v; break;
            case 2: ret = given ? &b.allow_duplicate_mixin_names(v) : &b.allow_duplicate_mixin_names(); want.allow_duplicate_mixin_names = v; break;
            }
            VP_CHECK("bits-settings", ret == &b, "a call of a builder returns another one");
            dm::domain_settings s = b;
            VP_CHECK("bits-settings", s.canonicalize_types == want.canonicalize_types && s.allow_duplicate_feature_names == want.allow_duplicate_feature_names &&
                     s.allow_duplicate_mixin_names == want.allow_duplicate_mixin_names, "settings are not as they are built");
        }
        count("settings");
    }
    // infos
    std::string name(r.below(20), 'x');
    {
        auto check = [](const dm::mixin_info& i, dnmx_sv name, const char* what) {
            auto w = dnmx_make_mixin_info();
            VP_CHECK("bits-info", i.name.begin == name.begin && i.name.end == name.end, "%s: name", what);
            VP_CHECK("bits-info", i.id.i == dnmx_invalid_id && !i.dom && !i.size && !i.alignment && i.obj_buf_size == w.obj_buf_size &&
                     i.obj_buf_alignment_and_mixin_offset == w.obj_buf_alignment_and_mixin_offset && !i.init && !i.copy_init && !i.move_init && !i.copy_asgn &&
                     !i.move_asgn && !i.destroy && !i.equals && !i.compare && !i.allocator && !i.mixin_class && !i.type_info_class && !i.user_data && !i.features &&
                     !i.num_features && !i.order_priority && !i.force_external && !i.dependency, "%s: values", what);
            VP_CHECK("bits-info", i.obj_buf_size == sizeof(void*) && i.obj_buf_alignment_and_mixin_offset == sizeof(void*), "%s: buffer", what);
        };
        auto sv = dnmx_sv::from_std(name);
        // whatever was in the memory
        alignas(dm::common_mixin_info) unsigned char mem[sizeof(dm::common_mixin_info)];
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_mixin_info, {}, "common_mixin_info()");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_mixin_info(sv), sv, "common_mixin_info(sv)");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_mixin_info(std::string_view(name)), sv, "common_mixin_info(string_view)");
        // external
        dm::common_mixin_info i;
        VP_CHECK("bits-info", i.external(), "a mixin with no move is internal");
        i.move_init = &dnmx_mixin_noop_move_func;
        VP_CHECK("bits-info", !i.external(), "a mixin with a move is external");
        i.force_external = true;
        VP_CHECK("bits-info", i.external(), "a mixin which is to be external is internal");
        i.force_external = false;
        i.allocator = reinterpret_cast<dnmx_mixin_allocator_handle>(&i);
        VP_CHECK("bits-info", i.external(), "a mixin with an allocator is internal");
        // features
        dm::feature_for_mixin f[4] = {};
        uint32_t n = r.below(5);
        i.set_features(itlib::span<const dm::feature_for_mixin>(f, n));
        VP_CHECK("bits-info", i.features == f && i.num_features == n && i.features_span().data() == f && i.features_span().size() == n, "features of a mixin info");
    }
    {
        auto check = [](const dm::feature_info& i, dnmx_sv name, bool clash, void* pl, const char* what) {
            VP_CHECK("bits-info", i.name.begin == name.begin && i.name.end == name.end && i.allow_clashes == clash && i.default_payload == pl && i.id.i == dnmx_invalid_id &&
                     !i.feature_class, "%s: values", what);
        };
        auto sv = dnmx_sv::from_std(name);
        bool clash = r.chance(50);
        void* pl = r.chance(50) ? &clash : nullptr;
        alignas(dm::common_feature_info) unsigned char mem[sizeof(dm::common_feature_info)];
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_feature_info, {}, false, nullptr, "common_feature_info()");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_feature_info(sv), sv, false, nullptr, "common_feature_info(sv)");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_feature_info(sv, clash), sv, clash, nullptr, "common_feature_info(sv, clash)");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::common_feature_info(sv, clash, pl), sv, clash, pl, "common_feature_info(sv, clash, payload)");
        memset(mem, 0xab, sizeof(mem));
        check(*new (mem) dm::feature_info(dnmx_make_feature_info()), {}, false, nullptr, "dnmx_make_feature_info");
    }
    count("descriptions");
    // numbers of definitions
    {
        using namespace dm::util::builder_literals;
        int32_t x = int32_t(num(r)), y = int32_t(num(r));
        if (x == INT32_MIN) x = 0;
        if (y == INT32_MIN) y = 1;
        auto same = [](const dm::util::builder_perks& p, std::optional<int32_t> bid, std::optional<int32_t> prio) { return p.bid == bid && p.priority == prio; };
        VP_CHECK("bits-perks", same(feature_bid(x), x, {}) && same(order_priority(x), {}, x) && same(feature_bid_priority(x, y), x, y), "perks of %d and %d", x, y);
        VP_CHECK("bits-perks", same(-feature_bid(x), -x, {}) && same(-order_priority(x), {}, -x) && same(-feature_bid_priority(x, y), -x, -y), "negative perks of %d and %d", x, y);
        VP_CHECK("bits-perks", same(5_bid, 5, {}) && same(7_prio, {}, 7) && same(-5_bid, -5, {}) && same(-7_prio, {}, -7) && same(0_bid, 0, {}) && same(2147483647_prio, {}, 2147483647), "literal perks");
    }
    // errors
    {
        auto thrown = [&](auto e) {
            using E = decltype(e);
            try { throw E(name); }
            catch (dm::exception& x) { VP_CHECK("bits-error", x.what() == name && dynamic_cast<E*>(&x), "text of an error"); return; }
            fail("bits-error", "an error is not caught as one of the library");
        };
        thrown(dm::domain_error("")), thrown(dm::type_error("")), thrown(dm::object_error("")), thrown(dm::feature_error("")), thrown(dm::exception(""));
        try { throw dm::type_error("a"); }
        catch (dm::domain_error&) { fail("bits-error", "type_error is a domain_error"); }
        catch (std::runtime_error&) {}
    }
}

// object of a mixin
namespace {
struct me { char c; dm::object* get() { return dm_this; } const dm::object* get() const { return dm_this; } };
}
static void back_pointers(rng& r) {
    size_t offset = sizeof(void*) * size_t(r.range(1, 8));
    std::unique_ptr<uint8_t[]> mem(new uint8_t[offset + 1]);
    memset(mem.get(), 0xcd, offset + 1);
    dm::object_mixin_data d{mem.get(), mem.get() + offset};
    auto obj = reinterpret_cast<dm::object*>(uintptr_t(0x1000) * r.below(100000));
    d.set_object(reinterpret_cast<dnmx_basic_object*>(obj));
    for (size_t i = 0; i < offset - sizeof(void*); ++i) VP_CHECK("bits-object", mem[i] == 0xcd, "memory before the pointer is changed");
    VP_CHECK("bits-object", mem[offset] == 0xcd, "memory of the mixin is changed");
    VP_CHECK("bits-object", d.buf == mem.get() && d.mixin == mem.get() + offset, "mixin data is changed");
    VP_CHECK("bits-object", dm::object_of(static_cast<void*>(d.mixin)) == obj && dm::object_of(static_cast<const void*>(d.mixin)) == obj, "object of a mixin");
    auto m = reinterpret_cast<me*>(d.mixin);
    VP_CHECK("bits-object", m->get() == obj && std::as_const(*m).get() == obj, "object of a mixin");
    static_assert(std::is_same_v<decltype(dm::object_of(static_cast<const me*>(nullptr))), const dm::object*> && std::is_same_v<decltype(dm::object_of(static_cast<me*>(nullptr))), dm::object*>);
    count("back pointers");
}

// ---------------------------------------------------------------------------------------------------
// common functions in memory of exactly the size

static void common_funcs(rng& r) {
    size_t n = r.chance(10) ? 0 : size_t(r.chance(20) ? r.range(100, 3000) : r.range(1, 70));
    dm::mixin_info i = dnmx_make_mixin_info();
    i.set_size_alignment(uint32_t(n), 1);
    auto mem = [&](int kind) {
        std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
        for (size_t k = 0; k < n; ++k) p[k] = kind < 0 ? uint8_t(r.next()) : uint8_t(kind);
        return p;
    };
    auto is = [&](uint8_t* p, int v) { return std::all_of(p, p + n, [&](uint8_t c) { return c == v; }); };
    auto a = mem(-1), b = mem(-1), keep = mem(0);
    VP_CHECK("bits-funcs", dnmx_mixin_common_init_func(&i, a.get()) == 0 && is(a.get(), 0), "common init of %zu bytes", n);
    memcpy(keep.get(), b.get(), n);
    VP_CHECK("bits-funcs", dnmx_mixin_common_copy_func(&i, a.get(), b.get()) == 0 && !memcmp(a.get(), keep.get(), n) && !memcmp(b.get(), keep.get(), n), "common copy of %zu bytes", n);
    // compare: sign and equality as the bytes
    VP_CHECK("bits-funcs", dnmx_mixin_common_cmp_func(&i, a.get(), b.get()) == 0 && dnmx_mixin_common_eq_func(&i, a.get(), b.get()), "comparison of %zu equal bytes", n);
    if (n) {
        size_t at = r.chance(40) ? n - 1 : r.chance(40) ? 0 : r.below(uint32_t(n));
        a[at] = uint8_t(a[at] + uint8_t(r.range(1, 255)));
        int want = a[at] < b[at] ? -1 : 1;
        VP_CHECK("bits-funcs", sign(dnmx_mixin_common_cmp_func(&i, a.get(), b.get())) == want && sign(dnmx_mixin_common_cmp_func(&i, b.get(), a.get())) == -want &&
                 !dnmx_mixin_common_eq_func(&i, a.get(), b.get()), "comparison of %zu bytes which differ at %zu", n, at);
    }
    for (auto f : {bits_c.move_copy, bits_cpp.move_copy}) {
        a = mem(-1);
        f(&i, a.get(), b.get());
        VP_CHECK("bits-funcs", !memcmp(a.get(), keep.get(), n) && !memcmp(b.get(), keep.get(), n), "move by copy of %zu bytes", n);
    }
    a = mem(-1);
    dnmx_mixin_common_move_func(&i, a.get(), b.get());
    VP_CHECK("bits-funcs", !memcmp(a.get(), keep.get(), n) && is(b.get(), 0), "common move of %zu bytes", n);
    for (auto f : {&bits_c, &bits_cpp}) {
        b = mem(17);
        memcpy(keep.get(), a.get(), n);
        VP_CHECK("bits-funcs", f->noop_init(&i, a.get()) == 0 && f->noop_copy(&i, a.get(), b.get()) == 0 && f->noop_cmp(&i, a.get(), b.get()) == 0, "results of functions which do nothing");
        f->noop_move(&i, a.get(), b.get());
        VP_CHECK("bits-funcs", is(b.get(), 17) && !memcmp(a.get(), keep.get(), n), "functions which do nothing change something");
    }
    dnmx_mixin_common_destroy_func(&i, a.get());
    VP_CHECK("bits-funcs", is(a.get(), 0xfe), "common destroy of %zu bytes", n);
    sig(n);
    count("common functions");
}

// sizes in C and C++
static void sizes(rng& r) {
    uint32_t s = r.chance(20) ? r.below(1u << 30) : r.below(300), a = r.chance(10) ? 0 : 1u << r.below(13);
    if (!a) s = 0;
    for (auto f : {&bits_c, &bits_cpp}) {
        auto i = f->make_mixin_info();
        f->set_size_alignment(&i, s, a);
        VP_CHECK("bits-size", i.size == s && i.alignment == a, "size and alignment");
        VP_CHECK("bits-size", i.obj_buf_alignment_and_mixin_offset == std::max(a, uint32_t(sizeof(void*))), "offset %u for alignment %u", i.obj_buf_alignment_and_mixin_offset, a);
        VP_CHECK("bits-size", i.obj_buf_size == s + i.obj_buf_alignment_and_mixin_offset, "buffer of %u for size %u, alignment %u", i.obj_buf_size, s, a);
        dm::mixin_info j = dnmx_make_mixin_info();
        j.set_size_alignment(s, a);
        VP_CHECK("bits-size", j.size == i.size && j.alignment == i.alignment && j.obj_buf_size == i.obj_buf_size && j.obj_buf_alignment_and_mixin_offset == i.obj_buf_alignment_and_mixin_offset,
                 "size of %u, alignment %u in C and C++", s, a);
    }
    sig(s), sig(a);
    count("sizes");
}

// canonical order is a total order: by priority, name, id
static void order(rng& r) {
    static const std::string_view names[] = {"", "a", "b", "ab", "a\0b", std::string_view("a\0", 2), "\x80", "z"};
    std::vector<dm::mixin_info> v;
    int n = r.range(2, 7);
    for (int i = 0; i < n; ++i) {
        dm::mixin_info m = dnmx_make_mixin_info();
        static const int32_t prios[] = {0, 0, 1, -1, INT32_MAX, INT32_MIN};
        m.order_priority = prios[r.below(6)];
        m.name = dnmx_sv::from_std(names[r.below(8)]);
        if (r.chance(10)) m.name = {};
        m.id.i = r.chance(20) ? dnmx_invalid_id : r.below(4);
        m.alignment = r.below(50); // does not matter
        v.push_back(m);
    }
    auto before = [](const dm::mixin_info& a, const dm::mixin_info& b) {
        if (a.order_priority != b.order_priority) return a.order_priority < b.order_priority;
        auto x = a.name.begin ? a.name.to_std() : "", y = b.name.begin ? b.name.to_std() : "";
        if (int c = x.compare(y)) return c < 0;
        if (a.id.i != b.id.i) return a.id.i < b.id.i;
        return &a < &b;
    };
    for (auto& a : v) for (auto& b : v) for (auto f : {&bits_c, &bits_cpp}) {
        bool w = before(a, b);
        VP_CHECK("bits-order", f->canonical_order(&a, &b) == w, "canonical order of (%d, '%s', %u) and (%d, '%s', %u)", a.order_priority, std::string(a.name.to_std()).c_str(), a.id.i,
                 b.order_priority, std::string(b.name.to_std()).c_str(), b.id.i);
        count("orders");
    }
    std::vector<const dm::mixin_info*> p, q;
    for (auto& a : v) p.push_back(&a), q.push_back(&a);
    for (int i = n; i-- > 1;) std::swap(p[size_t(i)], p[r.below(uint32_t(i + 1))]);
    std::sort(p.begin(), p.end(), dnmx_mixin_canonical_order);
    std::sort(q.begin(), q.end(), [&](auto a, auto b) { return before(*a, *b); });
    VP_CHECK("bits-order", p == q, "mixins are not sorted by the canonical order");
    for (auto a : p) sig(uint64_t(a->order_priority)), sig(a->name.to_std()), sig(a->id.i);
}

// ---------------------------------------------------------------------------------------------------
// allocators, containers, default memory

template <typename C>
static void container(rng& r, C make) {
    resource res0{own_obj0}, res1{own_obj1};
    res0.faulty = res1.faulty = false;
    dm::allocator a0(&res0), a1(&res1);
    auto x = make(a0), y = make(a1);
    using T = decltype(x);
    auto put = [&](T& c, int v) {
        if constexpr (std::is_same_v<T, dm::compat::pmr::string>) c.append(std::to_string(v) + "some more text to need memory");
        else if constexpr (std::is_same_v<T, dm::compat::pmr::map<int, int>>) c[v] = v;
        else if constexpr (std::is_same_v<T, dm::compat::pmr::set<int>>) c.insert(v);
        else c.push_back(v);
    };
    int n = r.range(1, 20), m = r.range(0, 20);
    for (int i = 0; i < n; ++i) put(x, r.range(0, 50));
    for (int i = 0; i < m; ++i) put(y, r.range(0, 50));
    auto owns = [&](const T& c, int ow) {
        if (c.empty()) return true;
        auto b = find_block(&*c.begin());
        return b && b->owner == ow;
    };
    VP_CHECK("bits-alloc", owns(x, own_obj0) && (owns(y, own_obj1)), "a container doesn't use its allocator");
    VP_CHECK("bits-alloc", dm::allocator(x.get_allocator()) == a0 && dm::allocator(y.get_allocator()) == a1 && dm::allocator(x.get_allocator()) != a1, "allocator of a container");
    T copy(x, x.get_allocator());
    VP_CHECK("bits-alloc", copy == x && owns(copy, own_obj0), "copy of a container");
    T other(x, y.get_allocator());
    VP_CHECK("bits-alloc", other == x && owns(other, own_obj1), "copy of a container for another allocator");
    y = x;
    VP_CHECK("bits-alloc", y == x && owns(y, own_obj1), "assigned container");
    other = std::move(copy);
    VP_CHECK("bits-alloc", other == x && owns(other, own_obj1), "moved container");
    T moved(std::move(x));
    VP_CHECK("bits-alloc", moved == y && owns(moved, own_obj0), "moved container");
    count("containers");
}
static void allocators(rng& r) {
    mon().reset();
    {
        resource res0{own_obj0}, res1{own_obj1}, res_def{own_default};
        res0.faulty = res1.faulty = res_def.faulty = false;
        auto old = vp::set_default_resource(&res_def);
        {
            dm::allocator d, a(&res0), b(&res1), a2(a);
            VP_CHECK("bits-alloc", d.resource() == &res_def && a.resource() == &res0 && a2.resource() == &res0, "memory of an allocator");
            VP_CHECK("bits-alloc", a == a2 && !(a != a2) && a != b && !(a == b) && d != a, "comparison of allocators");
            dm::compat::pmr::allocator<uint64_t> w(a);
            dm::compat::pmr::allocator<char> c(w), cb(b);
            VP_CHECK("bits-alloc", w.resource() == &res0 && c.resource() == &res0 && w == c && !(w != c) && w != cb && !(w == cb), "memory of an allocator for another type");
            size_t n = size_t(r.range(1, 100));
            auto p = w.allocate(n);
            auto blk = find_block(p);
            VP_CHECK("bits-alloc", blk && blk->owner == own_obj0 && blk->addr == uintptr_t(p) && blk->size == n * 8 && blk->align == 8, "memory of %zu values", n);
            memset(p, 1, n * 8);
            dm::compat::pmr::allocator<uint64_t>(a2).deallocate(p, n);
            for (size_t al : {1, 2, 4, 8, 16, 64, 256}) {
                auto q = a.allocate_bytes(n, al);
                auto blk = find_block(q);
                VP_CHECK("bits-alloc", blk && blk->owner == own_obj0 && blk->size == n && blk->align == al, "%zu bytes aligned at %zu", n, al);
                a.deallocate_bytes(q, n, al);
            }
            VP_CHECK("bits-alloc", mon().blocks.empty(), "memory is left");
            using tr = std::allocator_traits<dm::allocator>;
            VP_CHECK("bits-alloc", tr::select_on_container_copy_construction(a).resource() == &res_def, "copies of containers don't use the default memory");
        }
        using namespace dm::compat::pmr;
        switch (r.below(5)) {
        case 0: container(r, [](auto a) { return dm::compat::pmr::vector<int>(a); }); break;
        case 1: container(r, [](auto a) { return dm::compat::pmr::deque<int>(a); }); break;
        case 2: container(r, [](auto a) { return dm::compat::pmr::map<int, int>(a); }); break;
        case 3: container(r, [](auto a) { return dm::compat::pmr::set<int>(a); }); break;
        case 4: container(r, [](auto a) { return dm::compat::pmr::string(a); }); break;
        }
        {
            resource res{own_obj0};
            res.faulty = false;
            dm::compat::pmr::vector<int> v{dm::compat::pmr::allocator<int>(&res)};
            v.assign(5, 1);
            auto c = v; // default memory
            VP_CHECK("bits-alloc", find_block(c.data()) && find_block(c.data())->owner == own_default, "a copy of a container doesn't use the default memory");
        }
        vp::set_default_resource(old);
    }
    VP_CHECK("bits-alloc", mon().blocks.empty(), "memory is left");
    count("allocators");
}

// the real default memory
static void default_memory(rng& r) {
    dm::allocator a;
    auto res = a.resource();
    VP_CHECK("bits-memory", res && res == dm::allocator().resource() && res->is_equal(*res), "there are several default memories");
    resource mine{own_obj0};
    VP_CHECK("bits-memory", !res->is_equal(mine), "memories are mistaken for others");
    struct blk { unsigned char* p; size_t n, al; unsigned char fill; };
    std::vector<blk> blks;
    int n = r.range(1, 30);
    for (int i = 0; i < n; ++i) {
        if (!blks.empty() && r.chance(35)) {
            auto k = r.below(uint32_t(blks.size()));
            auto b = blks[k];
            blks.erase(blks.begin() + k);
            for (size_t j = 0; j < b.n; ++j) VP_CHECK("bits-memory", b.p[j] == b.fill, "memory is used twice");
            res->deallocate(b.p, b.n, b.al);
            continue;
        }
        size_t s = size_t(r.chance(10) ? r.range(2000, 100000) : r.range(1, 200)), al = size_t(1) << r.below(12);
        auto p = static_cast<unsigned char*>(r.chance(30) ? (al = alignof(std::max_align_t), res->allocate(s)) : res->allocate(s, al));
        VP_CHECK("bits-memory", p && uintptr_t(p) % al == 0, "%zu bytes are not aligned at %zu", s, al);
        memset(p, i, s); // ASan watches the size
        blks.push_back({p, s, al, uint8_t(i)});
        count("default memory blocks");
    }
    for (auto& b : blks) {
        for (size_t j = 0; j < b.n; ++j) VP_CHECK("bits-memory", b.p[j] == b.fill, "memory is used twice");
        res->deallocate(b.p, b.n, b.al);
    }
#if !DYNAMIX_HAS_PMR
    // more than there is
    for (size_t s : {~size_t(0), ~size_t(0) - 7, ~size_t(0) - 4095, ~size_t(0) / 2, size_t(1) << 50}) {
        bool thrown = false;
        try { (void)res->allocate(s, 8); } // not to be returned
        catch (std::bad_alloc&) { thrown = true; }
        VP_CHECK("bits-memory", thrown, "%zu bytes are given", s);
    }
#endif
}
static void large_memory() {
    // sizes of more than 32 bits
    size_t s = (size_t(1) << 32) + 64;
    auto res = dm::allocator().resource();
    auto p = static_cast<char*>(res->allocate(s, 64));
    p[s - 1] = 5; // ASan watches the size
    p[s / 2] = 6;
    VP_CHECK("bits-memory", p[s - 1] == 5 && p[s / 2] == 6, "large memory");
    res->deallocate(p, s, 64);
    count("large memory");
}

// ---------------------------------------------------------------------------------------------------
// traits of messages

namespace traits {
DYNAMIX_DECLARE_MSG(plain_msg, doit, void, (dm::object&));
DYNAMIX_DECLARE_MSG(const_msg, doit, int, (const dm::object&, int));
DYNAMIX_DECLARE_MSG(refs_msg, doit, std::string&, (dm::object&, std::string&, const double&, std::unique_ptr<int>&&));
DYNAMIX_DECLARE_MSG(vals_msg, doit, std::unique_ptr<int>, (const dm::object&, std::string, std::unique_ptr<int>, int*));

template <typename M, typename Ret, typename Obj, typename Void, int Arity, typename Func>
constexpr bool msg_is() {
    using t = dm::msg_traits<M>;
    static_assert(std::is_same_v<typename t::ret_t, Ret>);
    static_assert(std::is_same_v<typename t::obj_t, Obj>);
    static_assert(std::is_same_v<typename t::void_t, Void>);
    static_assert(t::arity == Arity && t::is_const == std::is_const_v<Obj>);
    static_assert(std::is_same_v<typename t::func_t, Func>);
    static_assert(std::is_same_v<typename t::msg_t, M>);
    return true;
}
static_assert(msg_is<plain_msg, void, dm::object, void*, 0, void (*)(void*)>());
static_assert(msg_is<const_msg, int, const dm::object, const void*, 1, int (*)(const void*, int)>());
static_assert(msg_is<refs_msg, std::string&, dm::object, void*, 3, std::string& (*)(void*, std::string&, const double&, std::unique_ptr<int>&&)>());
static_assert(msg_is<vals_msg, std::unique_ptr<int>, const dm::object, const void*, 3, std::unique_ptr<int> (*)(const void*, std::string, std::unique_ptr<int>, int*)>());
static_assert(std::is_same_v<decltype(static_cast<void (*)(dm::object&)>(&doit)), void (*)(dm::object&)> && std::is_same_v<plain_msg::signature, void (dm::object&)>);

DYNAMIX_MAKE_FUNC_TRAITS(doit);
struct mixin {
    int x = 0;
    void doit() { x = 5; }
    int doit(int i) const { return x + i; }
    int doit(int i) { return -i; }
    std::string& doit(std::string& s, const double& d, std::unique_ptr<int>&& p) { last = {&s, &d, &p}; s += "!"; return s; }
    std::unique_ptr<int> doit(std::string s, std::unique_ptr<int> p, int* q) const { *q = int(s.size()); return p; }
    std::vector<const void*> last;
};
static void run(rng& r) {
    mixin m;
    m.x = r.range(0, 100);
    int x = m.x, i = r.range(0, 100);
    dm::allocator a;
    auto pl = [](const dm::any& p) { return p.get(); };
    auto konst = dm::any(DYNAMIX_FUNC_TRAITS_NAME(doit)<const_msg>::make_payload_for(a, &m));
    VP_CHECK("bits-traits", reinterpret_cast<int (*)(const void*, int)>(pl(konst))(&m, i) == x + i, "a const message calls a function which is not const");
    auto plain = DYNAMIX_FUNC_TRAITS_NAME(doit)<plain_msg>::make_payload_for(a, &m);
    reinterpret_cast<void (*)(void*)>(pl(plain))(&m);
    VP_CHECK("bits-traits", m.x == 5, "a message doesn't call the function");
    std::string s(size_t(i), 's');
    double d = 1;
    auto p = std::make_unique<int>(i);
    auto refs = DYNAMIX_FUNC_TRAITS_NAME(doit)<refs_msg>::make_payload_for(a, &m);
    auto& ret = reinterpret_cast<std::string& (*)(void*, std::string&, const double&, std::unique_ptr<int>&&)>(pl(refs))(&m, s, d, std::move(p));
    VP_CHECK("bits-traits", &ret == &s && s.size() == size_t(i) + 1 && m.last == (std::vector<const void*>{&s, &d, &p}) && p, "references are not passed as they are");
    auto vals = DYNAMIX_FUNC_TRAITS_NAME(doit)<vals_msg>::make_payload_for(a, &m);
    auto raw = p.get();
    int q = 0;
    auto back = reinterpret_cast<std::unique_ptr<int> (*)(const void*, std::string, std::unique_ptr<int>, int*)>(pl(vals))(&m, s, std::move(p), &q);
    VP_CHECK("bits-traits", back.get() == raw && q == i + 1, "values are not passed on");
    // from functions
    auto by = dm::msg_traits<const_msg>::make_payload_by(a, &m, [](const mixin* m, int i) { return m->x * i; });
    VP_CHECK("bits-traits", reinterpret_cast<int (*)(const mixin*, int)>(pl(by))(&m, i) == 5 * i, "a function is not called");
    auto raw_by = dm::msg_traits<const_msg>::make_payload_by(a, static_cast<void*>(&m), +[](const void* m, int i) { return static_cast<const mixin*>(m)->x - i; });
    VP_CHECK("bits-traits", reinterpret_cast<int (*)(const void*, int)>(pl(raw_by))(&m, i) == 5 - i, "a function is not called");
    count("traits");
}
}

// ---------------------------------------------------------------------------------------------------
// a C user

static void compare_abi() {
    size_t n = sizeof(abi_cpp) / sizeof(abi_cpp[0]);
    VP_CHECK("c-abi", abi_c_size == n, "C has %zu entries, C++ has %zu", abi_c_size, n);
    for (size_t i = 0; i < n; ++i) {
        auto& a = abi_c[i];
        auto& b = abi_cpp[i];
        VP_CHECK("c-abi", !strcmp(a.what, b.what) && a.offset == b.offset && a.size == b.size, "%s has offset %zu, size %zu in C and offset %zu, size %zu in C++", a.what, a.offset, a.size, b.offset, b.size);
        count("C declarations compared");
    }
    VP_CHECK("c-abi", c_pp() == 577, "preprocessor utilities in C");
}

static void c_class(rng& r) {
    int i = r.range(-10, NUM_C_CLASSES - 1);
    size_t size, align;
    const char* name;
    auto mi = c_class_info(i, &size, &align, &name);
    log("C class %s", name);
    dm::mixin_info want = dnmx_make_mixin_info();
    want.set_size_alignment(uint32_t(size), uint32_t(align));
    VP_CHECK("c-class", mi.name.to_std() == name, "C class %s has name %s", name, std::string(mi.name.to_std()).c_str());
    VP_CHECK("c-class", mi.size == size && mi.alignment == align && mi.obj_buf_size == want.obj_buf_size && mi.obj_buf_alignment_and_mixin_offset == want.obj_buf_alignment_and_mixin_offset,
             "C class %s has size %u, alignment %u, buffer %u, offset %u", name, mi.size, mi.alignment, mi.obj_buf_size, mi.obj_buf_alignment_and_mixin_offset);
    VP_CHECK("c-class", mi.init && mi.copy_init && mi.copy_asgn && mi.move_init && mi.move_asgn && !mi.destroy && !mi.equals && !mi.compare == (i >= 0), "functions of C class %s", name);
    VP_CHECK("c-class", mi.id.i == dnmx_invalid_id && !mi.dom && !mi.allocator && !mi.mixin_class && !mi.type_info_class && !mi.user_data && !mi.features && !mi.num_features &&
             !mi.order_priority && !mi.force_external && !mi.dependency && !mi.external(), "values of C class %s", name);
    // two of them and more in a domain
    dnmx_domain_settings ds = {};
    ds.canonicalize_types = r.chance(50);
    ds.allow_duplicate_mixin_names = true;
    int ctx;
    uintptr_t ud = uintptr_t(r.next());
    auto dname = dnmx_make_sv_lit("C domain");
    auto hd = dnmx_create_domain(dname, ds, ud, &ctx);
    VP_CHECK("c-api", hd, "no domain");
    for (auto f : {&bits_c, &bits_cpp}) {
        auto s = f->domain_settings(hd);
        VP_CHECK("c-api", f->domain_name(hd).to_std() == "C domain" && f->domain_user_data(hd) == ud && f->domain_context(hd) == &ctx && s.canonicalize_types == ds.canonicalize_types &&
                 s.allow_duplicate_mixin_names && !s.allow_duplicate_feature_names, "values of a domain");
        dnmx_set_domain_user_data(hd, ud + 1);
        dnmx_set_domain_context(hd, &mi);
        VP_CHECK("c-api", f->domain_user_data(hd) == ud + 1 && f->domain_context(hd) == &mi, "values of a domain");
        dnmx_set_domain_user_data(hd, ud);
        dnmx_set_domain_context(hd, &ctx);
    }
    std::vector<dnmx_mixin_info> infos;
    std::vector<dnmx_feature_info> fi(size_t(r.range(0, 3)), dnmx_make_feature_info());
    static const char* const fn[] = {"f", "g", "h"};
    for (size_t k = 0; k < fi.size(); ++k) fi[k].name = dnmx_make_sv_str(fn[k]), fi[k].allow_clashes = true;
    std::vector<std::vector<dnmx_feature_for_mixin>> ffm;
    int n = r.range(1, 5);
    for (int k = 0; k < n; ++k) {
        size_t s, a;
        const char* nm;
        infos.push_back(k ? c_class_info(r.range(-10, NUM_C_CLASSES - 1), &s, &a, &nm) : mi);
        auto& m = infos.back();
        if (r.chance(15)) m.copy_asgn = nullptr;
        if (r.chance(15)) m.copy_init = nullptr;
        ffm.emplace_back();
        for (auto& f : fi) if (r.chance(50)) ffm.back().push_back({&f, &infos, r.range(-1, 1), r.range(-1, 1)});
    }
    std::vector<const dnmx_mixin_info*> ptrs;
    for (int k = 0; k < n; ++k) {
        infos[size_t(k)].features = ffm[size_t(k)].data();
        infos[size_t(k)].num_features = uint32_t(ffm[size_t(k)].size());
        VP_CHECK("c-api", dnmx_register_mixin(hd, &infos[size_t(k)]) == 0, "C class is not registered");
        ptrs.push_back(&infos[size_t(k)]);
    }
    auto ht = dnmx_get_type_from_infos(hd, ptrs.data(), uint32_t(n));
    VP_CHECK("c-api", ht, "no type of C classes");
    bool copyable = std::all_of(infos.begin(), infos.end(), [](auto& i) { return i.copy_init && i.copy_asgn; });
    auto bt = reinterpret_cast<const dnmx_basic_type*>(ht);
    auto& t = *dm::type::from_c_handle(ht);
    for (auto f : {&bits_c, &bits_cpp}) {
        VP_CHECK("c-api", f->is_copyable(ht) == copyable, "type is copyable or not");
        for (uint32_t k = 0; k < 5; ++k) {
            dnmx_feature_id id = k < fi.size() ? fi[k].id : dnmx_feature_id{k == 3 ? dnmx_invalid_id : bt->ftable_length};
            auto e = f->ftable_at(bt, id), w = t.ftable_at(id);
            VP_CHECK("c-api", e.begin == w.begin && e.end == w.end && e.top_bid_back == w.top_bid_back, "ftable entry %u", id.i);
            VP_CHECK("c-api", !!e.begin == (id.i < bt->ftable_length && bt->ftable[id.i].begin), "ftable entry %u", id.i);
        }
    }
    auto ho = dnmx_create_object_default(ht);
    VP_CHECK("c-api", ho && dnmx_object_num_mixins(ho) == uint32_t(n), "no object of C classes");
    for (uint32_t k = 0; k < uint32_t(n); ++k) {
        auto m = static_cast<unsigned char*>(dnmx_object_get_mut_at(ho, k));
        auto& info = *t.mixins[k];
        VP_CHECK("c-api", bits_c.get_at(ho, k) == m && bits_cpp.get_at(ho, k) == m && bits_c.get_mut_at(ho, k) == m && bits_cpp.get_mut_at(ho, k) == m && dnmx_object_get_at(ho, k) == m, "mixin %u of an object", k);
        VP_CHECK("c-class", !info.alignment || uintptr_t(m) % info.alignment == 0, "alignment of a mixin");
        for (uint32_t b = 0; b < info.size; ++b) VP_CHECK("c-class", m[b] == 0, "a new C mixin is not zero");
        memset(m, int(k + 1), info.size);
    }
    auto all = [&](dnmx_object_handle o, int add, const char* what) {
        auto& ty = *dm::type::from_c_handle(dnmx_object_get_type(o));
        for (uint32_t k = 0; k < ty.num_mixins(); ++k) {
            auto& info = *ty.mixins[k];
            auto m = static_cast<const unsigned char*>(bits_c.get_at(o, k));
            uint32_t in_t = 0;
            while (t.mixins[in_t] != &info) ++in_t;
            for (uint32_t b = 0; b < info.size; ++b) VP_CHECK("c-class", m[b] == in_t + 1 + uint32_t(add), "%s: data of a C mixin", what);
        }
    };
    if (auto c = dnmx_create_object_copy(ho)) {
        all(c, 0, "copy");
        for (uint32_t k = 0; k < uint32_t(n); ++k) memset(bits_c.get_mut_at(c, k), int(k + 2), t.mixins[k]->size);
        VP_CHECK("c-api", (dnmx_object_copy_from(ho, c) == 0) == std::all_of(infos.begin(), infos.end(), [](auto& i) { return i.copy_asgn; }), "assignment of a copy");
        if (copyable) {
            all(ho, 1, "assigned copy");
            dnmx_object_copy_from(c, ho);
            for (uint32_t k = 0; k < uint32_t(n); ++k) memset(bits_c.get_mut_at(ho, k), int(k + 1), t.mixins[k]->size);
        }
        else {
            for (uint32_t k = 0; k < uint32_t(n); ++k) memset(bits_c.get_mut_at(ho, k), int(k + 1), t.mixins[k]->size);
        }
        dnmx_destroy_object(c);
        count("copies of C objects");
    }
    else VP_CHECK("c-api", !std::all_of(infos.begin(), infos.end(), [](auto& i) { return i.copy_init; }), "C mixins are not copied");
    // fewer mixins
    std::vector<const dnmx_mixin_info*> sub;
    for (auto p : ptrs) if (r.chance(50)) sub.push_back(p);
    VP_CHECK("c-api", dnmx_object_reset_type(ho, dnmx_get_type_from_infos(hd, sub.data(), uint32_t(sub.size()))) == 0, "C object is not changed");
    all(ho, 0, "mutated");
    auto u = dnmx_create_object_usurp(ho);
    all(u, 0, "moved");
    dnmx_destroy_object(u);
    dnmx_destroy_object(ho);
    for (auto& m : infos) dnmx_unregister_mixin(hd, &m);
    for (auto& f : fi) if (f.id.i != dnmx_invalid_id) dnmx_unregister_feature(hd, &f);
    dnmx_destroy_domain(hd);
    sig(uint64_t(i)), sig(uint64_t(n)), sig(uint64_t(sub.size() * 2 + copyable));
    count("C classes");
    nontrivial();
}

static void run(rng& r) {
    static bool first = true;
    bool c = opt().profile == "c";
    if (first) {
        first = false;
        if (c) compare_abi();
        else {
            VP_CHECK("bits-name", !dm::impl::make_nullptr<int>() && !dm::impl::make_nullptr<const dm::object>(), "make_nullptr");
            type_names();
            if (opt().from == 0) large_memory();
        }
    }
    if (c) {
        sizes(r);
        order(r);
        c_class(r);
        return;
    }
    ids(r);
    multiples(r);
    if (r.chance(50)) holders<payload>(r);
    else holders<wide_payload>(r);
    tuples(r);
    descriptions(r);
    back_pointers(r);
    common_funcs(r);
    sizes(r);
    order(r);
    allocators(r);
    default_memory(r);
    traits::run(r);
}
int main(int argc, char** argv) { return run_main(argc, argv, run); }
