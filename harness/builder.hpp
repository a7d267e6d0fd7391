// Declarative definitions: what classes and builders of generated programs have to give
#pragma once
#include "track.hpp"
#include <cstring>
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <memory>
#include <type_traits>

namespace builder {
using namespace vp;
namespace dm = dynamix;

struct tag {};
struct boom {};
inline std::string notes; // of operations of classes
inline int throw_in = 0;
inline void note(const char* s) { notes += s; notes += ';'; }
inline void may_throw() { if (throw_in && --throw_in == 0) throw boom{}; }

struct class_test {
    const char* name;
    void (*f)(rng&, const char* name);
};

// what can be seen of a value
template <typename T> std::string look(const T& t, bool all = true) {
    std::string s;
    if (!all) {}
    else if constexpr (requires { t.v; }) s += std::to_string(t.v);
    else if constexpr (std::is_arithmetic_v<T>) s += std::to_string(t);
    else if constexpr (requires { t.load(); }) s += std::to_string(t.load());
    else if constexpr (requires { t.c_str(); }) s += t;
    else if constexpr (requires { *t; t.get(); }) s += t ? std::to_string(*t) : "null";
    if constexpr (requires { t.pad; }) if (all) for (auto c : t.pad) s += "." + std::to_string(int(c));
    if constexpr (requires { t.s; }) s += "/" + t.s;
    if constexpr (requires { t.u; }) s += "/" + (t.u ? std::to_string(*t.u) : std::string("null"));
    return s;
}
template <typename T> void make(void* p, int x) {
    if constexpr (std::is_constructible_v<T, tag, int>) ::new (p) T(tag{}, x);
    else if constexpr (std::is_constructible_v<T, int>) ::new (p) T(x);
    else if constexpr (requires { T("a"); }) ::new (p) T(("a string which needs memory " + std::to_string(x)).c_str());
    else if constexpr (requires (T t) { t.get(); }) ::new (p) T(new int(x));
    else ::new (p) T;
}

// memory of exactly the needed size
struct buf {
    void* p;
    size_t n, a;
    buf(size_t n, size_t a, int fill) : n(n), a(a < 8 ? 8 : a) {
        p = nullptr;
        if (posix_memalign(&p, this->a, n)) abort();
        memset(p, fill, n);
    }
    ~buf() { free(p); }
    buf(const buf&) = delete;
    template <typename T> T& as() { return *std::launder(static_cast<T*>(p)); }
};

// the function of the info against the type's own operation
template <typename T> void test_class(rng& r, const char* name) {
    dm::mixin_info info = dnmx_make_mixin_info();
    bool by_builder = r.chance(50);
    dm::util::mixin_info_data data;
    dm::mixin_info* ip = &info;
    if (by_builder) {
        dm::util::mixin_info_data_builder<T> b(data, std::string_view("xyz"));
        ip = &data.info;
    }
    else dm::util::common_init_mixin_info<T>(info);
    auto& i = *ip;
    VP_CHECK("class-size", i.size == sizeof(T) && i.alignment == alignof(T), "%s: size %u alignment %u", name, unsigned(i.size), unsigned(i.alignment));
    size_t off = alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T);
    VP_CHECK("class-size", i.obj_buf_alignment_and_mixin_offset == off && i.obj_buf_size == off + sizeof(T), "%s: offset %u buffer %u", name, unsigned(i.obj_buf_alignment_and_mixin_offset), unsigned(i.obj_buf_size));
#define VP_HAS(func, cond) VP_CHECK("class-functions", (i.func != nullptr) == (cond), "%s: " #func " is %s", name, i.func ? "present" : "absent")
    VP_HAS(init, std::is_default_constructible_v<T>);
    VP_HAS(copy_init, std::is_copy_constructible_v<T>);
    VP_HAS(move_init, std::is_nothrow_move_constructible_v<T>);
    VP_HAS(copy_asgn, std::is_copy_assignable_v<T>);
    VP_HAS(move_asgn, std::is_nothrow_move_assignable_v<T>);
    VP_HAS(destroy, !std::is_trivially_destructible_v<T>);
    VP_HAS(equals, false);
    VP_HAS(compare, false);
    VP_CHECK("class-functions", !i.allocator && !i.features && !i.num_features && !i.dependency && !i.force_external && !i.order_priority && !i.user_data && !i.dom && !i.registered(), "%s: fields which the class does not state are set", name);
    count("classes");

    auto destroy = [&](buf& b, bool native) {
        if (native) b.as<T>().~T();
        else if (i.destroy) i.destroy(&i, b.p);
    };
    int fill = r.range(1, 255);
    throw_in = 0;
    // both ways, the same outcome
    auto both = [&](const char* what, auto prepare, auto native, auto by_info, auto seen, bool may_fail) {
        std::string text[2], out[2];
        int t = may_fail && r.chance(30) ? 1 : 0;
        for (int w = 0; w < 2; ++w) {
            buf a(sizeof(T), alignof(T), fill), b(sizeof(T), alignof(T), fill);
            prepare(a, b);
            notes.clear();
            throw_in = t;
            bool ok = true;
            try {
                if (w) {
                    dm::error_return_t e = dm::result_success;
                    e = by_info(a, b);
                    VP_CHECK("class-behaviour", e == dm::result_success, "%s: %s returned an error", name, what);
                }
                else native(a, b);
            }
            catch (boom&) { ok = false; }
            throw_in = 0;
            out[w] = notes + (ok ? "ok" : "thrown");
            text[w] = seen(a, b, ok, w == 0);
        }
        if (out[0] != out[1]) { log("own: %s\ninfo: %s", out[0].c_str(), out[1].c_str()); fail("class-behaviour", "%s: %s does other operations than the class", name, what); }
        if (text[0] != text[1]) { log("own: %s\ninfo: %s", text[0].c_str(), text[1].c_str()); fail("class-behaviour", "%s: %s does not have the effect of the operation of the class", name, what); }
        count("class functions compared");
        sig(out[0].size());
    };
    int x = r.range(1, 1000), y = r.range(1, 1000);
    auto none = [](buf&, buf&) {};
    auto two = [&](buf& a, buf& b) { make<T>(a.p, x); make<T>(b.p, y); };
    auto second = [&](buf&, buf& b) { make<T>(b.p, y); };
    if constexpr (std::is_default_constructible_v<T>) {
        // what is left indeterminate by the class is zero if the class has nothing to construct
        both("init", none, [&](buf& a, buf&) {
            if constexpr (std::is_trivially_default_constructible_v<T>) memset(a.p, 0, sizeof(T));
            ::new (a.p) T; // indeterminate in the language, kept in practice where trivial
            if constexpr (std::is_trivially_default_constructible_v<T>) memset(a.p, 0, sizeof(T));
        }, [&](buf& a, buf&) { return i.init(&i, a.p); }, [&](buf& a, buf&, bool ok, bool native) {
            std::string s;
            bool all = std::is_trivially_default_constructible_v<T>;
            if constexpr (requires { T::inits; }) all |= T::inits;
            else all = true;
            if (ok) { s = look(a.as<T>(), all); destroy(a, native); }
            return s;
        }, true);
    }
    if constexpr (std::is_copy_constructible_v<T>) {
        both("copy_init", second, [&](buf& a, buf& b) { ::new (a.p) T(std::as_const(b.as<T>())); }, [&](buf& a, buf& b) { return i.copy_init(&i, a.p, b.p); },
        [&](buf& a, buf& b, bool ok, bool native) {
            std::string s = look(b.as<T>());
            if (ok) { s += " " + look(a.as<T>()); destroy(a, native); }
            destroy(b, native);
            return s;
        }, true);
    }
    if constexpr (std::is_copy_assignable_v<T>) {
        both("copy_asgn", two, [&](buf& a, buf& b) { a.as<T>() = std::as_const(b.as<T>()); }, [&](buf& a, buf& b) { return i.copy_asgn(&i, a.p, b.p); },
        [&](buf& a, buf& b, bool, bool native) {
            std::string s = look(b.as<T>()) + " " + look(a.as<T>());
            destroy(a, native);
            destroy(b, native);
            return s;
        }, true);
    }
    if constexpr (std::is_nothrow_move_constructible_v<T>) {
        both("move_init", second, [&](buf& a, buf& b) { ::new (a.p) T(std::move(b.as<T>())); }, [&](buf& a, buf& b) { i.move_init(&i, a.p, b.p); return dm::result_success; },
        [&](buf& a, buf& b, bool, bool native) {
            std::string s = look(a.as<T>());
            if (!std::is_trivially_move_constructible_v<T>) s += " " + look(b.as<T>());
            destroy(a, native);
            destroy(b, native);
            return s;
        }, false);
    }
    if constexpr (std::is_nothrow_move_assignable_v<T>) {
        both("move_asgn", two, [&](buf& a, buf& b) { a.as<T>() = std::move(b.as<T>()); }, [&](buf& a, buf& b) { i.move_asgn(&i, a.p, b.p); return dm::result_success; },
        [&](buf& a, buf& b, bool, bool native) {
            std::string s = look(a.as<T>());
            if (!std::is_trivially_move_assignable_v<T>) s += " " + look(b.as<T>());
            destroy(a, native);
            destroy(b, native);
            return s;
        }, false);
    }
    both("destroy", second, [&](buf&, buf& b) { b.as<T>().~T(); }, [&](buf&, buf& b) { if (i.destroy) i.destroy(&i, b.p); return dm::result_success; },
        [&](buf&, buf&, bool, bool) { return std::string(); }, false);
}

// defined in another translation unit with the macros
DYNAMIX_DECLARE_DOMAIN(static_domain);
DYNAMIX_DECLARE_DOMAIN(other_domain);
struct sm_a { int x = 5; };
struct sm_b { std::string s = "sb"; bool operator==(const sm_b& o) const noexcept { return s == o.s; } };
struct sm_c { };
class sm_d;
DYNAMIX_DECLARE_MIXIN(sm_a);
DYNAMIX_DECLARE_MIXIN(sm_b);
DYNAMIX_DECLARE_MIXIN(sm_c);
DYNAMIX_DECLARE_MIXIN(sm_d);
DYNAMIX_DECLARE_TYPE_CLASS(tc_has_b);
DYNAMIX_DECLARE_TYPE_CLASS(tc_small);
DYNAMIX_DECLARE_SIMPLE_MSG(uni_msg, int(dm::object&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(const_msg, std::string(const dm::object&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_msg, void(dm::object&, std::string&));
extern dm::mutation_rule_info static_rule;
void check_static();
extern int static_user_data;
extern int payload;
dm::feature_info* the_feature();
}
