// Typed mutations: mixins, arguments and context of generated expressions
#pragma once
#include "vp.hpp"
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/globals.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <initializer_list>
#include <memory>

namespace edsl {
namespace dm = dynamix;
constexpr int num_tm = 10;

struct user_error { int n; };

// monitored argument
inline int arg_copies = 0;
struct arg {
    int v;
    explicit arg(int v) : v(v) {}
    arg(const arg& o) : v(o.v) { ++arg_copies; }
    arg(arg&& o) noexcept : v(o.v) { o.v = -1; }
    arg& operator=(const arg&) = delete;
};

struct global {
    std::vector<std::string> constructed; // "c <index> <how>"
    std::vector<std::string> destroyed; // in order, of mixins which weren't moved from
    int live = 0;
    int countdown = 0; // constructor call which has to throw
    std::vector<const int*> refs;
    std::vector<const arg*> args;
    const dm::mixin_info* infos[num_tm + 1] = {};
};
inline global g;
extern dm::mixin_info unknown_info;

inline void before_construct() {
    if (g.countdown && --g.countdown == 0) throw user_error{1};
}

struct same_t {
    same_t() = default;
    same_t(const same_t&) = delete;
};
inline same_t the_same;

template <int I> struct tm_base {
    std::string how;
    bool moved = false;
    void constructed(std::string s) {
        how = std::move(s);
        ++g.live;
        g.constructed.push_back("c " + std::to_string(I) + " " + how);
    }
};
template <int I> struct alignas(I == 5 ? 64 : 8) tmx : tm_base<I> {
    using tm_base<I>::constructed;
    static constexpr bool movable = I != 6;
    static constexpr bool def = I != 3;
    tmx() requires(def) { before_construct(); constructed("default"); }
    explicit tmx(int x) { before_construct(); constructed("int " + std::to_string(x)); }
    tmx(int& ref, std::string&& s) {
        before_construct();
        g.refs.push_back(&ref);
        constructed("ref " + std::to_string(ref) + " " + s);
        ++ref;
    }
    explicit tmx(arg&& a) { before_construct(); arg b(std::move(a)); constructed("rarg " + std::to_string(b.v)); }
    explicit tmx(const arg& a) { before_construct(); g.args.push_back(&a); constructed("carg " + std::to_string(a.v)); }
    explicit tmx(arg& a) { before_construct(); g.args.push_back(&a); constructed("carg " + std::to_string(a.v)); }
    tmx(std::unique_ptr<int> p, int&& v) { before_construct(); constructed("mo " + std::to_string(p ? *p : -1) + " " + std::to_string(v)); }
    explicit tmx(std::initializer_list<int> l) { before_construct(); constructed("list " + std::to_string(*l.begin())); }
    explicit tmx(const char* s) { before_construct(); constructed("cstr " + std::string(s)); }
    tmx(const arg& a, arg&& b, same_t& s) {
        before_construct();
        VP_CHECK("edsl-arg", &s == &the_same, "reference argument refers to another object");
        g.args.push_back(&a);
        arg c(std::move(b));
        constructed("mix " + std::to_string(a.v) + " " + std::to_string(c.v));
    }
    tmx(tmx&& o) noexcept(I != 4) requires(movable) {
        VP_CHECK("edsl-moved", !o.moved, "mixin %d moved out of twice", I);
        this->how = o.how;
        o.moved = true;
        ++g.live;
    }
    tmx(const tmx&) = delete;
    ~tmx() {
        --g.live;
        if (!this->moved) g.destroyed.push_back("d " + std::to_string(I) + " " + this->how);
    }
};
#define VP_TM(i) inline const dm::mixin_info& _dynamix_get_mixin_info(const tmx<i>*) { return *g.infos[i]; }
VP_TM(0) VP_TM(1) VP_TM(2) VP_TM(3) VP_TM(4) VP_TM(5) VP_TM(6) VP_TM(7) VP_TM(8) VP_TM(9)

struct ctx {
    dm::object& obj;
    const dm::type* target = nullptr;
    same_t& same = the_same;
    std::string names[num_tm];
    explicit ctx(dm::object& o) : obj(o) {}
    const dm::mixin_info& info(int i) const { return *g.infos[i]; }
    std::string_view name(int i) const { return names[i]; }
    // initialiser functions
    void func(dm::init_new_args a, int v);
    size_t refs_checked = 0, args_checked = 0, funcs_called = 0;
    void after_ref(const int& r, int v) {
        auto n = std::count(g.refs.begin(), g.refs.end(), &r);
        VP_CHECK("edsl-ref", r == v + n, "a variable passed by reference is %d after %d uses, and not %d", r, int(n), v + int(n));
        refs_checked += size_t(n);
    }
    void after_arg(const arg& a, int v) {
        VP_CHECK("edsl-arg", a.v == v, "lvalue argument was moved from");
        args_checked += size_t(std::count(g.args.begin(), g.args.end(), &a));
    }
    template <typename F> void after_func(const F& f) { funcs_called += size_t(f.called); }
};

// function object whose calls are counted: initialisers passed as lvalues are not copied
struct fobj {
    ctx& c;
    int v;
    int called = 0;
    fobj(ctx& c, int v) : c(c), v(v) {}
    fobj(const fobj&) = delete;
    void operator()(dm::init_new_args a) { ++called; c.func(a, v); }
};

template <int I> struct ci final : dm::common_mixin_init<tmx<I>> {
    ctx& c;
    int v;
    bool ov;
    ci(ctx& c, int v, bool ov) : c(c), v(v), ov(ov) {}
    bool overrides_init() const noexcept override { return ov; }
    void do_init(dm::init_new_args a) override {
        VP_CHECK("edsl-init", &a.info == g.infos[I], "an initialiser ran for another mixin");
        VP_CHECK("edsl-init", ov, "an initialiser ran which doesn't override");
        c.func(a, v);
    }
};

struct opd {
    int kind; // 0 add/construct, 1 remove, 2 to_back
    int mix;
    bool by_name;
    const char* init; // expected construction, "" if default
};
struct expr {
    void (*f)(ctx&);
    const char* text;
    std::vector<opd> ops;
};
extern const std::vector<expr> exprs_mut, exprs_to;

void run_edsl(vp::rng& r);
void run_builder(vp::rng& r);
void run_macros(vp::rng& r);
}
