// A plugin (compiled several times with another PLUG): all use the same names of classes
#include "plug_host.hpp"
#include <cstdlib>
#include <new>

using namespace ph;

struct plug_a;
struct plug_b;

#if PLUG == 2
// the library's own message. A library which defines messages and can be unloaded unregisters them:
// destroyed after the mixins
struct own_unregister {
    ~own_unregister();
} the_unregister;
DYNAMIX_DECLARE_SIMPLE_MSG(own_msg, int(object&, int));
DYNAMIX_DEFINE_SIMPLE_MSG(own_msg, unicast);
own_unregister::~own_unregister() {
    dm::g::get_domain<plug_domain>().unregister_feature(const_cast<dm::feature_info&>(own_msg::info));
}
struct own_alloc final : dm::mixin_allocator {
    dm::byte_t* alloc_mixin_buf(const dm::mixin_info& info) override {
        auto p = std::aligned_alloc(info.obj_buf_alignment_and_mixin_offset, (info.obj_buf_size + info.obj_buf_alignment_and_mixin_offset - 1) / info.obj_buf_alignment_and_mixin_offset * info.obj_buf_alignment_and_mixin_offset);
        if (!p) throw std::bad_alloc();
        ++buffers();
        return static_cast<dm::byte_t*>(p);
    }
    void dealloc_mixin_buf(dm::byte_t* p, const dm::mixin_info&) noexcept override { --buffers(); free(p); }
};
#endif

#if PLUG == 1
#   define A_NAME "p0-a"
#   define B_NAME "p0-b"
#   define A_TEXT "p0-a modified"
#   define B_TEXT "p0-b modified"
#else
#   define STR2(x) #x
#   define STR(x) STR2(x)
#   define A_NAME "p" STR(PLUG) "-a"
#   define B_NAME "p" STR(PLUG) "-b"
#   define A_TEXT A_NAME
#   define B_TEXT B_NAME
#endif

struct plug_a : base {
    using base::base;
    void dump(strings& s) const { s.push_back(A_TEXT " " + std::to_string(value)); }
    std::string work(int a) const {
#if PLUG == 4
        if (dm::has_next_bidder_set<work_msg>(this)) return A_TEXT " and " + dm::call_next_bidder_top<work_msg>(this, a);
#endif
        return A_TEXT " " + std::to_string(a);
    }
    int need(const std::string& s) { set(int(s.size()) + PLUG * 100); return value; }
    void fail(int v) { throw plug_error(A_TEXT, v); }
    int own(int v) { return v + value; }
};
// of another size, and aligned
struct alignas(64) plug_b : base {
    char more[100 * (PLUG + 1)] = {};
    void dump(strings& s) const { s.push_back(B_TEXT " " + std::to_string(value)); }
    std::string work(int a) const { return B_TEXT " " + std::to_string(a); }
    void fail(int v) { throw std::out_of_range(B_TEXT); }
};

static dm::error_return_t own_rule(dnmx_type_mutation_handle h, uintptr_t u);

#if PLUG == 0
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_a).name(A_NAME).implements<dump_msg>().implements<work_msg>(-1_bid);
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_b).store_name(B_NAME).implements<dump_msg>(1_prio).implements<work_msg>(4_prio);
#elif PLUG == 1
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_a).name(A_NAME).implements<dump_msg>().implements<work_msg>(1_bid);
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_b).store_name(B_NAME).implements<dump_msg>(-1_prio);
#elif PLUG == 2
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_b).name(B_NAME).implements<dump_msg>().uses_allocator<own_alloc>();
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_a).name(A_NAME).implements<dump_msg>()
    .implements_by<own_msg>([](plug_a* p, int v) { return p->own(v); })
    .on_mutation(also_adds<plug_b>());
#elif PLUG == 3
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_a).name(A_NAME).implements<dump_msg>().implements_by<fail_msg>([](plug_a* p, int v) { p->fail(v); }).adds_mutation_rule(no_teacher).dependency(false);
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_b).name(B_NAME).implements<dump_msg>().implements_by<fail_msg>([](plug_b* p, int v) { p->fail(v); }, 1_prio).adds_mutation_rule(no_teacher).dependency(false);
DYNAMIX_DECLARE_TYPE_CLASS(has_p3);
static bool is_p3(const dm::type& t) noexcept { return t.has<plug_a>() || t.has<plug_b>(); }
DYNAMIX_DEFINE_TYPE_CLASS_WITH(plug_domain, has_p3, [](dnmx_type_handle t) noexcept { return is_p3(*dm::type::from_c_handle(t)); });
#elif PLUG == 4
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_a).name(A_NAME).implements<dump_msg>().implements<work_msg>(2_bid).implements<need_msg>();
DYNAMIX_DEFINE_MIXIN(plug_domain, plug_b).name(B_NAME).implements<dump_msg>(5_prio)
    // a rule of the library itself: p4-b is the first mixin
    .adds_mutation_rule("p4-b first", own_rule, 17).dependency(false);
#endif

static dm::error_return_t own_rule(dnmx_type_mutation_handle h, uintptr_t u) {
    auto m = dm::type_mutation::from_c_handle(h);
    if (u != 17) return -1;
    if (m->has<plug_b>()) {
        std::vector<const dm::mixin_info*> rest;
        for (auto i : m->mixins) if (i != &dm::g::get_mixin_info<plug_b>()) rest.push_back(i);
        for (auto i : rest) m->to_back(*i);
    }
    return dm::result_success;
}

namespace {
const plugin_api api = {
    PLUG, 2,
    [](dm::object& o, int m) { if (m) mutate(o, dm::add<plug_b>()); else mutate(o, dm::add<plug_a>()); },
    [](dm::object& o, int m) { if (m) mutate(o, dm::remove<plug_b>()); else mutate(o, dm::remove<plug_a>()); },
    [](dm::object& o, int m) -> base* { if (m) return o.get<plug_b>(); return o.get<plug_a>(); },
    [](const dm::object& o, int m) { return m ? o.has<plug_b>() : o.has<plug_a>(); },
    [](int m) -> const dm::mixin_info& { return m ? dm::g::get_mixin_info<plug_b>() : dm::g::get_mixin_info<plug_a>(); },
    [](int m) {
        auto o = std::make_unique<object>();
        if (m) mutate(*o, dm::add(dm::g::get_mixin_info<plug_b>(), [](dm::init_new_args a) { (new (a.mixin_buf) plug_b)->set(1000 + PLUG); }), person_init(7));
        else mutate(*o, dm::add<plug_a>(1000 + PLUG), person_init(7));
        return o;
    },
    [](object& o, int what, int arg) { return call_here(o, what, arg); },
    [](object& o, int arg) {
#if PLUG == 2
        return own_msg::call(o, arg);
#else
        return -1;
#endif
    },
    [](const dm::type& t) {
#if PLUG == 3
        return t.is_of<has_p3>();
#else
        return t.has<plug_a>();
#endif
    },
    [](bool rev) -> const dm::type& {
        const dm::mixin_info* l[] = {&dm::g::get_mixin_info<person>(), &dm::g::get_mixin_info<worker>()};
        if (rev) std::swap(l[0], l[1]);
        return dm::g::get_domain<plug_domain>().get_type(l);
    },
};
}

extern "C" SYMBOL_EXPORT const plugin_api* plugin() { return &api; }
