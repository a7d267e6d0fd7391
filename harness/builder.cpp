// C21: builders and definition macros
#include "builder.hpp"
#include <array>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>

// memory of the global allocator which the library keeps from a call
static thread_local long g_new_outstanding = 0;
static thread_local bool g_count_new = false;
void* operator new(size_t n) {
    if (g_count_new) ++g_new_outstanding;
    auto p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void operator delete(void* p) noexcept {
    if (p && g_count_new) --g_new_outstanding;
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

namespace builder {
extern const std::vector<class_test> classes_0, classes_1, classes_2, classes_3;

// classes by hand: types which are not structs of ours
enum class en : short { a, b };
struct empty_class {};
struct alignas(256) over { int v; char pad[3]; explicit over(tag, int x) : v(x), pad{1, 2, 3} {} over() = default; };
struct many { int v; unsigned char pad[5000]; many() = default; many(tag, int x) : v(x) { memset(pad, 3, sizeof(pad)); } };
struct explicit_copy { int v; explicit explicit_copy(tag, int x) : v(x) {} explicit explicit_copy(const explicit_copy& o) : v(o.v) { note("copy"); } };
struct with_const { const int v; with_const(tag, int x) : v(x) {} };
struct with_ref { int& r; int v; with_ref(tag, int x) : r(v), v(x) {} with_ref(const with_ref& o) : r(v), v(o.v) { note("copy"); } };
struct no_amp { int v; no_amp(tag, int x) : v(x) {} no_amp(const no_amp& o) : v(o.v) { note("copy"); } void operator&() const = delete; ~no_amp() { note("destroy"); } };
struct greedy { int v; greedy(tag, int x) : v(x) {} greedy() : v(3) { note("default"); } template <typename T> greedy(const T&) : v(99) { note("template"); } };
struct own_placement {
    int v;
    own_placement(tag, int x) : v(x) {}
    own_placement() noexcept : v(8) { note("default"); }
    own_placement(const own_placement& o) noexcept : v(o.v) { note("copy"); }
    static void* operator new(size_t, void* p) { note("own placement"); return p; }
};
struct vdtor { int v; vdtor(tag, int x) : v(x) {} vdtor() : v(4) {} virtual ~vdtor() { note("vdtor"); } };
struct derived : public vdtor { std::string s = "derived has a long string"; derived(tag t, int x) : vdtor(t, x) {} derived() = default; ~derived() override { note("derived"); } };
static const std::vector<class_test> own_classes = {
#define T(t) {#t, &test_class<t>}
    T(int), T(double), T(bool), T(char), T(std::string), T(std::unique_ptr<int>), T(std::shared_ptr<int>), T(std::atomic<int>), T(en), T(empty_class),
    T(over), T(many), T(explicit_copy), T(with_const), T(with_ref), T(no_amp), T(own_placement), T(greedy), T(vdtor), T(derived),
#undef T
};

void run_classes(rng& r) {
    int n = r.range(4, 12);
    static const std::vector<const std::vector<class_test>*> all = {&classes_0, &classes_1, &classes_2, &classes_3, &own_classes};
    for (int i = 0; i < n; ++i) {
        auto& v = *r.pick(all);
        auto& c = v[r.below(uint32_t(v.size()))];
        log("class %s", c.name);
        sig(c.name);
        c.f(r, c.name);
    }
    nontrivial();
}

// ------------------------------------------------------------------------------------------------
// generated sequences of builder calls

struct bm { int x = 1; int get() const { return x; } };
template <int I> struct tm_ : bm {};
inline const dm::mixin_info* typed[4] = {};
#define VP_TM(i) inline const dm::mixin_info& _dynamix_get_mixin_info(const tm_<i>*) { return *typed[i]; }
VP_TM(0) VP_TM(1) VP_TM(2) VP_TM(3)
inline const dm::mixin_info& _dynamix_get_mixin_info(const bm*) { return *typed[0]; }

struct malloc_stats { int objects = 0, bufs = 0; };
static malloc_stats ms;
struct test_alloc final : dm::mixin_allocator {
    test_alloc() { ++ms.objects; }
    test_alloc(const test_alloc&) { ++ms.objects; }
    ~test_alloc() { --ms.objects; }
    dm::byte_t* alloc_mixin_buf(const dm::mixin_info& i) override { ++ms.bufs; return static_cast<dm::byte_t*>(::operator new(i.obj_buf_size, std::align_val_t(i.obj_buf_alignment_and_mixin_offset))); }
    void dealloc_mixin_buf(dm::byte_t* p, const dm::mixin_info& i) noexcept override { --ms.bufs; ::operator delete(p, std::align_val_t(i.obj_buf_alignment_and_mixin_offset)); }
};

// payload which knows its copies
static int payloads = 0;
struct pl {
    int v;
    std::string text;
    explicit pl(int v) : v(v), text("payload " + std::to_string(v)) { ++payloads; }
    pl(const pl& o) : v(o.v), text(o.text) { ++payloads; }
    pl(pl&& o) noexcept : v(o.v), text(std::move(o.text)) { o.v = -1; ++payloads; }
    ~pl() { --payloads; }
};

// a feature which is not a message
struct cust_feature {
    static dm::common_feature_info the_info;
    static const dm::common_feature_info& get_info_safe() { return the_info; }
    struct traits {
        template <typename Mixin, typename P> static dm::any make_payload_by(dm::allocator a, Mixin*, P& p) {
            return dm::any(std::allocate_shared<pl>(a, p.v + 1000));
        }
        template <typename Mixin, typename P> static dm::any make_payload_with(dm::allocator a, Mixin*, P&& p) {
            pl took(std::forward<P>(p));
            return dm::any(std::allocate_shared<pl>(a, took.v + 2000));
        }
        template <typename Mixin> static dm::any make_payload_for(dm::allocator a, Mixin*) {
            return dm::any(std::allocate_shared<pl>(a, 3000 + int(sizeof(Mixin*))));
        }
    };
};
dm::common_feature_info cust_feature::the_info(dnmx_make_sv_lit("cust"), true);

struct feat_model { const dm::feature_info* info; int32_t bid, prio; const void* addr; int val; };
struct rule_model { const dm::mutation_rule_info* extern_info; std::string name; dm::mutation_rule_info::apply_func apply; uintptr_t ud; int32_t prio; };
struct data_model {
    std::string name; // as content
    const char* name_addr = nullptr; // null: stored
    uintptr_t ud = 0;
    bool dep = false;
    const dm::mixin_allocator* alloc = nullptr;
    bool owns_alloc = false;
    std::vector<feat_model> feats;
    std::vector<rule_model> rules;
};

static dm::error_return_t noop_rule(dnmx_type_mutation_handle, uintptr_t) { return dm::result_success; }
static dm::error_return_t noop_rule2(dnmx_type_mutation_handle, uintptr_t) { return dm::result_success; }

static const char* names[] = {"m", "mixin with a name which does not fit a small string", "", "a", "b\0c", "m1", "\xff\xfe", "x rule 0"};
static const size_t name_len[] = {1, 51, 0, 1, 3, 2, 2, 8};
static std::string_view some_name(rng& r) { int i = r.range(0, 7); return {names[i], name_len[i]}; }

struct region { // of library calls
    region() { g_new_outstanding = 0; g_count_new = true; }
    ~region() { g_count_new = false; }
};

// bookkeeping of the monitor is not memory of the library
struct quiet_resource final : base_resource {
    resource r{own_data};
    struct pause { bool was = g_count_new; pause() { g_count_new = false; } ~pause() { g_count_new = was; } };
    void* do_allocate(size_t n, size_t a) override { pause p; return r.allocate(n, a); }
    void do_deallocate(void* b, size_t n, size_t a) override { pause p; r.deallocate(b, n, a); }
    bool do_is_equal(const base_resource& o) const noexcept override { return this == &o; }
};

struct builder_world {
    rng& r;
    quiet_resource res;
    std::vector<std::unique_ptr<dm::feature_info>> feats;
    std::vector<std::unique_ptr<pl>> outside;
    dm::mutation_rule_info shared[3];
    test_alloc alloc;
    explicit builder_world(rng& r) : r(r) {
        for (int i = 0; i < 4; ++i) {
            feats.push_back(std::make_unique<dm::feature_info>(dnmx_make_feature_info()));
            static const char* n[] = {"f0", "f1", "f2", "f3"};
            feats.back()->name = dnmx_sv::from_std(n[i]);
            feats.back()->allow_clashes = true;
            outside.push_back(std::make_unique<pl>(i));
        }
        for (int i = 0; i < 3; ++i) {
            static const char* n[] = {"shared a", "shared b", "shared a"};
            shared[i] = {dnmx_sv::from_std(n[i]), noop_rule, uintptr_t(i), i - 1};
        }
    }

    int32_t num() {
        static const int32_t v[] = {0, 1, -1, 5, 100, INT32_MAX, INT32_MIN, 7};
        return v[r.below(8)];
    }
    dm::util::builder_perks perks(std::optional<int32_t>& bid, std::optional<int32_t>& prio) {
        using namespace dm::util::builder_literals;
        bid.reset();
        prio.reset();
        switch (r.range(0, 6)) {
        case 0: return {};
        case 1: bid = num(); return feature_bid(*bid);
        case 2: prio = num(); return order_priority(*prio);
        case 3: bid = num(); prio = num(); return feature_bid_priority(*bid, *prio);
        case 4: bid = -12; return -12_bid;
        case 5: prio = 13; return 13_prio;
        default: bid = r.range(-100, 100); prio = r.range(-100, 100); { auto p = -feature_bid_priority(*bid, *prio); bid = -*bid; prio = -*prio; return p; }
        }
    }

    template <typename M> void step(dm::util::mixin_info_data_builder<M>& b, data_model& m) {
        std::optional<int32_t> b1, b2, p1, p2;
        auto before = payloads;
        auto feat = [&](const dm::feature_info* f, const void* addr, int val) {
            m.feats.push_back({f, b1.value_or(b2.value_or(0)), p1.value_or(p2.value_or(0)), addr, val});
        };
        auto one = [&](auto call) {
            dm::util::mixin_info_data_builder<M>* res;
            {
                region g;
                res = call();
            }
            VP_CHECK("builder-memory", g_new_outstanding <= 0, "%ld blocks of the default allocator are kept by a call", g_new_outstanding);
            VP_CHECK("builder-chain", res == &b, "a call does not return the builder");
        };
        int k = r.range(0, 17);
        if (std::is_void_v<M> && k >= 10 && k <= 12) k = 3;
        switch (k) {
        case 0: {
            auto n = some_name(r);
            log("name %s", std::string(n).c_str());
            one([&] { return &b.name(n); });
            m.name = n;
            m.name_addr = n.data();
        } break;
        case 1: {
            std::string n(some_name(r));
            log("store_name %s", n.c_str());
            one([&] { return &b.store_name(n); });
            m.name = n;
            m.name_addr = nullptr;
            n.assign(n.size(), '#');
        } break;
        case 2: {
            m.ud = r.range(0, 1000);
            one([&] { return &b.user_data(m.ud); });
        } break;
        case 3: {
            m.dep = r.chance(50);
            log("dependency %d", m.dep);
            one([&] { return &(m.dep && r.chance(50) ? b.dependency() : b.dependency(m.dep)); });
        } break;
        case 4: {
            one([&] { return &b.uses_allocator(alloc); });
            m.alloc = &alloc;
            m.owns_alloc = false;
        } break;
        case 5: {
            dm::t_any<dm::mixin_allocator> a = std::make_shared<test_alloc>();
            auto ptr = a.get();
            log("uses_allocator shared");
            one([&] { return &b.uses_allocator(a); });
            VP_CHECK("builder-alloc", a.use_count() == 2, "a shared allocator has %ld owners", long(a.use_count()));
            m.alloc = ptr;
            m.owns_alloc = true;
        } break;
        case 6: {
            log("uses_allocator by type");
            one([&] { return &b.template uses_allocator<test_alloc>(); });
            m.alloc = dm::mixin_allocator::from_c_handle(b.get_data().info.allocator);
            m.owns_alloc = true;
            VP_CHECK("builder-alloc", mon().find_block(uintptr_t(m.alloc)) && mon().find_block(uintptr_t(m.alloc))->owner == own_data, "the allocator is not in memory of the data's allocator");
        } break;
        case 7: {
            auto f = r.pick(feats).get();
            auto& p = *r.pick(outside);
            auto pa = perks(b1, p1), pb = perks(b2, p2);
            log("implements_by %s", f->name.to_std().data());
            one([&] { return &b.implements_by(*f, p, pa, pb); });
            feat(f, &p, p.v);
            VP_CHECK("builder-payload", payloads == before, "a payload was copied");
        } break;
        case 8: {
            auto f = r.pick(feats).get();
            pl p(r.range(10, 1000));
            int v = p.v;
            bool move = r.chance(50);
            auto pa = perks(b1, p1);
            log("implements_with %s %d", f->name.to_std().data(), v);
            // (the text of a payload is in the default allocator, so not counted)
            auto& res = move ? b.implements_with(*f, std::move(p), pa) : b.implements_with(*f, p, pa);
            VP_CHECK("builder-chain", &res == &b, "a call does not return the builder");
            VP_CHECK("builder-payload", p.v == (move ? -1 : v) && payloads == before + 2, "a payload is not %s", move ? "moved" : "copied");
            b2.reset(); p2.reset();
            feat(f, nullptr, v);
        } break;
        case 9: {
            auto f = r.pick(feats).get();
            auto p = std::make_shared<pl>(r.range(10, 1000));
            auto pa = perks(b1, p1), pb = perks(b2, p2);
            log("implements_with_payload");
            dm::any a = p;
            one([&] { return &b.implements_with_payload(*f, a, pa, pb); });
            VP_CHECK("builder-payload", p.use_count() == 3, "a shared payload has %ld owners", long(p.use_count()));
            feat(f, p.get(), p->v);
        } break;
        case 10: if constexpr (!std::is_void_v<M>) {
            pl p(r.range(10, 1000));
            auto pa = perks(b1, p1), pb = perks(b2, p2);
            int v = p.v;
            if (r.chance(50)) b.template implements_by<cust_feature>(p, pa, pb);
            else b.template implements_by<cust_feature>(std::as_const(p), pa, pb);
            feat(&cust_feature::the_info, nullptr, v + 1000);
        } break;
        case 11: if constexpr (!std::is_void_v<M>) {
            pl p(r.range(10, 1000));
            auto pa = perks(b1, p1), pb = perks(b2, p2);
            int v = p.v;
            bool move = r.chance(50);
            if (move) b.template implements_with<cust_feature>(std::move(p), pa, pb);
            else b.template implements_with<cust_feature>(p, pa, pb);
            VP_CHECK("builder-payload", p.v == (move ? -1 : v), "a payload is not %s", move ? "moved" : "copied");
            feat(&cust_feature::the_info, nullptr, v + 2000);
        } break;
        case 12: if constexpr (!std::is_void_v<M>) {
            auto pa = perks(b1, p1), pb = perks(b2, p2);
            b.template implements<cust_feature>(pa, pb);
            feat(&cust_feature::the_info, nullptr, 3000 + int(sizeof(void*)));
        } break;
        case 13: {
            auto& rule = shared[r.below(3)];
            log("adds_mutation_rule shared");
            one([&] { return &b.adds_mutation_rule(rule); });
            m.rules.push_back({&rule, std::string(rule.name.to_std()), rule.apply, rule.user_data, rule.order_priority});
            m.dep = true;
        } break;
        case 14: {
            dm::compat::pmr::string n(some_name(r));
            auto pa = perks(b1, p1);
            auto f = r.chance(50) ? noop_rule : noop_rule2;
            uintptr_t ud = r.chance(50) ? r.range(1, 99) : 0;
            m.rules.push_back({nullptr, std::string(n), f, ud, p1.value_or(0)});
            log("adds_mutation_rule named");
            bool pass = r.chance(50);
            one([&] { return &b.adds_mutation_rule(pass ? std::move(n) : n, f, ud, pa); });
            m.dep = true;
        } break;
        case 15: {
            auto pa = perks(b1, p1);
            uintptr_t ud = r.chance(50) ? r.range(1, 99) : 0;
            m.rules.push_back({nullptr, m.name + " rule " + std::to_string(m.rules.size()), noop_rule, ud, p1.value_or(0)});
            log("adds_mutation_rule");
            one([&] { return &b.adds_mutation_rule(noop_rule, ud, pa); });
            m.dep = true;
        } break;
        case 16: {
            using namespace dm::util::builder_literals;
            auto pa = perks(b1, p1);
            uintptr_t ud = r.chance(50) ? r.range(1, 99) : 0;
            std::string suffix = "<" + std::to_string(m.rules.size()) + ">";
            if constexpr (!std::is_void_v<M>) {
                if (r.chance(50)) {
                    m.rules.push_back({nullptr, m.name + " attaches_to" + suffix, &priv::apply_basic_mixin_dep<tm_<1>, M>, ud, p1.value_or(0)});
                    log("attaches_to");
                    one([&] { return &b.on_mutation(attaches_to<tm_<1>>{}, pa, ud); });
                    m.dep = true;
                }
                else {
                    m.rules.push_back({nullptr, m.name + " also_adds" + suffix, &priv::apply_basic_mixin_dep<M, tm_<2>>, ud, p1.value_or(0)});
                    log("also_adds");
                    one([&] { return &b.on_mutation(also_adds<tm_<2>>{}, pa, ud); });
                }
            }
        } break;
        case 17:
            one([&] { return &b.noop(5); });
            break;
        }
    }

    void check(dm::util::mixin_info_data& d, const data_model& m) {
        auto& i = d.info;
        VP_CHECK("builder-name", i.name.to_std() == m.name, "the name is '%s' and not '%s'", std::string(i.name.to_std()).c_str(), m.name.c_str());
        VP_CHECK("builder-name", m.name_addr ? i.name.begin == m.name_addr : (i.name.begin == d.stored_name.data() && d.stored_name.size() == m.name.size()), "the name is not %s", m.name_addr ? "the given one" : "stored");
        VP_CHECK("builder-values", i.user_data == m.ud && i.dependency == m.dep, "user data %zu or dependency %d differ", size_t(i.user_data), int(i.dependency));
        VP_CHECK("builder-alloc", (i.allocator ? dm::mixin_allocator::from_c_handle(i.allocator) : nullptr) == m.alloc, "another mixin allocator");
        VP_CHECK("builder-alloc", ms.objects == 1 + m.owns_alloc, "%d allocators live", ms.objects - 1);
        VP_CHECK("builder-payload", i.num_features == m.feats.size() && i.features_span().size() == m.feats.size(), "%u features and not %zu", i.num_features, m.feats.size());
        for (size_t n = 0; n < m.feats.size(); ++n) {
            auto& f = i.features[n];
            auto& w = m.feats[n];
            VP_CHECK("builder-payload", f.info == w.info && f.bid == w.bid && f.priority == w.prio, "feature %zu has bid %d priority %d and not %d %d", n, f.bid, f.priority, w.bid, w.prio);
            if (w.addr) VP_CHECK("builder-payload", f.payload == w.addr, "feature %zu has another payload", n);
            VP_CHECK("builder-payload", static_cast<const pl*>(f.payload)->v == w.val && static_cast<const pl*>(f.payload)->text == "payload " + std::to_string(w.val), "feature %zu has another payload", n);
        }
        VP_CHECK("builder-rules", d.mutation_rule_infos.size() == m.rules.size(), "%zu rules and not %zu", d.mutation_rule_infos.size(), m.rules.size());
        for (size_t n = 0; n < m.rules.size(); ++n) {
            auto* x = d.mutation_rule_infos[n];
            auto& w = m.rules[n];
            if (w.extern_info) VP_CHECK("builder-rules", x == w.extern_info, "rule %zu is not the given one", n);
            VP_CHECK("builder-rules", x->name.to_std() == w.name, "rule %zu is named '%s' and not '%s'", n, std::string(x->name.to_std()).c_str(), w.name.c_str());
            VP_CHECK("builder-rules", x->apply == w.apply && x->user_data == w.ud && x->order_priority == w.prio, "rule %zu has other values", n);
        }
        VP_CHECK("builder-values", d.get_allocator() == dm::allocator(&res), "the data has another allocator");
    }
    template <typename M> void check_funcs(const dm::mixin_info& i) {
        if (std::is_void_v<M>) {
            VP_CHECK("builder-values", i.size == 0 && i.alignment == 0 && i.init && i.copy_init && i.move_init && i.copy_asgn && i.move_asgn && i.compare, "a mixin of nothing lacks functions");
            char x = 5, y = 6;
            VP_CHECK("builder-values", !i.init(&i, &x) && !i.copy_init(&i, &x, &y) && !i.copy_asgn(&i, &x, &y) && (i.move_init(&i, &x, &y), i.move_asgn(&i, &x, &y), i.compare(&i, &x, &y) == 0) && x == 5 && y == 6, "functions of a mixin of nothing do something");
            if (i.destroy) i.destroy(&i, &x);
            if (i.equals) VP_CHECK("builder-values", i.equals(&i, &x, &y), "values of a mixin of nothing differ");
            VP_CHECK("builder-values", x == 5 && y == 6, "functions of a mixin of nothing do something");
        }
        else VP_CHECK("builder-values", i.size == sizeof(bm) && i.alignment == alignof(bm) && i.init && !i.compare, "functions or size changed by builder calls");
    }

    template <typename M> void run_one() {
        {
            int base = payloads;
            std::optional<dm::util::mixin_info_data> d;
            d.emplace(dm::allocator(&res));
            data_model m;
            auto n = some_name(r);
            m.name = n;
            m.name_addr = n.data();
            log("builder '%s'", m.name.c_str());
            std::optional<dm::util::mixin_info_data_builder<M>> b;
            if (r.chance(50)) b.emplace(*d, n);
            else b.emplace(*d, dnmx_sv::from_std(n));
            check(*d, m);
            int steps = r.range(1, 14);
            for (int i = 0; i < steps; ++i) {
                step(*b, m);
                check(*d, m);
                check_funcs<M>(d->info);
                if (r.chance(10)) {
                    // carry on with another builder
                    b.emplace(nullptr, *d);
                    check(*d, m);
                    check_funcs<M>(d->info);
                }
                VP_CHECK("builder-values", &b->get_data() == &*d && b->get_allocator() == dm::allocator(&res), "the builder is for another data");
                count("builder calls");
            }
            sig(m.feats.size() * 1000 + m.rules.size());
            sig(m.name);
            b.reset();
            d.reset();
            VP_CHECK("builder-memory", payloads == base && ms.objects == 1, "%d payloads and %d allocators remain", payloads - base, ms.objects - 1);
            VP_CHECK("builder-memory", mon().outstanding(own_data) == 0, "%zu blocks remain", mon().outstanding(own_data));
        }
    }

    void run_feature() {
        int base = payloads;
        {
            dm::util::feature_info_data d{dm::allocator(&res)};
            auto n = some_name(r);
            dm::util::feature_info_data_builder b(d, n);
            std::string name(n);
            const char* addr = n.data();
            const void* p = nullptr;
            int val = -1;
            int steps = r.range(0, 6);
            for (int i = 0; i <= steps; ++i) {
                VP_CHECK("builder-feature", d.info.name.to_std() == name && (addr ? d.info.name.begin == addr : d.info.name.begin == d.stored_name.data()), "the name is '%s' and not '%s'", std::string(d.info.name.to_std()).c_str(), name.c_str());
                VP_CHECK("builder-feature", (d.info.default_payload != nullptr) == (val >= 0) && (!p || d.info.default_payload == p) && (val < 0 || static_cast<const pl*>(d.info.default_payload)->v == val), "another default payload");
                VP_CHECK("builder-feature", d.info.iid() == dm::invalid_feature_id.i && !d.info.allow_clashes && &b.get_data() == &d, "other values");
                if (i == steps) break;
                switch (r.range(0, 5)) {
                case 0: { auto x = some_name(r); b.name(x); name = x; addr = x.data(); } break;
                case 1: { std::string x(some_name(r)); b.store_name(x); name = x; addr = nullptr; x.assign(x.size(), '#'); } break;
                case 2: { auto x = std::make_shared<pl>(r.range(0, 99)); b.default_payload(x); p = x.get(); val = x->v; } break;
                case 3: { auto& x = *r.pick(outside); b.default_payload_by(x); p = &x; val = x.v; } break;
                case 4: { pl x(r.range(0, 99)); val = x.v; b.default_payload_with(std::move(x)); p = nullptr; VP_CHECK("builder-feature", x.v == -1, "a payload is not moved"); } break;
                case 5: { pl x(r.range(0, 99)); val = x.v; b.default_payload_with(x); p = nullptr; VP_CHECK("builder-feature", x.v == val, "a payload is moved"); } break;
                }
                count("feature builder calls");
            }
        }
        VP_CHECK("builder-memory", payloads == base, "%d payloads remain", payloads - base);
        VP_CHECK("builder-memory", mon().outstanding(own_data) == 0, "%zu blocks remain", mon().outstanding(own_data));
    }
};

void run_builder(rng& r) {
    mon().reset();
    ms = {};
    payloads = 0;
    {
        builder_world w(r);
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            switch (r.range(0, 3)) {
            case 0: w.run_one<void>(); break;
            case 1: w.run_feature(); break;
            case 2: w.run_one<bm>(); break;
            case 3: w.run_one<tm_<3>>(); break;
            }
        }
    }
    VP_CHECK("builder-memory", payloads == 0 && ms.objects == 0, "payloads or allocators remain");
    nontrivial();
}

// ------------------------------------------------------------------------------------------------
// registration of built mixins with their rules

void run_register(rng& r) {
    using namespace dm::util::builder_literals;
    mon().reset();
    resource res{own_domain}, dres{own_data};
    dres.faulty = false;
    std::vector<std::unique_ptr<dm::feature_info>> feats;
    for (int i = 0; i < 3; ++i) {
        static const char* n[] = {"f0", "f1", "f1"};
        feats.push_back(std::make_unique<dm::feature_info>(dnmx_make_feature_info()));
        feats.back()->name = dnmx_sv::from_std(n[i]);
        feats.back()->allow_clashes = true;
    }
    dm::mutation_rule_info shared[2] = {
        {dnmx_make_sv_lit("s0"), noop_rule, 0, 1}, {dnmx_make_sv_lit("s1"), noop_rule, 0, -1},
    };
    dm::mutation_rule_info invalid = {dnmx_make_sv_lit("invalid"), nullptr, 0, 0};
    int some_payload = 4;
    constexpr int N = 6;
    std::vector<std::unique_ptr<dm::util::mixin_info_data>> data;
    struct common { int kind, a, b; int32_t prio; std::string name; const dm::mutation_rule_info* info; };
    std::vector<std::vector<common>> rules_of(N);
    std::vector<std::vector<int>> feats_of(N);
    std::vector<std::string> names_of(N);
    std::vector<bool> bad(N);
    auto build = [&](auto* tag_, int i) {
        using M = std::remove_pointer_t<decltype(tag_)>;
        auto& d = *data[size_t(i)];
        names_of[size_t(i)] = i == 5 ? "m0" : "m" + std::to_string(i); // 5 and 0 share a name
        dm::util::mixin_info_data_builder<M> b(d, std::string_view("x"));
        b.store_name(names_of[size_t(i)]).user_data(uintptr_t(i));
        int n = r.range(0, 3);
        for (int k = 0; k < n; ++k) {
            int32_t prio = r.range(-1, 1);
            int other = r.range(0, 3);
            switch (r.range(0, 5)) {
            case 0: case 1: {
                auto on = [&](auto* o) {
                    using O = std::remove_pointer_t<decltype(o)>;
                    if (r.chance(50)) { b.on_mutation(attaches_to<O>{}, order_priority(prio)); rules_of[size_t(i)].push_back({0, other, i, prio, "", d.mutation_rule_infos.back()}); }
                    else { b.on_mutation(also_adds<O>{}, order_priority(prio)); rules_of[size_t(i)].push_back({0, i, other, prio, "", d.mutation_rule_infos.back()}); }
                };
                if (i > 3) { b.adds_mutation_rule(noop_rule); rules_of[size_t(i)].push_back({1, 0, 0, 0, "", d.mutation_rule_infos.back()}); }
                else if (other == 0) on(static_cast<tm_<0>*>(nullptr));
                else if (other == 1) on(static_cast<tm_<1>*>(nullptr));
                else if (other == 2) on(static_cast<tm_<2>*>(nullptr));
                else on(static_cast<tm_<3>*>(nullptr));
            } break;
            case 2: case 3: {
                auto& s = shared[r.below(2)];
                bool dep = d.info.dependency;
                b.adds_mutation_rule(s).dependency(dep);
                rules_of[size_t(i)].push_back({1, 0, 0, s.order_priority, "", &s});
            } break;
            case 4: {
                bool dep = d.info.dependency;
                b.adds_mutation_rule(noop_rule2, 0, order_priority(prio));
                if (r.chance(80)) b.dependency(dep);
                rules_of[size_t(i)].push_back({1, 0, 0, prio, "", d.mutation_rule_infos.back()});
            } break;
            case 5:
                if (r.chance(15)) {
                    // a rule which can't be added
                    b.adds_mutation_rule(invalid);
                    bad[size_t(i)] = true;
                }
                break;
            }
        }
        if (r.chance(50)) { int f = r.range(0, 2); b.implements_by(*feats[size_t(f)], some_payload); feats_of[size_t(i)].push_back(f); }
        if (r.chance(20)) { int f = r.range(0, 2); b.implements_by(*feats[size_t(f)], some_payload); feats_of[size_t(i)].push_back(f); }
        for (auto& x : rules_of[size_t(i)]) x.name = std::string(x.info->name.to_std());
    };
    for (int i = 0; i < N; ++i) {
        data.push_back(std::make_unique<dm::util::mixin_info_data>(dm::allocator(&dres)));
        if (i < 4) typed[i] = &data.back()->info;
    }
    build(static_cast<tm_<0>*>(nullptr), 0);
    build(static_cast<tm_<1>*>(nullptr), 1);
    build(static_cast<tm_<2>*>(nullptr), 2);
    build(static_cast<tm_<3>*>(nullptr), 3);
    build(static_cast<bm*>(nullptr), 4);
    build(static_cast<bm*>(nullptr), 5);
    for (int i = 0; i < N; ++i) {
        std::string s;
        for (auto& x : rules_of[size_t(i)]) s += " [" + x.name + " " + std::to_string(x.a) + ">" + std::to_string(x.b) + " prio " + std::to_string(x.prio) + "]";
        for (auto f : feats_of[size_t(i)]) s += " f" + std::to_string(f);
        log("mixin %d '%s'%s dependency %d%s", i, names_of[size_t(i)].c_str(), bad[size_t(i)] ? " with an invalid rule" : "", int(data[size_t(i)]->info.dependency), s.c_str());
    }

    constexpr int D = 2;
    std::unique_ptr<dm::domain> dom[D];
    dm::domain_settings sett[D];
    int where[N]; // domain of a mixin
    std::fill(where, where + N, -1);
    std::set<int> known_feats[D]; // registered for sure
    std::set<int> maybe_feats[D];
    auto make_dom = [&](int d) {
        sett[d] = dm::domain_settings{false, r.chance(40), r.chance(40)};
        log("domain %d: duplicate names of mixins %d of features %d", d, int(sett[d].allow_duplicate_mixin_names), int(sett[d].allow_duplicate_feature_names));
        dom[d] = std::make_unique<dm::domain>("d", sett[d], 0, nullptr, dm::allocator(&res));
        known_feats[d].clear();
        maybe_feats[d].clear();
    };
    for (int d = 0; d < D; ++d) make_dom(d);
    auto check = [&] {
        for (int d = 0; d < D; ++d) {
            std::map<const dm::mutation_rule_info*, uint32_t> want, have;
            std::set<const dm::mixin_info*> wm, hm;
            for (int i = 0; i < N; ++i) if (where[i] == d) {
                wm.insert(&data[size_t(i)]->info);
                for (auto& x : rules_of[size_t(i)]) ++want[x.info];
            }
            dm::domain_traverse t(*dom[d]);
            t.traverse_mutation_rules([&](const dm::mutation_rule_info& x, uint32_t n) { have[&x] = n; });
            t.traverse_mixins([&](const dm::mixin_info& x) { hm.insert(&x); });
            VP_CHECK("register-rules", have == want, "domain %d has other rules than those of its mixins (%zu and not %zu)", d, have.size(), want.size());
            VP_CHECK("register-mixins", hm == wm, "domain %d has other mixins than registered (%zu and not %zu)", d, hm.size(), wm.size());
            std::set<const dm::feature_info*> hf;
            t.traverse_features([&](const dm::feature_info& x) { hf.insert(&x); });
            for (auto f : known_feats[d]) VP_CHECK("register-features", hf.count(feats[size_t(f)].get()), "a feature of a registered mixin is not registered");
            for (auto f : hf) {
                bool ok = false;
                for (auto k : maybe_feats[d]) ok |= feats[size_t(k)].get() == f;
                VP_CHECK("register-features", ok, "an unknown feature is registered");
            }
        }
        for (int i = 0; i < N; ++i) {
            auto& info = data[size_t(i)]->info;
            VP_CHECK("register-mixins", info.dom == (where[i] < 0 ? nullptr : dom[where[i]]->to_c_hanlde()) && info.registered() == (where[i] >= 0), "mixin %d does not know where it is registered", i);
        }
    };
    // as the domain does it
    auto closure = [&](int d, std::vector<int> l, bool& cyclic) {
        struct ent { int32_t prio; std::string name; const void* a; common c; };
        std::vector<ent> rs;
        std::set<const void*> seen;
        for (int i = 0; i < N; ++i) if (where[i] == d) for (auto& x : rules_of[size_t(i)]) if (seen.insert(x.info).second) rs.push_back({x.prio, x.name, x.info, x});
        std::sort(rs.begin(), rs.end(), [](const ent& a, const ent& b) {
            if (a.prio != b.prio) return a.prio < b.prio;
            if (a.name != b.name) return a.name < b.name;
            return uintptr_t(a.a) < uintptr_t(b.a);
        });
        auto last = l;
        l.erase(std::remove_if(l.begin(), l.end(), [&](int i) { return data[size_t(i)]->info.dependency; }), l.end());
        cyclic = false;
        for (int n = 0;; ++n) {
            for (auto& e : rs) if (e.c.kind == 0 && std::count(l.begin(), l.end(), e.c.a) && !std::count(l.begin(), l.end(), e.c.b)) l.push_back(e.c.b);
            if (last == l) return l;
            if (n == 5 || (n == int(rs.size()) && !rs.empty())) { cyclic = true; return l; }
            last = l;
        }
    };
    int steps = r.range(5, 30);
    for (int s = 0; s < steps; ++s) {
        int i = r.range(0, N - 1), d = r.chance(80) ? 0 : 1;
        auto& x = *data[size_t(i)];
        if (!feats_of[size_t(i)].empty()) d = 0; // features are of one domain
        int op = r.range(0, 9);
        if (op <= 4) {
            // expected?
            bool ok = !bad[size_t(i)];
            if (where[i] >= 0) { ok = false; }
            else if (ok) {
                std::set<int> news;
                for (auto f : feats_of[size_t(i)]) {
                    auto& fi = *feats[size_t(f)];
                    if (fi.iid() != dm::invalid_feature_id.i) continue; // features are in domain 0 only
                    if (!sett[d].allow_duplicate_feature_names && f >= 1) {
                        auto& twin = *feats[size_t(3 - f)];
                        if (twin.iid() != dm::invalid_feature_id.i) { ok = false; break; }
                        if (news.count(3 - f)) { ok = false; break; }
                    }
                    news.insert(f);
                }
                if (ok && !sett[d].allow_duplicate_mixin_names && (i == 0 || i == 5) && where[5 - i] == d) { ok = false; }
            }
            int k = r.chance(30) ? r.range(1, 12) : 0;
            log("register %d in %d, fault at %d [expect %s]", i, d, k, ok ? "ok" : "error");
            if (k) fault::arm(k, fault::alloc);
            std::string got = "ok";
            try { x.register_in(*dom[d]); }
            catch (std::bad_alloc&) { got = "bad_alloc"; }
            catch (dm::domain_error&) { got = "domain_error"; }
            catch (std::exception& e) { got = e.what(); }
            bool fired = fault::ctl().fired && k;
            fault::disarm();
            fault::ctl().fired = false;
            for (auto f : feats_of[size_t(i)]) if (feats[size_t(f)]->iid() != dm::invalid_feature_id.i) maybe_feats[d].insert(f);
            if (fired) {
                VP_CHECK("register-outcome", got == "bad_alloc", "registration gave %s after its allocation failed", got.c_str());
                count("registrations with failing memory");
            }
            else VP_CHECK("register-outcome", got == (ok ? "ok" : "domain_error"), "registration gave %s", got.c_str());
            if (got == "ok") {
                where[i] = d;
                for (auto f : feats_of[size_t(i)]) known_feats[d].insert(f), maybe_feats[d].insert(f);
                count("registrations");
            }
            else count("failed registrations");
            sig(got);
        }
        else if (op <= 6) {
            if (where[i] < 0) continue;
            log("unregister %d", i);
            x.unregister_from(*dom[where[i]]);
            where[i] = -1;
            count("unregistrations");
        }
        else if (op <= 8) {
            std::vector<int> l;
            for (int k = 0; k < N; ++k) if (where[k] == d && r.chance(40)) l.insert(l.begin() + r.below(uint32_t(l.size() + 1)), k);
            bool cyclic;
            auto want = closure(d, l, cyclic);
            bool possible = !cyclic;
            for (auto k : want) possible &= where[k] == d;
            std::vector<const dm::mixin_info*> q;
            std::string text;
            for (auto k : l) q.push_back(&data[size_t(k)]->info), text += std::to_string(k) + " ";
            log("type of %s in %d", text.c_str(), d);
            std::string got = "ok";
            const dm::type* t = nullptr;
            try { t = &dom[d]->get_type(q); }
            catch (dm::type_error&) { got = "error"; }
            catch (dm::domain_error&) { got = "error"; }
            VP_CHECK("register-types", got == (possible ? "ok" : "error"), "the request gave %s", got.c_str());
            if (t) {
                std::vector<const dm::mixin_info*> have(t->mixins.begin(), t->mixins.end()), w;
                for (auto k : want) w.push_back(&data[size_t(k)]->info);
                VP_CHECK("register-types", have == w, "the type has other mixins than the rules of the definitions lead to");
                count("types from rules of definitions");
                if (want != l) count("types changed by rules of definitions");
                sig(want.size());
            }
        }
        else if (r.chance(30)) {
            // (infos have to leave a domain before its end)
            log("domain %d ends", d);
            for (int k = 0; k < N; ++k) if (where[k] == d) {
                data[size_t(k)]->unregister_from(*dom[d]);
                where[k] = -1;
            }
            VP_CHECK("register-rules", dom[d]->num_mutation_rules() == 0 && dom[d]->num_types() == 0, "rules or types left with no mixins");
            if (d == 0) for (auto& f : feats) if (f->iid() != dm::invalid_feature_id.i) dom[d]->unregister_feature(*f);
            dom[d].reset();
            make_dom(d);
        }
        check();
    }
    nontrivial();
    for (auto& d : dom) d.reset();
    VP_CHECK("builder-memory", mon().outstanding(own_domain) == 0, "%zu blocks of domains remain", mon().outstanding(own_domain));
    data.clear();
    VP_CHECK("builder-memory", mon().outstanding(own_data) == 0, "%zu blocks of data remain", mon().outstanding(own_data));
}

// ------------------------------------------------------------------------------------------------
// instances which the macros define, dynamically

struct dyn_domain;
static dm::domain* dyn;
dm::domain& _dynamix_get_domain(dyn_domain*) { return *dyn; }
template <int I> struct dyn_mixin { int x = I; };

struct dyn_base { virtual ~dyn_base() = default; };
template <int I> struct dyn_inst : public dyn_base {
    using inst = dm::impl::mixin_info_data_instance<dyn_domain, dyn_mixin<I>>;
    inst i;
    dyn_inst() : i(dm::util::mixin_info_data_builder<dyn_mixin<I>>(nullptr, inst::the_data_safe())) {}
};

void run_instances(rng& r) {
    static bool built = false;
    dm::util::mixin_info_data* d[3] = {&dyn_inst<0>::inst::the_data_safe(), &dyn_inst<1>::inst::the_data_safe(), &dyn_inst<2>::inst::the_data_safe()};
    static dm::mutation_rule_info rule = {dnmx_make_sv_lit("dyn rule"), noop_rule, 0, 0};
    if (!built) {
        built = true;
        dm::util::mixin_info_data_builder<dyn_mixin<0>>(*d[0], std::string_view("dyn")).adds_mutation_rule(rule);
        dm::util::mixin_info_data_builder<dyn_mixin<1>>(*d[1], std::string_view("dyn 1")).adds_mutation_rule(rule).adds_mutation_rule(noop_rule);
        dm::util::mixin_info_data_builder<dyn_mixin<2>>(*d[2], std::string_view("dyn"));
    }
    mon().reset();
    resource res{own_domain};
    std::optional<dm::domain> dom;
    auto fresh = [&] {
        dom.reset();
        dom.emplace("dyn", dm::domain_settings{}, uintptr_t(0), nullptr, dm::allocator(&res));
        dyn = &*dom;
    };
    fresh();
    std::unique_ptr<dyn_base> inst[3];
    bool in[3] = {}; // registered in the current domain
    int steps = r.range(3, 16);
    for (int s = 0; s < steps; ++s) {
        size_t i = r.below(3);
        if (r.chance(8)) {
            log("another domain");
            for (auto& x : inst) x.reset();
            VP_CHECK("instance", dom->num_mutation_rules() == 0, "rules left with no mixins");
            fresh();
            for (auto& x : in) x = false;
        }
        else if (inst[i]) {
            log("instance %zu ends", i);
            inst[i].reset();
            in[i] = false;
        }
        else {
            bool ok = !(i != 1 && in[2 - i]) && !in[i];
            bool fired = false;
            log("instance %zu [expect %d]", i, ok);
            int k = r.chance(20) ? r.range(1, 8) : 0;
            if (k) fault::arm(k, fault::alloc);
            try {
                if (i == 0) inst[i] = std::make_unique<dyn_inst<0>>();
                else if (i == 1) inst[i] = std::make_unique<dyn_inst<1>>();
                else inst[i] = std::make_unique<dyn_inst<2>>();
            }
            catch (std::bad_alloc&) { VP_CHECK("instance", k && fault::ctl().fired, "definition failed with no reason"); fired = true; }
            catch (dm::domain_error&) { VP_CHECK("instance", !ok, "definition failed with no reason"); }
            fault::disarm();
            if (!fired) VP_CHECK("instance", (inst[i] != nullptr) == ok, "definition of instance %zu: %d", i, inst[i] != nullptr);
            in[i] = inst[i] != nullptr;
        }
        uint32_t refs = uint32_t(in[0]) + uint32_t(in[1]), n = 0;
        bool other = false;
        dm::domain_traverse(*dom).traverse_mutation_rules([&](const dm::mutation_rule_info& x, uint32_t k) { if (&x == &rule) n = k; else other = true; });
        VP_CHECK("instance", n == refs && other == in[1], "%u references to a rule and not %u", n, refs);
        VP_CHECK("instance", dom->get_mixin_info("dyn") == (in[0] ? &d[0]->info : in[2] ? &d[2]->info : nullptr) && dom->get_mixin_info("dyn 1") == (in[1] ? &d[1]->info : nullptr), "other mixins are registered than defined");
        count("instances");
        sig(i * 2 + in[i]);
    }
    for (auto& i : inst) i.reset();
    dom.reset();
    VP_CHECK("builder-memory", mon().outstanding(own_domain) == 0, "%zu blocks remain", mon().outstanding(own_domain));
    nontrivial();
}

void run_type_class(rng& r) {
    mon().reset();
    resource res{own_domain};
    res.faulty = false;
    dm::domain dom("d", {}, 0, nullptr, dm::allocator(&res));
    auto yes = [](dnmx_type_handle) noexcept { return true; };
    dm::type_class tcs[3] = {{dnmx_make_sv_lit("a"), yes}, {dnmx_make_sv_lit("b"), yes}, {dnmx_make_sv_lit("a"), yes}};
    std::unique_ptr<dm::impl::registered_type_class_instance> inst[3];
    int steps = r.range(2, 20);
    for (int s = 0; s < steps; ++s) {
        size_t i = r.below(3);
        if (inst[i]) inst[i].reset();
        else {
            bool ok = i == 1 || !inst[2 - i];
            bool got = true;
            try { inst[i] = std::make_unique<dm::impl::registered_type_class_instance>(dom, tcs[i]); }
            catch (dm::domain_error&) { got = false; }
            VP_CHECK("type-class", got == ok, "registration of a type class gave %d", int(got));
        }
        VP_CHECK("type-class", dom.get_type_class("b") == (inst[1] ? &tcs[1] : nullptr), "another type class under a name");
        VP_CHECK("type-class", dom.get_type_class("a") == (inst[0] ? &tcs[0] : inst[2] ? &tcs[2] : nullptr), "another type class under a name");
        count("type class instances");
        sig(i);
    }
    for (auto& i : inst) i.reset();
    nontrivial();
}
}

static void run(vp::rng& r) {
    static bool first = true;
    if (first) builder::check_static();
    first = false;
    int k = r.range(0, 99);
    if (k < 30) builder::run_classes(r);
    else if (k < 60) builder::run_builder(r);
    else if (k < 95) builder::run_register(r);
    else if (k < 98) builder::run_instances(r);
    else builder::run_type_class(r);
}
int main(int argc, char** argv) { return vp::run_main(argc, argv, run); }
