// The world: a domain with generated mixins, features, rules, type classes and objects, together with an
// executable reference model of all of it
#pragma once
#include "track.hpp"

#include <dynamix/common_feature_info.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dnmx/domain.h>
#include <dnmx/mutate.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>

#include <memory>
#include <optional>
#include <sstream>

namespace vp {

namespace dm = dynamix;

struct feat_desc {
    std::string name;
    dnmx_feature_info info = dnmx_make_feature_info();
    int home = 0; // domain it belongs to
    int index = 0;
    int dom = -1; // model: domain where registered
    uint32_t id = 0;
    char payload = 0;
};

using mlist = std::vector<mixin_desc*>;

struct rule_desc {
    std::string name;
    dnmx_mutation_rule_info info = {};
    int index = 0;
    int kind = 0;
    int x = 0, y = 0; // mixin descs (indices)
    bool c = false;
};

enum rule_kind {
    rk_noop, rk_add, rk_add_if, rk_remove, rk_remove_if, rk_to_back_if, rk_sort, rk_dedup, rk_toggle, rk_error_if, rk_throw_if, rk_error,
    rk_reverse, rk_add_always, rk_rotate_if, rk_front_if, rk_num, rk_canon = 100
};

struct tc_desc {
    std::string name;
    dnmx_type_class tc = {};
    int kind = 0;
    bool reg = false;
};

struct mx {
    mixin_desc* d;
    uint64_t token, content;
    void* addr;
};

struct obj {
    dm::object* o = nullptr;
    int alloc = own_default;
    std::vector<mx> mixins;
    bool sealed = false;
    int dom = 0;
    mlist list() const {
        mlist r;
        for (auto& m : mixins) r.push_back(m.d);
        return r;
    }
    const mx* find(const mixin_desc* d) const {
        for (auto& m : mixins) if (m.d == d) return &m;
        return nullptr;
    }
};

struct rule_order {
    bool operator()(const rule_desc* a, const rule_desc* b) const {
        if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
        if (a->name != b->name) return a->name < b->name;
        return std::less<const void*>()(&a->info, &b->info);
    }
};

struct dom_model {
    int index = 0;
    dm::domain* d = nullptr;
    dnmx_domain_settings settings = {};
    std::string name;
    bool c_created = false;
    std::vector<mixin_desc*> mslots;
    std::vector<feat_desc*> fslots;
    std::map<rule_desc*, uint32_t, rule_order> rules;
    std::map<mlist, const dm::type*> types; // living types
    std::set<mlist> maybe; // types which may have been created by the current operation
};

// outcomes
enum oc : unsigned { ok = 1, e_domain = 2, e_type = 4, e_object = 8, e_alloc = 16, e_injected = 32, e_feature = 64, e_c = 128, e_other = 256 };

struct capi_error {};
struct unwinding {};

struct resolved {
    unsigned mask = ok; // ok or all errors which are possible
    mlist list;
    int passes = 0;
    std::string must; // has to be in the error message
};

struct params {
    int pc = 30; // % of C api
    int pfault = 20; // % of operations with enumerated faults
    int punwind = 10; // % of operations run during unwinding
    int missing = 15; // % of missing functions
    int missing_cases = 8; // % of histories in which most mixins lack something
    int ext = 30; // % of external mixins
    int nrules = 3;
    int hostile_rules = 25;
    int bad = 20; // % of invalid input
    int deps = 20;
    int features = 2; // max per mixin
    int verify_all = 20; // % of steps with whole verification of types
    int nmix_min = 3, nmix_max = 9;
    int steps = 45;
    int dup_names = 10;
    int canon = 30;
    // some histories are large, so that nothing fits the smaller types of integers
    bool many_mixins = false, many_features = false, large_mixins = false, many_rules = false;
    std::map<std::string, int> w; // operation weights
};

struct world;
inline world*& the_world() { static world* w = nullptr; return w; }

extern "C" dnmx_error_return_t vp_rule_apply(dnmx_type_mutation_handle h, uintptr_t ud);
bool vp_tc0(dnmx_type_handle t) noexcept;
bool vp_tc1(dnmx_type_handle t) noexcept;
bool vp_tc2(dnmx_type_handle t) noexcept;
bool vp_tc3(dnmx_type_handle t) noexcept;

struct world {
    params p;
    rng& r;

    resource res_default{own_default}, res_dom{own_domain}, res0{own_obj0}, res1{own_obj1}, res2{own_obj2};
    cpp_mixin_allocator ma0{own_ma0}, ma1{own_ma1};
    dnmx_mixin_allocator_handle mac = nullptr;

    bool many_missing = false;
    std::vector<std::unique_ptr<feat_desc>> feats;
    std::vector<std::unique_ptr<mixin_desc>> mixins;
    std::vector<int> mixin_home;
    std::unique_ptr<rule_desc[]> rules; // array, so the order of addresses is known
    int nrules = 0;
    rule_desc canon;
    std::vector<std::unique_ptr<tc_desc>> tcs;
    dom_model dom[2];
    std::vector<obj> objs;
    std::vector<int> rule_log;
    base_resource* old_default = nullptr;
    uint64_t contents = 1000;
    unsigned tc_tick = 0;
    bool nul_names = false; // some name has a zero byte, so error messages may be cut
    bool fault_attempt = false; // the current attempt is with an armed fault

    explicit world(rng& r, const params& p) : p(p), r(r) {}

    // --------------------------------------------------------------------------------------------
    // setup

    static std::vector<std::string> name_pool() {
        using namespace std::string_literals;
        return {"m"s, "m1"s, "m10"s, "a"s, "ab"s, "abc"s, "z\xff"s, "z\x01"s, "b\0c"s, "b"s, "b\0"s, "Mixin"s, "z"s, "canonicalize types"s};
    }

    dm::allocator alloc_of(int owner) {
        switch (owner) {
        case own_domain: return dm::allocator(&res_dom);
        case own_obj0: return dm::allocator(&res0);
        case own_obj1: return dm::allocator(&res1);
        case own_obj2: return dm::allocator(&res2);
        default: return dm::allocator();
        }
    }
    int rnd_alloc() {
        static const int o[] = {own_default, own_obj0, own_obj0, own_obj1, own_obj1, own_obj2};
        return o[r.below(6)];
    }

    void setup() {
        the_world() = this;
        mon().reset();
        old_default = vp::set_default_resource(&res_default);
        mac = dnmx_create_mixin_allocator(c_alloc_mixin, c_dealloc_mixin);
        VP_CHECK("mixin-allocator", mac, "dnmx_create_mixin_allocator returned null");

        many_missing = r.chance(p.missing_cases);

        // domains
        for (int i = 0; i < 2; ++i) {
            auto& d = dom[i];
            d.index = i;
            d.settings = {};
            if (i == 0) {
                d.settings.canonicalize_types = r.chance(p.canon);
                d.settings.allow_duplicate_mixin_names = r.chance(p.dup_names);
                d.settings.allow_duplicate_feature_names = r.chance(p.dup_names);
            }
            d.name = i == 0 ? (r.chance(20) ? "" : "dom-zero") : "dom-one";
            d.c_created = r.chance(p.pc);
            if (d.c_created) {
                auto hd = dnmx_create_domain(dm_sv(d.name), d.settings, 40 + i, this);
                VP_CHECK("domain-create", hd, "dnmx_create_domain returned null");
                d.d = dm::domain::from_c_handle(hd);
            }
            else {
                d.d = new dm::domain(d.name, d.settings, 40 + i, this, dm::allocator(&res_dom));
            }
        }
        canon.name = "canonicalize types";
        canon.kind = rk_canon;
        canon.index = -1;
        canon.info.order_priority = INT32_MAX;
        if (dom[0].settings.canonicalize_types) dom[0].rules[&canon] = 1;

        // features
        int nf = p.many_features ? r.range(257, 300) : r.range(1, 6);
        for (int i = 0; i < nf + 2; ++i) {
            auto f = std::make_unique<feat_desc>();
            f->home = i >= nf;
            f->index = i;
            f->name = std::string("feat") + (i == 1 ? "" : std::to_string(i > 7 ? i + 100 : i % 4 + (i > 3 ? 10 : 0)));
            if (i == 2 && r.chance(15)) f->name = "";
            if (i == 3 && r.chance(20)) f->name = feats[0]->name;
            f->info.name = dm_sv(f->name);
            f->info.allow_clashes = (p.many_mixins && i == 0) || r.chance(p.many_mixins ? 95 : 65);
            f->info.feature_class = uint64_t(i) * 1000 + 17;
            if (r.chance(25)) f->info.default_payload = &f->payload;
            feats.push_back(std::move(f));
        }

        // mixins
        auto pool = name_pool();
        for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.below(uint32_t(i))]);
        int nm = p.many_mixins ? r.range(290, 340) : r.range(p.nmix_min, p.nmix_max);
        while (pool.size() < size_t(nm) + 2) pool.push_back((pool.size() % 2 ? "m" : "zz") + std::to_string(pool.size() * 7 % 1000));
        for (int i = 0; i < nm + 2; ++i) {
            int home = i >= nm;
            auto d = std::make_unique<mixin_desc>();
            d->index = i;
            d->name = pool[size_t(i)];
            if (dom[0].settings.allow_duplicate_mixin_names) {
                if (i && r.chance(30)) d->name = mixins[r.below(uint32_t(i))]->name;
                if (r.chance(10)) d->name = "";
            }
            else if (i > 1 && r.chance(p.bad / 6)) d->name = mixins[0]->name;
            else if (r.chance(p.bad / 8)) d->name = "";
            shape(d.get(), home);
            if (d->name.find('\0') != std::string::npos) nul_names = true;
            mixins.push_back(std::move(d));
            mixin_home.push_back(home);
        }

        // rules
        nrules = p.many_rules ? r.range(30, 60) : r.range(0, p.nrules * 2);
        rules.reset(new rule_desc[size_t(nrules) + 1]);
        static const int good_kinds[] = {rk_noop, rk_add_if, rk_add_if, rk_add_if, rk_remove, rk_remove_if, rk_add, rk_dedup, rk_sort, rk_to_back_if, rk_front_if};
        static const int bad_kinds[] = {rk_toggle, rk_error_if, rk_throw_if, rk_error, rk_reverse, rk_add_always, rk_rotate_if, rk_to_back_if};
        for (int i = 0; i < nrules; ++i) {
            auto& ru = rules[i];
            ru.index = i;
            ru.kind = r.chance(p.hostile_rules) ? bad_kinds[r.below(8)] : good_kinds[r.below(11)];
            ru.x = int(r.below(uint32_t(nm)));
            ru.y = int(r.below(uint32_t(nm)));
            if (r.chance(3)) ru.x = nm; // foreign
            ru.c = r.chance(p.pc);
            static const char* names[] = {"", "r", "r1", "r0", "a rule", "canon", "zz"};
            ru.name = names[r.below(7)];
            ru.info.name = dm_sv(ru.name);
            ru.info.apply = vp_rule_apply;
            ru.info.user_data = uintptr_t(&ru);
            static const int32_t prios[] = {0, 0, 0, 1, -1, 5, INT32_MIN, INT32_MAX};
            ru.info.order_priority = prios[r.below(8)];
            if (ru.info.order_priority == INT32_MAX) ru.info.order_priority = INT32_MAX - 1;
        }

        // type classes
        for (int i = 0; i < 5; ++i) {
            auto t = std::make_unique<tc_desc>();
            t->name = i == 4 ? "tc0" : "tc" + std::to_string(i);
            if (i == 3 && r.chance(30)) t->name = "";
            t->kind = i % 4;
            static const dnmx_type_class_match_func f[] = {vp_tc0, vp_tc1, vp_tc2, vp_tc3};
            t->tc.name = dm_sv(t->name);
            t->tc.matches = f[i % 4];
            tcs.push_back(std::move(t));
        }
    }

    // (new) characteristics of a mixin which is not registered
    void shape(mixin_desc* d, int home) {
        d->info = dnmx_make_mixin_info();
        d->alloc = -1;
        auto& info = d->info;
        info.name = dm_sv(d->name);
        static const uint32_t sizes[] = {0, 1, 3, 8, 8, 16, 24, 40, 7, 100, 33};
        static const uint32_t large[] = {127, 128, 129, 255, 256, 257, 600, 4096, 32767, 32768, 65535, 65536, 70000, 131072};
        d->size = p.large_mixins && r.chance(60) ? large[r.below(14)] : sizes[r.below(11)];
        d->align = uint32_t(1) << r.below(5);
        if (p.large_mixins && r.chance(30)) d->align = 128u << r.below(6);
        if (r.chance(15)) d->align = 32u << r.below(3);
        if (d->size == 0 && r.chance(50)) d->align = 0;
        info.set_size_alignment(d->size, d->align);
        info.user_data = uintptr_t(d);
        info.mixin_class = 70 + uint64_t(d->index);
        info.type_info_class = 170 + uint64_t(d->index);
        bool miss = r.chance(many_missing ? 75 : p.missing);
        auto has = [&](int pc) { return !miss || !r.chance(pc); };
        if (has(many_missing ? 5 : 25)) info.init = f_init;
        if (has(35)) info.copy_init = f_copy_init;
        if (has(30)) info.move_init = f_move_init;
        if (has(35)) info.copy_asgn = f_copy_asgn;
        if (has(35)) info.move_asgn = f_move_asgn;
        if (has(35)) info.equals = f_equals;
        if (has(35)) info.compare = f_compare;
        d->has_destroy = has(20);
        if (d->has_destroy) info.destroy = f_destroy;
        if (r.chance(p.ext)) {
            int k = r.range(0, 4);
            if (k == 0) info.force_external = true;
            else if (k == 1) info.move_init = nullptr;
            else if (k == 2) { d->alloc = own_ma0; info.allocator = ma0.to_c_hanlde(); }
            else if (k == 3) { d->alloc = own_ma1; info.allocator = ma1.to_c_hanlde(); }
            else { d->alloc = own_mac; info.allocator = mac; }
        }
        info.order_priority = r.chance(60) ? 0 : r.range(-2, 2);
        if (r.chance(5)) info.order_priority = r.chance(50) ? INT32_MIN : INT32_MAX;
        info.dependency = r.chance(p.deps);
        // features
        std::vector<feat_desc*> av;
        for (auto& f : feats) if (f->home == home) av.push_back(f.get());
        int k = r.range(p.many_mixins, p.features);
        d->payloads.reset(new char[64]);
        d->uses.clear();
        d->features = std::make_shared<std::vector<dnmx_feature_for_mixin>>();
        for (int j = 0; j < k && !av.empty(); ++j) {
            auto fi = p.many_mixins && j == 0 && r.chance(98) ? 0 : r.below(uint32_t(av.size()));
            auto f = av[fi];
            av.erase(av.begin() + fi);
            static const int32_t vals[] = {0, 0, 0, 1, -1, 2, INT32_MAX, INT32_MIN};
            int32_t bid = vals[r.below(8)], prio = vals[r.below(8)];
            d->uses.push_back({f, bid, prio});
            d->features->push_back({&f->info, d->payloads.get() + d->uses.size(), bid, prio});
            // the same feature again
            while (d->uses.size() < 15 && r.chance(p.many_mixins ? 2 : 7)) {
                if (r.chance(40)) bid = vals[r.below(8)];
                if (r.chance(40)) prio = vals[r.below(8)];
                bool same = false;
                for (auto& u : d->uses) same |= u.f == f && u.bid == bid && u.prio == prio;
                if (same && (f->info.allow_clashes || r.chance(60))) continue; // (the order of these is not specified)
                d->uses.push_back({f, bid, prio});
                d->features->push_back({&f->info, d->payloads.get() + d->uses.size(), bid, prio});
            }
        }
        // mixins may share a table of features
        if (r.chance(p.many_mixins ? 1 : 8)) {
            std::vector<mixin_desc*> others;
            for (size_t i = 0; i < mixins.size(); ++i) {
                if (mixins[i].get() != d && mixin_home[i] == home && !mixins[i]->uses.empty()) others.push_back(mixins[i].get());
            }
            if (!others.empty()) {
                auto o = others[r.below(uint32_t(others.size()))];
                d->uses = o->uses;
                d->payloads = o->payloads;
                d->features = o->features;
                count("mixins which share a table of features");
            }
        }
        info.set_features(*d->features);
    }

    static dnmx_sv dm_sv(const std::string& s) { return dnmx_make_sv_be(s.data(), s.data() + s.size()); }

    void teardown() {
        // objects first
        for (auto& o : objs) destroy_obj(o);
        objs.clear();
        VP_CHECK("leak-mixin", live_with_destroy() == 0, "%zu mixins alive after all objects were destroyed", live_with_destroy());
        for (int i = 0; i < 2; ++i) {
            for (auto& t : dom[i].types) VP_CHECK("num-objects", t.second->num_objects() == 0, "type has %zu objects after all were destroyed", t.second->num_objects());
            if (dom[i].c_created) dnmx_destroy_domain(dom[i].d->to_c_hanlde());
            else delete dom[i].d;
        }
        dnmx_destroy_mixin_allocator(mac);
        for (auto& b : mon().blocks) {
            fail("leak", "block of size %zu of owner %d was not deallocated", b.second.size, b.second.owner);
        }
        vp::set_default_resource(old_default);
        the_world() = nullptr;
    }
    size_t live_with_destroy() const {
        size_t n = 0;
        for (auto& i : mon().insts) n += i.second.d->has_destroy;
        return n;
    }

    // --------------------------------------------------------------------------------------------
    // strings

    static std::string show(const std::string& s) {
        std::string o;
        for (unsigned char c : s) {
            char b[8];
            if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
            else o += char(c);
        }
        return o;
    }
    static std::string show(const mlist& l) {
        std::string s = "{";
        for (auto m : l) {
            if (s.size() > 1) s += ", ";
            s += m ? std::to_string(m->index) + ":" + show(m->name) : "null";
        }
        return s + "}";
    }
    static std::string show_infos(dm::type const& t) {
        mlist l;
        for (auto m : t.mixins) l.push_back(const_cast<mixin_desc*>(desc_of(m)));
        return show(l);
    }

    // --------------------------------------------------------------------------------------------
    // model

    bool registered(const mixin_desc* d, int di) const { return d->dom == di; }
    mixin_desc* by_name(int di, const std::string& n) const {
        for (auto m : dom[di].mslots) if (m && m->name == n) return m;
        return nullptr;
    }
    bool name_ambiguous(int di, const std::string& n) const {
        int c = 0;
        for (auto m : dom[di].mslots) c += m && m->name == n;
        return c > 1;
    }

    template <typename V> static bool contains(const V& v, const mixin_desc* d) { return std::find(v.begin(), v.end(), d) != v.end(); }

    bool canon_less(const mixin_desc* a, const mixin_desc* b) const {
        if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
        if (a->name != b->name) return a->name < b->name;
        if (a->info.id.i != b->info.id.i) return a->info.id.i < b->info.id.i;
        return std::less<const void*>()(&a->info, &b->info);
    }

    // 0 ok, else error
    unsigned apply_model(const rule_desc& ru, mlist& l) const {
        if (ru.kind == rk_canon) {
            std::sort(l.begin(), l.end(), [&](auto a, auto b) { return canon_less(a, b); });
            return 0;
        }
        auto x = mixins[size_t(ru.x)].get();
        auto y = mixins[size_t(ru.y)].get();
        auto erase_first = [&](mixin_desc* d) {
            auto f = std::find(l.begin(), l.end(), d);
            if (f == l.end()) return false;
            l.erase(f);
            return true;
        };
        switch (ru.kind) {
        case rk_noop: break;
        case rk_add: if (!contains(l, x)) l.push_back(x); break;
        case rk_add_if: if (contains(l, y) && !contains(l, x)) l.push_back(x); break;
        case rk_remove: erase_first(x); break;
        case rk_remove_if: if (contains(l, y)) erase_first(x); break;
        case rk_to_back_if: if (contains(l, x)) { erase_first(x); l.push_back(x); } break;
        case rk_front_if: if (contains(l, x)) { erase_first(x); l.insert(l.begin(), x); } break;
        case rk_sort: std::sort(l.begin(), l.end(), [](auto a, auto b) { return a->index < b->index; }); break;
        case rk_dedup: {
            mlist n;
            for (size_t i = 0; i < l.size(); ++i) {
                if (std::find(l.begin() + long(i) + 1, l.end(), l[i]) == l.end()) n.push_back(l[i]);
            }
            l = n;
            break;
        }
        case rk_toggle: if (!erase_first(x)) l.push_back(x); break;
        case rk_error_if: if (contains(l, x)) return e_type; break;
        case rk_throw_if: if (contains(l, x)) return e_injected; break;
        case rk_error: return e_type;
        case rk_reverse: std::reverse(l.begin(), l.end()); break;
        case rk_add_always: l.push_back(x); break;
        case rk_rotate_if: if (contains(l, x) && l.size() > 1) std::rotate(l.begin(), l.begin() + 1, l.end()); break;
        }
        return 0;
    }

    // the type which a request leads to
    resolved resolve(int di, const mlist& req) const {
        resolved res;
        auto& dmod = dom[di];
        mlist last = req, cur;
        for (auto m : req) if (!m->info.dependency) cur.push_back(m);
        for (int i = 0;; ++i) {
            ++res.passes;
            for (auto& ru : dmod.rules) {
                if (auto e = apply_model(*ru.first, cur)) {
                    res.mask = e;
                    if (e == e_type) res.must = ru.first->name;
                    return res;
                }
            }
            if (last == cur) break;
            if (i == 5 || (i == int(dmod.rules.size()) && !dmod.rules.empty())) {
                res.mask = e_type;
                return res;
            }
            last = cur;
        }
        res.list = cur;
        if (cur.empty() || dmod.types.count(cur)) return res;
        unsigned err = 0;
        std::vector<std::string> about;
        for (size_t i = 0; i < cur.size(); ++i) {
            if (cur[i]->dom == -1) { err |= e_type; about.push_back(cur[i]->name); }
            else if (cur[i]->dom != di) { err |= e_domain; about.push_back(cur[i]->name); }
            for (size_t j = i + 1; j < cur.size(); ++j) if (cur[i] == cur[j]) { err |= e_type; about.push_back(cur[i]->name); }
        }
        if (!err) {
            if (auto cs = clashes(cur); !cs.empty()) { err |= e_type; for (auto c : cs) about.push_back(c->name); }
        }
        if (err) {
            res.mask = err;
            if (about.size() == 1) res.must = about[0];
        }
        return res;
    }
    std::set<const feat_desc*> clashes(const mlist& l) const {
        std::set<std::tuple<const feat_desc*, int32_t, int32_t>> seen;
        std::set<const feat_desc*> res;
        for (auto m : l) for (auto& u : m->uses) {
            if (u.f->info.allow_clashes) continue;
            if (!seen.insert({u.f, u.bid, u.prio}).second) res.insert(u.f);
        }
        return res;
    }

    struct pl {
        uint32_t mixin_index;
        const feat_use* use;
        const dnmx_feature_for_mixin* data;
    };
    std::vector<pl> model_table(const mlist& l, const feat_desc* f) const {
        std::vector<pl> v;
        for (uint32_t i = 0; i < l.size(); ++i) {
            for (size_t j = 0; j < l[i]->uses.size(); ++j) {
                if (l[i]->uses[j].f == f) v.push_back({i, &l[i]->uses[j], &(*l[i]->features)[j]});
            }
        }
        std::sort(v.begin(), v.end(), [](const pl& a, const pl& b) {
            if (a.use->bid != b.use->bid) return a.use->bid > b.use->bid;
            if (a.use->prio != b.use->prio) return a.use->prio < b.use->prio;
            return a.mixin_index > b.mixin_index;
        });
        return v;
    }

    // --------------------------------------------------------------------------------------------
    // verification

    const dm::type* type_of(int di, const mlist& l) {
        if (l.empty()) return &dom[di].d->get_empty_type();
        auto f = dom[di].types.find(l);
        return f == dom[di].types.end() ? nullptr : f->second;
    }

    // bring model types in sync with the domain: types of the model have to exist and there may be no
    // others, except those which the current operation may have created
    void sync_types(dom_model& d) {
        std::map<mlist, const dm::type*> actual;
        {
            dm::domain_traverse tr(*d.d);
            tr.traverse_types([&](const dm::type& t) {
                mlist l;
                for (auto m : t.mixins) l.push_back(const_cast<mixin_desc*>(desc_of(m)));
                VP_CHECK("empty-type-listed", !l.empty(), "an empty type is in the list of types");
                VP_CHECK("type-duplicate", actual.emplace(l, &t).second, "two types for %s", show(l).c_str());
            });
        }
        for (auto& t : d.types) {
            auto f = actual.find(t.first);
            VP_CHECK("type-lost", f != actual.end(), "type %s does not exist any more", show(t.first).c_str());
            VP_CHECK("type-replaced", f->second == t.second, "type %s was replaced by another one", show(t.first).c_str());
        }
        for (auto& a : actual) {
            if (d.types.count(a.first)) continue;
            VP_CHECK("type-unexpected", d.maybe.count(a.first), "unexpected type %s exists", show(a.first).c_str());
            d.types[a.first] = a.second;
            count("types created");
            if (a.first.size() > 255) count("types of more than 255 mixins");
            if (a.second->object_buffer_size > 65535) count("types with objects of more than 64 KiB");
            verify_type(d, a.first, *a.second);
        }
        VP_CHECK("num-types", d.d->num_types() == d.types.size(), "num_types is %zu and not %zu", d.d->num_types(), d.types.size());
        VP_CHECK("num-types-c", dnmx_get_num_types(d.d->to_c_hanlde()) == d.types.size(), "dnmx_get_num_types is wrong");
    }

    void verify_type(dom_model& d, const mlist& l, const dm::type& t) {
        auto ht = &t;
        auto s = show(l);
        count("type verifications");
        VP_CHECK("type-domain", &t.dom == d.d, "type %s has a wrong domain", s.c_str());
        VP_CHECK("type-mixins", t.num_mixins() == l.size() && t.mixins.size() == l.size(), "type %s has %u mixins", s.c_str(), t.num_mixins());
        VP_CHECK("type-mixins", dnmx_type_num_mixins(ht) == l.size(), "type %s: C num mixins", s.c_str());
        for (uint32_t i = 0; i < l.size(); ++i) {
            VP_CHECK("type-mixins", t.mixins[i] == &l[i]->info, "type %s: mixin %u is wrong", s.c_str(), i);
        }
        // indices
        for (auto& mp : mixins) {
            auto m = mp.get();
            if (m->dom != d.index) continue;
            auto f = std::find(l.begin(), l.end(), m);
            uint32_t idx = f == l.end() ? dm::invalid_mixin_index : uint32_t(f - l.begin());
            VP_CHECK("type-index", t.index_of(m->info.id) == idx, "type %s: index of %s is %u and not %u", s.c_str(), show(m->name).c_str(), t.index_of(m->info.id), idx);
            VP_CHECK("type-index", dnmx_type_index_of(ht, &m->info) == idx, "type %s: C index of %s", s.c_str(), show(m->name).c_str());
            bool h = idx != dm::invalid_mixin_index;
            VP_CHECK("type-has", t.has(m->info) == h && t.has(m->info.id) == h && t.lacks(m->info) != h && t.lacks(m->info.id) != h && dnmx_type_has(ht, &m->info) == h,
                "type %s: has %s is not %d", s.c_str(), show(m->name).c_str(), h);
            // by name: first one with it
            uint32_t nidx = dm::invalid_mixin_index;
            for (uint32_t i = 0; i < l.size() && nidx == dm::invalid_mixin_index; ++i) if (l[i]->name == m->name) nidx = i;
            bool nh = nidx != dm::invalid_mixin_index;
            auto ni = t.index_of(m->name);
            VP_CHECK("type-name", (ni != dm::invalid_mixin_index) == nh && (!nh || (ni < l.size() && l[ni]->name == m->name)), "type %s: index of name %s", s.c_str(), show(m->name).c_str());
            if (nh && !name_ambiguous(d.index, m->name)) VP_CHECK("type-name", ni == nidx, "type %s: index of name %s is %u", s.c_str(), show(m->name).c_str(), ni);
            VP_CHECK("type-name", dnmx_type_index_of_name(ht, dm_sv(m->name)) == ni, "type %s: C index of name", s.c_str());
            VP_CHECK("type-name", t.has(m->name) == nh && t.lacks(m->name) != nh && dnmx_type_has_by_name(ht, dm_sv(m->name)) == nh, "type %s: has by name %s", s.c_str(), show(m->name).c_str());
        }
        VP_CHECK("type-name", !t.has("no such mixin") && t.index_of("mm") == dm::invalid_mixin_index && !t.has(dm::invalid_mixin_id), "type %s has what it hasn't", s.c_str());
        // layout
        uint32_t minsize = uint32_t(l.size() * sizeof(dnmx_object_mixin_data)), maxalign = 8;
        std::vector<std::pair<uint64_t, uint64_t>> ranges = {{0, minsize}};
        for (uint32_t i = 0; i < l.size(); ++i) {
            auto& info = l[i]->info;
            auto off = t.mixin_offsets[i];
            VP_CHECK("type-layout", (off == 0) == info.external(), "type %s: mixin %u: offset %u", s.c_str(), i, off);
            if (!off) continue;
            maxalign = std::max(maxalign, l[i]->align);
            VP_CHECK("type-layout", off % std::max(l[i]->align, 8u) == 0, "type %s: mixin %u is misaligned", s.c_str(), i);
            ranges.push_back({off - 8, off + l[i]->size});
            VP_CHECK("type-layout", off + l[i]->size <= t.object_buffer_size, "type %s: mixin %u is out of the buffer", s.c_str(), i);
        }
        std::sort(ranges.begin(), ranges.end());
        for (size_t i = 1; i < ranges.size(); ++i) VP_CHECK("type-layout", ranges[i].first >= ranges[i - 1].second, "type %s: mixins overlap", s.c_str());
        VP_CHECK("type-layout", t.object_buffer_size >= minsize && (t.object_buffer_alignment % maxalign == 0 || l.empty()), "type %s: buffer size %u align %u", s.c_str(), t.object_buffer_size, t.object_buffer_alignment);
        // traits
        auto all = [&](auto f) { return std::all_of(l.begin(), l.end(), [&](mixin_desc* m) { return f(m->info); }); };
        bool dc = all([](auto& i) { return !!i.init; }), cc = all([](auto& i) { return !!i.copy_init; }), ca = all([](auto& i) { return !!i.copy_asgn; });
        bool eq = all([](auto& i) { return i.equals || i.compare; }), cmp = all([](auto& i) { return !!i.compare; });
        VP_CHECK("type-traits", t.default_constructible() == dc && dnmx_type_is_default_constructible(ht) == dc, "type %s: default constructible", s.c_str());
        VP_CHECK("type-traits", t.copy_constructible() == cc && dnmx_type_is_copy_constructible(ht) == cc, "type %s: copy constructible", s.c_str());
        VP_CHECK("type-traits", t.copy_assignable() == ca && dnmx_type_is_copy_assignable(ht) == ca, "type %s: copy assignable", s.c_str());
        VP_CHECK("type-traits", t.copyable() == (cc && ca) && dnmx_type_is_copyable(ht) == (cc && ca), "type %s: copyable", s.c_str());
        VP_CHECK("type-traits", t.equality_comparable() == eq && dnmx_type_is_equality_comparable(ht) == eq, "type %s: equality comparable", s.c_str());
        VP_CHECK("type-traits", t.comparable() == cmp && dnmx_type_is_comparable(ht) == cmp, "type %s: comparable", s.c_str());
        // type classes
        for (auto& tc : tcs) {
            bool m = tc->tc.matches(ht);
            VP_CHECK("type-class", t.is_of(tc->tc) == m && dnmx_type_is_of(ht, &tc->tc) == m, "type %s: is of type class %s", s.c_str(), tc->name.c_str());
        }
        if (d.index == 0) {
            for (const char* n : {"tc0", "tc1", "tc2", "tc3", "tcx"}) {
                const tc_desc* reg = nullptr;
                for (auto& tc : tcs) if (tc->reg && tc->name == n) reg = tc.get();
                if (!reg && tc_tick++ % 16) continue; // failures are slow, so not all of them
                bool cres = dnmx_type_is_of_name(ht, dnmx_make_sv_str(n));
                if (reg) {
                    VP_CHECK("type-class-name", t.is_of(n) == reg->tc.matches(ht), "type %s: is of registered %s", s.c_str(), n);
                    VP_CHECK("type-class-name", cres == reg->tc.matches(ht), "type %s: C is of registered %s", s.c_str(), n);
                }
                else {
                    bool thrown = false;
                    try { (void)t.is_of(n); } catch (dm::type_error& e) { thrown = true; VP_CHECK("type-class-msg", nul_names || strstr(e.what(), n), "unknown type class error does not name it: %s", e.what()); }
                    VP_CHECK("type-class-name", thrown && !cres, "type %s: is_of an unknown type class '%s' does not fail", s.c_str(), n);
                }
            }
        }
        verify_ftable(d, l, t);
    }

    void verify_ftable(dom_model& d, const mlist& l, const dm::type& t) {
        auto s = show(l);
        auto ht = &t;
        for (auto& fp : feats) {
            auto f = fp.get();
            if (f->home != d.index) continue;
            auto mt = model_table(l, f);
            auto fname = f->name.c_str();
            if (f->dom != d.index) {
                VP_CHECK("ftable", mt.empty(), "type %s uses the unregistered feature %s", s.c_str(), fname);
                continue;
            }
            auto e = t.ftable_at(f->info.id);
            auto e2 = dnmx_ftable_at(ht, f->info.id);
            VP_CHECK("ftable", e.begin == e2.begin && e.end == e2.end && e.top_bid_back == e2.top_bid_back, "type %s: feature %s: C table differs", s.c_str(), fname);
            VP_CHECK("ftable", size_t(e.end - e.begin) == mt.size() && !!e == !mt.empty(), "type %s: feature %s has %d payloads and not %zu", s.c_str(), fname, int(e.end - e.begin), mt.size());
            for (size_t i = 0; i < mt.size(); ++i) {
                auto& a = e.begin[i];
                VP_CHECK("ftable-order", a.mixin_index == mt[i].mixin_index, "type %s: feature %s payload %zu is of mixin %u and not %u", s.c_str(), fname, i, a.mixin_index, mt[i].mixin_index);
                VP_CHECK("ftable-payload", a.data == mt[i].data && a.payload == mt[i].data->payload, "type %s: feature %s payload %zu is wrong", s.c_str(), fname, i);
            }
            if (!mt.empty()) {
                size_t top = 0;
                while (top + 1 < mt.size() && mt[top + 1].use->bid == mt[0].use->bid) ++top;
                VP_CHECK("ftable-top", e.top_bid_back == e.begin + top, "type %s: feature %s: last of top bid is %d and not %zu", s.c_str(), fname, int(e.top_bid_back - e.begin), top);
                count("ftable entries");
                if (mt.size() > 1) count("ftable entries with many payloads");
                if (mt.size() > 255) count("ftable entries with more than 255 payloads");
            }
            bool strong = !mt.empty();
            bool impl = strong || f->info.default_payload;
            VP_CHECK("implements", t.implements_strong(f->info) == strong && t.implements_strong(f->info.id) == strong && dnmx_type_implements_strong(ht, &f->info) == strong,
                "type %s: implements strong %s is not %d", s.c_str(), fname, strong);
            VP_CHECK("implements", t.implements(f->info) == impl && dnmx_type_implements(ht, &f->info) == impl, "type %s: implements %s is not %d", s.c_str(), fname, impl);
            bool nstrong = false;
            for (auto m : l) for (auto& u : m->uses) nstrong |= u.f->name == f->name;
            VP_CHECK("implements", t.implements_strong(f->name) == nstrong && dnmx_type_implements_strong_by_name(ht, dm_sv(f->name)) == nstrong, "type %s: implements strong by name %s is not %d", s.c_str(), fname, nstrong);
            // next
            for (auto& mp : mixins) {
                if (mp->dom != d.index) continue;
                // (next to itself or not is not specified)
                if (std::count_if(mp->uses.begin(), mp->uses.end(), [&](const feat_use& u) { return u.f == f; }) > 1) {
                    count("mixins which implement a feature more than once");
                    continue;
                }
                size_t at = 0;
                auto fi = std::find(l.begin(), l.end(), mp.get());
                uint32_t mi = uint32_t(fi - l.begin());
                if (fi == l.end()) at = mt.size();
                else while (at < mt.size() && mt[at].mixin_index != mi) ++at;
                auto n = t.find_next_implementer(f->info, mp->info);
                const dnmx_ftable_payload* en = at + 1 < mt.size() ? e.begin + at + 1 : nullptr;
                VP_CHECK("next-implementer", n == en, "type %s: feature %s: wrong next implementer after %s", s.c_str(), fname, show(mp->name).c_str());
                auto b = t.find_next_bidder_set(f->info, mp->info);
                size_t bb = at;
                while (bb < mt.size() && mt[bb].use->bid == mt[at].use->bid) ++bb;
                size_t be = bb;
                while (be < mt.size() && mt[be].use->bid == mt[bb].use->bid) ++be;
                VP_CHECK("next-bidders", b.size() == be - bb && (b.empty() || b.data() == e.begin + bb), "type %s: feature %s: wrong next bidder set after %s", s.c_str(), fname, show(mp->name).c_str());
            }
        }
        VP_CHECK("implements", !t.implements_strong("nothing") && !t.implements_strong(dm::feature_id{dnmx_invalid_id}), "type %s implements nothing", s.c_str());
    }

    void verify_registry(dom_model& d) {
        auto hd = d.d->to_c_hanlde();
        for (auto& mp : mixins) {
            auto m = mp.get();
            if (m->dom == -1) {
                VP_CHECK("unregistered-info", m->info.id.i == dnmx_invalid_id && !m->info.dom, "mixin %s is not registered but has an id or domain", show(m->name).c_str());
            }
            if (m->dom != d.index) continue;
            VP_CHECK("mixin-id", m->info.id.i == m->id, "mixin %s has id %u and not %u", show(m->name).c_str(), m->info.id.i, m->id);
            VP_CHECK("mixin-dom", m->info.dom == hd, "mixin %s has a wrong domain", show(m->name).c_str());
            VP_CHECK("mixin-by-name", by_name_ok(d, d.d->get_mixin_info(m->name), m->name), "mixin is not found by name %s", show(m->name).c_str());
            VP_CHECK("mixin-by-name", by_name_ok(d, dnmx_get_mixin_info_by_name(hd, dm_sv(m->name)), m->name), "C: mixin is not found by name %s", show(m->name).c_str());
        }
        for (uint32_t i = 0; i < d.mslots.size() + 2; ++i) {
            auto e = i < d.mslots.size() && d.mslots[i] ? &d.mslots[i]->info : nullptr;
            VP_CHECK("mixin-by-id", d.d->get_mixin_info(dm::mixin_id{i}) == e && dnmx_get_mixin_info_by_id(hd, dm::mixin_id{i}) == e, "wrong mixin with id %u", i);
        }
        VP_CHECK("mixin-by-id", !d.d->get_mixin_info(dm::invalid_mixin_id), "mixin with invalid id");
        for (auto& n : name_pool()) {
            if (!by_name(d.index, n)) VP_CHECK("mixin-by-name", !d.d->get_mixin_info(n) && !dnmx_get_mixin_info_by_name(hd, dm_sv(n)), "a mixin is found by the name %s of no registered one", show(n).c_str());
        }
        for (auto& fp : feats) {
            auto f = fp.get();
            if (f->dom == -1) VP_CHECK("unregistered-info", f->info.id.i == dnmx_invalid_id, "feature %s is not registered but has an id", f->name.c_str());
            if (f->home != d.index) continue;
            const feat_desc* byn = nullptr;
            bool ambiguous = false;
            for (auto s : d.fslots) if (s && s->name == f->name) { ambiguous |= !!byn; byn = s; }
            auto g = d.d->get_feature_info(f->name);
            auto gc = dnmx_get_feature_info_by_name(hd, dm_sv(f->name));
            VP_CHECK("feature-by-name", g == gc, "C and C++ find different features");
            if (!byn) VP_CHECK("feature-by-name", !g, "a feature is found by the name '%s' of an unregistered one", f->name.c_str());
            else if (!ambiguous) VP_CHECK("feature-by-name", g == &byn->info, "feature '%s' is not found by name", f->name.c_str());
            else VP_CHECK("feature-by-name", g && g->name.to_std() == f->name, "feature '%s' is not found by name", f->name.c_str());
            if (f->dom == d.index) VP_CHECK("feature-id", f->info.id.i == f->id, "feature '%s' has id %u and not %u", f->name.c_str(), f->info.id.i, f->id);
        }
        for (uint32_t i = 0; i < d.fslots.size() + 2; ++i) {
            auto e = i < d.fslots.size() && d.fslots[i] ? &d.fslots[i]->info : nullptr;
            VP_CHECK("feature-by-id", d.d->get_feature_info(dm::feature_id{i}) == e && dnmx_get_feature_info_by_id(hd, dm::feature_id{i}) == e, "wrong feature with id %u", i);
        }
        if (d.index == 0) {
            for (const char* n : {"", "tc0", "tc1", "tc2", "tc3", "tc"}) {
                const dnmx_type_class* e = nullptr;
                for (auto& tc : tcs) if (tc->reg && tc->name == n) e = &tc->tc;
                VP_CHECK("type-class-by-name", d.d->get_type_class(n) == e && dnmx_get_type_class_by_name(hd, dnmx_make_sv_str(n)) == e, "type class '%s' lookup is wrong", n);
            }
        }
        VP_CHECK("num-rules", d.d->num_mutation_rules() == d.rules.size(), "%zu rules and not %zu", d.d->num_mutation_rules(), d.rules.size());
        VP_CHECK("domain-values", d.d->name() == d.name && d.d->user_data == uintptr_t(40 + d.index) && d.d->context == this, "values of the domain changed");
    }
    bool by_name_ok(dom_model& d, const dnmx_mixin_info* i, const std::string& n) {
        if (!i) return false;
        auto m = const_cast<mixin_desc*>(desc_of(i));
        return m->dom == d.index && m->name == n;
    }

    void verify_queries(dom_model& d) {
        std::set<std::vector<const dm::mixin_info*>> seen;
        size_t n = 0;
        const dm::domain& cd = *d.d;
        const size_t num = cd.num_type_queries();
        dm::domain_traverse tr(*d.d);
        tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& t) {
            ++n;
            VP_CHECK("query-duplicate", seen.insert(std::vector<const dm::mixin_info*>(q.begin(), q.end())).second, "type query is there twice");
            mlist l;
            for (auto m : q) l.push_back(const_cast<mixin_desc*>(desc_of(m)));
            auto res = resolve(d.index, l);
            VP_CHECK("query-stale", res.mask == ok, "cached query %s leads to %s but now must fail", show(l).c_str(), "a type");
            auto e = type_of(d.index, res.list);
            VP_CHECK("query-stale", e && e == &t, "cached query %s does not lead to %s", show(l).c_str(), show(res.list).c_str());
            count("cached queries checked");
        });
        VP_CHECK("num-queries", n == num, "the domain has %zu queries and tells %zu", n, num);
    }

    void verify_object(obj& m) {
        auto& o = *m.o;
        const auto& co = o;
        auto ho = o.to_c_hanlde();
        dnmx_const_object_handle cho = co.to_c_hanlde();
        auto l = m.list();
        auto s = show(l);
        auto t = type_of(m.dom, l);
        VP_CHECK("object-type", t && &o.get_type() == t && dnmx_object_get_type(cho) == t, "object has type %s and not %s", show_infos(o.get_type()).c_str(), s.c_str());
        VP_CHECK("object-domain", &o.get_domain() == dom[m.dom].d && dnmx_object_get_domain(cho) == dom[m.dom].d->to_c_hanlde(), "object has a wrong domain");
        VP_CHECK("object-empty", o.empty() == l.empty() && dnmx_object_is_empty(cho) == l.empty(), "object of %s: empty is %d", s.c_str(), o.empty());
        VP_CHECK("object-num", o.num_mixins() == l.size() && dnmx_object_num_mixins(cho) == l.size(), "object of %s has %u mixins", s.c_str(), o.num_mixins());
        VP_CHECK("object-sealed", o.sealed() == m.sealed && dnmx_object_is_sealed(cho) == m.sealed, "object of %s: sealed is %d", s.c_str(), o.sealed());
        VP_CHECK("object-alloc", o.get_allocator() == alloc_of(m.alloc), "object of %s has another allocator", s.c_str());
        auto data = reinterpret_cast<const dnmx_basic_object*>(cho)->m_mixin_data;
        VP_CHECK("object-empty", !!data == !l.empty(), "object of %s: data", s.c_str());
        VP_CHECK("get-at", !o.get_at(uint32_t(l.size())) && !co.get_at(uint32_t(l.size())) && !o.get_at(dm::invalid_mixin_index) && !dnmx_object_get_at(cho, uint32_t(l.size())) && !dnmx_object_get_mut_at(ho, uint32_t(l.size())), "object of %s has a mixin past its last one", s.c_str());
        const block* main = nullptr;
        if (data) {
            auto b = mon().find_block(uintptr_t(data));
            VP_CHECK("object-buffer", b && b->addr == uintptr_t(data), "object buffer of %s is no allocated block", s.c_str());
            VP_CHECK("object-buffer", b->owner == m.alloc, "object buffer of %s is of allocator %d and not %d", s.c_str(), b->owner, m.alloc);
            VP_CHECK("object-buffer", b->size == t->object_buffer_size && b->align == t->object_buffer_alignment, "object buffer of %s: size", s.c_str());
            main = b;
        }
        for (uint32_t i = 0; i < l.size(); ++i) {
            auto& x = m.mixins[i];
            auto& info = x.d->info;
            auto nm = show(x.d->name);
            void* a = o.get_at(i);
            VP_CHECK("get-at", a == x.addr, "mixin %u of %s is at %p and not %p", i, s.c_str(), a, x.addr);
            VP_CHECK("get", co.get_at(i) == a && o.unchecked_get_at(i) == a && co.unchecked_get_at(i) == a, "mixin %u of %s: get_at", i, s.c_str());
            VP_CHECK("get", o.get(info) == a && co.get(info) == a && o.get(info.id) == a && co.get(info.id) == a, "mixin %u of %s: get", i, s.c_str());
            if (!name_ambiguous(m.dom, x.d->name)) VP_CHECK("get-name", o.get(x.d->name) == a && co.get(x.d->name) == a, "mixin %u of %s: get by name", i, s.c_str());
            VP_CHECK("has", o.has(info) && o.has(info.id) && o.has(x.d->name) && dnmx_object_has(cho, &info) && dnmx_object_has_by_name(cho, dm_sv(x.d->name)), "mixin %u of %s: has", i, s.c_str());
            VP_CHECK("get-c", dnmx_object_get(cho, &info) == a && dnmx_object_get_mut(ho, &info) == a && dnmx_object_get_at(cho, i) == a && dnmx_object_get_mut_at(ho, i) == a, "mixin %u of %s: C get", i, s.c_str());
            if (!name_ambiguous(m.dom, x.d->name)) VP_CHECK("get-c", dnmx_object_get_by_name(cho, dm_sv(x.d->name)) == a && dnmx_object_get_mut_by_name(ho, dm_sv(x.d->name)) == a, "mixin %u of %s: C get by name", i, s.c_str());
            auto f = mon().insts.find(uintptr_t(a));
            VP_CHECK("mixin-alive", f != mon().insts.end(), "mixin %u (%s) of %s is not alive", i, nm.c_str(), s.c_str());
            auto& in = f->second;
            VP_CHECK("mixin-kind", in.d == x.d, "mixin %u of %s is a %s", i, s.c_str(), show(in.d->name).c_str());
            VP_CHECK("mixin-token", in.token == x.token, "mixin %u (%s) of %s is another instance", i, nm.c_str(), s.c_str());
            VP_CHECK("mixin-moved", !in.moved_from, "mixin %u (%s) of %s was moved-out", i, nm.c_str(), s.c_str());
            VP_CHECK("mixin-content", in.content == x.content, "mixin %u (%s) of %s has changed its state", i, nm.c_str(), s.c_str());
            check_pattern(a, in, "verify");
            VP_CHECK("object-of", dm::object_of(a) == &o && dm::object_of(static_cast<const void*>(a)) == &o, "object_of mixin %u (%s) of %s is wrong", i, nm.c_str(), s.c_str());
            if (x.d->align) VP_CHECK("mixin-align", uintptr_t(a) % x.d->align == 0, "mixin %u (%s) of %s is misaligned", i, nm.c_str(), s.c_str());
            auto b = mon().find_block(uintptr_t(a));
            VP_CHECK("mixin-memory", b && uintptr_t(a) + x.d->size <= b->addr + b->size, "mixin %u (%s) of %s is out of memory", i, nm.c_str(), s.c_str());
            if (info.external()) {
                VP_CHECK("mixin-external", b != main, "external mixin %u (%s) of %s is in the object buffer", i, nm.c_str(), s.c_str());
                int owner = x.d->alloc >= 0 ? x.d->alloc : m.alloc;
                VP_CHECK("mixin-owner", b->owner == owner, "mixin %u (%s) of %s is from allocator %d and not %d", i, nm.c_str(), s.c_str(), b->owner, owner);
                VP_CHECK("mixin-buffer", b->size == info.obj_buf_size && b->align == info.obj_buf_alignment_and_mixin_offset && uintptr_t(a) == b->addr + info.obj_buf_alignment_and_mixin_offset, "mixin %u (%s) of %s: external buffer", i, nm.c_str(), s.c_str());
                VP_CHECK("mixin-buffer", data[i].buf == reinterpret_cast<uint8_t*>(b->addr), "mixin %u (%s) of %s: buffer pointer", i, nm.c_str(), s.c_str());
            }
            else {
                VP_CHECK("mixin-internal", b == main && uintptr_t(a) == b->addr + t->mixin_offsets[i] && !data[i].buf, "internal mixin %u (%s) of %s is not in the object buffer", i, nm.c_str(), s.c_str());
            }
        }
        for (auto& mp : mixins) {
            if (mp->dom != m.dom || m.find(mp.get())) continue;
            VP_CHECK("has-not", !o.has(mp->info) && !o.has(mp->info.id) && !o.get(mp->info) && !co.get(mp->info.id) && !dnmx_object_has(cho, &mp->info) && !dnmx_object_get(cho, &mp->info) && !dnmx_object_get_mut(ho, &mp->info), "object of %s has %s", s.c_str(), show(mp->name).c_str());
            bool byn = false;
            for (auto x : l) byn |= x->name == mp->name;
            if (!byn) VP_CHECK("has-not", !o.has(mp->name) && !o.get(mp->name) && !co.get(mp->name) && !dnmx_object_has_by_name(cho, dm_sv(mp->name)), "object of %s has a mixin with name %s", s.c_str(), show(mp->name).c_str());
        }
    }

    void verify_all(bool full) {
        std::map<const dm::type*, size_t> counts;
        std::map<int, size_t> blocks;
        size_t insts = 0;
        for (auto& d : dom) {
            sync_types(d);
            verify_registry(d);
        }
        for (auto& o : objs) {
            verify_object(o);
            ++counts[&o.o->get_type()];
            insts += o.mixins.size();
            if (!o.mixins.empty()) ++blocks[o.alloc];
            for (auto& x : o.mixins) if (x.d->info.external()) ++blocks[x.d->alloc >= 0 ? x.d->alloc : o.alloc];
        }
        VP_CHECK("mixin-count", mon().insts.size() == insts, "%zu mixins are alive and not %zu", mon().insts.size(), insts);
        for (int ow : {own_obj0, own_obj1, own_obj2, own_ma0, own_ma1, own_mac, own_default}) {
            if (ow == own_default && (dom[0].c_created || dom[1].c_created)) continue;
            size_t out = mon().outstanding(ow);
            VP_CHECK("blocks", out == blocks[ow], "%zu blocks of allocator %d are outstanding and not %zu", out, ow, blocks[ow]);
        }
        for (auto& d : dom) {
            for (auto& t : d.types) {
                VP_CHECK("num-objects", t.second->num_objects() == counts[t.second] && dnmx_type_num_objects(t.second) == counts[t.second], "type %s has %zu objects and not %zu", show(t.first).c_str(), t.second->num_objects(), counts[t.second]);
            }
            auto& et = d.d->get_empty_type();
            VP_CHECK("num-objects", et.num_objects() == 0, "the empty type has %zu objects", et.num_objects());
            VP_CHECK("empty-type", &et == dnmx_get_empty_type(d.d->to_c_hanlde()) && et.num_mixins() == 0, "empty type is wrong");
            if (full) {
                for (auto& t : d.types) verify_type(d, t.first, *t.second);
                verify_type(d, {}, et);
                verify_queries(d);
            }
        }
    }

    // --------------------------------------------------------------------------------------------
    // running operations

    struct result {
        unsigned o = ok;
        std::string msg;
    };
    template <typename F> static result attempt(F& f) {
        try { f(); return {}; }
        catch (dm::domain_error& e) { return {e_domain, e.what()}; }
        catch (dm::type_error& e) { return {e_type, e.what()}; }
        catch (dm::object_error& e) { return {e_object, e.what()}; }
        catch (dm::feature_error& e) { return {e_feature, e.what()}; }
        catch (capi_error&) { return {e_c, ""}; }
        catch (fault::injected&) { return {e_injected, ""}; }
        catch (std::bad_alloc&) { return {e_alloc, ""}; }
        catch (std::exception& e) { return {e_other, e.what()}; }
        catch (int) { return {e_other, "int"}; }
    }
    template <typename F> static result attempt_mode(F& f, int mode) {
        if (mode == 0) return attempt(f);
        result res;
        if (mode == 1) {
            // during stack unwinding
            struct guard {
                F& f;
                result& res;
                ~guard() { res = attempt(f); }
            };
            try {
                guard g{f, res};
                throw unwinding{};
            }
            catch (unwinding&) {}
        }
        else {
            // while an exception is handled
            try { throw unwinding{}; }
            catch (unwinding&) { res = attempt(f); }
        }
        return res;
    }

    // calls to C functions: no exception may come out
    template <typename F> static auto C(F&& f) -> decltype(f()) {
        try { return f(); }
        catch (...) { fail("c-exception", "an exception came out of a C function"); }
    }
    static void Cerr(dnmx_error_return_t e) { if (e) throw capi_error{}; }

    static const char* oc_name(unsigned o) {
        switch (o) {
        case ok: return "ok"; case e_domain: return "domain_error"; case e_type: return "type_error"; case e_object: return "object_error";
        case e_alloc: return "bad_alloc"; case e_injected: return "injected"; case e_feature: return "feature_error"; case e_c: return "C error"; default: return "other";
        }
    }

    struct op {
        std::string name;
        unsigned expect = ok; // outcomes
        std::string must; // in error messages
        bool c = false; // executed through C: any error is e_c
        unsigned faults = 0; // fault kinds which may happen
        const void* cur_obj = nullptr;
        std::function<void()> exec;
        std::function<void()> on_ok;
        std::function<void()> on_fail; // after each failed attempt, before verification
        bool events_on_fail_checked = true;
        bool rules = false; // check the rule log
        resolved res; // for rule log
    };

    uint64_t token_before = 0;

    void check_failed_events(const char* what) {
        std::vector<uint64_t> in, out;
        for (auto& e : mon().events) {
            switch (e.kind) {
            case 'i': case 'c': if (e.d->has_destroy) in.push_back(e.token); break;
            case 'd': out.push_back(e.token); break;
            case 'm': case 'v': case 'x': fail("failed-moves", "%s failed but moved mixins", what);
            default: break;
            }
        }
        std::reverse(in.begin(), in.end());
        VP_CHECK("failed-rollback", in == out, "%s failed: the %zu mixins initialised on the way were not destroyed exactly once in reverse order (%zu destroyed)", what, in.size(), out.size());
    }
    void check_rule_log(const op& o, bool failed) {
        // whole passes of all rules in order (a prefix of them when failed)
        std::vector<int> order;
        for (auto& ru : dom[0].rules) if (ru.first->index >= 0) order.push_back(ru.first->index);
        for (size_t i = 0; i < rule_log.size(); ++i) {
            VP_CHECK("rule-order", !order.empty(), "%s: a rule which is not registered was run", o.name.c_str());
            VP_CHECK("rule-order", rule_log[i] == order[i % order.size()], "%s: rule %d was run in place of rule %d", o.name.c_str(), rule_log[i], order[i % order.size()]);
        }
        if (!failed && !order.empty()) VP_CHECK("rule-passes", rule_log.size() % order.size() == 0, "%s: not all rules were run", o.name.c_str());
        if (!failed && !rule_log.empty()) VP_CHECK("rule-passes", rule_log.size() / order.size() >= size_t(o.res.passes), "%s: rules were applied %zu times and not %d", o.name.c_str(), rule_log.size() / order.size(), o.res.passes);
        count("rule applications", rule_log.size());
    }

    void maybe(int di, const resolved& res) {
        if (res.mask == ok && !res.list.empty()) dom[di].maybe.insert(res.list);
    }

    void perform(op& o) {
        int mode = r.chance(p.punwind) ? r.range(1, 2) : 0;
        bool faults = o.faults && r.chance(p.pfault);
        log("%s%s%s  [expect %x]", o.name.c_str(), mode == 1 ? " [in unwinding]" : mode == 2 ? " [in handler]" : "", faults ? " [faults]" : "", o.expect);
        sig(o.name);
        count("operations");
        bool full = r.chance(p.verify_all);

        auto run = [&] {
            mon().events.clear();
            rule_log.clear();
            token_before = mon().next_token;
            mon().cur_obj = o.cur_obj;
            auto res = attempt_mode(o.exec, mode);
            mon().cur_obj = nullptr;
            return res;
        };
        result res;
        if (faults) {
            for (int k = 1;; ++k) {
                fault::arm(k, o.faults);
                fault_attempt = true;
                res = run();
                fault_attempt = fault::ctl().fired;
                bool fired = fault::ctl().fired;
                auto fk = fault::ctl().fired_kind;
                fault::disarm();
                if (!fired) break;
                log("  fault %d of kind %d: %s", k, fk, oc_name(res.o));
                count("faults injected");
                VP_CHECK("fault-swallowed", res.o != ok, "%s succeeded although fault %d (kind %d) happened in it", o.name.c_str(), k, fk);
                unsigned allowed = fk == fault::alloc ? unsigned(e_alloc) : fk == fault::rule ? e_type | e_injected : e_object | e_injected;
                if (o.c) allowed = e_c;
                VP_CHECK("fault-error", res.o & allowed, "%s: fault %d of kind %d was reported as %s: %s", o.name.c_str(), k, fk, oc_name(res.o), res.msg.c_str());
                check_failed_events(o.name.c_str());
                if (o.on_fail) o.on_fail();
                verify_all(full && k < 4);
                VP_CHECK("fault-endless", k < 3000, "%s still has faults after 3000 attempts", o.name.c_str());
            }
            fault_attempt = false;
        }
        else {
            res = run();
        }
        unsigned expect = o.expect;
        if (o.c && (expect & ~ok)) expect = (expect & ok) | e_c;
        VP_CHECK("outcome", res.o & expect, "%s: outcome is %s (%s), expected %s%s", o.name.c_str(), oc_name(res.o), res.msg.c_str(), oc_name(expect & (0u - expect)), expect & (expect - 1) ? " or others" : "");
        sig(res.o);
        if (res.o == ok) {
            count("operations ok");
            for (auto& d : dom) sync_types(d);
            if (o.rules) check_rule_log(o, false);
            if (o.on_ok) o.on_ok();
        }
        else {
            count("operations with errors");
            log("  -> %s %s", oc_name(res.o), res.msg.c_str());
            if (o.rules) check_rule_log(o, true);
            if (!o.must.empty() && !o.c && res.o != e_injected && !nul_names) {
                VP_CHECK("error-message", res.msg.find(o.must) != std::string::npos, "%s: the error '%s' does not name '%s'", o.name.c_str(), res.msg.c_str(), show(o.must).c_str());
            }
            if (!o.c && (res.o & (e_domain | e_type | e_object | e_feature))) {
                bool named = false;
                for (auto& d : dom) named |= res.msg.find(d.name.empty() ? "unnamed domain" : d.name) != std::string::npos;
                VP_CHECK("error-message", named, "%s: the error '%s' does not name a domain", o.name.c_str(), res.msg.c_str());
            }
            if (o.events_on_fail_checked) check_failed_events(o.name.c_str());
            if (o.on_fail) o.on_fail();
        }
        verify_all(full);
        for (auto& d : dom) d.maybe.clear();
        rule_log.clear();
        mon().events.clear();
    }

    // --------------------------------------------------------------------------------------------
    // object model updates

    // after a successful change of type of m to list
    // custom: expected custom ids of new mixins, copies: expected contents of new/common mixins
    void object_changed(obj& m, const mlist& to, const std::map<mixin_desc*, int>& custom, char new_kind = 'i',
        const obj* copied_from = nullptr)
    {
        std::vector<mx> now;
        std::vector<mixin_desc*> expect_new;
        auto& o = *m.o;
        auto s = show(to);
        bool same = to == m.list();
        VP_CHECK("object-type", o.get_type().num_mixins() == to.size(), "object has type %s and not %s", show_infos(o.get_type()).c_str(), s.c_str());
        for (uint32_t i = 0; i < to.size(); ++i) {
            auto d = to[i];
            VP_CHECK("object-type", o.get_type().mixins[i] == &d->info, "object has type %s and not %s", show_infos(o.get_type()).c_str(), s.c_str());
            void* a = o.get_at(i);
            auto f = mon().insts.find(uintptr_t(a));
            VP_CHECK("mixin-alive", f != mon().insts.end(), "mixin %u of %s is not alive after the mutation", i, s.c_str());
            auto& in = f->second;
            VP_CHECK("mixin-kind", in.d == d, "mixin %u of %s is a %s", i, s.c_str(), show(in.d->name).c_str());
            if (auto old = m.find(d)) {
                VP_CHECK("state-lost", in.token == old->token, "mixin %u of %s is not the one which the object had", i, s.c_str());
                uint64_t content = old->content;
                if (copied_from) content = copied_from->find(d)->content;
                VP_CHECK("state-changed", in.content == content && !in.moved_from, "mixin %u of %s has another state after the mutation", i, s.c_str());
                if (d->info.external() || same) VP_CHECK("external-moved", a == old->addr, "external mixin %u of %s moved", i, s.c_str());
            }
            else {
                VP_CHECK("not-new", in.token >= token_before, "mixin %u of %s is not new", i, s.c_str());
                auto cf = custom.find(d);
                int cid = cf == custom.end() ? 0 : cf->second;
                VP_CHECK("wrong-init", in.custom == cid, "mixin %u of %s was initialised by %d and not by %d", i, s.c_str(), in.custom, cid);
                if (copied_from) VP_CHECK("copy-content", in.content == copied_from->find(d)->content, "mixin %u of %s is not a copy", i, s.c_str());
                expect_new.push_back(d);
            }
            now.push_back({d, in.token, in.content, a});
        }
        // events
        std::vector<mixin_desc*> news;
        std::multiset<uint64_t> destroyed, moved, moved_destroyed, assigned;
        for (auto& e : mon().events) {
            switch (e.kind) {
            case 'i': case 'c':
                VP_CHECK("init-kind", e.kind == new_kind, "mixin %s was initialised by %c", show(e.d->name).c_str(), e.kind);
                news.push_back(const_cast<mixin_desc*>(e.d));
                break;
            case 'd': destroyed.insert(e.token); break;
            case 'm': moved.insert(e.token); break;
            case 'x': moved_destroyed.insert(e.token); break;
            case 'a': assigned.insert(e.token); break;
            case 'v': fail("unexpected-assign", "mixin %s was move-assigned", show(e.d->name).c_str());
            default: break;
            }
        }
        VP_CHECK("init-order", news == expect_new, "mixins %s were initialised and not %s", show(news).c_str(), show(expect_new).c_str());
        std::multiset<uint64_t> exp_destroyed, common, common_destr, exp_assigned;
        for (auto& x : m.mixins) {
            if (!contains(to, x.d)) {
                if (x.d->has_destroy) exp_destroyed.insert(x.token);
            }
            else {
                if (copied_from) exp_assigned.insert(x.token);
                if (!x.d->info.external()) common.insert(x.token);
            }
        }
        VP_CHECK("destroyed", destroyed == exp_destroyed, "%zu mixins were destroyed and not %zu (or others)", destroyed.size(), exp_destroyed.size());
        for (auto t : moved) VP_CHECK("moved", common.count(t) && moved.count(t) == 1, "a mixin which is not common and internal was moved (or moved twice)");
        for (auto& x : m.mixins) {
            if (moved.count(x.token) && x.d->has_destroy) VP_CHECK("moved-destroy", moved_destroyed.count(x.token) == 1, "moved-out mixin %s was not destroyed once", show(x.d->name).c_str());
        }
        for (auto t : moved_destroyed) VP_CHECK("moved-destroy", moved.count(t) == 1, "a mixin was destroyed as moved-out without being moved");
        VP_CHECK("assigned", assigned == exp_assigned, "%zu mixins were copy-assigned and not %zu (or others)", assigned.size(), exp_assigned.size());
        count("objects mutated");
        if (to.size() > 255) count("objects mutated to more than 255 mixins");
        count("mixins kept", common.size());
        count("mixins initialised", news.size());
        if (!m.mixins.empty() && !to.empty()) nontrivial();
        m.mixins = std::move(now);
        sig(hash_str(s));
    }

    void destroy_obj(obj& m) {
        mon().events.clear();
        mon().cur_obj = m.o;
        if (r.chance(p.pc)) dnmx_destroy_object(m.o->to_c_hanlde());
        else delete m.o;
        mon().cur_obj = nullptr;
        std::multiset<uint64_t> destroyed, exp;
        for (auto& e : mon().events) {
            if (e.kind == 'd') destroyed.insert(e.token);
            else fail("destroy-events", "mixin event %c while an object is destroyed", e.kind);
        }
        for (auto& x : m.mixins) if (x.d->has_destroy) exp.insert(x.token);
        VP_CHECK("destroyed", destroyed == exp, "object of %s died: %zu mixins were destroyed and not %zu (or others)", show(m.list()).c_str(), destroyed.size(), exp.size());
        m.o = nullptr;
        mon().events.clear();
    }
};

inline bool vp_tc0(dnmx_type_handle t) noexcept { return dnmx_type_num_mixins(t) % 2 == 0; }
inline bool vp_tc1(dnmx_type_handle t) noexcept { return dnmx_type_has_by_name(t, dnmx_make_sv_str("m1")); }
inline bool vp_tc2(dnmx_type_handle t) noexcept { return dnmx_type_is_default_constructible(t); }
inline bool vp_tc3(dnmx_type_handle t) noexcept { return dnmx_type_num_mixins(t) > 2; }

// real rules
extern "C" inline dnmx_error_return_t vp_rule_apply(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& ru = *reinterpret_cast<rule_desc*>(ud);
    auto& w = *the_world();
    w.rule_log.push_back(ru.index);
    if (fault::hit(fault::rule)) {
        if (ru.index & 1) throw fault::injected();
        return 17;
    }
    auto& mut = *dm::type_mutation::from_c_handle(h);
    VP_CHECK("rule-mutation", &mut.dom == w.dom[0].d && dnmx_type_mutation_get_domain(h) == w.dom[0].d->to_c_hanlde(), "rule is applied to a mutation of another domain");
    auto& l = mut.mixins;
    auto& x = w.mixins[size_t(ru.x)]->info;
    auto& y = w.mixins[size_t(ru.y)]->info;
    auto add = [&](const dnmx_mixin_info& i) {
        if (ru.c) { if (!dnmx_type_mutation_add(h, &i)) throw std::bad_alloc(); }
        else mut.add(i);
    };
    auto add_if_lacking = [&](const dnmx_mixin_info& i) {
        if (ru.c) {
            bool had = dnmx_type_mutation_has(h, &i);
            if (!dnmx_type_mutation_add_if_lacking(h, &i) && !had) throw std::bad_alloc();
        }
        else mut.add_if_lacking(i);
    };
    auto remove = [&](const dnmx_mixin_info& i) { return ru.c ? dnmx_type_mutation_remove(h, &i) : mut.remove(i); };
    auto has = [&](const dnmx_mixin_info& i) { return ru.c ? dnmx_type_mutation_has(h, &i) : mut.has(i); };
    switch (ru.kind) {
    case rk_noop: break;
    case rk_add: add_if_lacking(x); break;
    case rk_add_if: if (has(y)) add_if_lacking(x); break;
    case rk_remove: remove(x); break;
    case rk_remove_if: if (has(y)) remove(x); break;
    case rk_to_back_if:
        if (has(x)) { if (ru.c) dnmx_type_mutation_to_back(h, &x); else mut.to_back(x); }
        break;
    case rk_front_if: if (remove(x)) l.insert(l.begin(), &x); break;
    case rk_sort: std::sort(l.begin(), l.end(), [](auto a, auto b) { return desc_of(a)->index < desc_of(b)->index; }); break;
    case rk_dedup: if (ru.c) dnmx_type_mutation_dedup(h); else mut.dedup(); break;
    case rk_toggle: if (!remove(x)) add(x); break;
    case rk_error_if: if (has(x)) return -3; break;
    case rk_throw_if: if (has(x)) throw fault::injected(); break;
    case rk_error: return 12;
    case rk_reverse: std::reverse(l.begin(), l.end()); break;
    case rk_add_always: add(x); break;
    case rk_rotate_if: if (has(x) && l.size() > 1) std::rotate(l.begin(), l.begin() + 1, l.end()); break;
    }
    return 0;
}

}
