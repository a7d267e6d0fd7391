// Concurrent use of a domain (C09, C10)
// profile interleave: deterministic interleavings. At a chosen scheduling point of an operation A (before a lock is
//   taken, after one is released, in a callback: only where A holds no lock) another whole operation B runs, and at a
//   chosen point of B possibly another one C. The results and the final state must be those of some sequential order,
//   and nothing stale must remain. All points of A are enumerated.
// profile stress: threads (meant for ThreadSanitizer builds; also run under ASan)
#define VP_OWN_SCHED_HOOK
#include "vp.hpp"
#include "lockmon.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dnmx/domain.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <atomic>
#include <barrier>
#include <memory>
#include <sstream>
#include <thread>
#include <mutex>

namespace dm = dynamix;
using namespace vp;

namespace {

// ------------------------------------------------------------------------------------------------
// scheduling points

struct injector {
    bool armed = false;
    int depth = 0;           // nesting of injected operations
    struct slot {
        int at = -1;         // position of injection
        int seen = 0;        // points passed
        bool done = false;
        std::function<void()> op;
    };
    std::vector<slot> slots; // by depth
    uint64_t locks_after[4] = {}; // by depth: locks taken after the injected operation has finished
};
thread_local injector* inj = nullptr;
thread_local rng* delay_rng = nullptr;

void sched_point() {
    if (delay_rng) {
        auto k = delay_rng->below(64);
        if (k < 4) sched_yield();
        else if (k == 5) usleep(delay_rng->below(60));
        return;
    }
    auto i = inj;
    if (!i || !i->armed || lockmon::mine.n) return;
    if (size_t(i->depth) >= i->slots.size()) return;
    auto& s = i->slots[size_t(i->depth)];
    int p = s.seen++;
    if (s.done || p != s.at) return;
    s.done = true;
    ++i->depth;
    s.op();
    --i->depth;
    i->locks_after[i->depth] = 0;
}

}

extern "C" void vp_sched_hook(const void* m, int kind) {
    if (kind == 0 || kind == 2) {
        sched_point();
        if (inj && inj->armed) ++inj->locks_after[inj->depth];
        lockmon::on_lock(m, kind);
    }
    else {
        lockmon::on_lock(m, kind);
        sched_point();
    }
}

namespace {

struct point_resource final : std::pmr::memory_resource {
    std::atomic<int64_t> live{0};
    // without address sanitizer (which does this): memory is not reused, so that a collected type is not mistaken for a new one
    bool keep = false;
    struct block { void* p; size_t n, a; };
    std::vector<block> kept;
    ~point_resource() {
        for (auto& b : kept) std::pmr::new_delete_resource()->deallocate(b.p, b.n, b.a);
    }
    void* do_allocate(size_t n, size_t a) override {
        sched_point();
        live.fetch_add(1, std::memory_order_relaxed);
        return std::pmr::new_delete_resource()->allocate(n, a);
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        live.fetch_sub(1, std::memory_order_relaxed);
        if (keep) {
            kept.push_back({p, n, a});
            return;
        }
        std::pmr::new_delete_resource()->deallocate(p, n, a);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// ------------------------------------------------------------------------------------------------
// environment

struct state_t { uint64_t magic, value; };
constexpr uint64_t alive = 0xA11FE0000000001, dead = 0xDEAD;
thread_local int64_t live_mixins = 0;
thread_local uint64_t next_value = 1;

dm::error_return_t m_init(const dnmx_mixin_info*, void* p) { *static_cast<state_t*>(p) = {alive, next_value++}; ++live_mixins; return 0; }
dm::error_return_t m_copy(const dnmx_mixin_info*, void* p, const void* s) {
    auto src = static_cast<const state_t*>(s);
    VP_CHECK("conc-copy", src->magic == alive, "copy of a mixin which is not alive");
    *static_cast<state_t*>(p) = *src; ++live_mixins; return 0;
}
dm::error_return_t m_asgn(const dnmx_mixin_info*, void* p, const void* s) {
    auto src = static_cast<const state_t*>(s); auto t = static_cast<state_t*>(p);
    VP_CHECK("conc-copy", src->magic == alive && t->magic == alive, "assignment of a mixin which is not alive");
    *t = *src; return 0;
}
void m_move(const dnmx_mixin_info*, void* p, void* s) noexcept {
    auto src = static_cast<state_t*>(s);
    VP_CHECK("conc-move", src->magic == alive, "move of a mixin which is not alive");
    *static_cast<state_t*>(p) = *src; ++live_mixins;
}
void m_destroy(const dnmx_mixin_info*, void* p) noexcept {
    auto s = static_cast<state_t*>(p);
    VP_CHECK("conc-destroy", s->magic == alive, "destroying a mixin which is not alive");
    s->magic = dead; --live_mixins;
}
bool m_equals(const dnmx_mixin_info*, const void* a, const void* b) noexcept {
    auto x = static_cast<const state_t*>(a), y = static_cast<const state_t*>(b);
    VP_CHECK("conc-equals", x->magic == alive && y->magic == alive, "comparing dead mixins");
    return x->value == y->value;
}

inline dnmx_sv mk_sv(const char* p, size_t n) { return dnmx_sv::from_std(std::string_view(p, n)); }

struct cfeat {
    std::string name;
    dm::feature_info info = dnmx_make_feature_info();
    int payload = 0;
};
struct cmixin {
    int index = 0;
    std::string name;
    dm::mixin_info info = dnmx_make_mixin_info();
    std::vector<dm::feature_for_mixin> feats;
};
using clist = std::vector<int>;
struct env;
struct crule {
    int index = 0;
    std::string name;
    dm::mutation_rule_info info = {};
    int kind = 0; // 0 add b if a, 1 add by name, 2 remove b if a, 3 sort by name
    const cmixin* a = nullptr;
    const cmixin* b = nullptr;
};
dm::error_return_t rule_apply(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto r = reinterpret_cast<const crule*>(ud);
    auto& m = *dm::type_mutation::from_c_handle(h);
    sched_point();
    switch (r->kind) {
    case 0: if (m.has(r->a->info)) m.add_if_lacking(r->b->info); break;
    case 1: if (m.has(std::string_view(r->a->name))) m.add_if_lacking(std::string_view(r->b->name)); break;
    case 2: if (m.has(r->a->info)) m.remove(r->b->info); break;
    case 3: std::sort(m.mixins.begin(), m.mixins.end(), [](auto x, auto y) { return x->name.to_std() < y->name.to_std(); }); break;
    }
    return 0;
}

bool tc_even(dnmx_type_handle t) noexcept { return dnmx_type_num_mixins(t) % 2 == 0; }

struct env {
    point_resource res;
    std::vector<std::unique_ptr<cfeat>> feats;
    std::vector<std::unique_ptr<cmixin>> mixins; // first `perm` are always registered, the others are extras
    std::vector<std::unique_ptr<crule>> rules;
    std::vector<std::unique_ptr<dm::type_class>> tcs;
    std::vector<std::string> tcnames;
    std::unique_ptr<dm::domain> dom;
    int perm = 0;

    env(rng r, int perm, int extras, int nrules, int ntcs, bool dup, bool canon, bool stable_rules, bool dupf = false) : perm(perm) {
        dm::domain_settings s = {};
        s.allow_duplicate_mixin_names = dup;
        s.allow_duplicate_feature_names = dupf;
        s.canonicalize_types = canon;
        dom.reset(new dm::domain("conc", s, 0, nullptr, dm::allocator(&res)));
        tcnames.reserve(64);
        for (int i = 0; i < 5; ++i) {
            auto f = std::make_unique<cfeat>();
            f->name = "f" + std::to_string(i);
            f->info.name = mk_sv(f->name.data(), f->name.size());
            f->info.allow_clashes = true;
            feats.push_back(std::move(f));
        }
        for (int i = 0; i < perm + extras; ++i) {
            auto m = std::make_unique<cmixin>();
            m->index = i;
            m->name = (i < perm ? "m" : "x") + std::to_string(i);
            if (i >= perm && r.chance(20)) m->name = "same";
            auto& info = m->info;
            info.name = mk_sv(m->name.data(), m->name.size());
            info.set_size_alignment(sizeof(state_t), alignof(state_t));
            info.init = m_init;
            info.copy_init = m_copy;
            if (!r.chance(20)) info.move_init = m_move;
            info.copy_asgn = m_asgn;
            info.destroy = m_destroy;
            info.equals = m_equals;
            info.user_data = uintptr_t(m.get());
            info.dependency = i == 1 && r.chance(50);
            // permanent mixins provide the first features, so that features of extras come and go
            int nf = r.range(0, 2);
            for (int j = 0; j < nf; ++j) {
                auto f = feats[i < perm ? r.below(3) : r.below(5)].get();
                bool has = false;
                for (auto& x : m->feats) has |= x.info == &f->info;
                if (has) continue;
                dm::feature_for_mixin ff = {};
                ff.info = &f->info;
                ff.payload = m.get();
                ff.bid = int32_t(r.below(2));
                ff.priority = int32_t(r.below(2));
                m->feats.push_back(ff);
            }
            info.set_features(m->feats);
            mixins.push_back(std::move(m));
        }
        for (int i = 0; i < nrules; ++i) {
            auto ru = std::make_unique<crule>();
            ru->index = i;
            ru->name = "r" + std::to_string(i);
            ru->info.name = mk_sv(ru->name.data(), ru->name.size());
            ru->info.apply = rule_apply;
            ru->info.user_data = uintptr_t(ru.get());
            ru->kind = r.range(0, stable_rules ? 1 : 3);
            int a = r.range(0, perm - 2), b = r.range(a + 1, perm - 1);
            ru->a = mixins[size_t(a)].get();
            ru->b = mixins[size_t(b)].get();
            ru->info.order_priority = int32_t(r.below(2));
            rules.push_back(std::move(ru));
        }
        for (int i = 0; i < ntcs; ++i) {
            tcnames.push_back("tc" + std::to_string(i));
            tcs.push_back(std::make_unique<dm::type_class>());
            tcs.back()->name = mk_sv(tcnames.back().data(), tcnames.back().size());
            tcs.back()->matches = tc_even;
        }
        for (int i = 0; i < perm; ++i) dom->register_mixin(mixins[size_t(i)]->info);
    }

    // model of rules: result of a list with a set of rules; nullopt for errors
    // (mixins are unregistered if reg says so)
    bool eval(const clist& l, const std::vector<const crule*>& active, clist& out) const {
        out = l;
        clist last = out;
        out.erase(std::remove_if(out.begin(), out.end(), [&](int i) { return mixins[size_t(i)]->info.dependency; }), out.end());
        auto rs = active;
        std::sort(rs.begin(), rs.end(), [](auto a, auto b) {
            if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
            return a->name < b->name;
        });
        bool canon = dom->settings().canonicalize_types;
        size_t n = rs.size() + canon;
        auto has = [&](int x) { return std::find(out.begin(), out.end(), x) != out.end(); };
        auto by_name = [&](const std::string& s) { for (auto x : out) if (mixins[size_t(x)]->name == s) return true; return false; };
        for (int i = 0;; ++i) {
            for (auto r : rs) {
                switch (r->kind) {
                case 0: if (has(r->a->index) && !has(r->b->index)) out.push_back(r->b->index); break;
                case 1: if (by_name(r->a->name) && !by_name(r->b->name)) out.push_back(r->b->index); break;
                case 2: if (has(r->a->index)) { auto f = std::find(out.begin(), out.end(), r->b->index); if (f != out.end()) out.erase(f); } break;
                case 3: std::sort(out.begin(), out.end(), [&](int x, int y) { return mixins[size_t(x)]->name < mixins[size_t(y)]->name; }); break;
                }
            }
            if (canon) std::sort(out.begin(), out.end(), [&](int x, int y) {
                return dnmx_mixin_canonical_order(&mixins[size_t(x)]->info, &mixins[size_t(y)]->info);
            });
            if (out == last) return true;
            if (i == 5 || (i == int(n) && n)) return false;
            last = out;
        }
    }
    std::vector<const dm::mixin_info*> infos(const clist& l) const {
        std::vector<const dm::mixin_info*> v;
        for (auto i : l) v.push_back(&mixins[size_t(i)]->info);
        return v;
    }
    clist of(const dm::type& t) const {
        clist l;
        for (auto m : t.mixins) l.push_back(reinterpret_cast<const cmixin*>(m->user_data)->index);
        return l;
    }
    const dm::type* request(const clist& l, int how) {
        auto v = infos(l);
        switch (how) {
        case 0: return &dom->get_type(v);
        case 1: {
            dm::type_mutation m(*dom);
            for (auto i : v) m.add(*i);
            return &dom->get_type(std::move(m));
        }
        case 2: {
            auto t = dnmx_get_type_from_infos(dom->to_c_hanlde(), v.data(), uint32_t(v.size()));
            if (!t) throw dm::type_error("c");
            return dm::type::from_c_handle(t);
        }
        default: {
            auto m = dnmx_create_type_mutation_empty(dom->to_c_hanlde());
            for (auto i : v) dnmx_type_mutation_add(m, i);
            auto t = dnmx_get_type(dom->to_c_hanlde(), &m);
            if (!t) throw dm::type_error("c");
            return dm::type::from_c_handle(t);
        }
        }
    }
};

std::string show(const clist& l) {
    std::string s = "{";
    for (auto i : l) s += (s.size() > 1 ? "," : "") + std::to_string(i);
    return s + "}";
}

// ------------------------------------------------------------------------------------------------
// deterministic interleavings

enum opk { o_get, o_get_mut, o_get_c, o_get_cmut, o_object, o_register, o_unregister, o_add_rule, o_remove_rule, o_gc, o_feature, o_unfeature, o_tc, o_untc, o_lookup, o_count };
const char* opn[] = {"get_type", "get_type by mutation", "c get_type", "c get_type by mutation", "object", "register", "unregister", "add rule", "remove rule", "gc", "register feature", "unregister feature", "register type class", "unregister type class", "lookup"};

struct iop {
    opk k = o_get;
    int arg = 0;
    clist list;
    std::string str() const { return std::string(opn[k]) + " " + (k <= o_object ? show(list) : std::to_string(arg)); }
};

struct setup_t {
    rng r{1};
    int perm, extras, nrules, ntcs;
    bool dup, canon, dupf, twins;
    std::vector<iop> prefix;
    std::vector<clist> pool;
};

struct run_result {
    std::vector<std::string> res; // of A, B, C
    std::string final_state;
    int points_a = 0, points_b = 0;
    bool b_ran = false, c_ran = false;
    uint64_t locks_after[4] = {};
};

struct irun {
    env e;
    std::vector<const dm::type*> got;
    explicit irun(const setup_t& s) : e(s.r, s.perm, s.extras, s.nrules, s.ntcs, s.dup, s.canon, false, s.dupf) {
        // features with one name, which come and go
        for (int i = 0; i < 2; ++i) {
            auto f = std::make_unique<cfeat>();
            f->name = "twin";
            f->info.name = mk_sv(f->name.data(), f->name.size());
            e.feats.push_back(std::move(f));
        }
        if (s.twins) e.tcs[0]->name = e.tcs[1]->name;
#if !VP_SAN
        e.res.keep = true;
#endif
    }

    std::string exec(const iop& o, const dm::type** out = nullptr) {
        try {
            switch (o.k) {
            case o_get: case o_get_mut: case o_get_c: case o_get_cmut: {
                auto t = e.request(o.list, o.k - o_get);
                // is it still there? (not if it was collected after the request has finished)
                auto i = inj;
                auto armed = i && i->armed;
                if (armed) i->armed = false;
                bool found = t == &e.dom->get_empty_type();
                {
                    dm::domain_traverse tr(*e.dom);
                    tr.traverse_types([&](const dm::type& x) { found |= &x == t; });
                }
                if (armed) i->armed = true;
                if (out) *out = t;
                if (!found) return "type gone";
                return "type " + show(e.of(*t));
            }
            case o_object: {
                dm::object ob(*e.dom);
                auto v = e.infos(o.list);
                auto& t = e.dom->get_type(v);
                if (out) *out = &t;
                ob.reset_type(t);
                return "type " + show(e.of(ob.get_type()));
            }
            case o_register: {
                auto& i = e.mixins[size_t(e.perm + o.arg)]->info;
                e.dom->register_mixin(i);
                return "ok";
            }
            case o_unregister: e.dom->unregister_mixin(e.mixins[size_t(e.perm + o.arg)]->info); return "ok";
            case o_add_rule: e.dom->add_mutation_rule(e.rules[size_t(o.arg)]->info); return "ok";
            case o_remove_rule: e.dom->remove_mutation_rule(e.rules[size_t(o.arg)]->info); return "ok";
            case o_gc: e.dom->garbage_collect_types(); return "ok";
            case o_feature: e.dom->register_feature(e.feats[size_t(o.arg)]->info); return "ok";
            case o_unfeature: e.dom->unregister_feature(e.feats[size_t(o.arg)]->info); return "ok";
            case o_tc: e.dom->register_type_class(*e.tcs[size_t(o.arg)]); return "ok";
            case o_untc: e.dom->unregister_type_class(*e.tcs[size_t(o.arg)]); return "ok";
            case o_lookup: {
                count("interleaved lookups");
                auto h = e.dom->to_c_hanlde();
                bool c = o.arg & 1;
                int k = o.arg >> 1;
                const dm::mixin_info* m = nullptr;
                const dm::feature_info* f = nullptr;
                const dm::type_class* t = nullptr;
                int n = k / 7;
                switch (k % 7) {
                case 0: {
                    auto& x = *e.mixins[size_t(n) % e.mixins.size()];
                    m = c ? dnmx_get_mixin_info_by_name(h, x.info.name) : e.dom->get_mixin_info(std::string_view(x.name));
                    break;
                }
                case 1: {
                    auto id = dm::mixin_id{uint32_t(n) % uint32_t(e.mixins.size() + 1)};
                    m = c ? dnmx_get_mixin_info_by_id(h, id) : e.dom->get_mixin_info(id);
                    break;
                }
                case 2: {
                    auto& x = *e.feats[size_t(n) % e.feats.size()];
                    f = c ? dnmx_get_feature_info_by_name(h, x.info.name) : e.dom->get_feature_info(std::string_view(x.name));
                    break;
                }
                case 3: {
                    auto id = dm::feature_id{uint32_t(n) % uint32_t(e.feats.size() + 1)};
                    f = c ? dnmx_get_feature_info_by_id(h, id) : e.dom->get_feature_info(id);
                    break;
                }
                case 4: {
                    auto name = e.tcs[size_t(n) % e.tcs.size()]->name;
                    t = c ? dnmx_get_type_class_by_name(h, name) : e.dom->get_type_class(name.to_std());
                    break;
                }
                case 5: return std::to_string(e.dom->num_mutation_rules());
                case 6: { // by name through a type mutation
                    auto& x = *e.mixins[size_t(n) % e.mixins.size()];
                    dm::type_mutation tm(*e.dom);
                    m = &tm.add(std::string_view(x.name));
                    break;
                }
                }
                // identified by what they are: they may be unregistered again when we get here
                for (size_t i = 0; i < e.mixins.size(); ++i) if (m == &e.mixins[i]->info) return "mixin " + std::to_string(i);
                for (size_t i = 0; i < e.feats.size(); ++i) if (f == &e.feats[i]->info) return "feature " + std::to_string(i);
                for (size_t i = 0; i < e.tcs.size(); ++i) if (t == e.tcs[i].get()) return "type class " + std::to_string(i);
                return m || f || t ? "something else" : "none";
            }
            default: return "";
            }
        }
        catch (dm::domain_error&) { return "domain_error"; }
        catch (dm::type_error&) { return "type_error"; }
        catch (dm::object_error&) { return "object_error"; }
    }

    std::string state(const setup_t& s) {
        std::string st;
        for (auto& m : e.mixins) {
            st += m->name + "=" + (m->info.registered() ? "+" : "-") + (m->info.dom ? "d" : "") + " ";
            if (m->info.registered()) VP_CHECK("conc-lookup", e.dom->get_mixin_info(m->info.id) == &m->info, "mixin %s is not found by id", m->name.c_str());
        }
        for (auto& f : e.feats) {
            st += f->name + "=" + (f->info.id != dm::invalid_feature_id ? "+" : "-") + " ";
            if (f->info.id != dm::invalid_feature_id) VP_CHECK("conc-lookup", e.dom->get_feature_info(f->info.id) == &f->info, "feature %s is not found by id", f->name.c_str());
        }
        {
            dm::domain_traverse tr(*e.dom);
            st += "rules";
            tr.traverse_mutation_rules([&](const dm::mutation_rule_info& i, uint32_t rc) { st += " " + std::string(i.name.to_std()) + "x" + std::to_string(rc); });
            st += " tcs";
            std::multiset<size_t> tcs;
            tr.traverse_type_classes([&](const dm::type_class& c) {
                size_t i = 0;
                while (i < e.tcs.size() && e.tcs[i].get() != &c) ++i;
                tcs.insert(i);
            });
            for (auto n : tcs) st += " " + std::to_string(n);
            st += " mixins ";
            int n = 0;
            tr.traverse_mixins([&](const dm::mixin_info&) { ++n; });
            st += std::to_string(n);
        }
        // nothing stale
        std::vector<const crule*> active;
        {
            dm::domain_traverse tr(*e.dom);
            tr.traverse_mutation_rules([&](const dm::mutation_rule_info& i, uint32_t) {
                for (auto& r : e.rules) if (&r->info == &i) active.push_back(r.get());
            });
        }
        {
            dm::domain_traverse tr(*e.dom);
            std::set<const dm::type*> ts;
            std::set<clist> lists;
            tr.traverse_types([&](const dm::type& t) {
                ts.insert(&t);
                auto l = e.of(t);
                VP_CHECK("conc-type-dup", lists.insert(l).second, "there are two types %s", show(l).c_str());
                for (auto m : t.mixins) VP_CHECK("conc-stale-type", m->registered(), "type %s has an unregistered mixin", show(l).c_str());
                for (uint32_t i = 0; i < t.num_mixins(); ++i) VP_CHECK("conc-stale-type", t.index_of(t.mixins[i]->id) == i, "type %s has stale ids", show(l).c_str());
            });
            tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& t) {
                clist ql, exp;
                bool reg = true;
                for (auto m : q) { ql.push_back(reinterpret_cast<const cmixin*>(m->user_data)->index); reg &= m->registered(); }
                VP_CHECK("conc-stale-query", reg, "stored query %s has an unregistered mixin", show(ql).c_str());
                VP_CHECK("conc-stale-query", ts.count(&t) || &t == &e.dom->get_empty_type(), "stored query %s leads to a type which doesn't exist", show(ql).c_str());
                VP_CHECK("conc-stale-query", e.eval(ql, active, exp) && exp == e.of(t), "stored query %s leads to %s and not to %s", show(ql).c_str(), show(e.of(t)).c_str(), show(exp).c_str());
                count("stored queries checked");
            });
        }
        st += " results";
        for (auto& l : s.pool) {
            bool reg = true;
            for (auto i : l) reg &= e.mixins[size_t(i)]->info.registered();
            iop o;
            o.k = o_get;
            o.list = l;
            auto got = exec(o);
            if (reg) {
                clist exp;
                auto okay = e.eval(l, active, exp);
                auto x = okay ? "type " + show(exp) : std::string("type_error");
                VP_CHECK("conc-stale-result", got == x, "request of %s: %s and not %s", show(l).c_str(), got.c_str(), x.c_str());
            }
            st += " " + got;
        }
        return st;
    }
};

// seq: the third operation follows the second one in its thread, otherwise it interrupts it
run_result run_with(const setup_t& s, const std::vector<iop>& ops, int at_b, int at_c, bool seq) {
    irun r(s);
    for (auto& o : s.prefix) r.exec(o);
    run_result res;
    res.res.resize(ops.size());
    injector i;
    if (ops.size() > 1) {
        i.slots.resize(seq ? 1 : ops.size() - 1);
        i.slots[0].at = at_b;
        i.slots[0].op = [&] {
            res.b_ran = true;
            res.res[1] = r.exec(ops[1]);
            if (seq) { res.c_ran = true; res.res[2] = r.exec(ops[2]); }
        };
        if (ops.size() > 2 && !seq) {
            i.slots[1].at = at_c;
            i.slots[1].op = [&] { res.c_ran = true; res.res[2] = r.exec(ops[2]); };
        }
    }
    inj = &i;
    i.armed = true;
    res.res[0] = r.exec(ops[0]);
    i.armed = false;
    inj = nullptr;
    std::copy(std::begin(i.locks_after), std::end(i.locks_after), res.locks_after);
    if (!i.slots.empty()) res.points_a = i.slots[0].seen;
    if (i.slots.size() > 1) res.points_b = i.slots[1].seen;
    res.final_state = r.state(s);
    return res;
}

// sequential order
run_result run_seq(const setup_t& s, const std::vector<iop>& ops, const std::vector<int>& order) {
    irun r(s);
    for (auto& o : s.prefix) r.exec(o);
    run_result res;
    res.res.resize(ops.size());
    for (auto i : order) res.res[size_t(i)] = r.exec(ops[size_t(i)]);
    res.final_state = r.state(s);
    return res;
}

iop rnd_iop(rng& r, const setup_t& s, bool b) {
    iop o;
    static const int wa[] = {10, 6, 5, 5, 4, 4, 3, 3, 2, 1, 2, 1, 2, 1, 7};
    static const int wb[] = {4, 2, 1, 1, 1, 4, 4, 10, 10, 8, 3, 2, 3, 2, 2};
    auto w = b ? wb : wa;
    int total = 0;
    for (int i = 0; i < o_count; ++i) total += w[i];
    int k = r.range(0, total - 1), i = 0;
    while (k >= w[i]) k -= w[i++];
    o.k = opk(i);
    if (o.k <= o_object) o.list = s.pool[r.below(uint32_t(s.pool.size()))];
    else if (o.k == o_add_rule || o.k == o_remove_rule) o.arg = r.range(0, s.nrules - 1);
    else if (o.k == o_lookup) o.arg = r.range(0, 7 * 2 * 12 - 1);
    else if (o.k == o_register || o.k == o_unregister) o.arg = r.range(0, s.extras - 1);
    else if (o.k == o_feature || o.k == o_unfeature) o.arg = r.range(4, 6);
    else if (o.k == o_tc || o.k == o_untc) o.arg = r.range(0, s.ntcs - 1);
    return o;
}

// do the operations keep the preconditions: mixins of a request in flight aren't being (un)registered,
// features of registered mixins aren't unregistered
bool legal(const setup_t& s, const std::vector<iop>& ops) {
    for (size_t i = 0; i < ops.size(); ++i) for (size_t j = 0; j < ops.size(); ++j) {
        if (i == j) continue;
        auto& a = ops[i];
        auto& b = ops[j];
        if (a.k <= o_object && (b.k == o_register || b.k == o_unregister)) {
            for (auto x : a.list) if (x == s.perm + b.arg) return false;
        }
        // types which are being used must not be collected
        if (a.k == o_object && b.k == o_gc) return false;
        // registering an info from two threads at once
        if ((a.k == o_register || a.k == o_unregister) && (b.k == o_register || b.k == o_unregister) && a.arg == b.arg) return false;
    }
    return true;
}

void interleave_case(rng& r) {
    setup_t s;
    s.r = rng(r.next());
    s.perm = r.range(3, 6);
    s.extras = r.range(1, 3);
    s.nrules = r.range(1, 4);
    s.ntcs = 3;
    s.dup = r.chance(25);
    s.canon = r.chance(25);
    s.dupf = r.chance(25);
    s.twins = r.chance(50);
    int np = r.range(1, 6);
    for (int i = 0; i < np; ++i) {
        clist l;
        int n = r.range(0, 4);
        for (int j = 0; j < n; ++j) {
            int x = r.range(0, r.chance(25) ? s.perm + s.extras - 1 : s.perm - 1);
            if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x);
        }
        s.pool.push_back(l);
    }
    int n = r.range(0, 10);
    for (int i = 0; i < n; ++i) {
        auto o = rnd_iop(r, s, true);
        if (o.k == o_unfeature) continue;
        s.prefix.push_back(o);
    }
    std::vector<iop> ops;
    int nops = r.chance(45) ? 3 : 2;
    bool seq = nops > 2 && r.chance(50);
    // often: all operations are on the same kind of elements
    static const opk families[][2] = {{o_add_rule, o_remove_rule}, {o_tc, o_untc}, {o_register, o_unregister}, {o_feature, o_unfeature}};
    auto* family = r.chance(30) ? families[r.below(4)] : nullptr;
    for (int tries = 0;; ++tries) {
        ops.clear();
        for (int i = 0; i < nops; ++i) {
            ops.push_back(rnd_iop(r, s, i > 0));
            if (!family || tries >= 100) continue;
            while (ops.back().k != family[0] && ops.back().k != family[1]) ops.back() = rnd_iop(r, s, r.chance(50));
        }
        if (tries < 200 && !legal(s, ops)) continue;
        break;
    }
    if (!legal(s, ops)) return;
    // unregistering features: only if no extra mixin with it may be registered
    for (auto& o : ops) if (o.k == o_unfeature && o.arg == 4) {
        for (auto& p : s.prefix) if (p.k == o_register) return;
        for (auto& p : ops) if (p.k == o_register) return;
    }
    log("perm %d extras %d rules %d dup %d canon %d duplicate features %d duplicate type classes %d", s.perm, s.extras, s.nrules, s.dup, s.canon, s.dupf, s.twins);
    {
        irun ir(s);
        for (auto& ru : ir.e.rules) log("rule %d kind %d a %d b %d prio %d", ru->index, ru->kind, ru->a->index, ru->b->index, ru->info.order_priority);
    }
    for (auto& o : s.prefix) log("prefix %s", o.str().c_str());
    for (auto& o : ops) log("concurrent %s", o.str().c_str());

    // sequential orders
    struct outcome { std::vector<std::string> res; std::string st; };
    std::vector<outcome> allowed;
    std::vector<int> order;
    for (int i = 0; i < nops; ++i) order.push_back(i);
    std::map<std::vector<int>, run_result> seqs;
    do {
        if (seq && std::find(order.begin(), order.end(), 1) > std::find(order.begin(), order.end(), 2)) continue;
        auto x = run_seq(s, ops, order);
        seqs[order] = x;
        allowed.push_back({x.res, x.final_state});
    } while (std::next_permutation(order.begin(), order.end()));
    std::vector<outcome> allowed2; // without C
    if (nops > 2 && !seq) {
        std::vector<iop> two(ops.begin(), ops.begin() + 2);
        for (auto& o : {std::vector<int>{0, 1}, std::vector<int>{1, 0}}) {
            auto x = run_seq(s, two, o);
            x.res.push_back("");
            allowed2.push_back({x.res, x.final_state});
        }
    }
    std::set<std::string> seen;
    for (int k = 0; k < 200; ++k) {
        std::vector<int> js = {0};
        for (size_t ji = 0; ji < js.size(); ++ji) {
            int j = js[ji];
            log("interleaving: B at point %d of A%s", k, seq ? ", then C" : nops > 2 ? (", C at point " + std::to_string(j) + " of B").c_str() : "");
            auto x = run_with(s, ops, k, j, seq);
            if (!x.b_ran) goto done;
            count("interleavings");
            if (seq) count("interleavings with two operations in sequence");
            count((std::string(opn[ops[0].k]) + " / " + opn[ops[1].k]).c_str());
            // the type of a request which has taken locks after everything else has finished must exist
            // (otherwise it may have been collected right after the request has got it)
            for (size_t q = 0; q < x.res.size(); ++q) if (x.res[q] == "type gone") {
                if (x.locks_after[q] == 0) count("types collected right after their request");
                else fail("conc-type-gone", "'%s' interleaved with others returned a type which does not exist", ops[q].str().c_str());
            }
            auto& al = nops > 2 && !x.c_ran ? allowed2 : allowed;
            bool good = false;
            for (auto a : al) {
                // the type of a request was collected after the end of the request
                for (size_t q = 0; q < x.res.size(); ++q) if (x.res[q] == "type gone" && a.res[q].substr(0, 5) == "type ") a.res[q] = x.res[q];
                good |= a.res == x.res && a.st == x.final_state;
            }
            if (!good) {
                for (auto& a : al) {
                    log("allowed:");
                    for (auto& q : a.res) log("  %s", q.c_str());
                    log("  %s", a.st.c_str());
                }
                log("got:");
                for (auto& q : x.res) log("  %s", q.c_str());
                log("  %s", x.final_state.c_str());
                fail("conc-not-linearizable", "results of '%s' interleaved with '%s' are those of no sequential order", ops[0].str().c_str(), ops[1].str().c_str());
            }
            std::string key;
            for (auto& q : x.res) key += q + ";";
            if (seen.insert(key + x.final_state).second) sig(key);
            sig(uint64_t(k * 100 + j));
            nontrivial();
            if (ji == 0 && nops > 2 && !seq) for (int p = 1; p <= std::min(x.points_b, 12); ++p) js.push_back(p);
        }
    }
done:
    count("operation pairs");
    if (seen.size() > 1) count("operation pairs with several outcomes");
}

// ------------------------------------------------------------------------------------------------
// threads

struct shared_env {
    env* e;
    std::vector<clist> pool;
    int nthreads;
    bool gc;
    int nrules;
    std::atomic<int> slots[64] = {};   // owners of mixin ids
    std::atomic<int> fslots[64] = {};
    dm::object* shared_obj = nullptr;
    std::vector<std::vector<const crule*>> others; // per thread: rules of others
};

struct thread_result {
    std::map<clist, const dm::type*> types;
    std::vector<dm::object> objs;
    std::map<const dm::type*, int64_t> counts;
    int64_t live = 0;
    uint64_t ops = 0, requests = 0, hits = 0, objects = 0, registrations = 0, rule_ops = 0, gcs = 0, lookups = 0;
    bool rule_on = false;
};

void thread_main(shared_env& se, int ti, uint64_t seed, int nops, thread_result& out, std::barrier<>& bar) {
    rng r(seed), dr(seed + 77);
    delay_rng = r.chance(70) ? &dr : nullptr;
    live_mixins = 0;
    auto& e = *se.e;
    auto& mine = *e.mixins[size_t(e.perm + ti)];
    auto& mine2 = *e.mixins[size_t(e.perm + se.nthreads + ti)];
    const crule* my_rule = ti < se.nrules ? e.rules[size_t(ti)].get() : nullptr;
    bool mine_reg = false;
    auto check_result = [&](const clist& l, const dm::type& t) {
        auto got = e.of(t);
        ++out.requests;
        // the rule of this thread is surely on or off, others may be on or off
        auto& os = se.others[size_t(ti)];
        bool good = false;
        for (uint32_t mask = 0; mask < (1u << os.size()) && !good; ++mask) {
            std::vector<const crule*> act;
            for (size_t i = 0; i < os.size(); ++i) if (mask & (1u << i)) act.push_back(os[i]);
            if (out.rule_on) act.push_back(my_rule);
            clist exp;
            good = e.eval(l, act, exp) && exp == got;
        }
        VP_CHECK("conc-stale-result", good, "request of %s gave %s, which is not possible with the rules", show(l).c_str(), show(got).c_str());
        if (got.empty()) {
            VP_CHECK("conc-empty", &t == &e.dom->get_empty_type(), "another empty type");
            return;
        }
        auto f = out.types.emplace(got, &t);
        VP_CHECK("conc-two-types", f.second || f.first->second == &t, "two types for %s", show(got).c_str());
        if (!f.second) ++out.hits;
        for (uint32_t i = 0; i < t.num_mixins(); ++i) {
            VP_CHECK("conc-type", t.index_of(t.mixins[i]->id) == i && t.has(*t.mixins[i]), "type %s is broken", show(got).c_str());
        }
    };
    auto check_obj = [&](dm::object& o) {
        auto& t = o.get_type();
        for (uint32_t i = 0; i < t.num_mixins(); ++i) {
            auto s = static_cast<state_t*>(o.get_at(i));
            VP_CHECK("conc-object", s && s->magic == alive, "object has a mixin which is not alive");
        }
    };
    bar.arrive_and_wait();
    for (int n = 0; n < nops; ++n) {
        ++out.ops;
        auto& l = se.pool[r.below(uint32_t(se.pool.size()))];
        switch (r.below(16)) {
        case 0: case 1: case 2: case 3:
            check_result(l, *e.request(l, int(r.below(4))));
            break;
        case 4: case 5: { // objects
            ++out.objects;
            if (out.objs.size() < 4) {
                auto& t = *e.request(l, 0);
                check_result(l, t);
                out.objs.emplace_back(t);
            }
            else {
                auto& o = out.objs[r.below(uint32_t(out.objs.size()))];
                auto& t = *e.request(l, int(r.below(2)));
                check_result(l, t);
                o.reset_type(t);
                check_obj(o);
            }
            break;
        }
        case 6: {
            if (out.objs.empty()) break;
            auto i = r.below(uint32_t(out.objs.size()));
            if (r.chance(50)) out.objs.erase(out.objs.begin() + i);
            else if (r.chance(50)) {
                dm::object c = out.objs[i].copy();
                VP_CHECK("conc-object", c.equals(out.objs[i]), "a copy is not equal");
                out.objs[i] = std::move(c);
            }
            else out.objs[i].clear();
            break;
        }
        case 7: { // shared constant object
            const dm::object& so = *se.shared_obj;
            auto& t = so.get_type();
            for (uint32_t i = 0; i < t.num_mixins(); ++i) {
                auto s = static_cast<const state_t*>(so.get(*t.mixins[i]));
                VP_CHECK("conc-object", s && s->magic == alive, "shared object is broken");
            }
            dm::object c = so.copy();
            VP_CHECK("conc-object", c.equals(so) && so.equals(c), "a copy is not equal to the shared object");
            for (auto& f : e.feats) {
                if (f->info.id == dm::invalid_feature_id || f.get() == e.feats[3].get() || f.get() == e.feats[4].get()) continue;
                (void)t.implements_strong(f->info);
            }
            break;
        }
        case 8: case 9: { // own mixin comes and goes
            ++out.registrations;
            if (!mine_reg) {
                if (r.chance(50)) e.dom->register_mixin(mine.info);
                else VP_CHECK("conc-register", !dnmx_register_mixin(e.dom->to_c_hanlde(), &mine.info), "registration failed");
                auto id = mine.info.iid();
                VP_CHECK("conc-id", id < 64, "id %u is not the least free one", id);
                VP_CHECK("conc-id", se.slots[id].exchange(ti + 1, std::memory_order_relaxed) == 0, "two mixins have the id %u at once", id);
                mine_reg = true;
                VP_CHECK("conc-lookup", e.dom->get_mixin_info(mine.info.id) == &mine.info, "mixin is not found by id");
                VP_CHECK("conc-lookup", e.dom->get_mixin_info(std::string_view(mine.name)) == &mine.info, "mixin is not found by name");
                if (!se.gc) {
                    // types with it: nobody else knows them
                    const dm::mixin_info* q[] = {&mine.info};
                    auto& t = e.dom->get_type(q);
                    VP_CHECK("conc-type", t.num_mixins() == 1 && t.mixins[0] == &mine.info && t.has(mine.info), "type of own mixin is wrong");
                    dm::object o(t);
                    check_obj(o);
                }
                // a failed registration of another one with the same name
                mine2.info.name = mine.info.name;
                bool thrown = false;
                try { e.dom->register_mixin(mine2.info); } catch (dm::domain_error&) { thrown = true; }
                VP_CHECK("conc-dup", thrown && !mine2.info.registered(), "two mixins with one name");
            }
            else {
                auto id = mine.info.iid();
                auto old = mine.info.id;
                se.slots[id].store(0, std::memory_order_relaxed);
                e.dom->unregister_mixin(mine.info);
                mine_reg = false;
                VP_CHECK("conc-lookup", e.dom->get_mixin_info(std::string_view(mine.name)) == nullptr, "mixin is found by name after it was unregistered");
                VP_CHECK("conc-lookup", e.dom->get_mixin_info(old) != &mine.info, "mixin is found by id after it was unregistered");
            }
            break;
        }
        case 10: case 11: { // own rule
            if (!my_rule) break;
            ++out.rule_ops;
            if (!out.rule_on) e.dom->add_mutation_rule(my_rule->info);
            else e.dom->remove_mutation_rule(my_rule->info);
            out.rule_on = !out.rule_on;
            check_result(l, *e.request(l, 0));
            break;
        }
        case 12: { // lookups
            ++out.lookups;
            auto& m = *e.mixins[r.below(uint32_t(e.perm))];
            VP_CHECK("conc-lookup", e.dom->get_mixin_info(std::string_view(m.name)) == &m.info && e.dom->get_mixin_info(m.info.id) == &m.info, "permanent mixin is not found");
            VP_CHECK("conc-lookup", dnmx_get_mixin_info_by_name(e.dom->to_c_hanlde(), m.info.name) == &m.info, "C: permanent mixin is not found");
            VP_CHECK("conc-lookup", e.dom->get_feature_info(std::string_view("f0")) == &e.feats[0]->info, "permanent feature is not found");
            VP_CHECK("conc-lookup", e.dom->get_type_class("tc0") == e.tcs[0].get(), "permanent type class is not found");
            {
                auto h = e.dom->to_c_hanlde();
                auto& f0 = e.feats[0]->info;
                VP_CHECK("conc-lookup", e.dom->get_feature_info(f0.id) == &f0, "permanent feature is not found by id");
                VP_CHECK("conc-lookup", dnmx_get_feature_info_by_name(h, f0.name) == &f0 && dnmx_get_feature_info_by_id(h, f0.id) == &f0, "C: permanent feature is not found");
                VP_CHECK("conc-lookup", dnmx_get_mixin_info_by_id(h, m.info.id) == &m.info, "C: permanent mixin is not found by id");
                VP_CHECK("conc-lookup", dnmx_get_type_class_by_name(h, e.tcs[0]->name) == e.tcs[0].get(), "C: permanent type class is not found");
                // of other threads: there or not
                auto other = "own" + std::to_string(r.below(8));
                (void)e.dom->get_feature_info(std::string_view(other));
                (void)e.dom->get_mixin_info(std::string_view(other));
                (void)e.dom->get_feature_info(dm::feature_id{r.below(16)});
                (void)e.dom->get_mixin_info(dm::mixin_id{r.below(40)});
                (void)e.dom->get_type_class("tc" + std::to_string(r.below(9)));
                dm::type_mutation tm(*e.dom);
                VP_CHECK("conc-lookup", &tm.add(std::string_view(m.name)) == &m.info, "permanent mixin is not found by a type mutation");
            }
            (void)e.dom->num_types();
            (void)e.dom->num_type_queries();
            (void)e.dom->num_mutation_rules();
            VP_CHECK("conc-lookup", e.dom->get_empty_type().num_mixins() == 0, "empty type");
            VP_CHECK("conc-lookup", se.shared_obj->is_of("tc0") == (se.shared_obj->get_type().num_mixins() % 2 == 0), "is_of");
            break;
        }
        case 13: { // own type class and feature
            auto& tc = *e.tcs[size_t(1 + ti)];
            if (r.chance(50)) {
                e.dom->register_type_class(tc);
                VP_CHECK("conc-lookup", e.dom->get_type_class(tc.name.to_std()) == &tc, "type class is not found");
                e.dom->unregister_type_class(tc);
                VP_CHECK("conc-lookup", e.dom->get_type_class(tc.name.to_std()) == nullptr, "type class is found after it was unregistered");
            }
            else {
                cfeat f;
                f.name = "own" + std::to_string(ti);
                f.info.name = mk_sv(f.name.data(), f.name.size());
                e.dom->register_feature(f.info);
                auto id = f.info.iid();
                VP_CHECK("conc-id", id < 64 && se.fslots[id].exchange(ti + 1, std::memory_order_relaxed) == 0, "two features have the id %u at once", id);
                VP_CHECK("conc-lookup", e.dom->get_feature_info(std::string_view(f.name)) == &f.info, "feature is not found");
                se.fslots[id].store(0, std::memory_order_relaxed);
                e.dom->unregister_feature(f.info);
                VP_CHECK("conc-lookup", e.dom->get_feature_info(std::string_view(f.name)) == nullptr, "feature is found after it was unregistered");
            }
            break;
        }
        case 14: {
            if (se.gc && ti == 0) {
                ++out.gcs;
                if (r.chance(50)) e.dom->garbage_collect_types();
                else dnmx_garbage_collect_types(e.dom->to_c_hanlde());
                break;
            }
            if (r.chance(70)) {
                dm::domain_traverse tr(*e.dom);
                size_t nt = 0, nm = 0;
                tr.traverse_types([&](const dm::type& t) { nt += t.num_mixins() > 0; });
                tr.traverse_mixins([&](const dm::mixin_info& m) { nm += m.registered(); });
                VP_CHECK("conc-traverse", nm >= size_t(e.perm), "traversal lost mixins");
                tr.traverse_mutation_rules([&](const dm::mutation_rule_info&, uint32_t rc) { VP_CHECK("conc-traverse", rc > 0, "rule with no references"); });
            }
            else {
                std::ostringstream so;
                dm::util::dbg_dmp(so, *e.dom);
                VP_CHECK("conc-dump", so.str().size() > 10, "empty dump");
            }
            break;
        }
        case 15: { // query of own object, mutation from its type
            if (out.objs.empty()) break;
            auto& o = out.objs[r.below(uint32_t(out.objs.size()))];
            auto before = e.of(o.get_type());
            if (before.empty()) break;
            auto val = static_cast<state_t*>(o.get_at(0))->value;
            auto keep = before[0];
            dm::type_mutation tm(o.get_type());
            // the result of removing a mixin may not be pinned
            if (se.gc) { check_result(before, e.dom->get_type(std::move(tm))); break; }
            if (before.size() > 1) tm.remove(e.mixins[size_t(before.back())]->info);
            before.pop_back();
            if (before.empty()) break;
            auto& t = e.dom->get_type(std::move(tm));
            check_result(before, t);
            o.reset_type(t);
            if (auto s = static_cast<state_t*>(o.get(e.mixins[size_t(keep)]->info))) VP_CHECK("conc-object", s->value == val, "mutation lost the state of a mixin");
            break;
        }
        }
    }
    if (mine_reg) {
        se.slots[mine.info.iid()].store(0, std::memory_order_relaxed);
        e.dom->unregister_mixin(mine.info);
    }
    for (auto& o : out.objs) { check_obj(o); ++out.counts[&o.get_type()]; }
    out.live = live_mixins;
    delay_rng = nullptr;
}

void stress_case(rng& r) {
    shared_env se;
    se.nthreads = r.range(2, opt().level ? 8 : 6);
    se.gc = r.chance(30);
    se.nrules = r.range(0, std::min(3, se.nthreads));
    live_mixins = 0;
    {
        env e(rng(r.next()), r.range(4, 7), se.nthreads * 2, 3, 1 + se.nthreads, false, r.chance(25), true);
        // names of own mixins are unique
        for (int i = 0; i < se.nthreads * 2; ++i) {
            auto& m = *e.mixins[size_t(e.perm + i)];
            m.name = "own" + std::to_string(i);
            m.info.name = mk_sv(m.name.data(), m.name.size());
            // features of own mixins are permanent ones
            m.feats.clear();
            dm::feature_for_mixin ff = {};
            ff.info = &e.feats[0]->info;
            ff.payload = &m;
            m.feats.push_back(ff);
            m.info.set_features(m.feats);
        }
        for (auto& m : e.mixins) m->info.dependency = false;
        for (auto& f : e.feats) if (f->info.id == dm::invalid_feature_id) e.dom->register_feature(f->info);
        e.dom->register_type_class(*e.tcs[0]);
        se.e = &e;
        int np = r.range(2, 12);
        for (int i = 0; i < np; ++i) {
            clist l;
            int n = r.range(0, 4);
            for (int j = 0; j < n; ++j) {
                int x = r.range(0, e.perm - 1);
                if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x);
            }
            se.pool.push_back(l);
        }
        // without interference: rules are increasing and acyclic so each list works with all of them
        std::vector<const crule*> all;
        for (int i = 0; i < se.nrules; ++i) all.push_back(e.rules[size_t(i)].get());
        for (int t = 0; t < se.nthreads; ++t) {
            auto o = all;
            if (t < se.nrules) o.erase(o.begin() + t);
            se.others.push_back(o);
        }
        for (auto& l : se.pool) {
            clist exp;
            for (uint32_t mask = 0; mask < (1u << all.size()); ++mask) {
                std::vector<const crule*> act;
                for (size_t i = 0; i < all.size(); ++i) if (mask & (1u << i)) act.push_back(all[i]);
                if (!e.eval(l, act, exp)) return; // (does not happen)
            }
        }
        std::vector<std::unique_ptr<dm::object>> pins;
        std::map<const dm::type*, int64_t> counts;
        auto pin = [&](const clist& l) {
            auto v = e.infos(l);
            pins.push_back(std::make_unique<dm::object>(e.dom->get_type(v)));
            ++counts[&pins.back()->get_type()];
        };
        if (se.gc) {
            // all results which are possible: closure under requests and results
            std::vector<clist> todo = se.pool;
            std::set<clist> done;
            while (!todo.empty()) {
                auto l = todo.back();
                todo.pop_back();
                if (!done.insert(l).second) continue;
                for (uint32_t mask = 0; mask < (1u << all.size()); ++mask) {
                    std::vector<const crule*> act;
                    for (size_t i = 0; i < all.size(); ++i) if (mask & (1u << i)) act.push_back(all[i]);
                    clist exp;
                    if (e.eval(l, act, exp)) todo.push_back(exp);
                    for (auto a : act) e.dom->add_mutation_rule(a->info);
                    pin(l);
                    for (auto a : act) e.dom->remove_mutation_rule(a->info);
                }
            }
        }
        clist first;
        for (int i = 0; i < e.perm; ++i) if (i % 2 == 0) first.push_back(i);
        auto fi = e.infos(first);
        dm::object shared_obj(e.dom->get_type(fi));
        ++counts[&shared_obj.get_type()];
        se.shared_obj = &shared_obj;
        for (int i = 0; i < e.perm; ++i) se.slots[e.mixins[size_t(i)]->info.iid()] = 1000;
        for (auto& f : e.feats) se.fslots[f->info.iid()] = 1000;
        auto live_before = live_mixins;

        int nops = opt().level ? r.range(60, 400) : r.range(40, 160);
        log("%d threads, %d operations each, gc %d, %d rules, %d lists", se.nthreads, nops, se.gc, se.nrules, np);
        std::vector<thread_result> res(size_t(se.nthreads));
        for (auto& x : res) x.objs.reserve(8);
        {
            std::barrier<> bar(se.nthreads);
            std::vector<std::thread> ts;
            for (int t = 0; t < se.nthreads; ++t) ts.emplace_back([&, t, seed = r.next()] { thread_main(se, t, seed, nops, res[size_t(t)], bar); });
            for (auto& t : ts) t.join();
        }
        // everything is quiet now: check all together
        std::map<clist, const dm::type*> types;
        std::vector<const crule*> active;
        int64_t live = 0;
        for (int t = 0; t < se.nthreads; ++t) {
            auto& x = res[size_t(t)];
            live += x.live;
            for (auto& y : x.types) {
                auto f = types.emplace(y.first, y.second);
                VP_CHECK("conc-two-types", f.first->second == y.second, "threads got different types for %s", show(y.first).c_str());
            }
            for (auto& y : x.counts) counts[y.first] += y.second;
            if (x.rule_on) active.push_back(e.rules[size_t(t)].get());
            count("thread operations", x.ops);
            count("concurrent requests", x.requests);
            count("requests of a type which exists already", x.hits);
            count("concurrent object operations", x.objects);
            count("concurrent registrations", x.registrations);
            count("concurrent rule changes", x.rule_ops);
            count("concurrent garbage collections", x.gcs);
            count("concurrent lookups", x.lookups);
            sig(x.requests * 1000 + x.hits);
        }
        count("thread runs");
        nontrivial();
        {
            std::map<clist, const dm::type*> actual;
            dm::domain_traverse tr(*e.dom);
            std::set<const dm::type*> ts;
            tr.traverse_types([&](const dm::type& t) {
                ts.insert(&t);
                VP_CHECK("conc-two-types", actual.emplace(e.of(t), &t).second, "two types for %s", show(e.of(t)).c_str());
                auto c = counts.find(&t);
                int64_t exp = c == counts.end() ? 0 : c->second;
                VP_CHECK("conc-num-objects", int64_t(t.num_objects()) == exp, "type %s has %zu objects and not %lld", show(e.of(t)).c_str(), t.num_objects(), (long long)exp);
                for (auto m : t.mixins) VP_CHECK("conc-stale-type", m->registered(), "type %s has an unregistered mixin", show(e.of(t)).c_str());
            });
            for (auto& t : types) {
                auto f = actual.find(t.first);
                VP_CHECK("conc-type-lost", f != actual.end() && f->second == t.second, "type %s is lost", show(t.first).c_str());
            }
            tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& t) {
                clist ql, exp;
                for (auto m : q) ql.push_back(reinterpret_cast<const cmixin*>(m->user_data)->index);
                VP_CHECK("conc-stale-query", ts.count(&t) || &t == &e.dom->get_empty_type(), "stored query %s leads to a type which doesn't exist", show(ql).c_str());
                VP_CHECK("conc-stale-query", e.eval(ql, active, exp) && exp == e.of(t), "stored query %s leads to %s and not to %s", show(ql).c_str(), show(e.of(t)).c_str(), show(exp).c_str());
                count("stored queries checked");
            });
            size_t nr = 0;
            tr.traverse_mutation_rules([&](const dm::mutation_rule_info&, uint32_t rc) { nr += rc; });
            VP_CHECK("conc-rules", nr == active.size() + e.dom->settings().canonicalize_types, "%zu references of rules and not %zu", nr, active.size());
            size_t nm = 0;
            tr.traverse_mixins([&](const dm::mixin_info&) { ++nm; });
            VP_CHECK("conc-registry", nm == size_t(e.perm), "%zu mixins are registered and not %d", nm, e.perm);
        }
        VP_CHECK("conc-registry", e.dom->get_type_class("tc0") != nullptr, "type class lost");
        VP_CHECK("conc-num-types", e.dom->num_types() >= types.size(), "num_types is %zu", e.dom->num_types());
        for (auto& l : se.pool) {
            auto v = e.infos(l);
            clist exp;
            auto got = e.of(e.dom->get_type(v));
            VP_CHECK("conc-stale-result", e.eval(l, active, exp) && exp == got, "request of %s after all threads: %s and not %s", show(l).c_str(), show(got).c_str(), show(exp).c_str());
        }
        for (auto& x : res) x.objs.clear();
        VP_CHECK("conc-mixin-count", live_mixins == live_before - live, "%lld mixins more than expected are alive", (long long)(live_mixins + live - live_before));
        pins.clear();
        shared_obj.clear();
        VP_CHECK("conc-mixin-count", live_mixins + live == 0, "%lld mixins leaked", (long long)(live_mixins + live));
        e.dom.reset();
        VP_CHECK("conc-leak", e.res.live.load() == 0, "the domain leaked %lld blocks", (long long)e.res.live.load());
    }
}

void run(rng& r) {
    if (opt().profile == "interleave") interleave_case(r);
    else stress_case(r);
}
}

int main(int argc, char** argv) { return run_main(argc, argv, run); }
