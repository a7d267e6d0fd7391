// Random histories of operations on a domain and its objects, checked step by step against the model
#include "world.hpp"
#include "lockmon.hpp"

namespace vp {

// type-erased mutation operation (of any of the operation types of the library)
struct dyn_op {
    struct base {
        virtual ~base() = default;
        virtual void apply(dm::type_mutation& m) = 0;
        virtual dm::object_mutate_op* obj(dm::object& o) = 0;
    };
    template <typename Op>
    struct of final : base {
        Op op;
        template <typename F>
        explicit of(F&& f) : op(f()) {}
        void apply(dm::type_mutation& m) override { do_apply(op, m, 0); }
        dm::object_mutate_op* obj(dm::object& o) override { return op.to_obj_mutate(o); }
        template <typename O> static auto do_apply(O& o, dm::type_mutation& m, int) -> decltype(o.apply_to_type_mutation(m), void()) { o.apply_to_type_mutation(m); }
        static void do_apply(Op&, dm::type_mutation&, long) { abort(); } // never for construct
    };
    std::unique_ptr<base> b;
    void apply_to_type_mutation(dm::type_mutation& m) { b->apply(m); }
    dm::object_mutate_op* to_obj_mutate(dm::object& o) { return b->obj(o); }
    template <typename F>
    static dyn_op make(F&& f) {
        dyn_op d;
        d.b.reset(new of<decltype(f())>(std::forward<F>(f)));
        return d;
    }
};

struct mop {
    int kind; // 0 add, 1 remove, 2 to_back, 3 construct, 4 unknown
    mixin_desc* d;
    std::string name; // empty d: by name
    bool by_name;
    int custom; // 0 none, -1 failing
};

struct history : world {
    using world::world;

    std::map<uint64_t, uint64_t> updates; // contents written by update functions
    const dm::type* target_type = nullptr; // expected in custom functions
    const obj* target_obj = nullptr;

    // --------------------------------------------------------------------------------------------
    // choices

    mixin_desc* rnd_home(int di) {
        std::vector<mixin_desc*> v;
        for (size_t i = 0; i < mixins.size(); ++i) if (mixin_home[i] == di) v.push_back(mixins[i].get());
        return r.pick(v);
    }
    mixin_desc* rnd_reg(int di) {
        std::vector<mixin_desc*> v;
        for (auto& m : mixins) if (m->dom == di) v.push_back(m.get());
        if (v.empty()) return nullptr;
        return r.pick(v);
    }
    mlist rnd_list(int di) {
        mlist l;
        // known type or query variation
        if (r.chance(25) && !dom[di].types.empty()) {
            auto i = dom[di].types.begin();
            std::advance(i, r.below(uint32_t(dom[di].types.size())));
            l = i->first;
            int k = r.range(0, 4);
            if (k == 0 && !l.empty()) l.erase(l.begin() + r.below(uint32_t(l.size())));
            if (k == 1) if (auto m = rnd_reg(di); m && !contains(l, m)) l.insert(l.begin() + r.below(uint32_t(l.size()) + 1), m);
            if (k == 2 && l.size() > 1) std::swap(l[0], l[l.size() - 1]);
            if (k == 3) std::sort(l.begin(), l.end(), [&](auto a, auto b) { return canon_less(a, b); });
        }
        else {
            int n = r.chance(10) ? 0 : r.range(1, r.chance(20) ? 9 : 4);
            if (p.many_mixins && r.chance(40)) {
                // nearly all
                for (auto m : dom[di].mslots) if (m && !r.chance(2)) l.push_back(m);
                n = 0;
                if (r.chance(50)) for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.below(uint32_t(i))]);
            }
            for (int i = 0; i < n; ++i) {
                auto m = rnd_reg(di);
                if (m && !contains(l, m)) l.insert(l.begin() + r.below(uint32_t(l.size()) + 1), m);
            }
        }
        if (r.chance(p.bad)) {
            int k = r.range(0, 3);
            if (k == 0 && !l.empty()) l.insert(l.begin() + r.below(uint32_t(l.size()) + 1), l[r.below(uint32_t(l.size()))]);
            if (k == 1) l.push_back(rnd_home(di));
            if (k == 2) l.insert(l.begin(), rnd_home(1 - di));
            if (k == 3) l.push_back(mixins[r.below(uint32_t(mixins.size()))].get());
        }
        return l;
    }
    // a type of the domain: existing or the empty one
    const dm::type* rnd_type(int di, mlist& l) {
        if (dom[di].types.empty() || r.chance(12)) {
            l.clear();
            return &dom[di].d->get_empty_type();
        }
        auto i = dom[di].types.begin();
        std::advance(i, r.below(uint32_t(dom[di].types.size())));
        l = i->first;
        return i->second;
    }
    obj* rnd_obj() { return objs.empty() ? nullptr : &r.pick(objs); }
    int rnd_dom() { return r.chance(6) ? 1 : 0; }
    bool c() { return r.chance(p.pc); }
    static std::vector<const dm::mixin_info*> infos(const mlist& l) {
        std::vector<const dm::mixin_info*> v;
        for (auto m : l) v.push_back(&m->info);
        return v;
    }
    std::string odesc(const obj& o) { return "obj" + std::to_string(&o - objs.data()) + show(o.list()) + (o.sealed ? "s" : ""); }

    // result of default initialising the mixins of to which are not in from
    unsigned missing_init(const mlist& from, const mlist& to, std::string& must) {
        for (auto m : to) {
            if (contains(from, m)) continue;
            if (!m->info.init) { must = m->name; return e_object; }
        }
        return ok;
    }

    // --------------------------------------------------------------------------------------------
    // registries

    uint32_t lowest_free(const std::vector<mixin_desc*>& v) { return uint32_t(std::find(v.begin(), v.end(), nullptr) - v.begin()); }
    uint32_t lowest_free(const std::vector<feat_desc*>& v) { return uint32_t(std::find(v.begin(), v.end(), nullptr) - v.begin()); }
    template <typename D>
    static void put(std::vector<D*>& v, uint32_t i, D* d) {
        if (i >= v.size()) v.resize(i + 1);
        v[i] = d;
    }
    void adopt_feature(feat_desc* f, int di) {
        f->dom = di;
        f->id = lowest_free(dom[di].fslots);
        put(dom[di].fslots, f->id, f);
        count("features registered");
    }
    unsigned feature_outcome(const feat_desc* f, int di) {
        if (f->dom != -1) return e_domain;
        if (!dom[di].settings.allow_duplicate_feature_names) {
            if (f->name.empty()) return e_domain;
            for (auto s : dom[di].fslots) if (s && s->name == f->name) return e_domain;
        }
        return ok;
    }

    bool op_register_mixin() {
        auto m = mixins[r.below(uint32_t(mixins.size()))].get();
        if (m->dom != -1 && r.chance(70)) m = mixins[r.below(uint32_t(mixins.size()))].get();
        int di = mixin_home[size_t(m->index)];
        if (m->dom != -1 && r.chance(30)) di = 1 - di; // foreign
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "register mixin " + std::to_string(m->index) + ":" + show(m->name) + " in domain " + std::to_string(di);
        o.faults = fault::alloc;
        // expectation
        size_t nf = 0; // features which get registered
        if (m->dom != -1 && m->dom != di) {
            o.expect = e_domain;
        }
        else {
            auto saved = dom[di].fslots;
            std::vector<feat_desc*> done;
            for (auto& u : m->uses) {
                if (u.f->dom != -1) continue;
                auto e = feature_outcome(u.f, di);
                if (e != ok) { o.expect = e; o.must = u.f->name; break; }
                ++nf;
                u.f->dom = di; // temporarily
                put(dom[di].fslots, lowest_free(dom[di].fslots), u.f);
                done.push_back(u.f);
            }
            for (auto f : done) f->dom = -1;
            dom[di].fslots = saved;
            if (o.expect == ok) {
                if (m->dom != -1) { o.expect = e_domain; o.must = m->name; }
                else if (!dom[di].settings.allow_duplicate_mixin_names) {
                    if (m->name.empty()) o.expect = e_domain;
                    else if (by_name(di, m->name)) { o.expect = e_domain; o.must = m->name; }
                }
            }
        }
        auto adopt = [=, this] {
            // features may have been registered even on failure
            size_t n = 0;
            bool stop = false;
            for (auto& u : m->uses) {
                if (u.f->dom != -1) continue;
                if (u.f->info.id.i != dnmx_invalid_id) {
                    VP_CHECK("feature-prefix", !stop && feature_outcome(u.f, di) == ok, "feature '%s' was registered by a failed registration of a mixin", u.f->name.c_str());
                    adopt_feature(u.f, di);
                    ++n;
                }
                else stop = true;
            }
            return n;
        };
        auto foreign = m->dom != -1 && m->dom != di;
        o.exec = [=, this, c = o.c] {
            auto d = dom[di].d;
            if (c) Cerr(C([&] { return dnmx_register_mixin(d->to_c_hanlde(), &m->info); }));
            else d->register_mixin(m->info);
        };
        o.on_ok = [=, this] {
            size_t n = adopt();
            (void)n;
            m->dom = di;
            m->id = lowest_free(dom[di].mslots);
            put(dom[di].mslots, m->id, m);
            count("mixins registered");
            for (auto& u : m->uses) VP_CHECK("feature-not-registered", u.f->dom == di, "feature '%s' of registered mixin is not registered", u.f->name.c_str());
        };
        o.on_fail = [=] {
            if (foreign) return;
            size_t n = adopt();
            VP_CHECK("feature-prefix", n <= nf, "%zu features and not %zu were registered by a failed registration of a mixin", n, nf);
        };
        perform(o);
        return true;
    }

    // the owner of a mixin info changes it while it's not registered
    // (also what happens when the storage of one mixin info is reused for another)
    bool op_reshape_mixin() {
        auto m = mixins[r.below(uint32_t(mixins.size()))].get();
        for (int i = 0; i < 4 && m->dom != -1; ++i) m = mixins[r.below(uint32_t(mixins.size()))].get();
        if (m->dom != -1) return false;
        auto& home = mixin_home[size_t(m->index)];
        int k = r.range(0, 3);
        if (k == 0) m->info.dependency = !m->info.dependency;
        else if (k == 1 && !m->name.empty()) {
            auto& other = mixins[r.below(uint32_t(mixins.size()))]->name;
            if (r.chance(50) && !nul_names) m->name += "x";
            else if (dom[0].settings.allow_duplicate_mixin_names || r.chance(20)) m->name = std::string(other);
            m->info.name = dm_sv(m->name);
        }
        else {
            if (r.chance(10) && std::count(mixin_home.begin(), mixin_home.end(), home) > 1) home = 1 - home;
            shape(m, home);
        }
        log("mixin %d is now '%s' home %d size %u align %u prio %d%s%s", m->index, show(m->name).c_str(), home, m->size, m->align, m->info.order_priority, m->info.external() ? " ext" : "", m->info.dependency ? " dep" : "");
        return true;
    }

    bool op_unregister_mixin() {
        auto m = mixins[r.below(uint32_t(mixins.size()))].get();
        if (m->dom == -1 && r.chance(60)) m = mixins[r.below(uint32_t(mixins.size()))].get();
        int di = m->dom;
        if (di == -1 || r.chance(20)) di = rnd_dom();
        if (m->dom == di) {
            for (auto& o : objs) if (o.find(m)) return false;
        }
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "unregister mixin " + std::to_string(m->index) + ":" + show(m->name) + " from domain " + std::to_string(di);
        bool mine = m->dom == di;
        if (!mine && !o.c) { o.expect = e_domain; o.must = m->name; }
        o.exec = [=, this, c = o.c] {
            auto d = dom[di].d;
            if (c) C([&] { dnmx_unregister_mixin(d->to_c_hanlde(), &m->info); });
            else d->unregister_mixin(m->info);
            if (!mine) return;
            m->dom = -1;
            dom[di].mslots[m->id] = nullptr;
            for (auto i = dom[di].types.begin(); i != dom[di].types.end();) {
                if (contains(i->first, m)) { i = dom[di].types.erase(i); count("types dropped with mixin"); }
                else ++i;
            }
            count("mixins unregistered");
        };
        perform(o);
        return true;
    }

    bool op_feature() {
        auto f = feats[r.below(uint32_t(feats.size()))].get();
        op o;
        o.c = c();
        auto fn = std::to_string(f->index) + ":" + show(f->name);
        if (r.chance(55)) {
            int di = f->home;
            if (f->dom != -1 && r.chance(40)) di = 1 - di;
            o.name = std::string(o.c ? "c " : "") + "register feature " + fn + " in domain " + std::to_string(di);
            o.faults = fault::alloc;
            o.expect = feature_outcome(f, di);
            o.must = f->name;
            o.exec = [=, this, c = o.c] {
                auto d = dom[di].d;
                if (c) Cerr(C([&] { return dnmx_register_feature(d->to_c_hanlde(), &f->info); }));
                else d->register_feature(f->info);
            };
            o.on_ok = [=, this] { adopt_feature(f, di); };
        }
        else {
            int di = f->dom;
            if (di == -1 || r.chance(20)) di = rnd_dom();
            bool mine = f->dom == di;
            if (mine) {
                for (auto& m : mixins) {
                    if (m->dom != di) continue;
                    for (auto& u : m->uses) if (u.f == f) return false;
                }
            }
            o.name = std::string(o.c ? "c " : "") + "unregister feature " + fn + " from domain " + std::to_string(di);
            if (!mine && !o.c) { o.expect = e_domain; o.must = f->name; }
            o.exec = [=, this, c = o.c] {
                auto d = dom[di].d;
                if (c) C([&] { dnmx_unregister_feature(d->to_c_hanlde(), &f->info); });
                else d->unregister_feature(f->info);
                if (!mine) return;
                dom[di].fslots[f->id] = nullptr;
                f->dom = -1;
                count("features unregistered");
            };
        }
        perform(o);
        return true;
    }

    bool op_type_class() {
        op o;
        o.c = c();
        auto hd = dom[0].d->to_c_hanlde();
        auto d = dom[0].d;
        static const dnmx_type_class nofunc = {dnmx_make_sv_lit("nofunc"), nullptr};
        if (r.chance(5)) {
            o.name = "register type class with no function";
            o.expect = e_domain;
            o.must = "nofunc";
            o.exec = [=, c = o.c] {
                if (c) Cerr(C([&] { return dnmx_register_type_class(hd, &nofunc); }));
                else d->register_type_class(nofunc);
            };
            perform(o);
            return true;
        }
        auto t = tcs[r.below(uint32_t(tcs.size()))].get();
        if (r.chance(60)) {
            o.name = std::string(o.c ? "c " : "") + "register type class '" + t->name + "'";
            o.faults = fault::alloc;
            if (t->name.empty()) o.expect = e_domain;
            for (auto& x : tcs) if (x->reg && x->name == t->name) { o.expect = e_domain; o.must = t->name; }
            o.exec = [=, c = o.c] {
                if (c) Cerr(C([&] { return dnmx_register_type_class(hd, &t->tc); }));
                else d->register_type_class(t->tc);
            };
            o.on_ok = [=] { t->reg = true; };
        }
        else {
            o.name = std::string(o.c ? "c " : "") + "unregister type class '" + t->name + "'";
            o.exec = [=, c = o.c] {
                if (c) C([&] { dnmx_unregister_type_class(hd, &t->tc); });
                else d->unregister_type_class(t->tc);
                t->reg = false;
            };
        }
        perform(o);
        return true;
    }

    bool op_rule() {
        op o;
        o.c = c();
        auto d = dom[0].d;
        auto hd = d->to_c_hanlde();
        if (r.chance(4)) {
            static const dnmx_mutation_rule_info bad = {dnmx_make_sv_lit("bad rule"), nullptr, 0, 0};
            o.name = "add rule with no function";
            o.expect = e_domain;
            o.must = "bad rule";
            o.exec = [=, c = o.c] {
                if (c) Cerr(C([&] { return dnmx_add_mutation_rule(hd, &bad); }));
                else d->add_mutation_rule(bad);
            };
            perform(o);
            return true;
        }
        if (!nrules) return false;
        auto ru = &rules[p.many_rules && r.chance(50) ? 0 : r.below(uint32_t(nrules))];
        auto rn = std::to_string(ru->index) + ":'" + ru->name + "' kind " + std::to_string(ru->kind) + " prio " + std::to_string(ru->info.order_priority) + " x" + std::to_string(ru->x) + " y" + std::to_string(ru->y);
        if (r.chance(50)) {
            o.name = std::string(o.c ? "c " : "") + "add rule " + rn;
            o.faults = fault::alloc;
            const uint32_t times = p.many_rules && r.chance(20) ? 256 : 1; // only the first one may fail
            o.exec = [=, c = o.c] {
                for (uint32_t i = 0; i < times; ++i) {
                    if (c) Cerr(C([&] { return dnmx_add_mutation_rule(hd, &ru->info); }));
                    else d->add_mutation_rule(ru->info);
                }
            };
            o.on_ok = [=, this] {
                dom[0].rules[ru] += times;
                count("rules added");
                if (times > 1) count("rules added often");
            };
        }
        else {
            o.name = std::string(o.c ? "c " : "") + "remove rule " + rn;
            o.exec = [=, c = o.c] {
                if (c) C([&] { dnmx_remove_mutation_rule(hd, &ru->info); });
                else d->remove_mutation_rule(ru->info);
            };
            o.on_ok = [=, this] {
                auto f = dom[0].rules.find(ru);
                if (f == dom[0].rules.end()) return;
                if (--f->second == 0) dom[0].rules.erase(f);
            };
        }
        perform(o);
        return true;
    }

    // --------------------------------------------------------------------------------------------
    // types

    bool op_get_type() {
        int di = rnd_dom();
        auto l = rnd_list(di);
        auto res = resolve(di, l);
        op o;
        int how = r.range(0, 2); // span, mutation, mutation from type
        o.c = c();
        o.res = res;
        o.rules = di == 0;
        o.expect = res.mask;
        o.must = res.must;
        o.faults = unsigned(fault::alloc) | (di == 0 ? unsigned(fault::rule) : 0u);
        o.name = std::string(o.c ? "c " : "") + "get type " + show(l) + " in domain " + std::to_string(di) + (how == 0 ? "" : " by mutation") + " => " + (res.mask == ok ? show(res.list) : "error");
        auto d = dom[di].d;
        auto hd = d->to_c_hanlde();
        auto v = infos(l);
        int fd = how && r.chance(p.bad / 4) ? 1 - di : di; // foreign mutation
        if (fd != di) {
            o.expect = e_domain;
            o.must.clear();
            o.rules = false;
            o.faults = 0;
            o.name += " by a foreign mutation";
        }
        auto got = std::make_shared<const dm::type*>(nullptr);
        bool own_alloc = r.chance(50);
        if (fd == di) maybe(di, res);
        o.exec = [=, this, c = o.c] {
            *got = nullptr;
            if (c) {
                if (how == 0) *got = dm::type::from_c_handle(C([&] { return dnmx_get_type_from_infos(hd, v.data(), uint32_t(v.size())); }));
                else {
                    dnmx_type_mutation_handle hm;
                    {
                        fault::pause fp;
                        if (how == 1) hm = C([&] { return dnmx_create_type_mutation_empty(dom[fd].d->to_c_hanlde()); });
                        else hm = C([&] { return dnmx_create_type_mutation_from_type(&dom[fd].d->get_empty_type()); });
                        VP_CHECK("c-mutation", hm, "no type mutation was created");
                        VP_CHECK("c-mutation", C([&] { return dnmx_type_mutation_set_mixins(hm, v.data(), dm::mixin_index_t(v.size())); }), "mixins of mutation were not set");
                    }
                    *got = dm::type::from_c_handle(C([&] { return dnmx_get_type(hd, &hm); }));
                    VP_CHECK("c-mutation-consumed", !hm, "the mutation was not consumed");
                }
                if (!*got) throw capi_error{};
            }
            else if (how == 0) *got = &d->get_type(itlib::span<const dm::mixin_info* const>(v.data(), v.size()));
            else {
                std::optional<dm::type_mutation> m;
                {
                    fault::pause fp;
                    dm::allocator al = own_alloc ? alloc_of(own_obj0) : dm::allocator();
                    if (how == 1) m.emplace(*dom[fd].d, al);
                    else m.emplace(dom[fd].d->get_empty_type(), al);
                    m->mixins.assign(v.begin(), v.end());
                }
                *got = &d->get_type(std::move(*m));
            }
        };
        o.on_ok = [=, this] {
            auto t = type_of(di, res.list);
            VP_CHECK("type-identity", t && t == *got, "request %s leads to type %s at %p and not to %s at %p", show(l).c_str(), show_infos(**got).c_str(), (const void*)*got, show(res.list).c_str(), (const void*)t);
            sig(show(res.list));
            count("type requests ok");
            if (rule_log.empty()) count("type requests without rule application");
            if (res.list.size() > 1) nontrivial();
        };
        perform(o);
        // now the same again must lead to the same type
        if (res.mask == ok && fd == di && r.chance(30)) {
            auto& t = dom[di].d->get_type(itlib::span<const dm::mixin_info* const>(v.data(), v.size()));
            VP_CHECK("type-identity", type_of(di, res.list) == &t, "repeated request %s leads to another type", show(l).c_str());
            bool own = true;
            for (auto m : l) own &= m->dom == di;
            if (own) {
                // known requests are resolved without the rules
                VP_CHECK("known-request", rule_log.empty(), "rules were run %zu times for the request %s, which was resolved just before", rule_log.size(), show(l).c_str());
                bool stored = l.empty();
                dm::domain_traverse tr(*dom[di].d);
                tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& ty) { stored |= &ty == &t && std::equal(q.begin(), q.end(), v.begin(), v.end()); });
                VP_CHECK("known-request", stored, "request %s was resolved but is not in the domain's queries", show(l).c_str());
                count("known requests");
            }
            rule_log.clear();
        }
        return true;
    }

    bool op_gc() {
        int di = rnd_dom();
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "garbage collect domain " + std::to_string(di);
        o.exec = [=, this, c = o.c] {
            auto d = dom[di].d;
            if (c) C([&] { dnmx_garbage_collect_types(d->to_c_hanlde()); });
            else d->garbage_collect_types();
            std::set<mlist> used;
            for (auto& ob : objs) if (ob.dom == di) used.insert(ob.list());
            for (auto i = dom[di].types.begin(); i != dom[di].types.end();) {
                if (used.count(i->first)) { ++i; count("types kept by gc"); }
                else { i = dom[di].types.erase(i); count("types collected"); }
            }
        };
        perform(o);
        return true;
    }

    bool op_inspect() {
        int di = rnd_dom();
        auto& d = dom[di];
        log("inspect domain %d", di);
        sig("inspect");
        count("inspections");
        {
            dm::domain_traverse tr(*d.d);
            std::map<const void*, int> seen;
            size_t n = 0;
            tr.traverse_mixins([&](const dm::mixin_info& i) { ++seen[&i]; ++n; });
            size_t en = 0;
            for (auto m : d.mslots) if (m) { ++en; VP_CHECK("traverse", seen[&m->info] == 1, "mixin %s was traversed %d times", show(m->name).c_str(), seen[&m->info]); }
            VP_CHECK("traverse", n == en, "%zu mixins were traversed and not %zu", n, en);
            seen.clear(); n = en = 0;
            tr.traverse_features([&](const dm::feature_info& i) { ++seen[&i]; ++n; });
            for (auto f : d.fslots) if (f) { ++en; VP_CHECK("traverse", seen[&f->info] == 1, "feature %s was traversed %d times", show(f->name).c_str(), seen[&f->info]); }
            VP_CHECK("traverse", n == en, "%zu features were traversed and not %zu", n, en);
            n = en = 0;
            auto ri = d.rules.begin();
            tr.traverse_mutation_rules([&](const dm::mutation_rule_info& i, uint32_t refs) {
                VP_CHECK("traverse", ri != d.rules.end(), "too many rules were traversed");
                if (ri->first->index >= 0) VP_CHECK("traverse", &i == &ri->first->info, "wrong rule or order of rules in traversal");
                VP_CHECK("traverse", refs == ri->second, "rule '%s' has %u refs and not %u", ri->first->name.c_str(), refs, ri->second);
                ++ri;
            });
            VP_CHECK("traverse", ri == d.rules.end(), "not all rules were traversed");
            if (di == 0) {
                seen.clear();
                tr.traverse_type_classes([&](const dm::type_class& t) { ++seen[&t]; ++n; });
                for (auto& t : tcs) if (t->reg) { ++en; VP_CHECK("traverse", seen[&t->tc] == 1, "type class %s was traversed %d times", t->name.c_str(), seen[&t->tc]); }
                VP_CHECK("traverse", n == en, "%zu type classes were traversed and not %zu", n, en);
            }
            seen.clear(); n = 0;
            tr.traverse_types([&](const dm::type& t) { ++seen[&t]; ++n; });
            for (auto& t : d.types) VP_CHECK("traverse", seen[t.second] == 1, "type %s was traversed %d times", show(t.first).c_str(), seen[t.second]);
            VP_CHECK("traverse", n == d.types.size(), "%zu types were traversed and not %zu", n, d.types.size());
        }
        sync_types(d);
        verify_queries(d);
        dump_domain(di);
        verify_all(r.chance(30));
        return true;
    }
    void need(const std::string& text, const std::string& what) {
        VP_CHECK("dump", text.find(what) != std::string::npos, "the dump lacks \"%s\"", show(what).c_str());
    }
    static size_t occurrences(const std::string& text, const std::string& what) {
        size_t n = 0;
        for (size_t i = 0; (i = text.find(what, i)) != std::string::npos; i += what.size()) ++n;
        return n;
    }
    static std::string list_names(const mlist& l) {
        std::string s = "{";
        for (auto m : l) { if (s.size() > 1) s += ", "; s += "'" + m->name + "'"; }
        return s + "}";
    }
    static std::string tf(bool b) { return b ? "true" : "false"; }
    void need_not(const std::string& text, const std::string& what) {
        VP_CHECK("dump", text.find(what) == std::string::npos, "the dump has \"%s\", which must not be there", show(what).c_str());
    }
    void need_n(const std::string& text, const std::string& what, size_t n) {
        auto k = occurrences(text, what);
        VP_CHECK("dump", k == n, "the dump has \"%s\" %zu times and not %zu", show(what).c_str(), k, n);
    }
    template <typename P> static std::string ptr_text(P p) {
        if (!p) return "none";
        std::ostringstream o;
        o << (const void*)p;
        return o.str();
    }
    // part of a dump from 'from' up to the next line which begins with one of 'ends' (or the end)
    std::string block(const std::string& text, const std::string& from, std::initializer_list<const char*> ends) {
        auto i = text.find(from);
        VP_CHECK("dump", i != std::string::npos, "the dump lacks \"%s\"", show(from).c_str());
        auto j = text.size();
        for (auto e : ends) j = std::min(j, text.find(std::string("\n") + e, i + from.size() - 1));
        return text.substr(i, j - i) + "\n";
    }
    std::string use_text(const feat_use& u, const dnmx_feature_for_mixin& d) const {
        return ptr_text(d.payload) + " with " + std::to_string(u.bid) + "_bid " + std::to_string(u.prio) + "_prio\n";
    }
    void check_feature_dump(const std::string& s, const feat_desc& f) {
        auto& i = f.info;
        need(s, "feature: '" + f.name + "', " + (f.dom == -1 ? "unregistered" : "id: " + std::to_string(f.id)) + ", allow clashes: " + tf(i.allow_clashes) + ", class: "
            + std::to_string(i.feature_class) + ", default payload: " + ptr_text(i.default_payload));
    }
    void check_mixin_dump(const std::string& s, const mixin_desc& m, uint32_t fl) {
        auto& i = m.info;
        VP_CHECK("dump", (s.find("dep-mixin: ") == 0) == i.dependency, "the dump tells that mixin %s is a dependency: %d", show(m.name).c_str(), !i.dependency);
        need(s, "mixin: '" + m.name + "', " + (m.dom == -1 ? "unregistered" : "id: " + std::to_string(m.id) + " ('" + dom[m.dom].name + "')") + ", "
            + (!i.move_init || i.allocator || i.force_external ? "external" : "internal") + ", " + std::to_string(m.uses.size()) + " features\n");
        std::pair<const char*, std::string> values[] = {
            {"size", std::to_string(i.size)}, {"alignment", std::to_string(i.alignment)}, {"obj_buf_size", std::to_string(i.obj_buf_size)},
            {"obj_buf_align", std::to_string(i.obj_buf_alignment_and_mixin_offset)}, {"class", std::to_string(i.mixin_class)}, {"type_info_class", std::to_string(i.type_info_class)},
            {"user_data", std::to_string(i.user_data)}, {"order_priority", std::to_string(i.order_priority)}, {"force_external", tf(i.force_external)},
            {"init", ptr_text(i.init)}, {"copy_init", ptr_text(i.copy_init)}, {"move_init", ptr_text(i.move_init)}, {"copy_asgn", ptr_text(i.copy_asgn)},
            {"move_asgn", ptr_text(i.move_asgn)}, {"destroy", ptr_text(i.destroy)}, {"equals", ptr_text(i.equals)}, {"compare", ptr_text(i.compare)}, {"allocator", ptr_text(i.allocator)}};
        for (auto& v : values) need_n(s, std::string("\n  ") + v.first + ": " + v.second + "\n", fl & dnmx_mixin_dmp_ex ? 1 : 0);
        if (fl & dnmx_mixin_dmp_features) {
            need(s, "\n  " + std::to_string(m.uses.size()) + " features:\n");
            auto list = s.substr(s.find(" features:\n"));
            need_n(list, "\n    '", m.uses.size());
            for (size_t k = 0; k < m.uses.size(); ++k) {
                auto& u = m.uses[k];
                need(list, "\n    '" + u.f->name + "': " + ptr_text((*m.features)[k].payload) + " " + std::to_string(u.bid) + "_bid " + std::to_string(u.prio) + "_prio\n");
            }
        }
        else need_not(s, "_bid ");
    }
    void check_type_dump(const std::string& s, int di, const dm::type* ty, const mlist& l, uint32_t fl) {
        auto& d = dom[di];
        need(s, "type: " + list_names(l) + " (" + ptr_text(ty) + ") ('" + d.name + "')");
        std::set<const feat_desc*> fs;
        for (auto x : l) for (auto& u : x->uses) fs.insert(u.f);
        std::pair<const char*, std::string> values[] = {
            {"size: ", std::to_string(ty->buf_size)}, {"obj buf size: ", std::to_string(ty->object_buffer_size)}, {"obj buf align: ", std::to_string(ty->object_buffer_alignment)},
            {"num obj: ", std::to_string(ty->num_objects())}, {"default_constructible: ", tf(ty->default_constructible())}, {"copy_constructible: ", tf(ty->copy_constructible())},
            {"copy_assignable: ", tf(ty->copy_assignable())}, {"equality_comparable: ", tf(ty->equality_comparable())}, {"comparable: ", tf(ty->comparable())},
            {"features: ", std::to_string(fs.size()) + "/" + std::to_string(ty->ftable_length)}};
        for (auto& v : values) need_n(s, std::string("\n  ") + v.first + v.second + "\n", fl & dnmx_type_dmp_ex ? 1 : 0);
        if (fl & dnmx_type_dmp_ftable) {
            need(s, "\n  " + std::to_string(fs.size()) + " features:\n");
            need_n(s, "impl: '", fs.size());
            for (auto f : fs) {
                auto tab = model_table(l, f);
                size_t top = 0;
                while (top + 1 < tab.size() && tab[top + 1].use->bid == tab[0].use->bid) ++top;
                std::string e = "\n    impl: '" + f->name + "' " + std::to_string(top + 1) + "/" + std::to_string(tab.size()) + "\n";
                if (fl & dnmx_type_dmp_full_ftable) for (auto& x : tab) e += "      '" + l[x.mixin_index]->name + "': " + use_text(*x.use, *x.data);
                need(s, e);
            }
            if (!(fl & dnmx_type_dmp_full_ftable)) need_not(s, "_bid ");
        }
        else need_not(s, "impl: '");
        if (fl & dnmx_type_dmp_matching_queries) {
            size_t n = 0;
            std::vector<std::string> qs;
            {
                dm::domain_traverse tr(*d.d);
                tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& x) {
                    if (&x != ty) return;
                    ++n;
                    mlist ql;
                    for (auto m : q) ql.push_back(const_cast<mixin_desc*>(desc_of(m)));
                    qs.push_back("\n    " + list_names(ql) + "\n");
                });
            }
            need(s, "\n  " + std::to_string(n) + " matching queries:\n");
            for (auto& q : qs) need(s, q);
            need_n(s, "\n    {", n);
        }
        else need_not(s, "matching queries");
        if (fl & dnmx_type_dmp_matching_type_classes) {
            need(s, "\n  matching type classes:\n");
            auto list = s.substr(s.find("matching type classes:\n"));
            size_t n = 0;
            if (di == 0) for (auto& tc : tcs) {
                if (!tc->reg) continue;
                bool is = tc->tc.matches(ty);
                n += is;
                need_n(list, "\n    " + tc->name + "\n", is ? 1 : 0);
            }
            need_n(list, "\n    ", n);
        }
        else need_not(s, "matching type classes");
    }
    void dump_domain(int di) {
        auto& d = dom[di];
        static const uint32_t flags[] = {dnmx_dmp_all, dnmx_dom_dmp_all, dnmx_dmp_min, dnmx_dom_dmp_mixins | dnmx_mixin_dmp_ex, dnmx_dom_dmp_types | dnmx_type_dmp_ex, dnmx_dom_dmp_types | dnmx_type_dmp_full_ftable | dnmx_type_dmp_ftable,
            dnmx_dom_dmp_features, dnmx_dom_dmp_type_queries, dnmx_dom_dmp_settings, dnmx_dom_dmp_mutation_rules, dnmx_dom_dmp_type_classes | dnmx_tc_dmp_matching_types, dnmx_dom_dmp_types | dnmx_type_dmp_matching_queries | dnmx_type_dmp_matching_type_classes};
        uint32_t fl = flags[r.below(12)];
        if (r.chance(30)) fl = uint32_t(r.next());
        std::ostringstream out;
        dm::util::dbg_dmp(out, *d.d, fl);
        auto t = "\n" + out.str();
        need(t, "domain: '" + d.name + "' (" + ptr_text(d.d) + "), ud: " + std::to_string(d.d->user_data) + ", ctx : " + ptr_text(d.d->context));
        for (auto e : {"Settings", "Features", "Mixins", "Mutation Rules", "Types", "Type Classes", "Type Queries"}) {
            std::string h = e;
            bool on = fl & (h == "Settings" ? dnmx_dom_dmp_settings : h == "Features" ? dnmx_dom_dmp_features : h == "Mixins" ? dnmx_dom_dmp_mixins : h == "Mutation Rules" ? dnmx_dom_dmp_mutation_rules
                : h == "Types" ? dnmx_dom_dmp_types : h == "Type Classes" ? dnmx_dom_dmp_type_classes : dnmx_dom_dmp_type_queries);
            need_n(t, " " + h + "\n", on ? 1 : 0);
        }
        if (fl & dnmx_dom_dmp_settings) {
            need(t, "canonicalize_types: " + tf(d.settings.canonicalize_types) + "\n");
            need(t, "allow_duplicate_feature_names: " + tf(d.settings.allow_duplicate_feature_names) + "\n");
            need(t, "allow_duplicate_mixin_names: " + tf(d.settings.allow_duplicate_mixin_names) + "\n");
        }
        if (fl & dnmx_dom_dmp_mixins) {
            auto sec = block(t, " Mixins\n", {"## "});
            size_t n = 0, gap = 0, gaps = 0;
            for (auto m : d.mslots) {
                if (!m) { ++gap; continue; }
                auto line = std::string(m->info.dependency ? "dep-" : "") + "mixin: '" + m->name + "', id: " + std::to_string(m->id) + " (";
                if (gap) need(sec, "\n" + std::to_string(gap) + " empty slots\n" + line);
                else need(sec, "\n" + line);
                check_mixin_dump(block(sec.substr(sec.find("\n" + line) + 1), line, {"mixin: ", "dep-mixin: ", "1", "2", "3", "4", "5", "6", "7", "8", "9"}), *m, fl);
                gaps += !!gap;
                ++n;
                gap = 0;
            }
            need_n(sec, " empty slots\n", gaps);
            need(t, "\n## " + std::to_string(n) + " Mixins\n");
            need_n(sec, "mixin: '", n);
        }
        if (fl & dnmx_dom_dmp_features) {
            auto sec = block(t, " Features\n", {"## "});
            size_t n = 0, gap = 0, gaps = 0;
            for (auto f : d.fslots) {
                if (!f) { ++gap; continue; }
                auto line = "feature: '" + f->name + "', id: " + std::to_string(f->id) + ",";
                if (gap) need(sec, "\n" + std::to_string(gap) + " empty slots\n" + line);
                else need(sec, "\n" + line);
                check_feature_dump(sec, *f);
                gaps += !!gap;
                ++n;
                gap = 0;
            }
            need_n(sec, " empty slots\n", gaps);
            need(t, "\n## " + std::to_string(n) + " Features\n");
            need_n(sec, "feature: '", n);
        }
        if (fl & dnmx_dom_dmp_mutation_rules) {
            auto sec = block(t, " Mutation Rules\n", {"## "});
            for (auto& ru : d.rules) {
                auto line = "rule: '" + ru.first->name + "', prio: " + std::to_string(ru.first->info.order_priority) + ", ud: ";
                if (ru.first->index >= 0) line += std::to_string(ru.first->info.user_data) + ", apply: " + ptr_text(ru.first->info.apply) + ", " + std::to_string(ru.second) + " refs\n";
                need(sec, "\n" + line);
            }
            need(t, "\n## " + std::to_string(d.rules.size()) + " Mutation Rules\n");
            need_n(sec, "\nrule: '", d.rules.size());
        }
        if (fl & dnmx_dom_dmp_types) {
            auto sec = block(t, " Types\n", {"## "});
            need(t, "\n## " + std::to_string(d.types.size()) + " Types\n");
            need_n(sec, "\ntype: {", d.types.size());
            for (auto& ty : d.types) {
                check_type_dump(block(sec, "type: " + list_names(ty.first) + " (" + ptr_text(ty.second), {"type: "}), di, ty.second, ty.first, fl);
            }
        }
        if (di == 0 && (fl & dnmx_dom_dmp_type_classes)) {
            auto sec = block(t, " Type Classes\n", {"## "});
            size_t n = 0;
            for (auto& tc : tcs) if (tc->reg) {
                ++n;
                need(sec, "\ntype class: '" + tc->name);
                need(sec, ", match: " + ptr_text(tc->tc.matches));
            }
            need(t, "\n## " + std::to_string(n) + " Type Classes\n");
            need_n(sec, "\ntype class: '", n);
        }
        if (fl & dnmx_dom_dmp_type_queries) {
            auto sec = block(t, " Type Queries\n", {"## "});
            size_t n = 0;
            dm::domain_traverse tr(*d.d);
            tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> q, const dm::type& ty) {
                mlist l, l2;
                for (auto m : q) l.push_back(const_cast<mixin_desc*>(desc_of(m)));
                for (auto m : ty.mixins) l2.push_back(const_cast<mixin_desc*>(desc_of(m)));
                need(sec, "\ntq: " + list_names(l) + " -> type: " + list_names(l2) + "\n");
                ++n;
            });
            need(t, "\n## " + std::to_string(n) + " Type Queries\n");
            need_n(sec, "\ntq: ", n);
        }
        count("dump bytes", t.size());

        // single mixin
        auto m = mixins[r.below(uint32_t(mixins.size()))].get();
        uint32_t mf = r.chance(50) ? uint32_t(dmnx_mixin_dmp_all) : uint32_t(r.next());
        {
            std::ostringstream mo;
            dm::util::dbg_dmp(mo, m->info, mf);
            check_mixin_dump(mo.str() + "\n", *m, mf);
        }
        auto f = feats[r.below(uint32_t(feats.size()))].get();
        {
            std::ostringstream fo;
            dm::util::dbg_dmp(fo, f->info);
            check_feature_dump(fo.str() + "\n", *f);
        }
        if (!d.types.empty()) {
            mlist l;
            auto ty = rnd_type(di, l);
            uint32_t tf = r.chance(50) ? uint32_t(dnmx_type_dmp_all) : uint32_t(r.next());
            std::ostringstream to;
            to << std::boolalpha;
            dm::util::dbg_dmp(to, *ty, tf);
            check_type_dump(to.str() + "\n", di, ty, l, tf);
        }
        if (di == 0 && !tcs.empty()) {
            auto& tc = *tcs[r.below(uint32_t(tcs.size()))];
            std::ostringstream o;
            dm::util::dbg_dmp(o, tc.tc);
            need(o.str() + "\n", "type class: '" + tc.name);
            need(o.str() + "\n", ", match: " + ptr_text(tc.tc.matches) + "\n");
        }
    }

    // --------------------------------------------------------------------------------------------
    // objects

    bool op_create() {
        if (objs.size() >= 8) return false;
        int di = rnd_dom();
        mlist l;
        auto t = rnd_type(di, l);
        bool empty = r.chance(15);
        if (empty) l.clear();
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "create object of " + (empty ? "domain" : show(l)) + " " + std::to_string(di);
        o.faults = fault::alloc | fault::init;
        bool seal = !empty && !o.c && r.chance(15);
        if (seal) o.name += " sealed";
        o.expect = missing_init({}, l, o.must);
        int al = o.c ? int(own_default) : rnd_alloc();
        auto res = std::make_shared<dm::object*>(nullptr);
        void* mem = o.c ? nullptr : ::operator new(sizeof(dm::object));
        o.cur_obj = mem;
        o.exec = [=, this, c = o.c] {
            if (c) {
                auto h = C([&] { return empty ? dnmx_create_object_empty(dom[di].d->to_c_hanlde()) : dnmx_create_object_default(t); });
                if (!h) throw capi_error{};
                *res = dm::object::from_c_handle(h);
            }
            else if (empty) *res = new (mem) dm::object(*dom[di].d, alloc_of(al));
            else *res = new (mem) dm::object(*t, alloc_of(al), seal);
        };
        o.on_ok = [=, this] {
            obj n;
            n.o = *res;
            n.alloc = al;
            n.dom = di;
            n.sealed = seal;
            object_changed(n, l, {}, 'i');
            objs.push_back(n);
            count("objects created");
        };
        perform(o);
        if (!*res && mem) ::operator delete(mem);
        return true;
    }

    bool op_destroy() {
        if (objs.empty()) return false;
        auto i = r.below(uint32_t(objs.size()));
        log("destroy obj%u %s", i, odesc(objs[i]).c_str());
        sig("destroy");
        count("objects destroyed");
        destroy_obj(objs[i]);
        objs.erase(objs.begin() + i);
        verify_all(r.chance(p.verify_all));
        return true;
    }

    bool op_reset() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        mlist l;
        auto t = rnd_type(b.dom, l);
        if (r.chance(8)) { t = &b.o->get_type(); l = b.list(); }
        int how = r.range(0, 4); // 0,1,2 type; 3 clear; 4 reset_type()
        if (how >= 3) l.clear();
        op o;
        o.c = c();
        static const char* names[] = {"reset type", "reset type", "reset type", "clear", "reset type to nothing"};
        o.name = std::string(o.c ? "c " : "") + names[how] + " of " + odesc(b) + " to " + show(l);
        o.faults = fault::alloc | fault::init;
        o.cur_obj = b.o;
        o.expect = b.sealed ? unsigned(e_object) : missing_init(b.list(), l, o.must);
        o.exec = [=, &b, c = o.c] {
            if (c) {
                if (how == 3) { if (!C([&] { return dnmx_object_clear(b.o->to_c_hanlde()); })) throw capi_error{}; }
                else Cerr(C([&] { return dnmx_object_reset_type(b.o->to_c_hanlde(), how == 4 ? nullptr : t); }));
            }
            else if (how == 3) b.o->clear();
            else if (how == 4) b.o->reset_type();
            else b.o->reset_type(*t);
        };
        o.on_ok = [=, this, &b] { object_changed(b, l, {}); };
        perform(o);
        return true;
    }

    // ---- mutation operations

    void custom_init(dm::init_new_args a, int custom) {
        VP_CHECK("init-args", target_obj && a.target_index < a.target_type.num_mixins() && a.target_type.mixins[a.target_index] == &a.info, "custom init is called with wrong arguments");
        VP_CHECK("init-args", !target_type || &a.target_type == target_type, "custom init is called with a wrong target type");
        check_place(&a.info, a.mixin_buf, "custom init");
        if (custom < 0) throw fault::injected();
        if (fault::hit(fault::user)) throw fault::injected();
        do_construct(&a.info, a.mixin_buf, contents++, custom, "custom init");
    }

    int next_custom = 1;
    mop rnd_mop(const obj& b, bool to) {
        mop m{};
        int di = b.dom;
        auto l = b.list();
        m.kind = to ? (r.chance(75) ? 3 : r.range(0, 2)) : r.range(0, 5);
        if (!to && m.kind > 2) m.kind = m.kind == 5 ? 1 : 0;
        m.d = m.kind && !l.empty() && r.chance(75) ? r.pick(l) : rnd_reg(di);
        if (r.chance(p.bad / 2) || !m.d) m.d = rnd_home(di);
        if (r.chance(p.bad / 10)) m.d = rnd_home(1 - di);
        // (ids are per domain: initialising a mixin which is registered in another domain is not an option)
        if (m.kind == 3) for (int i = 0; i < 20 && m.d->dom == 1 - di; ++i) m.d = rnd_home(di);
        m.name = m.d->name;
        m.by_name = r.chance(35) && !name_ambiguous(di, m.name);
        if (m.by_name && r.chance(p.bad / 5)) m.name = "no such mixin";
        if (m.kind == 3 || (m.kind == 0 && m.d->dom != 1 - di && r.chance(45))) {
            m.custom = next_custom++;
            if (r.chance(p.bad / 4)) m.custom = -1;
        }
        return m;
    }
    std::string show(const mop& m) {
        static const char* n[] = {"add", "remove", "to_back", "construct", "unknown"};
        return std::string(n[m.kind]) + "(" + (m.by_name ? "'" + world::show(m.name) + "'" : std::to_string(m.d->index)) + (m.custom ? ", custom " + std::to_string(m.custom) : "") + ")";
    }
    using world::show;

    dyn_op make_dyn(const mop& m) {
        auto f = [this, cu = m.custom](dm::init_new_args a) { custom_init(a, cu); };
        using namespace dynamix;
        std::string_view name = m.name;
        auto& info = m.d->info;
        switch (m.kind) {
        case 0:
            if (m.custom) {
                if (m.by_name) return dyn_op::make([&] { return mutate_ops::add(name, std::move(f)); });
                return dyn_op::make([&] { return mutate_ops::add(info, std::move(f)); });
            }
            if (m.by_name) return dyn_op::make([&] { return mutate_ops::add(name); });
            return dyn_op::make([&] { return mutate_ops::add(info); });
        case 1:
            if (m.by_name) return dyn_op::make([&] { return mutate_ops::remove(name); });
            return dyn_op::make([&] { return mutate_ops::remove(info); });
        case 2:
            if (m.by_name) return dyn_op::make([&] { return mutate_ops::to_back(name); });
            return dyn_op::make([&] { return mutate_ops::to_back(info); });
        default:
            if (m.by_name) return dyn_op::make([&] { return mutate_to_ops::construct(name, std::move(f)); });
            return dyn_op::make([&] { return mutate_to_ops::construct(info, std::move(f)); });
        }
    }
    // effect of operation on a list
    unsigned edit(const mop& m, int di, mlist& l, std::string& must) {
        auto find = [&] {
            return std::find_if(l.begin(), l.end(), [&](mixin_desc* d) { return m.by_name ? d->name == m.name : d == m.d; });
        };
        switch (m.kind) {
        case 0: {
            auto d = m.by_name ? by_name(di, m.name) : m.d;
            if (!d) { must = m.name; return e_type; }
            l.push_back(d);
            break;
        }
        case 1: if (auto f = find(); f != l.end()) l.erase(f); break;
        case 2: {
            auto f = find();
            if (f == l.end()) { must = m.by_name ? m.name : m.d->name; return e_type; }
            auto d = *f;
            l.erase(f);
            l.push_back(d);
            break;
        }
        case 4: return e_type;
        }
        return ok;
    }
    // expected outcome of initialisation with overriding ops
    unsigned init_outcome(const obj& b, const mlist& to, const std::vector<const mop*>& over, std::map<mixin_desc*, int>& custom, std::string& must, bool first_wins) {
        int di = b.dom;
        auto from = b.list();
        std::map<mixin_desc*, std::vector<const mop*>> by;
        for (auto m : over) {
            auto d = m->by_name ? by_name(di, m->name) : m->d;
            if (d && contains(to, d)) by[d].push_back(m);
        }
        for (auto d : to) {
            auto& v = by[d];
            bool is_new = !contains(from, d);
            if (is_new) {
                if (v.empty()) {
                    if (!d->info.init) { must = d->name; return e_object; }
                }
                else if (v.size() == 1 || first_wins) {
                    if (v[0]->custom < 0) return e_injected;
                    custom[d] = v[0]->custom;
                }
                else {
                    bool thrower = false, all = true;
                    for (auto x : v) { thrower |= x->custom < 0; all &= x->custom < 0; }
                    return all ? e_injected : thrower ? e_injected | e_object : unsigned(e_object);
                }
            }
            else if (v.size() > 1 && !first_wins) return e_object;
        }
        return ok;
    }

    template <typename F> static void with_ops(std::vector<dyn_op>& ops, F f) {
        switch (ops.size()) {
        case 1: f(ops[0]); break;
        case 2: f(ops[0], ops[1]); break;
        case 3: f(ops[0], ops[1], ops[2]); break;
        case 4: f(ops[0], ops[1], ops[2], ops[3]); break;
        case 5: f(ops[0], ops[1], ops[2], ops[3], ops[4]); break;
        default: abort();
        }
    }

    std::vector<dnmx_mutate_op> c_ops;
    struct c_custom { history* h; int custom; };
    std::vector<c_custom> c_customs;
    static dnmx_error_return_t c_init(dnmx_mutate_func_args a) {
        auto& cc = *reinterpret_cast<c_custom*>(a.user_data);
        VP_CHECK("init-args", a.info && a.mixin_buf && a.target_type && !a.source_type, "C init function is called with wrong arguments");
        VP_CHECK("init-args", dm::type::from_c_handle(a.target_type)->mixins[a.target_index] == a.info, "C init function is called with wrong arguments");
        VP_CHECK("init-args", !cc.h->target_type || cc.h->target_type == dm::type::from_c_handle(a.target_type), "C init function is called with a wrong target type");
        check_place(a.info, a.mixin_buf, "C custom init");
        if (cc.custom < 0) return 11;
        if (fault::hit(fault::user)) return fail_func(fault::user, cc.h->contents);
        do_construct(a.info, a.mixin_buf, cc.h->contents++, cc.custom, "C custom init");
        return 0;
    }
    static dnmx_error_return_t c_update(dnmx_mutate_func_args a) {
        auto& cc = *reinterpret_cast<c_custom*>(a.user_data);
        auto& h = *cc.h;
        VP_CHECK("update-args", a.info && a.mixin_buf && a.target_type && a.source_type, "C update function is called with wrong arguments");
        VP_CHECK("update-args", dm::type::from_c_handle(a.target_type)->mixins[a.target_index] == a.info, "C update function is called with wrong target");
        auto x = h.target_obj->find(desc_of(a.info));
        VP_CHECK("update-args", x && x == &h.target_obj->mixins[a.source_index] && x->addr == a.mixin_buf && a.source_type == &h.target_obj->o->get_type(), "C update function is called with wrong source");
        if (cc.custom < 0) return 12;
        if (fault::hit(fault::user)) return fail_func(fault::user, h.contents);
        auto& in = live_inst(a.info, a.mixin_buf, "update");
        in.content = h.contents++;
        write_pattern(a.mixin_buf, in);
        h.updates[in.token] = in.content;
        mon().events.push_back({'u', in.d, in.token, uintptr_t(a.mixin_buf)});
        return 0;
    }
    void adopt_updates(obj& b) {
        for (auto& x : b.mixins) {
            auto f = updates.find(x.token);
            if (f != updates.end()) x.content = f->second;
        }
        updates.clear();
    }

    bool op_mutate() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        auto n = r.range(1, 5);
        std::vector<mop> ms;
        bool cc = c();
        for (int i = 0; i < n; ++i) {
            auto m = rnd_mop(b, false);
            if (cc && r.chance(p.bad / 10)) m.kind = 4;
            ms.push_back(m);
        }
        auto l = b.list();
        op o;
        o.c = cc;
        o.name = std::string(cc ? "c " : "") + "mutate " + odesc(b) + ":";
        for (auto& m : ms) o.name += " " + show(m);
        o.cur_obj = b.o;
        unsigned e = ok;
        for (auto& m : ms) if ((e = edit(m, b.dom, l, o.must)) != ok) break;
        std::map<mixin_desc*, int> custom;
        mlist to;
        if (e == ok) {
            o.res = resolve(b.dom, l);
            o.rules = b.dom == 0;
            e = o.res.mask;
            o.must = o.res.must;
            maybe(b.dom, o.res);
            to = o.res.list;
        }
        if (e == ok) {
            o.name += " => " + show(to);
            std::vector<const mop*> over;
            for (auto& m : ms) if (m.kind == 0 && m.custom) over.push_back(&m);
            bool noop = to == b.list() && !cc;
            if (!noop) {
                if (b.sealed) e = e_object;
                else e = init_outcome(b, to, over, custom, o.must, cc);
            }
        }
        o.expect = e;
        o.faults = fault::alloc | fault::init | fault::user | (b.dom == 0 ? unsigned(fault::rule) : 0u);
        target_type = e == ok ? type_of(b.dom, to) : nullptr;
        target_obj = &b;
        o.exec = [&, this] {
            if (cc) {
                c_ops.clear();
                c_customs.clear();
                for (auto& m : ms) c_customs.push_back({this, m.custom});
                for (size_t i = 0; i < ms.size(); ++i) {
                    auto& m = ms[i];
                    dnmx_mutate_op x = {};
                    x.op_type = m.kind == 0 ? int(dnmx_mutate_op_add) : m.kind == 1 ? int(dnmx_mutate_op_remove) : m.kind == 2 ? int(dnmx_mutate_op_to_back) : 155;
                    if (m.by_name) x.mixin_name = dm_sv(m.name);
                    else x.mixin = &m.d->info;
                    if (m.custom) x.init_override = c_init;
                    x.user_data = uintptr_t(&c_customs[i]);
                    c_ops.push_back(x);
                }
                Cerr(C([&] { return dnmx_mutate(b.o->to_c_hanlde(), c_ops.data(), uint32_t(c_ops.size())); }));
            }
            else {
                std::vector<dyn_op> ops;
                for (auto& m : ms) ops.push_back(make_dyn(m));
                with_ops(ops, [&](auto&... x) { dm::mutate(*b.o, x...); });
            }
        };
        o.on_ok = [&, this] {
            object_changed(b, to, custom);
        };
        // (errors of the creation of a type have happened before any event)
        perform(o);
        target_obj = nullptr;
        target_type = nullptr;
        return true;
    }

    bool op_mutate_to() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        mlist to;
        auto t = rnd_type(b.dom, to);
        if (r.chance(15)) { to = b.list(); t = &b.o->get_type(); }
        auto n = r.range(0, 4);
        std::vector<mop> ms;
        for (int i = 0; i < n; ++i) {
            auto m = rnd_mop(b, true);
            if (!to.empty() && r.chance(70)) {
                m.d = r.pick(to);
                m.name = m.d->name;
                if (name_ambiguous(b.dom, m.name)) m.by_name = false;
            }
            ms.push_back(m);
        }
        op o;
        o.name = "mutate " + odesc(b) + " to " + show(to) + ":";
        for (auto& m : ms) o.name += " " + show(m);
        o.cur_obj = b.o;
        o.faults = fault::alloc | fault::init | fault::user;
        std::map<mixin_desc*, int> custom;
        std::vector<const mop*> over;
        for (auto& m : ms) if (m.custom && (m.kind == 3 || !m.by_name)) over.push_back(&m);
        if (n == 0) {
            o.expect = b.sealed ? unsigned(e_object) : missing_init(b.list(), to, o.must);
        }
        else if (to == b.list()) {}
        else if (b.sealed) o.expect = e_object;
        else o.expect = init_outcome(b, to, over, custom, o.must, false);
        target_type = t;
        target_obj = &b;
        o.exec = [&, this] {
            if (ms.empty()) dm::mutate_to(*b.o, *t);
            else {
                std::vector<dyn_op> ops;
                for (auto& m : ms) ops.push_back(make_dyn(m));
                with_ops(ops, [&](auto&... x) { dm::mutate_to(*b.o, *t, x...); });
            }
        };
        o.on_ok = [&, this] { object_changed(b, to, custom); };
        perform(o);
        target_obj = nullptr;
        target_type = nullptr;
        return true;
    }

    bool op_c_mutate_to() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        mlist to;
        auto t = rnd_type(b.dom, to);
        if (r.chance(20)) { to = b.list(); t = &b.o->get_type(); }
        struct ov { mixin_desc* d; std::string name; bool by_name; int init, upd; };
        std::vector<ov> ovs;
        int n = r.range(0, 4);
        for (int i = 0; i < n; ++i) {
            ov v{};
            v.d = to.empty() || r.chance(20) ? rnd_home(b.dom) : r.pick(to);
            v.name = v.d->name;
            v.by_name = r.chance(40);
            v.init = r.chance(25) ? 0 : next_custom++;
            v.upd = r.chance(35) ? 0 : next_custom++;
            if (r.chance(p.bad / 4)) (r.chance(50) ? v.init : v.upd) = -1;
            ovs.push_back(v);
        }
        op o;
        o.c = true;
        o.name = "dnmx_mutate_to " + odesc(b) + " to " + show(to) + ":";
        for (auto& v : ovs) o.name += " " + (v.by_name ? "'" + show(v.name) + "'" : std::to_string(v.d->index)) + "/" + std::to_string(v.init) + "/" + std::to_string(v.upd);
        o.cur_obj = b.o;
        o.faults = fault::alloc | fault::init | fault::user;
        std::map<mixin_desc*, int> custom;
        std::vector<mixin_desc*> upd;
        unsigned e = b.sealed ? e_c : ok;
        auto from = b.list();
        if (e == ok) for (auto d : to) {
            const ov* f = nullptr;
            for (auto& v : ovs) if (v.by_name ? v.name == d->name : v.d == d) { f = &v; break; }
            if (contains(from, d)) {
                if (f && f->upd < 0) { e = e_c; break; }
                if (f && f->upd) upd.push_back(d);
            }
            else if (f && f->init) {
                if (f->init < 0) { e = e_c; break; }
                custom[d] = f->init;
            }
            else if (!d->info.init) { e = e_c; break; }
        }
        o.expect = e;
        target_type = t;
        target_obj = &b;
        std::vector<dnmx_mutate_to_override> co;
        o.exec = [&, this] {
            co.clear();
            c_customs.clear();
            for (auto& v : ovs) { c_customs.push_back({this, v.init}); c_customs.push_back({this, v.upd}); }
            size_t i = 0;
            for (auto& v : ovs) {
                dnmx_mutate_to_override x = {};
                if (v.by_name) x.mixin_name = dm_sv(v.name);
                else x.mixin = &v.d->info;
                if (v.init) x.init_new = [](dnmx_mutate_func_args a) { return c_init(a); };
                if (v.upd) x.update_common = [](dnmx_mutate_func_args a) { a.user_data += sizeof(c_custom); return c_update(a); };
                x.user_data = uintptr_t(&c_customs[i]);
                i += 2;
                co.push_back(x);
            }
            Cerr(C([&] { return dnmx_mutate_to(b.o->to_c_hanlde(), t, co.data(), uint32_t(co.size())); }));
        };
        o.on_ok = [&, this] {
            std::vector<mixin_desc*> done;
            for (auto& ev : mon().events) if (ev.kind == 'u') done.push_back(const_cast<mixin_desc*>(ev.d));
            VP_CHECK("updates", done == upd, "mixins %s were updated and not %s", show(done).c_str(), show(upd).c_str());
            adopt_updates(b);
            object_changed(b, to, custom);
        };
        o.on_fail = [&, this] { adopt_updates(b); };
        perform(o);
        target_obj = nullptr;
        target_type = nullptr;
        return true;
    }

    bool op_gradual() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        int n = r.range(0, 4);
        struct gop { int k; mixin_desc* d; std::string name; bool by_name; };
        std::vector<gop> gs;
        for (int i = 0; i < n; ++i) {
            auto m = rnd_mop(b, false);
            gs.push_back({m.kind == 0 && r.chance(40) ? 3 : m.kind, m.d, m.name, m.by_name});
        }
        int end = r.range(0, 6); // 0 1 2 dtor, 3 apply, 4 cancel, 5 throw, 6 apply and handle errors while the mutation lives
        op o;
        static const char* ends[] = {"", "", "", " apply", " cancel", " throw", " apply, errors handled"};
        static const char* ks[] = {"add", "remove", "to_back", "add_if_lacking"};
        o.name = "gradual mutation of " + odesc(b) + ":";
        for (auto& g : gs) o.name += std::string(" ") + ks[g.k] + "(" + (g.by_name ? "'" + show(g.name) + "'" : std::to_string(g.d->index)) + ")";
        o.name += ends[end];
        o.cur_obj = b.o;
        auto l = b.list();
        unsigned e = ok;
        for (auto& g : gs) {
            mop m{g.k == 3 ? 0 : g.k, g.d, g.name, g.by_name, 0};
            if (g.k == 3) {
                bool has = std::any_of(l.begin(), l.end(), [&](mixin_desc* d) { return g.by_name ? d->name == g.name : d == g.d; });
                if (has) continue;
            }
            if ((e = edit(m, b.dom, l, o.must)) != ok) break;
        }
        mlist to = b.list();
        bool applies = e == ok && (end <= 3 || end == 6);
        if (e == ok && end == 5) e = e_injected;
        if (applies) {
            o.res = resolve(b.dom, l);
            o.rules = b.dom == 0;
            e = o.res.mask;
            o.must = o.res.must;
            maybe(b.dom, o.res);
            if (e == ok) {
                to = o.res.list;
                if (b.sealed) { e = e_object; }
                else e = missing_init(b.list(), to, o.must);
            }
        }
        o.expect = e;
        if (end <= 3 || end == 6) o.faults = fault::alloc | fault::init | (b.dom == 0 ? unsigned(fault::rule) : 0u);
        o.exec = [&] {
            auto fill = [&](dm::gradual_mutation& g) {
                for (auto& x : gs) {
                    auto& i = x.d->info;
                    switch (x.k) {
                    case 0: x.by_name ? g.add(x.name) : g.add(i); break;
                    case 1: x.by_name ? g.remove(x.name) : g.remove(i); break;
                    case 2: x.by_name ? g.to_back(x.name) : g.to_back(i); break;
                    case 3: x.by_name ? g.add_if_lacking(x.name) : g.add_if_lacking(i); break;
                    }
                }
            };
            std::exception_ptr handled;
            if (end == 6) {
                {
                    dm::gradual_mutation g = dm::mutate(*b.o);
                    fill(g);
                    try { g.apply(); }
                    catch (...) { handled = std::current_exception(); }
                }
                if (handled) {
                    count("failed applications handled");
                    std::rethrow_exception(handled);
                }
                return;
            }
            dm::gradual_mutation g = dm::mutate(*b.o);
            fill(g);
            if (end == 3) g.apply();
            if (end == 4) g.cancel();
            if (end == 5) throw fault::injected();
        };
        o.on_ok = [&, this] { object_changed(b, to, {}); };
        perform(o);
        return true;
    }

    // piecewise mutation scripts
    bool op_piecewise() {
        auto ob = rnd_obj();
        if (!ob) return false;
        auto& b = *ob;
        mlist to;
        auto t = rnd_type(b.dom, to);
        if (r.chance(8)) { to = b.list(); t = &b.o->get_type(); }
        auto from = b.list();
        bool same = to == from;
        struct step { int k; uint32_t at; int custom; };
        // k: 0 next, 1 each, 2 each_new, 3 default, 4 at, 5 bad at, 6 finalize (early: noop), 7 rollback, 8 throw, 9 complete check
        std::vector<step> steps;
        uint32_t n = uint32_t(to.size());
        int ns = r.range(0, 6);
        for (int i = 0; i < ns; ++i) {
            step s{r.range(0, 4), r.chance(30) ? dm::invalid_mixin_index : r.below(n + 2), r.chance(20) ? 0 : next_custom++};
            if (r.chance(p.bad / 5)) s.custom = -1;
            if (r.chance(5)) s.k = 6;
            if (r.chance(p.bad / 6)) s.k = 5;
            if (r.chance(3)) s.k = 8;
            steps.push_back(s);
        }
        int end = r.range(0, 6); // rest dtor, 5: finalize if complete, 6: rollback
        // model
        unsigned e = ok;
        std::string must;
        std::map<mixin_desc*, int> custom;
        std::vector<mixin_desc*> upd_exp;
        uint32_t upto = 0;
        bool finalized = n == 0 ? false : false;
        bool complete = n == 0;
        auto do_one = [&](int cu, bool call_upd) {
            if (complete) return;
            auto d = to[upto];
            if (contains(from, d)) {
                if (call_upd) {
                    if (cu < 0) { e = e_injected; return; }
                    upd_exp.push_back(d);
                }
            }
            else if (cu == 0) {
                if (!d->info.init) { e = e_object; must = d->name; return; }
            }
            else if (cu < 0) { e = e_injected; return; }
            else custom[d] = cu;
            ++upto;
            complete = upto == n;
        };
        auto do_upto = [&](uint32_t at, int cu, bool call_upd) {
            if (at > n) at = n;
            while (upto < at && e == ok) do_one(cu, call_upd);
        };
        if (b.sealed) e = e_object;
        std::vector<step> run;
        bool ended_manually = false;
        if (e == ok) {
            for (auto& s : steps) {
                run.push_back(s);
                switch (s.k) {
                case 0: do_one(s.custom, true); break;
                case 1: do_upto(s.at, s.custom, true); break;
                case 2: do_upto(s.at, s.custom, false); break;
                case 3: do_upto(s.at, 0, false); break;
                case 4:
                    if (n == 0 || complete) { run.pop_back(); break; }
                    s.at = upto + s.at % (n - upto);
                    run.back().at = s.at;
                    do_upto(s.at, 0, false);
                    if (e == ok) do_one(s.custom, true);
                    break;
                case 5:
                    if (upto == 0) s.at = n + 1 + s.at % 5;
                    else s.at = s.at % upto;
                    run.back().at = s.at;
                    e = e_object;
                    break;
                case 6: if (complete) finalized = true; break;
                case 8: e = e_injected; break;
                }
                if (e != ok) break;
                if (finalized) {
                    // nothing may have an effect any more
                    if (r.chance(50)) run.push_back({r.range(6, 7), 0, 0});
                    break;
                }
            }
            if (e == ok && !finalized) {
                if (end == 6) { run.push_back({7, 0, 0}); ended_manually = true; if (r.chance(30)) run.push_back({7, 0, 0}); }
                else {
                    if (end == 5) run.push_back({6, 0, 0}); // noop if not complete
                    do_upto(n, 0, false); // in dtor (or nothing to do)
                }
            }
        }
        bool rolled_back = ended_manually;
        op o;
        o.name = "piecewise mutation of " + odesc(b) + " to " + show(to) + ":";
        static const char* ks[] = {"next", "each", "each_new", "default", "at", "bad_at", "finalize", "rollback", "throw"};
        for (auto& s : run) o.name += std::string(" ") + ks[s.k] + "(" + std::to_string(s.at) + "," + std::to_string(s.custom) + ")";
        o.cur_obj = b.o;
        o.expect = e;
        o.must = must;
        // (faults in init would change where the script ends: the object must be as before then)
        if (!rolled_back && !same && !finalized) o.faults = fault::alloc | fault::init;
        target_type = t;
        target_obj = &b;
        std::vector<mixin_desc*> upd;
        std::vector<uint64_t> log_order;
        o.exec = [&, this] {
            upd.clear();
            dm::object_mutation m(*b.o, *t);
            uint32_t last = 0;
            for (auto& s : run) {
                auto init = [&](dm::init_new_args a) {
                    VP_CHECK("piecewise-order", a.target_index >= last, "mixin %u is initialised after mixin %u", a.target_index, last);
                    last = a.target_index;
                    if (s.custom == 0) dm::util::default_init_new_func(a);
                    else custom_init(a, s.custom);
                };
                auto update = [&](dm::update_common_args a) {
                    VP_CHECK("piecewise-order", a.target_index >= last, "mixin %u is updated after mixin %u", a.target_index, last);
                    last = a.target_index;
                    auto x = b.find(desc_of(&a.info));
                    VP_CHECK("update-args", &a.target_type == t && t->mixins[a.target_index] == &a.info && x && x == &b.mixins[a.source_index] && x->addr == a.mixin_buf && &a.source_type == &b.o->get_type(), "update function is called with wrong arguments");
                    if (s.custom < 0) throw fault::injected();
                    upd.push_back(x->d);
                    auto& in = live_inst(&a.info, a.mixin_buf, "update");
                    in.content = contents++;
                    write_pattern(a.mixin_buf, in);
                    updates[in.token] = in.content;
                };
                switch (s.k) {
                case 0: m.update_next_mixin(init, update); break;
                case 1: m.update_each_mixin(init, update, s.at); break;
                case 2: m.construct_each_new_mixin(init, s.at); break;
                case 3: m.default_construct_each_new_mixin(s.at); break;
                case 4: case 5: m.update_at(s.at, init, update); break;
                case 6: m.finalize(); break;
                case 7: m.rollback(); break;
                case 8: throw fault::injected();
                }
            }
        };
        o.on_ok = [&, this] {
            VP_CHECK("updates", upd == upd_exp, "mixins %s were updated and not %s", show(upd).c_str(), show(upd_exp).c_str());
            adopt_updates(b);
            if (rolled_back) { check_failed_events("a rolled back mutation"); count("manual rollbacks"); }
            else object_changed(b, to, custom);
        };
        o.on_fail = [&, this] { adopt_updates(b); };
        count("piecewise scripts");
        perform(o);
        target_obj = nullptr;
        target_type = nullptr;
        return true;
    }

    // ---- copy and move

    bool op_copy() {
        if (objs.size() >= 8) return false;
        auto ob = rnd_obj();
        if (!ob) return false;
        auto si = size_t(ob - objs.data());
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "copy " + odesc(*ob);
        auto l = ob->list();
        for (auto d : l) if (!d->info.copy_init) { o.expect = e_object; o.must = d->name; break; }
        o.faults = fault::alloc | fault::copy;
        int al = o.c ? int(own_default) : rnd_alloc();
        auto res = std::make_shared<dm::object*>(nullptr);
        void* mem = o.c ? nullptr : ::operator new(sizeof(dm::object));
        o.exec = [=, this, c = o.c] {
            const dm::object& src = *objs[si].o;
            if (c) {
                auto h = C([&] { return dnmx_create_object_copy(src.to_c_hanlde()); });
                if (!h) throw capi_error{};
                *res = dm::object::from_c_handle(h);
            }
            else *res = new (mem) dm::object(src.copy(alloc_of(al)));
        };
        o.on_ok = [=, this] {
            obj n;
            n.o = *res;
            n.alloc = al;
            n.dom = objs[si].dom;
            object_changed(n, l, {}, 'c', &objs[si]);
            objs.push_back(n);
            count("objects copied");
        };
        perform(o);
        if (!*res && mem) ::operator delete(mem);
        return true;
    }
    // after a failed assignment some mixins may have been assigned
    void adopt_half(obj& b, const obj& s) {
        for (auto& x : b.mixins) {
            auto sx = s.find(x.d);
            if (!sx) continue;
            auto f = mon().insts.find(uintptr_t(x.addr));
            VP_CHECK("mixin-alive", f != mon().insts.end(), "mixin is gone after a failed assignment");
            if (f->second.content == x.content) continue;
            VP_CHECK("half-copy", f->second.content == sx->content, "mixin %s is neither as before nor as in the source after a failed assignment", show(x.d->name).c_str());
            x.content = sx->content;
            count("mixins assigned by failed assignments");
        }
    }
    bool op_copy_from() {
        auto ob = rnd_obj();
        auto sb = rnd_obj();
        if (!ob || ob->dom != sb->dom) return false;
        auto& b = *ob;
        auto& s = *sb;
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "copy to " + odesc(b) + " from " + odesc(s);
        auto l = s.list();
        if (b.sealed) o.expect = e_object;
        else for (auto d : l) {
            if (b.find(d) ? !d->info.copy_asgn : !d->info.copy_init) { o.expect = e_object; o.must = d->name; break; }
        }
        o.faults = fault::alloc | fault::copy;
        o.cur_obj = b.o;
        o.exec = [&, c = o.c] {
            const dm::object& src = *s.o;
            if (c) Cerr(C([&] { return dnmx_object_copy_from(b.o->to_c_hanlde(), src.to_c_hanlde()); }));
            else b.o->copy_from(src);
        };
        o.on_ok = [&, this] {
            obj copy = s;
            object_changed(b, l, {}, 'c', &copy);
            count("objects copied from");
        };
        o.on_fail = [&, this, can_start = o.expect == ok] {
            if (!can_start) VP_CHECK("copy-from-events", mon().events.empty(), "mixins were changed though not all can be copied");
            adopt_half(b, s);
        };
        perform(o);
        return true;
    }
    // another object, mostly one with many of the same mixins
    obj* rnd_related(obj* ob) {
        obj* best = nullptr;
        size_t most = 0;
        if (!ob) return best;
        for (int i = r.range(1, 6); i > 0; --i) {
            auto x = rnd_obj();
            if (x == ob || x->dom != ob->dom) continue;
            size_t n = 0;
            for (auto& m : x->mixins) n += !!ob->find(m.d);
            if (!best || n > most) best = x, most = n;
        }
        return best;
    }
    bool op_copy_matching() {
        auto ob = rnd_obj();
        auto sb = r.chance(10) ? ob : rnd_related(ob);
        if (!sb) return false;
        auto& b = *ob;
        auto& s = *sb;
        op o;
        o.name = "copy matching to " + odesc(b) + " from " + odesc(s);
        size_t matching = 0;
        for (auto d : s.list()) {
            if (!b.find(d)) continue;
            ++matching;
            if (!d->info.copy_asgn) { o.expect = e_object; o.must = d->name; break; }
        }
        o.faults = fault::copy;
        o.cur_obj = b.o;
        o.exec = [&] { b.o->copy_matching_from(*static_cast<const dm::object*>(s.o)); };
        o.on_ok = [&] {
            size_t n = 0;
            for (auto& e : mon().events) {
                VP_CHECK("matching-events", e.kind == 'a', "mixin event %c in copy_matching_from", e.kind);
                ++n;
            }
            VP_CHECK("matching-events", n == matching, "%zu mixins were copied and not %zu", n, matching);
            for (auto& x : b.mixins) if (auto sx = s.find(x.d)) x.content = sx->content;
            count("matching copies", n);
        };
        o.on_fail = [&, this, can_start = o.expect == ok] {
            if (!can_start) VP_CHECK("matching-events", mon().events.empty(), "mixins were copied though not all can be");
            adopt_half(b, s);
        };
        perform(o);
        return true;
    }
    bool op_move_matching() {
        auto ob = rnd_obj();
        auto sb = rnd_related(ob);
        if (!sb) return false;
        auto& b = *ob;
        auto& s = *sb;
        op o;
        bool fb = r.chance(50);
        o.name = "move matching to " + odesc(b) + " from " + odesc(s) + (fb ? " with fallback" : "");
        for (auto d : s.list()) {
            if (!b.find(d)) continue;
            if (d->info.move_asgn || (fb && d->info.move_init)) continue;
            o.expect = e_object;
            o.must = d->name;
            break;
        }
        o.cur_obj = b.o;
        o.exec = [&] { b.o->move_matching_from(*s.o, fb); };
        o.on_ok = [&] {
            std::multiset<std::pair<char, const mixin_desc*>> exp, got;
            for (auto& e : mon().events) got.insert({e.kind, e.d});
            for (auto& x : b.mixins) {
                auto sx = const_cast<mx*>(s.find(x.d));
                if (!sx) continue;
                x.content = sx->content;
                if (x.d->info.move_asgn) {
                    sx->content = moved_content;
                    exp.insert({'v', x.d});
                }
                else {
                    exp.insert({'m', x.d});
                    if (x.d->has_destroy) exp.insert({'d', x.d});
                    x.token = sx->token;
                    // the moved-out one is usable again
                    auto& in = mon().insts[uintptr_t(sx->addr)];
                    VP_CHECK("moved-source", in.d == sx->d && in.moved_from, "mixin was not moved-out");
                    in.moved_from = false;
                    in.token = mon().next_token++;
                    in.content = moved_content;
                    write_pattern(sx->addr, in);
                    sx->token = in.token;
                    sx->content = moved_content;
                }
            }
            VP_CHECK("matching-events", exp == got, "%zu mixin events in move_matching_from and not %zu (or others)", got.size(), exp.size());
            count("matching moves", exp.size());
            mon().events.clear();
        };
        o.on_fail = [&] { VP_CHECK("matching-events", mon().events.empty(), "mixins were moved though not all can be"); };
        perform(o);
        return true;
    }
    bool op_move() {
        if (objs.size() >= 8) return false;
        auto ob = rnd_obj();
        if (!ob) return false;
        auto si = size_t(ob - objs.data());
        op o;
        o.c = c();
        o.name = std::string(o.c ? "c " : "") + "move construct from " + odesc(*ob);
        auto res = std::make_shared<dm::object*>(nullptr);
        o.exec = [=, this, c = o.c] {
            auto& s = *objs[si].o;
            if (c) *res = dm::object::from_c_handle(C([&] { return dnmx_create_object_usurp(s.to_c_hanlde()); }));
            else *res = new dm::object(std::move(s));
            VP_CHECK("c-usurp", *res, "dnmx_create_object_usurp returned null");
        };
        o.on_ok = [=, this] {
            VP_CHECK("move-events", mon().events.empty(), "mixin events while an object is moved");
            obj n = objs[si];
            n.o = *res;
            objs[si].mixins.clear();
            objs[si].sealed = objs[si].o->sealed(); // not specified
            objs.push_back(n);
            count("objects moved");
        };
        perform(o);
        return true;
    }
    bool op_move_assign() {
        auto ob = rnd_obj();
        auto sb = rnd_obj();
        if (!ob || ob->dom != sb->dom) return false;
        auto& b = *ob;
        auto& s = *sb;
        op o;
        o.name = "move assign to " + odesc(b) + " (" + std::to_string(b.alloc) + ") from " + odesc(s) + " (" + std::to_string(s.alloc) + ")";
        if (ob == sb) {}
        else if (b.alloc != s.alloc) o.expect = e_object;
        else if (b.sealed) o.expect = e_object;
        o.exec = [&] { *b.o = std::move(*s.o); };
        o.on_ok = [&] {
            std::multiset<uint64_t> got, exp;
            for (auto& e : mon().events) {
                VP_CHECK("move-events", e.kind == 'd', "mixin event %c in move assignment", e.kind);
                got.insert(e.token);
            }
            if (&b != &s) {
                for (auto& x : b.mixins) if (x.d->has_destroy) exp.insert(x.token);
                b.mixins = s.mixins;
                b.sealed = s.sealed;
                s.mixins.clear();
                s.sealed = s.o->sealed(); // not specified
            }
            VP_CHECK("move-events", got == exp, "%zu mixins were destroyed and not %zu (or others) in move assignment", got.size(), exp.size());
            count("objects move assigned");
        };
        perform(o);
        return true;
    }

    bool op_write() {
        auto ob = rnd_obj();
        if (!ob || ob->mixins.empty()) return false;
        auto& x = r.pick(ob->mixins);
        auto& in = mon().insts[uintptr_t(x.addr)];
        in.content = x.content = r.chance(50) ? r.below(4) : contents++;
        log("write %llu to mixin %d of %s", (unsigned long long)x.content, x.d->index, odesc(*ob).c_str());
        write_pattern(x.addr, in);
        return true;
    }
    bool op_seal() {
        auto ob = rnd_obj();
        if (!ob || r.chance(50)) return false;
        log("seal %s", odesc(*ob).c_str());
        sig("seal");
        if (c()) dnmx_object_seal(ob->o->to_c_hanlde());
        else ob->o->seal();
        ob->sealed = true;
        verify_all(false);
        return true;
    }

    // ---- compare

    static int sgn(int x) { return x < 0 ? -1 : x > 0; }
    int model_type_cmp(int da, const mlist& a, int db, const mlist& b) {
        if (da != db) return std::less<const void*>()(dom[da].d, dom[db].d) ? -1 : 1;
        for (size_t i = 0;; ++i) {
            if (i == a.size()) return i == b.size() ? 0 : -1;
            if (i == b.size()) return 1;
            if (a[i] != b[i]) return canon_less(a[i], b[i]) ? -1 : 1;
        }
    }
    bool op_compare() {
        log("compare all");
        sig("compare");
        size_t before = mon().insts.size();
        for (auto& a : objs) for (auto& b : objs) {
            // equals
            bool eq = &a == &b, cmp_err = false;
            int cmp = 0;
            auto al = a.list(), bl = b.list();
            bool same_type = a.dom == b.dom && al == bl;
            std::string must;
            if (&a != &b) {
                eq = same_type;
                if (same_type) for (size_t i = 0; i < al.size() && eq; ++i) {
                    auto& info = al[i]->info;
                    if (!info.equals && !info.compare) eq = false;
                    else eq = a.mixins[i].content == b.mixins[i].content;
                }
                cmp = model_type_cmp(a.dom, al, b.dom, bl);
                if (!cmp) for (size_t i = 0; i < al.size() && !cmp; ++i) {
                    if (!al[i]->info.compare) { cmp_err = true; must = al[i]->name; break; }
                    auto x = a.mixins[i].content, y = b.mixins[i].content;
                    cmp = x < y ? -1 : x > y;
                }
            }
            auto ha = static_cast<const dm::object*>(a.o)->to_c_hanlde(), hb = static_cast<const dm::object*>(b.o)->to_c_hanlde();
            VP_CHECK("equals", a.o->equals(*b.o) == eq && C([&] { return dnmx_object_equals(ha, hb); }) == eq, "%s equals %s is not %d", odesc(a).c_str(), odesc(b).c_str(), eq);
            unsigned got = ok;
            int res = 0;
            std::string msg;
            try { res = a.o->compare(*b.o); }
            catch (dm::object_error& e) { got = e_object; msg = e.what(); }
            auto cr = C([&] { return dnmx_object_compare(ha, hb); });
            if (cmp_err) {
                VP_CHECK("compare-error", got == e_object && cr.error, "comparison of %s and %s must fail", odesc(a).c_str(), odesc(b).c_str());
                if (!nul_names) VP_CHECK("error-message", msg.find(must) != std::string::npos, "the error '%s' does not name '%s'", msg.c_str(), must.c_str());
                count("comparison errors");
            }
            else {
                VP_CHECK("compare", got == ok && sgn(res) == cmp, "comparison of %s and %s is %d and not %d", odesc(a).c_str(), odesc(b).c_str(), got == ok ? res : 99, cmp);
                VP_CHECK("compare", !cr.error && sgn(cr.result) == cmp, "C comparison of %s and %s", odesc(a).c_str(), odesc(b).c_str());
                if (&a != &b && same_type) { count("objects of the same type compared"); nontrivial(); }
            }
            // types
            int tc = sgn(a.o->get_type().compare(b.o->get_type()));
            VP_CHECK("type-compare", tc == model_type_cmp(a.dom, al, b.dom, bl), "types %s and %s compare as %d", show(al).c_str(), show(bl).c_str(), tc);
            VP_CHECK("type-compare", (a.o->get_type() == b.o->get_type()) == (tc == 0) && (a.o->get_type() != b.o->get_type()) == (tc != 0), "types %s and %s: equality differs from comparison", show(al).c_str(), show(bl).c_str());
        }
        // all types: order
        std::vector<std::pair<mlist, const dm::type*>> ts;
        for (auto& t : dom[0].types) ts.push_back(t);
        ts.push_back({{}, &dom[0].d->get_empty_type()});
        ts.push_back({{}, &dom[1].d->get_empty_type()});
        while (ts.size() > 14) ts.erase(ts.begin() + r.below(uint32_t(ts.size())));
        for (auto& a : ts) for (auto& b : ts) {
            int x = sgn(a.second->compare(*b.second));
            VP_CHECK("type-compare", x == -sgn(b.second->compare(*a.second)), "comparison of types %s and %s is not antisymmetric", show(a.first).c_str(), show(b.first).c_str());
            if (&a.second->dom == &b.second->dom) VP_CHECK("type-compare", x == model_type_cmp(0, a.first, 0, b.first), "types %s and %s compare as %d", show(a.first).c_str(), show(b.first).c_str(), x);
            VP_CHECK("type-compare", (x == 0) == (a.second == b.second), "different types compare equal");
            for (auto& z : ts) {
                if (x <= 0 && b.second->compare(*z.second) <= 0) VP_CHECK("type-compare", a.second->compare(*z.second) <= 0, "comparison of types is not transitive");
            }
            count("types compared");
        }
        VP_CHECK("compare-effect", mon().insts.size() == before, "comparison changed the mixins");
        mon().events.clear();
        verify_all(false);
        return true;
    }

    // ---- type mutation

    bool op_type_mutation() {
        int di = rnd_dom();
        mlist l;
        bool from_type = r.chance(60);
        auto base = rnd_type(di, l);
        if (!from_type) l.clear();
        bool cc = c();
        log("%stype mutation in domain %d from %s", cc ? "c " : "", di, from_type ? show(l).c_str() : "nothing");
        sig("type mutation");
        count("type mutation sessions");
        std::optional<dm::type_mutation> cm;
        dnmx_type_mutation_handle h = nullptr;
        auto hd = dom[di].d->to_c_hanlde();
        if (cc) {
            h = C([&] { return from_type ? dnmx_create_type_mutation_from_type(base) : dnmx_create_type_mutation_empty(hd); });
            VP_CHECK("c-mutation", h, "no type mutation was created");
        }
        else {
            // allocation failure in the constructor
            if (from_type && !l.empty() && r.chance(p.pfault)) {
                fault::arm(1, fault::alloc);
                bool thrown = false;
                try { dm::type_mutation x(*base, alloc_of(own_obj0)); }
                catch (std::bad_alloc&) { thrown = true; }
                bool fired = fault::ctl().fired;
                fault::disarm();
                VP_CHECK("fault-swallowed", fired == thrown, "allocation failure in type_mutation was not reported");
                count("faults injected", fired);
            }
            int al = r.chance(50) ? int(own_obj0) : int(own_default);
            if (from_type) cm.emplace(*base, alloc_of(al));
            else cm.emplace(*dom[di].d, alloc_of(al));
            h = cm->to_c_hanlde();
        }
        auto& m = *dm::type_mutation::from_c_handle(h);
        auto verify = [&] {
            VP_CHECK("mutation-list", &m.dom == dom[di].d && C([&] { return dnmx_type_mutation_get_domain(h); }) == hd, "the mutation has a wrong domain");
            VP_CHECK("mutation-list", m.mixins.size() == l.size(), "the mutation has %zu mixins and not %zu", m.mixins.size(), l.size());
            dnmx_mixin_index_t n = 0;
            auto p = C([&] { return dnmx_type_mutation_get_mixins(h, &n); });
            VP_CHECK("mutation-list", n == l.size(), "C: the mutation has %u mixins", n);
            for (size_t i = 0; i < l.size(); ++i) VP_CHECK("mutation-list", m.mixins[i] == &l[i]->info && p[i] == &l[i]->info, "mixin %zu of the mutation is not %s", i, show(l[i]->name).c_str());
            for (auto& x : mixins) {
                bool has = contains(l, x.get());
                VP_CHECK("mutation-has", m.has(x->info) == has && m.lacks(x->info) != has && C([&] { return dnmx_type_mutation_has(h, &x->info); }) == has, "has %s is not %d", show(x->name).c_str(), has);
                const dm::mixin_info* first = nullptr;
                for (auto d : l) if (!first && d->name == x->name) first = &d->info;
                VP_CHECK("mutation-has", m.has(x->name) == first && m.lacks(x->name) == !first && C([&] { return dnmx_type_mutation_has_by_name(h, dm_sv(x->name)); }) == first, "has by name %s", show(x->name).c_str());
            }
            for (auto& f : feats) {
                bool st = false;
                const dm::feature_info* byn = nullptr;
                for (auto d : l) for (auto& u : d->uses) {
                    st |= u.f == f.get();
                    if (!byn && u.f->name == f->name) byn = &u.f->info;
                }
                VP_CHECK("mutation-implements", m.implements_strong(f->info) == st && C([&] { return dnmx_type_mutation_implements_strong(h, &f->info); }) == st, "implements_strong %s is not %d", f->name.c_str(), st);
                VP_CHECK("mutation-implements", m.implements_strong(f->name) == byn && C([&] { return dnmx_type_mutation_implements_strong_by_name(h, dm_sv(f->name)); }) == byn, "implements_strong by name %s", f->name.c_str());
                bool im = st || f->info.default_payload;
                VP_CHECK("mutation-implements", m.implements(f->info) == im && C([&] { return dnmx_type_mutation_implements(h, &f->info); }) == im, "implements %s is not %d", f->name.c_str(), im);
            }
        };
        verify();
        int n = r.range(1, 14);
        for (int i = 0; i < n; ++i) {
            auto d = !l.empty() && r.chance(55) ? r.pick(l) : mixins[r.below(uint32_t(mixins.size()))].get();
            std::string name = r.chance(6) ? "no such mixin" : d->name;
            bool bn = r.chance(45) && !name_ambiguous(di, name);
            auto reg = by_name(di, name);
            auto find = [&] { return std::find_if(l.begin(), l.end(), [&](mixin_desc* x) { return bn ? x->name == name : x == d; }); };
            int k = r.range(0, 8);
            auto before = l;
            static const char* ks[] = {"add", "add_if_lacking", "safe_add", "safe_add_if_lacking", "remove", "remove", "to_back", "dedup", "set"};
            log("  %s %s", ks[k], bn ? ("'" + show(name) + "'").c_str() : std::to_string(d->index).c_str());
            sig(ks[k]);
            bool faulty = r.chance(p.pfault) && k <= 3;
            if (faulty) {
                // a failed allocation changes nothing
                fault::arm(1, fault::alloc);
                bool failed = false, ret = true;
                const dm::mixin_info* ri = nullptr;
                (void)ri;
                bool had = find() != l.end();
                try {
                    if (cc && !bn && k <= 1) {
                        if (k == 0) ret = C([&] { return dnmx_type_mutation_add(h, &d->info); });
                        else ret = C([&] { return dnmx_type_mutation_add_if_lacking(h, &d->info); });
                        failed = !ret && !(k == 1 && had);
                    }
                    else if (k == 1 || k == 3) { if (bn) m.safe_add_if_lacking(name); else m.add_if_lacking(d->info); }
                    else { if (bn) m.safe_add(name); else m.add(d->info); }
                }
                catch (std::bad_alloc&) { failed = true; }
                bool fired = fault::ctl().fired;
                fault::disarm();
                VP_CHECK("fault-swallowed", fired == failed, "allocation failure was not reported by an edit of a type mutation");
                if (!failed) {
                    if (!(k & 1) || !had) { if (!bn) l.push_back(d); else if (reg) l.push_back(reg); }
                }
                else count("faults injected");
                verify();
                continue;
            }
            if (k <= 3) {
                bool lacking = k & 1, safe = k >= 2;
                auto dd = bn ? reg : d;
                bool had = lacking && find() != l.end();
                bool err = bn && !dd && !had;
                bool adds = !had && dd;
                const dm::mixin_info* ret = nullptr;
                bool bret = false, thrown = false;
                if (cc && !bn) {
                    bret = lacking ? C([&] { return dnmx_type_mutation_add_if_lacking(h, &d->info); }) : C([&] { return dnmx_type_mutation_add(h, &d->info); });
                    VP_CHECK("mutation-result", bret == adds, "C add returned %d", bret);
                }
                else if (!bn) {
                    if (lacking) { bret = m.add_if_lacking(d->info); VP_CHECK("mutation-result", bret == adds, "add_if_lacking returned %d", bret); }
                    else m.add(d->info);
                }
                else {
                    try {
                        if (safe) ret = lacking ? m.safe_add_if_lacking(name) : m.safe_add(name);
                        else ret = lacking ? m.add_if_lacking(name) : &m.add(name);
                    }
                    catch (dm::type_error& e) {
                        thrown = true;
                        if (!nul_names) VP_CHECK("error-message", strstr(e.what(), name.c_str()), "the error '%s' does not name '%s'", e.what(), name.c_str());
                    }
                    VP_CHECK("mutation-result", thrown == (err && !safe), "add by name: error is %d", thrown);
                    VP_CHECK("mutation-result", ret == (adds ? &dd->info : nullptr), "add by name returned a wrong mixin");
                }
                if (adds) l.push_back(dd);
            }
            else if (k <= 5) {
                auto f = find();
                auto fd = f == l.end() ? nullptr : &(*f)->info;
                if (bn) {
                    auto ret = cc ? C([&] { return dnmx_type_mutation_remove_by_name(h, dm_sv(name)); }) : m.remove(name);
                    VP_CHECK("mutation-result", ret == fd, "remove by name returned a wrong mixin");
                }
                else {
                    bool ret = cc ? C([&] { return dnmx_type_mutation_remove(h, &d->info); }) : m.remove(d->info);
                    VP_CHECK("mutation-result", ret == !!fd, "remove returned %d", ret);
                }
                if (fd) l.erase(f);
            }
            else if (k == 6) {
                auto f = find();
                bool thrown = false;
                const dm::mixin_info* ret = nullptr;
                auto fd = f == l.end() ? nullptr : *f;
                if (cc) {
                    if (bn) ret = C([&] { return dnmx_type_mutation_to_back_by_name(h, dm_sv(name)); });
                    else ret = C([&] { return dnmx_type_mutation_to_back(h, &d->info); }) ? &d->info : nullptr;
                }
                else try {
                    if (bn) ret = &m.to_back(name);
                    else { m.to_back(d->info); ret = &d->info; }
                }
                catch (dm::type_error&) { thrown = true; }
                VP_CHECK("mutation-result", ret == (fd ? &fd->info : nullptr) && (cc || thrown == !fd), "to_back has a wrong result");
                if (fd) { l.erase(f); l.push_back(fd); }
            }
            else if (k == 7) {
                if (cc) C([&] { dnmx_type_mutation_dedup(h); });
                else m.dedup();
                mlist x;
                for (size_t j = 0; j < l.size(); ++j) if (std::find(l.begin() + long(j) + 1, l.end(), l[j]) == l.end()) x.push_back(l[j]);
                l = x;
            }
            else if (r.chance(30)) {
                mlist x;
                int c2 = r.range(0, 4);
                for (int j = 0; j < c2; ++j) x.push_back(mixins[r.below(uint32_t(mixins.size()))].get());
                auto v = infos(x);
                VP_CHECK("mutation-result", C([&] { return dnmx_type_mutation_set_mixins(h, v.data(), dm::mixin_index_t(v.size())); }), "set_mixins failed");
                l = x;
            }
            count("type mutation edits");
            verify();
        }
        if (l.size() > 1) nontrivial();
        // materialize or drop
        if (r.chance(50)) {
            auto res = resolve(di, l);
            maybe(di, res);
            const dm::type* t = nullptr;
            unsigned got = ok;
            if (cc) {
                t = dm::type::from_c_handle(C([&] { return dnmx_get_type(hd, &h); }));
                VP_CHECK("c-mutation-consumed", !h, "the mutation was not consumed");
                VP_CHECK("outcome", !t == (res.mask != ok), "type from mutation %s: wrong result", show(l).c_str());
            }
            else {
                auto f = [&] { t = &dom[di].d->get_type(std::move(*cm)); };
                auto rr = attempt(f);
                got = rr.o;
                VP_CHECK("outcome", got & res.mask, "type from mutation %s: %s", show(l).c_str(), rr.msg.c_str());
            }
            sync_types(dom[di]);
            if (t) VP_CHECK("type-identity", t == type_of(di, res.list), "mutation %s leads to a wrong type", show(l).c_str());
            rule_log.clear();
        }
        else if (cc) C([&] { dnmx_destroy_unused_type_mutation(h); });
        cm.reset();
        verify_all(false);
        for (auto& d : dom) d.maybe.clear();
        return true;
    }

    // --------------------------------------------------------------------------------------------

    using opf = bool (history::*)();
    struct entry { const char* name; opf f; int w; };
    static const std::vector<entry>& entries() {
        static const std::vector<entry> e = {
            {"register_mixin", &history::op_register_mixin, 8},
            {"unregister_mixin", &history::op_unregister_mixin, 3},
            {"reshape_mixin", &history::op_reshape_mixin, 2},
            {"feature", &history::op_feature, 3},
            {"type_class", &history::op_type_class, 2},
            {"rule", &history::op_rule, 4},
            {"get_type", &history::op_get_type, 14},
            {"gc", &history::op_gc, 2},
            {"inspect", &history::op_inspect, 1},
            {"create", &history::op_create, 8},
            {"destroy", &history::op_destroy, 4},
            {"reset", &history::op_reset, 10},
            {"mutate", &history::op_mutate, 12},
            {"mutate_to", &history::op_mutate_to, 7},
            {"c_mutate_to", &history::op_c_mutate_to, 4},
            {"gradual", &history::op_gradual, 5},
            {"piecewise", &history::op_piecewise, 6},
            {"copy", &history::op_copy, 3},
            {"copy_from", &history::op_copy_from, 4},
            {"copy_matching", &history::op_copy_matching, 2},
            {"move_matching", &history::op_move_matching, 2},
            {"move", &history::op_move, 2},
            {"move_assign", &history::op_move_assign, 3},
            {"write", &history::op_write, 5},
            {"seal", &history::op_seal, 1},
            {"compare", &history::op_compare, 2},
            {"type_mutation", &history::op_type_mutation, 2},
        };
        return e;
    }

    void run() {
        setup();
        // most mixins are registered at the start
        for (size_t i = 0; i < mixins.size(); ++i) {
            if (!r.chance(p.many_mixins ? 98 : 85)) continue;
            auto m = mixins[i].get();
            int di = mixin_home[i];
            // only if it surely works
            bool good = true;
            if (!dom[di].settings.allow_duplicate_mixin_names) good = !m->name.empty() && !by_name(di, m->name);
            for (auto& u : m->uses) if (u.f->dom == -1 && feature_outcome(u.f, di) != ok) good = false;
            std::map<std::string, const feat_desc*> fn;
            for (auto& u : m->uses) if (fn.emplace(u.f->name, u.f).first->second != u.f) good = false;
            if (!good) continue;
            dom[di].d->register_mixin(m->info);
            for (auto& u : m->uses) if (u.f->dom == -1) adopt_feature(u.f, di);
            m->dom = di;
            m->id = lowest_free(dom[di].mslots);
            put(dom[di].mslots, m->id, m);
        }
        log("domain 0%s: canonicalize %d, dup mixin names %d, dup feature names %d", dom[0].c_created ? " (C)" : "", dom[0].settings.canonicalize_types, dom[0].settings.allow_duplicate_mixin_names, dom[0].settings.allow_duplicate_feature_names);
        for (auto& m : mixins) {
            std::string f;
            for (auto& u : m->uses) f += " " + std::to_string(u.f->index) + "(" + std::to_string(u.bid) + "," + std::to_string(u.prio) + ")";
            log("mixin %d '%s' home %d reg %d size %u align %u prio %d%s%s funcs %d%d%d%d%d%d%d%d feats%s", m->index, show(m->name).c_str(), mixin_home[size_t(m->index)], m->dom, m->size, m->align, m->info.order_priority,
                m->info.external() ? " ext" : "", m->info.dependency ? " dep" : "", !!m->info.init, !!m->info.copy_init, !!m->info.move_init, !!m->info.copy_asgn, !!m->info.move_asgn, !!m->info.destroy, !!m->info.equals, !!m->info.compare, f.c_str());
        }
        verify_all(true);
        std::vector<int> ws;
        int total = 0;
        for (auto& e : entries()) {
            int w = e.w;
            auto f = p.w.find(e.name);
            if (f != p.w.end()) w = f->second;
            ws.push_back(w);
            total += w;
        }
        int steps = p.steps + r.range(0, p.steps);
        for (int i = 0; i < steps; ++i) {
            int k = r.range(0, total - 1);
            size_t j = 0;
            while (k >= ws[j]) k -= ws[j++];
            objs.reserve(64);
            if ((this->*entries()[j].f)()) count((std::string("op ") + entries()[j].name).c_str());
        }
        verify_all(true);
        teardown();
    }
};

params profile(const std::string& n) {
    params p;
    auto only = [&](std::map<std::string, int> w) {
        for (auto& e : history::entries()) p.w[e.name] = 0;
        for (auto& x : w) p.w[x.first] = x.second;
    };
    if (n == "types") { // C01
        p.pfault = 5; p.punwind = 3; p.steps = 60; p.bad = 25; p.nrules = 2; p.hostile_rules = 15; p.verify_all = 50; p.canon = 45;
        p.w = {{"get_type", 40}, {"register_mixin", 10}, {"unregister_mixin", 8}, {"reshape_mixin", 6}, {"rule", 5}, {"gc", 3}, {"create", 3}, {"destroy", 2}, {"reset", 2}, {"type_mutation", 4}};
    }
    else if (n == "ftables") { // C02
        p.features = 5; p.nrules = 1; p.verify_all = 60; p.pfault = 3; p.bad = 8; p.steps = 40; p.nmix_min = 4;
        p.w = {{"get_type", 60}, {"feature", 4}, {"unregister_mixin", 3}, {"register_mixin", 10}, {"reshape_mixin", 4}};
    }
    else if (n == "lifetime") { // C04
        p.pfault = 3; p.bad = 8; p.missing = 5; p.verify_all = 5; p.nrules = 1; p.hostile_rules = 5; p.steps = 60;
        p.w = {{"reset", 20}, {"mutate", 20}, {"mutate_to", 14}, {"c_mutate_to", 8}, {"gradual", 8}, {"piecewise", 12}, {"write", 12}};
    }
    else if (n == "atomicity") { // C05
        p.pfault = 80; p.punwind = 35; p.bad = 30; p.missing = 25; p.verify_all = 5; p.steps = 40; p.nrules = 1;
        p.w = {{"reset", 16}, {"mutate", 20}, {"mutate_to", 12}, {"c_mutate_to", 8}, {"gradual", 8}, {"piecewise", 12}, {"create", 10}, {"seal", 1}};
    }
    else if (n == "layout") { // C06
        p.ext = 45; p.bad = 5; p.missing = 3; p.pfault = 2; p.verify_all = 40; p.nrules = 1; p.hostile_rules = 3; p.features = 1; p.nmix_min = 5; p.nmix_max = 12;
        p.w = {{"get_type", 25}, {"reset", 20}, {"create", 15}, {"move", 6}, {"move_assign", 6}, {"copy", 5}};
    }
    else if (n == "registry") { // C07
        p.bad = 40; p.dup_names = 35; p.pfault = 15; p.steps = 70; p.features = 3;
        p.w = {{"register_mixin", 40}, {"unregister_mixin", 28}, {"reshape_mixin", 10}, {"feature", 25}, {"type_class", 22}, {"get_type", 8}, {"create", 3}, {"reset", 2}};
    }
    else if (n == "rules") { // C08
        p.nrules = 7; p.hostile_rules = 35; p.deps = 35; p.canon = 45; p.verify_all = 40; p.bad = 10; p.features = 1; p.steps = 55;
        p.w = {{"rule", 25}, {"get_type", 40}, {"mutate", 10}, {"gc", 3}, {"register_mixin", 4}, {"unregister_mixin", 2}};
    }
    else if (n == "copy") { // C11
        p.missing = 20; p.missing_cases = 40; p.bad = 8; p.pfault = 25; p.nrules = 1; p.hostile_rules = 3; p.features = 1; p.verify_all = 5; p.nmix_max = 6;
        p.w = {{"copy", 14}, {"copy_from", 20}, {"copy_matching", 10}, {"move_matching", 10}, {"move", 10}, {"move_assign", 16}, {"create", 14}, {"write", 14}, {"destroy", 8}, {"seal", 2}};
    }
    else if (n == "compare") { // C12
        p.missing = 20; p.missing_cases = 25; p.bad = 3; p.pfault = 2; p.nrules = 1; p.hostile_rules = 3; p.features = 1; p.verify_all = 40; p.nmix_max = 6;
        p.w = {{"compare", 20}, {"copy", 10}, {"create", 14}, {"write", 14}, {"copy_from", 8}, {"get_type", 14}};
    }
    else if (n == "sealing") { // C13
        p.bad = 6; p.missing = 5; p.pfault = 5; p.nrules = 1; p.hostile_rules = 3; p.features = 1; p.verify_all = 5; p.pc = 40;
        p.w = {{"seal", 22}, {"create", 14}, {"destroy", 10}, {"move", 8}, {"move_assign", 10}, {"copy", 5}};
    }
    else if (n == "gc") { // C14
        p.bad = 6; p.pfault = 8; p.nrules = 2; p.verify_all = 60; p.missing = 5; p.steps = 60;
        p.w = {{"gc", 16}, {"create", 14}, {"destroy", 10}, {"get_type", 20}, {"unregister_mixin", 3}};
    }
    else if (n == "allocators") { // C15
        p.ext = 65; p.pfault = 45; p.bad = 6; p.missing = 6; p.nrules = 1; p.hostile_rules = 5; p.verify_all = 5; p.features = 1;
        p.w = {{"create", 14}, {"destroy", 8}, {"copy", 8}, {"copy_from", 8}, {"move", 6}, {"move_assign", 10}, {"reset", 14}};
    }
    else if (n == "capi") { // C16
        p.pc = 85; p.bad = 30; p.verify_all = 30; p.pfault = 25;
        p.w = {{"c_mutate_to", 12}, {"type_mutation", 6}, {"inspect", 1}};
    }
    else if (n == "edsl") { // C17
        p.bad = 25; p.pfault = 15; p.nrules = 2; p.verify_all = 5; p.pc = 15;
        p.w = {{"mutate", 50}, {"mutate_to", 35}, {"gradual", 30}, {"c_mutate_to", 6}};
    }
    else if (n == "piecewise") { // C18
        p.bad = 30; p.pfault = 15; p.nrules = 1; p.verify_all = 5; p.punwind = 20;
        p.w = {{"piecewise", 90}, {"reset", 6}, {"mutate", 6}};
    }
    else if (n == "typemut") { // C19
        p.bad = 20; p.pfault = 20; p.nrules = 2; p.dup_names = 25; p.steps = 30; p.pc = 40; p.features = 4;
        only({{"type_mutation", 60}, {"register_mixin", 6}, {"unregister_mixin", 4}, {"reshape_mixin", 1}, {"get_type", 15}, {"create", 2}, {"rule", 2}});
    }
    else if (n == "inspect") { // C22
        p.bad = 8; p.pfault = 3; p.pc = 20; p.steps = 40; p.features = 4;
        p.w = {{"inspect", 30}, {"type_class", 8}, {"rule", 10}, {"get_type", 25}, {"feature", 6}, {"register_mixin", 8}, {"unregister_mixin", 5}};
    }
    else if (n == "faults") { // C23
        p.pfault = 90; p.bad = 20; p.verify_all = 30; p.steps = 40; p.features = 3; p.nrules = 4;
        only({{"register_mixin", 25}, {"unregister_mixin", 12}, {"reshape_mixin", 4}, {"feature", 12}, {"type_class", 8}, {"rule", 12}, {"get_type", 40}, {"gc", 4}, {"type_mutation", 6}, {"create", 4}, {"destroy", 3}, {"mutate", 6}, {"inspect", 1}});
    }
    else if (n != "all") {
        fprintf(stderr, "unknown profile %s\n", n.c_str());
        exit(3);
    }
    return p;
}

void run_case(rng& r) {
    // profile or profile+large (only large histories)
    static const size_t plus = opt().profile.find('+');
    static const params common = profile(opt().profile.substr(0, plus));
    params p = common;
    if (r.chance(4)) p.large_mixins = true;
    if (!r.below(160) || plus != std::string::npos) {
        int k = r.range(0, 4);
        if (k < 3 && opt().profile.compare(0, 5, "rules") == 0) k = 3;
        if (k == 0 || k == 4) {
            p.many_mixins = true;
            p.features = std::max(p.features, 2);
            p.pfault = std::min(p.pfault, 6);
            p.deps = 1; p.missing = 1; p.bad = std::min(p.bad, 4); p.missing_cases = 0; p.dup_names = std::min(p.dup_names, 10);
            p.nrules = 1; p.hostile_rules = 0;
        }
        if (k == 1 || k == 4) {
            p.many_features = true;
            p.features = 12;
        }
        if (k == 2) p.large_mixins = true;
        if (k == 3) {
            p.many_rules = true;
            p.hostile_rules = std::min(p.hostile_rules, 3);
            if (p.w.count("rule") && p.w["rule"]) p.w["rule"] += 120;
        }
        if (k != 2) p.verify_all = 4, p.steps = std::min(p.steps, 16);
        if (k == 0 || k == 4) for (auto& e : history::entries()) if (e.name == std::string("get_type") && p.w.count(e.name)) p.w[e.name] += 40;
        count("large histories");
    }
    history h(r, p);
    h.run();
}

}

int main(int argc, char** argv) { return vp::run_main(argc, argv, vp::run_case); }
