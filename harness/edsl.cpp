// Typed mutations (C17): generated mutate / mutate_to expressions, step-by-step mutations and typed queries, compared with a
// model. Definitions through builders and macros (C21) are in builder.cpp
#include "edsl.hpp"
#include "lockmon.hpp"
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <optional>

using namespace vp;
using namespace edsl;

namespace edsl {
dm::mixin_info unknown_info;

void construct_func(dm::init_new_args a, int v) {
    auto make = [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        // reuse of a constructor; the text says that it was a function
        auto& x = *::new (a.mixin_buf) T(v);
        x.how = "func " + std::to_string(v);
        g.constructed.back() = "c " + std::to_string(int(a.info.user_data)) + " " + x.how;
    };
    switch (a.info.user_data) {
#define VP_CASE(i) case i: make(static_cast<tmx<i>*>(nullptr)); break;
    VP_CASE(0) VP_CASE(1) VP_CASE(2) VP_CASE(3) VP_CASE(4) VP_CASE(5) VP_CASE(6) VP_CASE(7) VP_CASE(8) VP_CASE(9)
#undef VP_CASE
    default: fail("edsl-init", "an initialiser got a wrong info");
    }
}
void ctx::func(dm::init_new_args a, int v) {
    VP_CHECK("edsl-init", a.target_index < a.target_type.num_mixins() && a.target_type.mixins[a.target_index] == &a.info, "arguments of an initialiser don't agree");
    if (target) VP_CHECK("edsl-init", &a.target_type == target, "an initialiser got another type");
    construct_func(a, v);
}

// the same for any index
template <typename F> auto with_type(int i, F f) {
    switch (i) {
#define VP_CASE(i) case i: return f(static_cast<tmx<i>*>(nullptr));
    VP_CASE(0) VP_CASE(1) VP_CASE(2) VP_CASE(3) VP_CASE(4) VP_CASE(5) VP_CASE(6) VP_CASE(7) VP_CASE(8)
    default: VP_CASE(9)
#undef VP_CASE
    }
}
template <typename T> constexpr int idx = -1;
template <int I> constexpr int idx<tmx<I>> = I;

struct buf_alloc final : dm::mixin_allocator {
    static inline int living = 0, objects = 0;
    buf_alloc() { ++objects; }
    ~buf_alloc() { --objects; }
    dm::byte_t* alloc_mixin_buf(const dm::mixin_info& i) override {
        ++living;
        return static_cast<dm::byte_t*>(::operator new(i.obj_buf_size, std::align_val_t(i.obj_buf_alignment_and_mixin_offset)));
    }
    void dealloc_mixin_buf(dm::byte_t* p, const dm::mixin_info& i) noexcept override {
        --living;
        ::operator delete(p, std::align_val_t(i.obj_buf_alignment_and_mixin_offset));
    }
};

// rules of cases: what they do is another property, here the domain is the oracle
struct rule {
    int kind, a, b;
    dm::mutation_rule_info info;
};
dm::error_return_t apply_rule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& r = *reinterpret_cast<rule*>(ud);
    auto& m = *dm::type_mutation::from_c_handle(h);
    switch (r.kind) {
    case 0: if (m.has(*g.infos[r.a])) m.add_if_lacking(*g.infos[r.b]); break;
    case 1: if (m.has(*g.infos[r.a])) m.remove(*g.infos[r.b]); break;
    case 2: m.dedup(); break;
    case 3: if (m.mixins.size() > 5) return 5;
    }
    return dm::result_success;
}

std::string list_text(const std::vector<int>& l) {
    std::string s;
    for (auto i : l) s += std::to_string(i) + " ";
    return s;
}

struct error_kind { std::string s; };
template <typename F> std::string outcome(F f) {
    try { f(); return "ok"; }
    catch (user_error&) { return "user error"; }
    catch (dm::type_error&) { return "type_error"; }
    catch (dm::object_error&) { return "object_error"; }
    catch (dm::domain_error&) { return "domain_error"; }
    catch (std::exception& e) { fail("edsl-outcome", "unexpected exception: %s", e.what()); }
}

std::map<int, std::string> state_of(const dm::object& o) {
    std::map<int, std::string> res;
    for (uint32_t n = 0; n < o.num_mixins(); ++n) {
        int i = int(o.get_type().mixins[n]->user_data);
        with_type(i, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            auto m = o.get<T>();
            VP_CHECK("edsl-get", m && m == o.get_at(n) && o.has<T>() && const_cast<dm::object&>(o).get<T>() == m, "typed access to mixin %d", i);
            VP_CHECK("edsl-get", uintptr_t(m) % alignof(T) == 0, "mixin %d is not aligned", i);
            VP_CHECK("edsl-get", !m->moved, "mixin %d was moved out of and not replaced", i);
            VP_CHECK("edsl-get", dm::object_of(m) == &o, "mixin %d does not know its object", i);
            res[i] = m->how;
        });
    }
    return res;
}

void run_edsl(rng& r) {
    g = global{};
    arg_copies = 0;
    static int alloc0 = 0;
    alloc0 = buf_alloc::living;
    std::optional<dm::domain> dom_(std::in_place, "edsl", dm::domain_settings{r.chance(25), false, false});
    auto& dom = *dom_;
    std::vector<std::unique_ptr<dm::util::mixin_info_data>> data;
    for (int i = 0; i < num_tm; ++i) data.push_back(std::make_unique<dm::util::mixin_info_data>());
    for (int i = 0; i < num_tm; ++i) {
        with_type(i, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            dm::util::mixin_info_data_builder<T> b(*data[size_t(i)], "");
            b.store_name("tm" + std::to_string(i)).user_data(uintptr_t(i));
            if (i == 7) b.template uses_allocator<buf_alloc>();
        });
        g.infos[i] = &data[size_t(i)]->info;
        data[size_t(i)]->info.order_priority = r.chance(20) ? r.range(-2, 2) : 0;
    }
    std::vector<int> reg;
    for (int i = 0; i < num_tm; ++i) reg.insert(reg.begin() + r.below(uint32_t(reg.size() + 1)), i);
    for (auto i : reg) data[size_t(i)]->register_in(dom);
    std::vector<std::unique_ptr<rule>> rules;
    if (r.chance(50)) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            rules.push_back(std::make_unique<rule>());
            auto& x = *rules.back();
            x.kind = r.chance(10) ? 3 : r.chance(15) ? 2 : r.range(0, 1);
            x.a = r.range(0, 9);
            x.b = r.range(0, 9);
            x.info = {dnmx_make_sv_lit("rule"), apply_rule, uintptr_t(&x), 0};
            dom.add_mutation_rule(x.info);
            log("rule %d %d %d", x.kind, x.a, x.b);
        }
    }

    int rounds = r.range(3, 12);
    {
        std::optional<dm::object> obj;
        obj.emplace(dom);
        auto random_list = [&](int most) {
            std::vector<int> l;
            for (int i = 0; i < num_tm; ++i) if (int(r.below(10)) < most) l.insert(l.begin() + r.below(uint32_t(l.size() + 1)), i);
            return l;
        };
        auto type_of = [&](const std::vector<int>& l, const dm::type*& t) {
            return outcome([&] {
                dm::type_mutation m(dom);
                for (auto i : l) m.add(*g.infos[i]);
                t = &dom.get_type(std::move(m));
            });
        };
        for (int round = 0; round < rounds; ++round) {
            // an object to start with, with distinguishable states
            if (r.chance(50) || obj->sealed()) {
                g.countdown = 0;
                obj.reset();
                const dm::type* t = &dom.get_empty_type();
                auto l = random_list(r.range(0, 6));
                if (type_of(l, t) != "ok") t = &dom.get_empty_type();
                obj.emplace(dom);
                dm::object_mutation mut(*obj, *t);
                int base = r.range(0, 1000000);
                mut.construct_each_new_mixin([&](dm::init_new_args a) { construct_func(a, base + int(a.target_index)); });
            }
            if (r.chance(4)) obj->seal();
            ctx c(*obj);
            int unknown = r.chance(20) ? r.range(0, 9) : -1;
            for (int i = 0; i < num_tm; ++i) c.names[i] = i == unknown ? "nope" : "tm" + std::to_string(i);
            const dm::type* before_type = &obj->get_type();
            auto before = state_of(*obj);
            std::vector<int> list;
            for (auto m : before_type->mixins) list.push_back(int(m->user_data));

            std::string expected = "ok";
            const dm::type* target = nullptr;
            std::vector<opd> ops;
            int form = r.range(0, 2); // mutate, mutate_to, step by step
            const expr* ex = nullptr;
            struct step { int op, form, mix; };
            std::vector<step> steps;
            int finish = 0; // of step-by-step: 0 destructor, 1 apply, 2 cancel, 3 unwound
            auto apply_op = [&](int kind, int mix, bool by_name) {
                bool unk = by_name && mix == unknown;
                auto f = unk ? list.end() : std::find(list.begin(), list.end(), mix);
                if (kind == 0 || kind == 3) {
                    if (kind == 3 && f != list.end()) return true;
                    if (unk) return false;
                    list.push_back(mix);
                }
                else if (kind == 1) {
                    if (f != list.end()) list.erase(f);
                }
                else {
                    if (f == list.end()) return false;
                    list.erase(f);
                    list.push_back(mix);
                }
                return true;
            };
            if (form == 0) {
                ex = &exprs_mut[r.below(uint32_t(exprs_mut.size()))];
                log("object %s mutate %s", list_text(list).c_str(), ex->text);
                ops = ex->ops;
                for (auto& o : ops) {
                    if (!apply_op(o.kind, o.mix, o.by_name)) { expected = "type_error"; break; }
                }
                if (expected == "ok") expected = type_of(list, target);
            }
            else if (form == 1) {
                ex = &exprs_to[r.below(uint32_t(exprs_to.size()))];
                ops = ex->ops;
                auto l = list;
                if (r.chance(30)) l = random_list(6);
                for (auto& o : ops) if (r.chance(80) && std::find(l.begin(), l.end(), o.mix) == l.end()) l.insert(l.begin() + r.below(uint32_t(l.size() + 1)), o.mix);
                if (!l.empty() && r.chance(30)) l.erase(l.begin() + r.below(uint32_t(l.size())));
                const dm::type* t = before_type;
                type_of(l, t);
                target = c.target = t;
                std::vector<int> tl;
                for (auto m : t->mixins) tl.push_back(int(m->user_data));
                log("object %s mutate to %s: %s", list_text(list).c_str(), list_text(tl).c_str(), ex->text);
            }
            else {
                int n = r.range(0, 5);
                for (int i = 0; i < n; ++i) {
                    step s{r.range(0, 3), r.range(0, 2), r.range(0, 9)};
                    if (s.op == 2 && !list.empty() && r.chance(70)) s.mix = r.pick(list);
                    steps.push_back(s);
                }
                finish = r.chance(70) ? 0 : r.range(1, 3);
                log("object %s step by step, finish %d", list_text(list).c_str(), finish);
                for (auto& s : steps) {
                    log("  op %d form %d mixin %d", s.op, s.form, s.mix);
                    if (!apply_op(s.op, s.mix, s.form == 2)) { expected = "type_error"; break; }
                }
                if (expected == "ok" && finish >= 2) target = before_type;
                else if (expected == "ok") expected = type_of(list, target);
            }

            // expected constructions
            std::vector<std::string> constructed, destroyed;
            std::map<int, std::string> after = before;
            bool any_order = false;
            if (r.chance(15)) g.countdown = r.range(1, 4);
            int countdown = g.countdown;
            // (step-by-step mutations of sealed objects fail no matter where they lead)
            if (expected == "ok" && (target != before_type || (form == 2 && finish < 2 && obj->sealed()))) {
                if (obj->sealed()) expected = "object_error";
                else {
                    std::map<int, std::string> fresh;
                    for (uint32_t n = 0; n < target->num_mixins(); ++n) {
                        int i = int(target->mixins[n]->user_data);
                        const opd* with = nullptr;
                        int overrides = 0;
                        for (auto& o : ops) {
                            if (o.kind || o.mix != i || !*o.init) continue;
                            if (o.by_name && i == unknown) continue;
                            with = &o;
                            ++overrides;
                        }
                        if (before.count(i)) fresh[i] = before[i];
                        else {
                            if (!with && i == 3) expected = "object_error"; // no default init
                            else if (countdown && --countdown == 0) expected = "user error";
                            if (expected != "ok") break;
                            fresh[i] = with ? with->init : "default";
                            constructed.push_back("c " + std::to_string(i) + " " + fresh[i]);
                        }
                        if (overrides > 1) {
                            // either of them may have been first
                            expected = "object_error";
                            any_order = true;
                            break;
                        }
                    }
                    if (expected == "ok") after = fresh;
                    else for (auto i = constructed.rbegin(); i != constructed.rend(); ++i) destroyed.push_back("d " + i->substr(2));
                }
            }
            if (expected == "ok" && !target) fail("edsl-harness", "broken harness");
            if (expected != "ok") target = before_type;

            g.constructed.clear();
            g.destroyed.clear();
            g.refs.clear();
            g.args.clear();
            arg_copies = 0;
            struct unwinding {};
            auto got = outcome([&] {
                if (ex) ex->f(c);
                else {
                    // a failed application is final, also when it's handled while the mutation lives
                    std::exception_ptr handled;
                    bool handle = r.chance(50);
                    auto go = [&] {
                        auto mut = mutate(*obj);
                        for (auto& s : steps) {
                            with_type(s.mix, [&](auto* t) {
                                using T = std::remove_pointer_t<decltype(t)>;
                                auto& info = *g.infos[s.mix];
                                auto& name = c.names[s.mix];
                                dm::gradual_mutation* res = nullptr;
                                switch (s.op * 3 + s.form) {
                                case 0: res = &mut.template add<T>(); break;
                                case 1: res = &mut.add(info); break;
                                case 2: res = &mut.add(name); break;
                                case 3: res = &mut.template remove<T>(); break;
                                case 4: res = &mut.remove(info); break;
                                case 5: res = &mut.remove(name); break;
                                case 6: res = &mut.template to_back<T>(); break;
                                case 7: res = &mut.to_back(info); break;
                                case 8: res = &mut.to_back(name); break;
                                case 9: res = &mut.template add_if_lacking<T>(); break;
                                case 10: res = &mut.add_if_lacking(info); break;
                                case 11: res = &mut.add_if_lacking(name); break;
                                }
                                VP_CHECK("edsl-chain", res == &mut, "a step does not return the mutation");
                            });
                        }
                        if (finish == 1 && handle) {
                            try { mut.apply(); }
                            catch (...) { handled = std::current_exception(); }
                        }
                        else if (finish == 1) mut.apply();
                        else if (finish == 2) mut.cancel();
                        else if (finish == 3) throw unwinding{};
                    };
                    try { go(); } catch (unwinding&) {}
                    if (handled) std::rethrow_exception(handled);
                }
            });
            g.countdown = 0;
            auto dump = [&] {
                log("expected %s", expected.c_str());
                for (auto& s : constructed) log("   %s", s.c_str());
                log("got %s", got.c_str());
                for (auto& s : g.constructed) log("   %s", s.c_str());
                for (auto& s : g.destroyed) log("   %s", s.c_str());
            };
            if (got != expected) { dump(); fail("edsl-outcome", "the mutation gave %s and not %s", got.c_str(), expected.c_str()); }
            if (&obj->get_type() != target) { dump(); fail("edsl-type", "the object has another type than the operations lead to"); }
            if (!any_order) {
                if (g.constructed != constructed) { dump(); fail("edsl-init", "other constructions than requested"); }
                if (expected != "ok" && g.destroyed != destroyed) { dump(); fail("edsl-rollback", "the failed mutation did not destroy what it constructed in reverse order"); }
            }
            auto now = state_of(*obj);
            if (now != after) { dump(); fail("edsl-state", "mixins of the object have other states than expected"); }
            VP_CHECK("edsl-live", g.live == int(now.size()), "%d mixins are alive and not %d", g.live, int(now.size()));
            VP_CHECK("edsl-live", buf_alloc::living - alloc0 == int(now.count(7)), "%d buffers of the mixin allocator are in use", buf_alloc::living - alloc0);
            if (expected == "ok") {
                std::multiset<std::string> gone, want;
                for (auto& d : g.destroyed) gone.insert(d);
                for (auto& b : before) if (!after.count(b.first)) want.insert("d " + std::to_string(b.first) + " " + b.second);
                if (gone != want) { dump(); fail("edsl-destroy", "other mixins destroyed than expected"); }
            }
            VP_CHECK("edsl-arg", arg_copies == 0, "%d copies of arguments", arg_copies);
            VP_CHECK("edsl-arg", g.refs.size() == c.refs_checked && g.args.size() == c.args_checked, "a reference argument refers to another object than the caller's");
            count(form == 0 ? "mutate expressions" : form == 1 ? "mutate_to expressions" : "step-by-step mutations");
            count(("outcome " + got).c_str());
            count("initialisers run", g.constructed.size());
            if (!g.constructed.empty()) {
                for (auto& s : g.constructed) if (s.find("default") == std::string::npos) { count("mutations with custom initialisers"); break; }
                nontrivial();
            }
            if (any_order) count("conflicting initialisers");
            sig(ex ? uint64_t(form) * 1000 + uint64_t(ex - (form ? exprs_to : exprs_mut).data()) : 5000 + steps.size());
            sig(got);
            for (auto& s : g.constructed) sig(s.substr(0, 4));

            // typed queries of types and type mutations
            with_type(r.range(0, 9), [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                int i = idx<T>;
                bool has = now.count(i);
                auto& ty = obj->get_type();
                VP_CHECK("edsl-typed", ty.has<T>() == has && ty.lacks<T>() != has && obj->has<T>() == has && (obj->get<T>() != nullptr) == has, "typed queries of mixin %d", i);
                dm::type_mutation m(ty);
                VP_CHECK("edsl-typed", m.has<T>() == has && m.lacks<T>() != has, "typed queries of mixin %d in a mutation", i);
                auto size = m.mixins.size();
                VP_CHECK("edsl-typed", m.add_if_lacking<T>() == !has && m.mixins.size() == size + !has, "typed add_if_lacking of mixin %d", i);
                VP_CHECK("edsl-typed", has || m.mixins.back() == g.infos[i], "typed add_if_lacking of mixin %d", i);
                m.to_back<T>();
                VP_CHECK("edsl-typed", m.mixins.back() == g.infos[i] && m.mixins.size() == size + !has, "typed to_back of mixin %d", i);
                VP_CHECK("edsl-typed", &m.add<T>() == g.infos[i] && m.mixins.size() == size + !has + 1 && m.mixins.back() == g.infos[i], "typed add of mixin %d", i);
                VP_CHECK("edsl-typed", m.remove<T>() && m.has<T>() && m.remove<T>() && !m.has<T>() && !m.remove<T>(), "typed remove of mixin %d", i);
            });
        }
    }
    VP_CHECK("edsl-live", g.live == 0 && buf_alloc::living == alloc0, "%d mixins and %d buffers leaked", g.live, buf_alloc::living - alloc0);
    for (auto i : reg) data[size_t(i)]->unregister_from(dom);
    for (auto& x : rules) dom.remove_mutation_rule(x->info);
    VP_CHECK("edsl-live", dom.num_types() == 0, "types left after all mixins were unregistered");
    dom_.reset();
    data.clear();
    VP_CHECK("edsl-live", buf_alloc::objects == 0, "%d allocators which a definition owns leaked", buf_alloc::objects);
}
}

static void run(rng& r) { run_edsl(r); }
int main(int argc, char** argv) { return run_main(argc, argv, run); }
