// C24: the compatibility library for DynaMix 1: its macros, messages, combinators, perks, rules, object and type classes,
// compared with a model which knows what the generated mixins implement
#include "v1.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/type.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/mixin_info.hpp>
#include <cmath>
#include <optional>
#include <thread>

using namespace vp;
using namespace vp1;
template <typename T, const std::vector<T>& (*Get)()>
struct table_of {
    const T& operator[](size_t i) const { return Get()[i]; }
    auto begin() const { return Get().begin(); }
    auto end() const { return Get().end(); }
    size_t size() const { return Get().size(); }
};
const table_of<vp1::mixin_desc, v1g::get_mixins> mixins;
const table_of<vp1::msg_desc, v1g::get_msgs> msgs;
namespace v1 = dynamix::v1compat;

static char letter(int m) { return char('a' + m); }

vp1::rec::rec(const void* self, int m, int msg) : mixin(m) {
    s.trace += letter(m);
    if (self != mixins[size_t(m)].get(const_cast<dynamix::object&>(*s.obj))) s.trace += "(bad this)";
    if (msg != s.msg) s.trace += "(bad message)";
}

// type classes
DYNAMIX_V1_TYPE_CLASS(has_mx0);
DYNAMIX_V1_TYPE_CLASS(implements_m);
DYNAMIX_V1_DEFINE_TYPE_CLASS(has_mx0) { return type.has(mixins[0].info); }
DYNAMIX_V1_DEFINE_TYPE_CLASS(implements_m) { return type.implements_strong(msgs[2].info) && type.num_mixins() > 1; }
static const v1::type_class local_class([](dnmx_type_handle ht) noexcept { return dynamix::type::from_c_handle(ht)->num_mixins() % 2 == 1; });

namespace {
using types = std::vector<int>;
std::string show(const types& t) {
    std::string s;
    for (auto i : t) s += letter(i);
    return s;
}

bool before(int a, int b) { // canonical order
    auto& x = mixins[size_t(a)];
    auto& y = mixins[size_t(b)];
    int c = strcmp(x.name, y.name);
    return c ? c < 0 : x.info.id.i < y.info.id.i;
}

// model of rules
struct mrule {
    rule_kind kind;
    int a = 0, b = 0;
    types list;
    std::shared_ptr<v1::mutation_rule> rule;
    int apply(types& t) const { // 0 ok, 1 type_error, 2 user_error
        auto has = [&](int i) { return std::find(t.begin(), t.end(), i) != t.end(); };
        switch (kind) {
        case deprecated_mixin: if (has(a)) t.erase(std::find(t.begin(), t.end(), a)); return 0;
        case mandatory_mixin: if (!has(a)) t.push_back(a); return 0;
        case substitute_mixin:
            if (!has(a)) return 0;
            t.erase(std::find(t.begin(), t.end(), a));
            if (!has(b)) t.push_back(b);
            return 0;
        case dep_rule: case oneshot_rule:
            if (!has(a)) return 0;
            for (auto i : list) {
                if (kind == dep_rule && !mixins[size_t(i)].dep) return 1;
                if (!has(i)) t.push_back(i);
            }
            return 0;
        case exclusive_rule: {
            types res;
            bool found = false;
            for (auto i = t.rbegin(); i != t.rend(); ++i) {
                if (std::find(list.begin(), list.end(), *i) != list.end()) {
                    if (found) continue;
                    found = true;
                }
                res.insert(res.begin(), *i);
            }
            t = res;
            return 0;
        }
        case throwing_rule: return has(a) ? 2 : 0;
        case custom_rule:
            if (has(a)) { if (!has(b)) t.push_back(b); }
            else if (has(b)) t.erase(std::find(t.begin(), t.end(), b));
            return 0;
        }
        return 0;
    }
};
struct throwing : public v1::mutation_rule {
    int a;
    explicit throwing(int i) : a(i) { ++live_rules; }
    ~throwing() override { --live_rules; }
    void apply_to(dynamix::type_mutation& m) override { if (m.has(mixins[size_t(a)].info)) throw user_error{a}; }
};
struct custom : public v1::mutation_rule {
    int a, b;
    custom(int x, int y) : a(x), b(y) { ++live_rules; }
    ~custom() override { --live_rules; }
    void apply_to(dynamix::type_mutation& m) override {
        if (m.has(mixins[size_t(a)].info)) m.add_if_lacking(mixins[size_t(b)].info);
        else m.remove(mixins[size_t(b)].info);
    }
};

struct entry { int mixin, bid, prio; bool next; };
std::vector<entry> table(const types& t, int msg) {
    std::vector<entry> res;
    for (size_t p = t.size(); p-- > 0;) {
        for (auto& i : msgs[size_t(msg)].impls) if (i.mixin == t[p]) res.push_back({i.mixin, i.bid, i.prio, i.next});
    }
    std::stable_sort(res.begin(), res.end(), [](const entry& a, const entry& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio < b.prio; });
    return res;
}

enum result { ok, type_error, user, feature_error };
const char* const rnames[] = {"ok", "type_error", "user_error", "feature_error"};

struct mobj {
    std::unique_ptr<v1::object> o;
    types t;
    std::map<int, int> val;
    std::map<int, void*> ptr;
};

struct v1_case {
    rng& r;
    dynamix::domain& dom;
    std::vector<std::unique_ptr<mobj>> objs;
    std::map<uint32_t, std::shared_ptr<mrule>> active; // by id
    std::vector<std::shared_ptr<mrule>> inactive;
    std::vector<bool> slots; // of the library
    explicit v1_case(rng& rr) : r(rr), dom(v1::domain::instance()) {}

    // the domain's rules, each once, in their order
    std::vector<mrule*> ordered() {
        std::map<const void*, mrule*> m;
        for (auto& a : active) m[&a.second->rule->info()] = a.second.get();
        std::vector<mrule*> res;
        for (auto& a : m) res.push_back(a.second);
        return res;
    }

    result make_type(types& t) {
        auto rules = ordered();
        types lastr = t;
        t.erase(std::remove_if(t.begin(), t.end(), [](int i) { return mixins[size_t(i)].dep; }), t.end());
        int n = int(rules.size()) + 1;
        for (int i = 0; ; ++i) {
            for (auto ru : rules) {
                if (int e = ru->apply(t)) return e == 1 ? type_error : user;
            }
            std::stable_sort(t.begin(), t.end(), before);
            if (t == lastr) break;
            if (i == 5 || i == n) return type_error;
            lastr = t;
        }
        for (size_t i = 1; i < t.size(); ++i) if (t[i] == t[i - 1]) return type_error;
        for (size_t m = 0; m < msgs.size(); ++m) {
            if (msgs[m].multi) continue;
            auto e = table(t, int(m));
            for (size_t i = 1; i < e.size(); ++i) if (e[i].bid == e[i - 1].bid && e[i].prio == e[i - 1].prio) return type_error;
        }
        return ok;
    }

    void check(mobj& m) {
        auto& o = *m.o;
        auto ms = o.get_type().mixins;
        std::string real;
        for (auto i : ms) {
            char c = '?';
            for (auto& d : mixins) if (&d.info == i) c = letter(d.i);
            real += c;
        }
        VP_CHECK("type", real == show(m.t), "object has %s, model %s", real.c_str(), show(m.t).c_str());
        VP_CHECK("domain", &o.get_domain() == &dom, "domain of object");
        bool copyable = true;
        for (auto& d : mixins) {
            bool has = std::find(m.t.begin(), m.t.end(), d.i) != m.t.end();
            VP_CHECK("has", d.has(o) == has, "has %s", d.name);
            VP_CHECK("has", o.has(std::string_view(d.name)) == has, "has by name %s", d.name);
            auto p = d.get(o);
            VP_CHECK("get", (p != nullptr) == has, "get %s", d.name);
            if (!has) continue;
            if (!d.copyable) copyable = false;
            VP_CHECK("align", uintptr_t(p) % d.align == 0, "%s is not aligned", d.name);
            VP_CHECK("of", v1::object::of(p) == &o, "owner of %s", d.name);
            VP_CHECK("of", v1::object::of(static_cast<const void*>(p)) == &o, "owner of const %s", d.name);
            VP_CHECK("value", d.val(o) == m.val.at(d.i), "%s has %d, model %d", d.name, d.val(o), m.val.at(d.i));
            auto& mp = m.ptr[d.i];
            if (mp) VP_CHECK("address", mp == p, "%s has been moved by a mutation", d.name);
            mp = p;
        }
        VP_CHECK("copyable", o.copyable() == copyable, "copyable");
        VP_CHECK("empty", o.empty() == m.t.empty(), "empty");
        VP_CHECK("is_a", o.is_a<has_mx0>() == (std::find(m.t.begin(), m.t.end(), 0) != m.t.end()), "type class");
        VP_CHECK("is_a", o.is_a<implements_m>() == (m.t.size() > 1 && !table(m.t, 2).empty()), "type class which implements");
        VP_CHECK("is_a", o.is_of("implements_m") == o.is_a<implements_m>(), "type class by name");
        VP_CHECK("is_a", o.is_a(local_class) == (m.t.size() % 2 == 1), "local type class");
        count("objects checked");
    }
    void check_all() {
        size_t n = 0;
        for (auto& o : objs) { check(*o); n += o->t.size(); }
        VP_CHECK("live", live().live.size() == n, "%zu mixins are alive, expected %zu", live().live.size(), n);
        auto rules = ordered();
        VP_CHECK("rules", dom.num_mutation_rules() == rules.size() + 1, "%zu rules in domain, expected %zu", dom.num_mutation_rules(), rules.size() + 1);
        std::set<v1::mutation_rule*> kept;
        for (auto& a : active) kept.insert(a.second->rule.get());
        for (auto& a : inactive) kept.insert(a->rule.get());
        VP_CHECK("rules", live_rules == int(kept.size()), "%d rules are alive, expected %zu", live_rules.load(), kept.size());
    }

    // op by op in the model
    void do_mutate(mobj& m) {
        types want = m.t;
        std::string desc;
        result exp = ok;
        bool applied = false;
        result got = ok;
        try {
            auto mut = v1::mutate(*m.o);
            int n = r.range(0, 5);
            for (int i = 0; i < n; ++i) {
                int x = int(r.below(NM));
                auto& d = mixins[size_t(x)];
                bool has = std::find(want.begin(), want.end(), x) != want.end();
                switch (r.below(8)) {
                case 0: case 1: if (has && r.chance(85)) break; d.add(mut); want.push_back(x); desc += '+'; break;
                case 2: case 3: d.add_if_lacking(mut); if (!has) want.push_back(x); desc += '?'; break;
                case 4: d.remove(mut); if (has) want.erase(std::find(want.begin(), want.end(), x)); desc += '-'; break;
                case 5: if (has && r.chance(85)) break; mut.add(d.name); want.push_back(x); desc += '+'; break;
                case 6: mut.remove(d.name); if (has) want.erase(std::find(want.begin(), want.end(), x)); desc += '-'; break;
                case 7: if (has && r.chance(85)) break; mut.add(d.info); want.push_back(x); desc += '+'; break;
                }
                if (!desc.empty() && !(desc.back() >= 'a' && desc.back() <= 'z')) desc += letter(x);
            }
            exp = make_type(want);
            mut.apply();
            applied = true;
        }
        catch (const dynamix::type_error& e) { got = type_error; log("  %s", e.what()); }
        catch (const user_error&) { got = user; }
        log("mutate %s: %s -> %s (%s)", show(m.t).c_str(), desc.c_str(), show(want).c_str(), rnames[exp]);
        (void)applied;
        VP_CHECK("mutate", got == exp, "mutation: %s, expected %s", rnames[got], rnames[exp]);
        sig(uint64_t(exp) * 31 + want.size());
        count(exp == ok ? "mutations" : exp == type_error ? "mutations with type_error" : "mutations with exception from a rule");
        if (exp != ok) return;
        for (auto i : want) {
            if (std::find(m.t.begin(), m.t.end(), i) == m.t.end()) m.val[i] = -1;
        }
        for (auto i : m.t) {
            if (std::find(want.begin(), want.end(), i) == want.end()) { m.val.erase(i); m.ptr.erase(i); }
        }
        m.t = want;
        nontrivial();
    }

    // model of calls
    struct model_call {
        const types& t;
        int msg;
        script s;
        std::string trace;
        std::vector<double> results; // of the top level
        static double conv(const msg_desc& d, double x) {
            std::string_view k = d.ret;
            return k == "int" ? double(int(x)) : k == "bool" ? double(x != 0) : k == "void" ? 0 : x;
        }
        // 0 or error
        result visit(const entry& e, double& ret) {
            auto& d = msgs[size_t(msg)];
            trace += letter(e.mixin);
            int w = s.want[e.mixin];
            if (e.next) {
                std::vector<entry> run;
                for (auto& x : table(t, msg)) if (x.bid < e.bid && (run.empty() || run[0].bid == x.bid)) run.push_back(x);
                bool has = !run.empty();
                if (has) trace += "n";
                if ((w == 1 && has) || w == 2) {
                    trace += "[";
                    if (!has) return feature_error;
                    double rr = 0;
                    if (!d.multi) { if (auto x = visit(run[0], rr)) return x; }
                    else for (size_t i = run.size(); i-- > 0;) { if (auto x = visit(run[i], rr)) return x; }
                    trace += "=" + std::to_string(int(rr * 2)) + "]";
                }
            }
            if (w == 3) { trace += "!"; return user; }
            ret = conv(d, s.ret[e.mixin]);
            return ok;
        }
    };

    void do_call(mobj& m) {
        int mi = int(r.below(uint32_t(msgs.size())));
        auto& d = msgs[size_t(mi)];
        // prefer messages which are implemented
        for (int i = 0; i < 3 && table(m.t, mi).empty(); ++i) mi = int(r.below(uint32_t(msgs.size())));
        call(m, mi);
        (void)d;
    }

    void call(mobj& m, int mi) {
        auto& d = msgs[size_t(mi)];
        auto tab = table(m.t, mi);
        VP_CHECK("implements", d.implements(*m.o) == (!tab.empty() || d.has_default), "implements %s", d.name);
        VP_CHECK("implements", m.o->get_type().implements_strong(d.info) == !tab.empty(), "implements strong %s", d.name);
        VP_CHECK("implements", m.o->get_type().implements_strong(std::string_view(d.name)) == !tab.empty(), "implements strong by name %s", d.name);
        script s;
        s.v = int(r.below(1000));
        s.msg = mi;
        s.multi = d.multi;
        s.obj = m.o.get();
        bool calm = r.chance(40);
        for (int i = 0; i < NM; ++i) {
            s.ret[i] = r.chance(40) ? 0 : r.range(-3, 9);
            s.want[i] = calm ? 0 : r.chance(70) ? 1 : r.chance(80) ? 0 : r.range(2, 3);
        }
        s.ret[NM] = r.range(0, 20);
        bool use_comb = d.comb && r.chance(50);
        int kind = use_comb ? int(r.below(10)) : -1;
        collect c;
        c.stop_after = r.chance(50) ? 99 : size_t(r.range(1, 4));

        // the model
        model_call mc{m.t, mi, s, {}, {}};
        result exp = ok;
        double expret = 0;
        size_t num = 1;
        std::vector<double> res;
        auto top = tab;
        top.erase(std::remove_if(top.begin(), top.end(), [&](const entry& e) { return e.bid != tab[0].bid; }), top.end());
        if (!tab.empty()) {
            if (!d.multi) exp = mc.visit(tab[0], expret);
            else {
                num = top.size();
                bool land = true, lor = false;
                for (size_t i = top.size(); i-- > 0 && !exp;) {
                    double x = 0;
                    exp = mc.visit(top[i], x);
                    if (exp) break;
                    res.push_back(x);
                    expret = x;
                    land = land && x != 0;
                    lor = lor || x != 0;
                    if ((kind == 2 || kind == 8) && !land) break;
                    if ((kind == 3 || kind == 9) && lor) break;
                    if (kind == 5 && res.size() == c.stop_after) break;
                }
            }
        }
        else if (d.has_default) {
            mc.trace += "D";
            expret = mc.conv(d, s.ret[NM]);
            res.push_back(expret);
        }
        else exp = feature_error;
        if (exp == ok && use_comb) {
            double sum = 0;
            for (auto x : res) sum += x;
            bool isbool = d.ret == std::string_view("bool");
            if (isbool) sum = sum != 0;
            switch (kind) {
            case 0: case 6: expret = sum; break;
            case 1: case 7: expret = isbool ? sum : d.ret == std::string_view("int") ? double(int(sum) / int(num)) : sum / double(num); break;
            case 2: case 8: expret = 1; for (auto x : res) expret = expret != 0 && x != 0; break;
            case 3: case 9: expret = 0; for (auto x : res) expret = expret != 0 || x != 0; break;
            case 4: expret = res.back() * 1000 + double(res.size()); break;
            default: expret = 0;
            }
        }

        log("call %s%s on %s v=%d: %s = %g (%s)", d.name, use_comb ? (" with combinator " + std::to_string(kind)).c_str() : "", show(m.t).c_str(), s.v, mc.trace.c_str(), expret, rnames[exp]);
        cur = &s;
        double ret = 0;
        result got = ok;
        try { ret = use_comb ? d.comb(*m.o, kind, c) : d.call(*m.o); }
        catch (const dynamix::feature_error&) { got = feature_error; }
        catch (const user_error&) { got = user; }
        cur = nullptr;
        VP_CHECK("call", got == exp, "%s: %s, expected %s; trace %s", d.name, rnames[got], rnames[exp], s.trace.c_str());
        VP_CHECK("call", s.trace == mc.trace, "%s: calls %s, expected %s", d.name, s.trace.c_str(), mc.trace.c_str());
        if (exp == ok) VP_CHECK("result", std::fabs(ret - expret) < 1e-9, "%s (combinator %d): result %g, expected %g", d.name, kind, ret, expret);
        if (exp == ok && kind == 5) {
            VP_CHECK("combinator", c.got == res, "%s: %zu results, expected %zu", d.name, c.got.size(), res.size());
            VP_CHECK("combinator", c.num == num, "%s: number of results %zu, expected %zu", d.name, c.num, num);
        }
        sig(s.trace);
        count(use_comb ? "combinator calls" : "message calls");
        if (exp == feature_error) count("calls with feature_error");
        if (tab.empty() && d.has_default) count("default implementations");
        if (top.size() > 1 && d.multi) count("multicasts to several mixins");
        if (s.trace.find('[') != std::string::npos) count("calls of next bidders");
    }

    uint32_t free_slot() {
        for (size_t i = 0; i < slots.size(); ++i) if (!slots[i]) return uint32_t(i);
        slots.push_back(false);
        return uint32_t(slots.size() - 1);
    }
    void use_slot(uint32_t i) { slots[i] = true; }

    void add_rule() {
        std::shared_ptr<mrule> mr;
        if (!inactive.empty() && r.chance(40)) { mr = inactive.back(); inactive.pop_back(); }
        else if (!active.empty() && r.chance(15)) { mr = active.begin()->second; }
        v1::mutation_rule* raw = nullptr;
        if (!mr) {
            mr = std::make_shared<mrule>();
            mr->kind = rule_kind(r.below(8));
            mr->a = int(r.below(NM));
            mr->b = int(r.below(NM));
            switch (mr->kind) {
            case deprecated_mixin: case mandatory_mixin: case substitute_mixin: {
                auto& f = v1g::rules[r.below(uint32_t(v1g::num_rules))];
                mr->kind = f.kind; mr->a = f.a; mr->b = f.b;
                raw = f.make();
                break;
            }
            case dep_rule: case oneshot_rule: case exclusive_rule: {
                v1::impl::mixin_list* list = nullptr;
                if (mr->kind == dep_rule) { auto p = new counted<v1::dependent_mixins_dep>; v1g::set_master(*p, mr->a); raw = p; list = p; }
                else if (mr->kind == oneshot_rule) { auto p = new counted<v1::dependent_mixins_oneshot>; v1g::set_master(*p, mr->a); raw = p; list = p; }
                else { auto p = new counted<v1::mutually_exclusive_mixins>; raw = p; list = p; }
                int n = r.range(1, 4);
                for (int i = 0; i < n; ++i) {
                    int x = int(r.below(NM));
                    if (mr->kind == dep_rule && r.chance(85)) x = r.chance(50) ? 6 : 11;
                    mr->list.push_back(x);
                    switch (r.below(3)) {
                    case 0: list->add(mixins[size_t(x)].info); break;
                    case 1: list->add(std::string_view(mixins[size_t(x)].name)); break;
                    case 2: v1g::add_to(*list, x); break;
                    }
                }
                if (r.chance(20)) {
                    bool threw = false;
                    try { list->add(std::string_view("no such mixin")); } catch (const dynamix::exception&) { threw = true; }
                    VP_CHECK("mixin_list", threw, "unknown name was added to a list of mixins");
                }
                break;
            }
            case throwing_rule: raw = new throwing(mr->a); break;
            case custom_rule: raw = new custom(mr->a, mr->b); break;
            }
        }
        uint32_t exp = free_slot();
        uint32_t id;
        if (raw && r.chance(50)) {
            id = v1::add_mutation_rule(raw);
            // we want to know the rule even when the library has lost it
            mr->rule = v1::remove_mutation_rule(id);
            VP_CHECK("rule id", mr->rule.get() == raw, "removed rule is not the added one");
            auto id2 = v1::add_mutation_rule(mr->rule);
            VP_CHECK("rule id", id2 == id, "id of a removed rule isn't reused: %u %u", id, id2);
        }
        else {
            if (raw) mr->rule.reset(raw);
            id = v1::add_mutation_rule(mr->rule);
        }
        log("add rule %u: kind %d %c %c list %s", id, int(mr->kind), letter(mr->a), letter(mr->b), show(mr->list).c_str());
        VP_CHECK("rule id", !active.count(id), "id of a rule in use: %u", id);
        VP_CHECK("rule id", id == exp, "id %u, expected the lowest free %u", id, exp);
        use_slot(id);
        active[id] = mr;
        sig(uint64_t(mr->kind) + 77);
        count("rules added");
        nontrivial();
    }
    void remove_rule(uint32_t id) {
        auto f = active.find(id);
        auto got = v1::remove_mutation_rule(id);
        log("remove rule %u", id);
        if (f == active.end()) {
            VP_CHECK("rule id", !got, "a rule was returned for an unknown id");
            count("removals of unknown rules");
            return;
        }
        VP_CHECK("rule id", got == f->second->rule, "removed rule is another one");
        auto mr = f->second;
        active.erase(f);
        slots[id] = false;
        bool other = false;
        for (auto& a : active) if (a.second == mr) other = true;
        if (!other && r.chance(50)) inactive.push_back(mr);
        count("rules removed");
    }

    void check_static() {
        VP_CHECK("domain", dom.name() == "v1compat", "name of domain");
        VP_CHECK("domain", &dom == &v1::domain::instance(), "instance");
        for (auto& d : mixins) {
            VP_CHECK("mixin", dom.get_mixin_info(d.name) == &d.info, "%s is not registered", d.name);
            VP_CHECK("mixin", d.info.dom == dom.to_c_hanlde() && dnmx_sv_cmp(d.info.name, dnmx_make_sv_lit("")) > 0, "domain of %s", d.name);
            VP_CHECK("mixin", d.info.user_data == d.user, "user data of %s", d.name);
            VP_CHECK("mixin", d.info.dependency == d.dep, "dependency %s", d.name);
            VP_CHECK("mixin", d.info.force_external, "%s isn't external", d.name);
            size_t n = 0;
            for (auto& m : msgs) for (auto& i : m.impls) if (i.mixin == d.i) ++n;
            VP_CHECK("mixin", d.info.features_span().size() == n, "%s has %zu features, expected %zu", d.name, d.info.features_span().size(), n);
        }
        for (auto& m : msgs) {
            VP_CHECK("message", dom.get_feature_info(m.name) == &m.info, "message %s is not registered with its name", m.name);
            VP_CHECK("message", m.info.allow_clashes == m.multi, "clashes of %s", m.name);
            VP_CHECK("message", (m.info.default_payload != nullptr) == m.has_default, "default of %s", m.name);
        }
    }

    void run() {
        check_static();
        int n = r.range(15, 60);
        int rules_max = r.chance(30) ? 0 : r.range(1, 4);
        for (int step = 0; step < n; ++step) {
            auto any = [&]() -> mobj& {
                if (objs.empty() || (objs.size() < 4 && r.chance(15))) {
                    objs.push_back(std::make_unique<mobj>());
                    if (r.chance(70)) objs.back()->o = std::make_unique<v1::object>();
                    else { // of a type
                        types t = objs[0]->o ? objs[0]->t : types{};
                        std::vector<const dynamix::mixin_info*> infos;
                        dynamix::type_mutation tm(dom);
                        for (auto i : t) tm.add(mixins[size_t(i)].info);
                        try {
                            objs.back()->o = std::make_unique<v1::object>(dom.get_type(std::move(tm)));
                            VP_CHECK("get_type", make_type(t) == ok, "type expected to fail");
                        }
                        catch (const dynamix::type_error&) { VP_CHECK("get_type", make_type(t) == type_error, "get_type failed"); t.clear(); objs.back()->o = std::make_unique<v1::object>(); }
                        catch (const user_error&) { VP_CHECK("get_type", make_type(t) == user, "get_type threw"); t.clear(); objs.back()->o = std::make_unique<v1::object>(); }
                        objs.back()->t = t;
                        for (auto i : t) objs.back()->val[i] = -1;
                    }
                    log("new object %zu", objs.size() - 1);
                }
                return *r.pick(objs);
            };
            auto& m = any();
            switch (r.below(20)) {
            case 0: case 1: case 2: case 3: case 4: case 5: do_mutate(m); break;
            case 6: case 7: case 8: case 9: case 10: case 11: do_call(m); break;
            case 12:
                for (auto& d : mixins) {
                    if (d.has(*m.o) && r.chance(50)) { d.val(*m.o) = r.range(0, 100000); m.val[d.i] = d.val(*m.o); }
                }
                break;
            case 13: if (int(active.size()) < rules_max) { add_rule(); break; } [[fallthrough]];
            case 14: if (!active.empty() || r.chance(20)) remove_rule(r.chance(85) && !active.empty() ? active.begin()->first : r.below(7)); break;
            case 15: { // copy
                std::unique_ptr<mobj> c = std::make_unique<mobj>();
                bool can = m.o->copyable();
                try {
                    c->o = std::make_unique<v1::object>(m.o->copy());
                    VP_CHECK("copy", can, "an object which is not copyable was copied");
                    c->t = m.t;
                    c->val = m.val;
                    log("copy of %s", show(m.t).c_str());
                    for (auto& p : m.ptr) VP_CHECK("copy", mixins[size_t(p.first)].get(*c->o) != p.second, "copy shares a mixin");
                    count("copies");
                    if (objs.size() < 6) objs.push_back(std::move(c));
                }
                catch (const dynamix::exception& e) {
                    log("no copy: %s", e.what());
                    VP_CHECK("copy", !can, "a copyable object wasn't copied");
                    count("copies of objects which are not copyable");
                }
                break;
            }
            case 16: { // move
                auto moved = std::make_unique<v1::object>(std::move(*m.o));
                VP_CHECK("move", m.o->empty(), "moved from object isn't empty");
                if (r.chance(50)) m.o = std::move(moved);
                else *m.o = std::move(*moved);
                log("moved %s", show(m.t).c_str());
                count("moves");
                break;
            }
            case 17: if (r.chance(30)) { m.o->clear(); m.t.clear(); m.val.clear(); m.ptr.clear(); log("clear"); } break;
            case 18: { // unknown names
                bool threw = false;
                auto mut = v1::mutate(*m.o);
                try { mut.add("not a mixin"); } catch (const dynamix::type_error&) { threw = true; }
                VP_CHECK("unknown", threw, "unknown mixin was added");
                mut.cancel();
                break;
            }
            case 19: {
                for (size_t i = 0; i < objs.size(); ++i) if (objs[i].get() != &m && r.chance(30)) { objs.erase(objs.begin() + long(i)); break; }
                break;
            }
            }
            check_all();
        }
        // all the messages of the objects
        for (auto& o : objs) for (int i = 0; i < int(msgs.size()); ++i) if (r.chance(20)) call(*o, i);
        objs.clear();
        while (!active.empty()) remove_rule(active.begin()->first);
        inactive.clear();
        check_all();
        dom.garbage_collect_types();
        VP_CHECK("types", dom.num_types() == 0, "%zu types are left", dom.num_types());
    }
};

// rules, objects and messages in several threads
void run_threads(rng& r) {
    auto& dom = v1::domain::instance();
    int nt = r.range(2, 6);
    std::atomic<int> owner[64] = {};
    std::atomic<uint64_t> total{0}, calls{0};
    uint64_t seed = r.next();
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int ti = 0; ti < nt; ++ti) ts.emplace_back([&, ti] {
        rng tr(seed + uint64_t(ti) * 77);
        ++ready;
        while (ready < nt) std::this_thread::yield();
        std::map<uint32_t, v1::mutation_rule*> mine;
        v1::object o;
        for (int step = 0; step < 40; ++step) {
            switch (tr.below(4)) {
            case 0: { // a rule which does nothing to types of this test
                auto raw = new counted<v1::mutually_exclusive_mixins>;
                auto id = v1::add_mutation_rule(raw);
                if (id >= 64 || owner[id].exchange(ti + 1) != 0) vp::fail("rule id", "id %u was given twice", id);
                mine[id] = raw;
                ++total;
                break;
            }
            case 1:
                if (!mine.empty()) {
                    auto id = mine.begin()->first;
                    owner[id] = 0;
                    auto got = v1::remove_mutation_rule(id);
                    if (got.get() != mine.begin()->second) vp::fail("rule id", "removed rule is another one");
                    mine.erase(mine.begin());
                }
                break;
            case 2: {
                int x = int(tr.below(6));
                try {
                    auto mut = v1::mutate(o);
                    if (tr.chance(50)) mixins[size_t(x)].add_if_lacking(mut); else mixins[size_t(x)].remove(mut);
                    mut.apply();
                } catch (const dynamix::type_error&) {}
                break;
            }
            case 3: {
                int mi = int(tr.below(uint32_t(msgs.size())));
                script s;
                s.msg = mi;
                s.obj = &o;
                cur = &s;
                try { msgs[size_t(mi)].call(o); } catch (const dynamix::feature_error&) {}
                cur = nullptr;
                if (s.trace.find('(') != std::string::npos) vp::fail("call", "%s in a thread: %s", msgs[size_t(mi)].name, s.trace.c_str());
                ++calls;
                break;
            }
            }
        }
        for (auto& m : mine) {
            owner[m.first] = 0;
            if (v1::remove_mutation_rule(m.first).get() != m.second) vp::fail("rule id", "removed rule is another one");
        }
    });
    for (auto& t : ts) t.join();
    VP_CHECK("rules", dom.num_mutation_rules() == 1, "%zu rules are left", dom.num_mutation_rules());
    VP_CHECK("rules", live_rules == 0, "%d rules are alive", live_rules.load());
    VP_CHECK("live", live().live.empty(), "mixins are alive");
    dom.garbage_collect_types();
    count("rules in threads", total);
    count("calls in threads", calls);
    sig(total);
    sig(calls);
    sig(uint64_t(nt));
    nontrivial();
}

void run_case(rng& r) {
    if (opt().profile == "threads") { run_threads(r); return; }
    v1_case c(r);
    // slots of ids of the process: all are free now, but how many there are is known only to us
    static std::vector<bool> slots;
    c.slots = slots;
    c.run();
    slots = c.slots;
}
}

int main(int argc, char** argv) { return run_main(argc, argv, run_case); }
