// A program which loads and unloads libraries (plugins) which define mixins, messages, rules and type classes
#include "vp.hpp"
#include "plug_host.hpp"
#include <dynamix/domain_traverse.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dlfcn.h>
#include <mutex>
#include <optional>
#include <sstream>
#include <thread>

using namespace ph;
using vp::rng;
using vp::count;
using vp::log;
using vp::sig;

namespace {
constexpr int num_plugins = 5;
const char* const host_names[] = {"person", "teacher", "worker"};

// ---- model
struct work_impl { int bid, prio; };
struct mx {
    std::string name;
    int plugin = -1; // -1: host
    int index = 0;
    std::string text;
    int dump_prio = 0;
    std::optional<work_impl> work;
    bool need = false;
    int fail = -1; // priority
    bool value_in_dump = false;
};
const std::vector<mx> mixins = {
    {"person", -1, 0, "person", 0, {}, false, -1, true},
    {"teacher", -1, 1, "teacher", 0, work_impl{0, 0}, false, -1, false},
    {"worker", -1, 2, "worker", 0, work_impl{0, 3}, false, -1, false},
    {"p0-a", 0, 0, "p0-a", 0, work_impl{-1, 0}, false, -1, true},
    {"p0-b", 0, 1, "p0-b", 1, work_impl{0, 4}, false, -1, true},
    {"p0-a", 1, 0, "p0-a modified", 0, work_impl{1, 0}, false, -1, true},
    {"p0-b", 1, 1, "p0-b modified", -1, {}, false, -1, true},
    {"p2-a", 2, 0, "p2-a", 0, {}, false, -1, true},
    {"p2-b", 2, 1, "p2-b", 0, {}, false, -1, true},
    {"p3-a", 3, 0, "p3-a", 0, {}, false, 0, true},
    {"p3-b", 3, 1, "p3-b", 0, {}, false, 1, true},
    {"p4-a", 4, 0, "p4-a", 0, work_impl{2, 0}, true, -1, true},
    {"p4-b", 4, 1, "p4-b", 5, {}, false, -1, true},
};
int mixin_of(int plugin, int index) {
    for (size_t i = 0; i < mixins.size(); ++i) if (mixins[i].plugin == plugin && mixins[i].index == index) return int(i);
    return -1;
}

struct mobj {
    std::vector<std::pair<int, int>> m; // mixin, value
    int at(int i) const { for (size_t k = 0; k < m.size(); ++k) if (m[k].first == i) return int(k); return -1; }
    void remove(int i) { auto k = at(i); if (k >= 0) m.erase(m.begin() + k); }
    std::string dump() const {
        std::vector<std::pair<int, int>> l = m;
        // the first one of the table last: the lowest priority, of the same the last mixin
        std::vector<std::pair<int, std::string>> t;
        for (auto& [i, v] : l) t.push_back({mixins[size_t(i)].dump_prio, mixins[size_t(i)].text + (mixins[size_t(i)].value_in_dump ? " " + std::to_string(v) : "")});
        std::stable_sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first > b.first; });
        std::string r;
        for (auto& x : t) r += x.second + ";";
        return t.empty() ? "feature_error" : r;
    }
    std::string work(int arg, int below_bid = 1000) const {
        int best = -1;
        for (auto& [i, v] : m) {
            auto& w = mixins[size_t(i)].work;
            if (!w || w->bid >= below_bid) continue;
            if (best < 0 || std::pair(w->bid, -w->prio) >= std::pair(mixins[size_t(best)].work->bid, -mixins[size_t(best)].work->prio)) best = i;
        }
        if (best < 0) return below_bid == 1000 ? "default " + std::to_string(arg) : "";
        auto& x = mixins[size_t(best)];
        if (x.name == "p4-a") {
            auto next = work(arg, x.work->bid);
            if (!next.empty()) return x.text + " and " + next;
        }
        return x.text + " " + std::to_string(arg);
    }
    // changes the state
    std::string call(int what, int arg) {
        switch (what) {
        case 0: return dump();
        case 1: return work(arg);
        case 2: {
            int k = at(mixin_of(4, 0));
            if (k < 0) return "feature_error";
            m[size_t(k)].second = int(("needed " + std::to_string(arg)).size()) + 400;
            return std::to_string(m[size_t(k)].second);
        }
        case 3:
            if (at(mixin_of(3, 0)) >= 0) return "plug_error p3-a " + std::to_string(arg);
            if (at(mixin_of(3, 1)) >= 0) return "std p3-b";
            return "feature_error";
        case 4: case 5: return "type_error";
        }
        return "";
    }
    // rules of loaded plugins (which only concern objects with their mixins)
    void rules(bool first) {
        if (at(mixin_of(2, 0)) >= 0 && at(mixin_of(2, 1)) < 0) m.push_back({mixin_of(2, 1), 0});
        if (at(mixin_of(3, 0)) >= 0 || at(mixin_of(3, 1)) >= 0) remove(1);
        int k = at(mixin_of(4, 1));
        if (first && k > 0) std::rotate(m.begin(), m.begin() + k, m.begin() + k + 1);
    }
};

// ---- libraries
std::string dir;
std::mutex dl_mutex; // the loader's own order of events, which a race detector can't see

struct library {
    void* handle = nullptr;
    const plugin_api* api = nullptr;
};
library libs[num_plugins];

std::string path_of(int p) { return dir + "/libplug" + std::to_string(p) + ".so"; }

void load(int p) {
    auto& l = libs[p];
    std::lock_guard<std::mutex> g(dl_mutex);
    l.handle = dlopen(path_of(p).c_str(), RTLD_NOW | RTLD_LOCAL);
    VP_CHECK("plugin-load", l.handle, "plugin %d can't be loaded: %s", p, dlerror());
    auto f = reinterpret_cast<const plugin_api* (*)()>(dlsym(l.handle, "plugin"));
    VP_CHECK("plugin-load", f, "%s", dlerror());
    l.api = f();
    VP_CHECK("plugin-load", l.api->plugin == p, "broken harness");
}

void unload(int p) {
    auto& l = libs[p];
    std::lock_guard<std::mutex> g(dl_mutex);
    VP_CHECK("plugin-load", dlclose(l.handle) == 0, "%s", dlerror());
    l = {};
    // really gone?
    if (void* h = dlopen(path_of(p).c_str(), RTLD_NOW | RTLD_NOLOAD | RTLD_LOCAL)) {
        dlclose(h);
        count("libraries which stay in memory");
    }
    else count("libraries really unloaded");
}

// ---- what is in the domain
std::set<std::string> known_features; // of the host, registered with the first mixin which implements them

std::string domain_content(std::set<const dm::mixin_info*>& infos) {
    auto& d = dm::g::get_domain<plug_domain>();
    dm::domain_traverse tr(d);
    std::multiset<std::string> s;
    tr.traverse_mixins([&](const dm::mixin_info& i) {
        s.insert("mixin " + std::string(i.name.to_std()));
        infos.insert(&i);
        VP_CHECK("plugin-domain", d.get_mixin_info(i.name.to_std()) == &i && d.get_mixin_info(i.id) == &i, "a mixin is not found");
    });
    tr.traverse_features([&](const dm::feature_info& i) {
        s.insert("feature " + std::string(i.name.to_std()));
        VP_CHECK("plugin-domain", d.get_feature_info(i.name.to_std()) == &i && d.get_feature_info(i.id) == &i, "a feature is not found");
    });
    tr.traverse_mutation_rules([&](const dm::mutation_rule_info& r, uint32_t n) { s.insert("rule " + std::string(r.name.to_std()) + " " + std::to_string(n)); });
    tr.traverse_type_classes([&](const dm::type_class& c) { s.insert("class " + std::string(c.name.to_std())); });
    size_t n = 0;
    tr.traverse_types([&](const dm::type& t) {
        ++n;
        for (uint32_t i = 0; i < t.num_mixins(); ++i) VP_CHECK("plugin-domain", infos.count(t.mixins[i]), "the domain has a type of a mixin which is not registered");
    });
    size_t q = 0;
    tr.traverse_type_queries([&](itlib::span<const dm::mixin_info* const> l, const dm::type&) {
        ++q;
        for (auto i : l) VP_CHECK("plugin-domain", infos.count(i), "the domain has a query of a mixin which is not registered");
    });
    VP_CHECK("plugin-domain", n == d.num_types() && q == d.num_type_queries(), "other numbers of types or queries");
    std::string r;
    for (auto& x : s) r += x + "\n";
    return r;
}

std::string model_content(const bool* loaded) {
    std::multiset<std::string> s;
    for (auto n : host_names) s.insert(std::string("mixin ") + n);
    for (auto& f : known_features) s.insert("feature " + f);
    for (auto& x : mixins) if (x.plugin >= 0 && loaded[x.plugin]) s.insert("mixin " + x.name);
    if (loaded[2]) {
        s.insert("feature own_msg");
        s.insert("rule p2-a also_adds<0> 1");
    }
    if (loaded[3]) {
        s.insert("rule no teacher 2");
        s.insert("class has_p3");
    }
    if (loaded[4]) s.insert("rule p4-b first 1");
    std::string r;
    for (auto& x : s) r += x + "\n";
    return r;
}

// ---- a history
struct history {
    rng& r;
    bool own; // nobody else uses the domain
    std::vector<std::pair<std::unique_ptr<object>, mobj>> objects;
    bool* loaded;
    std::map<std::vector<std::string>, const dm::type*> host_types;
    std::vector<std::pair<std::exception_ptr, std::string>> errors;
    int mine = -1; // the library of a thread
    uint64_t s = 0; // signature
    std::map<std::string, uint64_t> counters; // the common ones aren't for threads
    std::string text;

    history(rng& r, bool own, bool* loaded) : r(r), own(own), loaded(loaded) {}

    void note(const char* fmt, ...) {
        char buf[300];
        va_list va;
        va_start(va, fmt);
        vsnprintf(buf, sizeof(buf), fmt, va);
        va_end(va);
        s = vp::hash_mix(s, vp::hash_str(buf));
        if (own) log("%s", buf);
    }

    void verify(object& o, mobj& m) {
        auto& t = o.get_type();
        VP_CHECK("plugin-object", t.num_mixins() == m.m.size(), "an object has %u mixins instead of %zu", t.num_mixins(), m.m.size());
        std::vector<std::string> names;
        bool host = true;
        for (uint32_t i = 0; i < t.num_mixins(); ++i) {
            auto& [x, v] = m.m[i];
            auto& X = mixins[size_t(x)];
            VP_CHECK("plugin-object", t.mixins[i]->name.to_std() == X.name, "an object has %s instead of %s", std::string(t.mixins[i]->name.to_std()).c_str(), X.name.c_str());
            auto b = static_cast<base*>(o.get_at(i));
            VP_CHECK("plugin-object", o.get(X.name) == b && o.get(*t.mixins[i]) == b && dm::object_of(b) == &o, "%s is not found in its object", X.name.c_str());
            VP_CHECK("plugin-object", b->ok() && b->value == v, "%s of an object has another state: %d instead of %d", X.name.c_str(), b->value, v);
            if (X.plugin >= 0) {
                host = false;
                auto api = libs[X.plugin].api;
                VP_CHECK("plugin-object", api->get(o, X.index) == b && api->has(o, X.index), "the library doesn't find %s", X.name.c_str());
                VP_CHECK("plugin-object", &api->info(X.index) == t.mixins[i] && (X.index == 0 || reinterpret_cast<uintptr_t>(b) % 64 == 0), "%s", X.name.c_str());
            }
            names.push_back(X.name);
        }
        if (host && own) {
            auto [i, isnew] = host_types.insert({names, &t});
            VP_CHECK("plugin-types", i->second == &t, "another type for the same mixins");
            if (!isnew) ++counters["types found again"];
        }
        if ((own || mine == 3) && loaded[3]) {
            bool want = m.at(mixin_of(3, 0)) >= 0 || m.at(mixin_of(3, 1)) >= 0;
            VP_CHECK("plugin-class", libs[3].api->is_of(t) == want && t.is_of("has_p3") == want, "type class of the library says otherwise");
        }
    }

    void call(object& o, mobj& m, int what, int arg, int from) {
        auto before = m;
        auto want = m.call(what, arg);
        auto got = from < 0 ? call_here(o, what, arg) : libs[from].api->call(o, what, arg);
        note("call %d of %d mixins from %d -> %s", what, int(m.m.size()), from, got.c_str());
        VP_CHECK("plugin-call", got == want, "call %d from %d: %s instead of %s", what, from, got.c_str(), want.c_str());
        ++counters[from < 0 ? "calls from the program" : "calls from libraries"];
        if (got.find("error") != got.npos) ++counters[from < 0 ? "errors in the program" : "errors in libraries"];
    }

    // (through the library or not)
    void add(object& o, mobj& m, int x) {
        auto& X = mixins[size_t(x)];
        m.m.push_back({x, 0});
        m.rules(true);
        if (X.plugin >= 0 && r.chance(50)) libs[X.plugin].api->add(o, X.index);
        else if (X.plugin >= 0 && r.chance(50)) mutate(o, dm::add(libs[X.plugin].api->info(X.index)));
        else mutate(o, dm::add(X.name));
        note("add %s", X.name.c_str());
        ++counters["mutations"];
    }
    void remove(object& o, mobj& m, int x) {
        auto& X = mixins[size_t(x)];
        // (what another mixin brings comes back: then that mixin leaves first)
        if (x == mixin_of(2, 1) && m.at(mixin_of(2, 0)) >= 0) remove(o, m, mixin_of(2, 0));
        m.remove(x);
        m.rules(true);
        if (X.plugin >= 0 && r.chance(50)) libs[X.plugin].api->remove(o, X.index);
        else mutate(o, dm::remove(X.name));
        note("remove %s", X.name.c_str());
        ++counters["mutations"];
    }

    void free_of(int p) {
        for (size_t i = 0; i < objects.size();) {
            auto& [o, m] = objects[i];
            bool has = false;
            for (int k = 0; k < 2; ++k) has = has || m.at(mixin_of(p, k)) >= 0;
            if (!has) { ++i; continue; }
            switch (r.range(0, 3)) {
            case 0:
                objects.erase(objects.begin() + long(i));
                note("object dies");
                continue;
            case 1:
                o->clear();
                m.m.clear();
                note("object is cleared");
                break;
            default:
                for (int k = 1; k >= 0; --k) if (m.at(mixin_of(p, k)) >= 0) remove(*o, m, mixin_of(p, k));
                break;
            }
            verify(*o, m);
            ++i;
        }
    }

    void check_domain() {
        std::set<const dm::mixin_info*> infos;
        auto got = domain_content(infos);
        auto want = model_content(loaded);
        VP_CHECK("plugin-domain", got == want, "the domain has\n%sinstead of\n%s", got.c_str(), want.c_str());
        for (auto& x : mixins) {
            if (x.plugin < 0 || loaded[x.plugin]) continue;
            if (x.plugin < 2 && loaded[1 - x.plugin]) continue;
            VP_CHECK("plugin-domain", !dm::g::get_domain<plug_domain>().get_mixin_info(x.name), "%s of an unloaded library is found", x.name.c_str());
        }
        ++counters["contents of the domain"];
        if (r.chance(25)) {
            std::ostringstream o;
            dm::util::dbg_dmp(o, dm::g::get_domain<plug_domain>());
            auto s = o.str();
            for (auto& x : mixins) {
                bool is = x.plugin < 0 || loaded[x.plugin] || (x.plugin < 2 && loaded[1 - x.plugin]);
                VP_CHECK("plugin-domain", (s.find(x.name) != s.npos) == is, "%s is%s in the dump of the domain", x.name.c_str(), is ? " not" : "");
            }
            ++counters["dumps of the domain"];
        }
        // errors outlive what they are about
        for (auto& [e, text] : errors) {
            try { std::rethrow_exception(e); }
            catch (std::exception& x) { VP_CHECK("plugin-errors", text == x.what(), "the text of an error has changed to %s", x.what()); }
        }
        if (errors.size() > 20) errors.clear();
    }

    void step(int only_plugin) {
        auto& d = dm::g::get_domain<plug_domain>();
        int what = r.range(0, 99);
        auto pick_plugin = [&] { return only_plugin >= 0 ? only_plugin : r.range(0, num_plugins - 1); };
        auto usable = [&](int x) { auto p = mixins[size_t(x)].plugin; return p < 0 || ((only_plugin < 0 || p == only_plugin) && loaded[p]); };
        if (what < 12 || objects.empty()) {
            int p = pick_plugin();
            if (loaded[p] && r.chance(40)) {
                int k = r.range(0, 1);
                auto o = libs[p].api->make(k);
                mobj m;
                m.m = {{mixin_of(p, k), 1000 + p}, {0, 7}};
                m.rules(true);
                note("object of the library %d", p);
                ++counters["objects of libraries"];
                objects.push_back({std::move(o), m});
            }
            else {
                objects.push_back({std::make_unique<object>(), mobj{}});
                note("object");
            }
        }
        else if (what < 50) {
            auto& [o, m] = objects[r.below(uint32_t(objects.size()))];
            int x = r.range(0, int(mixins.size()) - 1);
            for (int k = 0; k < 6 && !(usable(x) && (mixins[size_t(x)].plugin >= 0 || r.chance(30))); ++k) x = r.range(0, int(mixins.size()) - 1);
            if (!usable(x)) x = r.range(0, 2);
            if (m.at(x) >= 0) remove(*o, m, x);
            // (the rule removes it again)
            else add(*o, m, x);
            verify(*o, m);
        }
        else if (what < 70) {
            auto& [o, m] = objects[r.below(uint32_t(objects.size()))];
            int from = r.chance(50) ? pick_plugin() : -1;
            if (from >= 0 && !loaded[from]) from = -1;
            int c = r.range(0, 5);
            call(*o, m, c, r.range(1, 99), from);
            verify(*o, m);
            if (from >= 0) {
                auto& i = libs[from].api->info(r.range(0, 1));
                try {
                    switch (r.range(0, 3)) {
                    case 0: { const dm::mixin_info* twice[] = {&i, &i}; (void)d.get_type(twice); break; }
                    case 1: (void)d.get_feature_info(i.name.to_std()); need(*o, "x"); for (auto& mm : m.m) if (mm.first == mixin_of(4, 0)) mm.second = 401; break;
                    case 2: { dm::mixin_info other = i; other.id = dm::invalid_mixin_id; other.dom = nullptr; d.register_mixin(other); break; }
                    case 3: (void)o->get_type().is_of(i.name.to_std()); break;
                    }
                }
                catch (dm::exception& e) {
                    errors.push_back({std::current_exception(), e.what()});
                    ++counters["errors kept"];
                }
            }
            if (from == 2) {
                int k = m.at(mixin_of(2, 0));
                int arg = r.range(1, 9);
                if (k >= 0) {
                    VP_CHECK("plugin-call", libs[2].api->own(*o, arg) == arg + m.m[size_t(k)].second, "the library's own message");
                    ++counters["own messages of a library"];
                }
            }
        }
        else if (what < 85) {
            int p = pick_plugin();
            if (loaded[p] && r.chance(40)) {}
            else if (loaded[p]) {
                note("unload %d", p);
                free_of(p);
                if (own && r.chance(30)) {
                    d.garbage_collect_types();
                    host_types.clear();
                }
                unload(p);
                loaded[p] = false;
            }
            else if (p > 1 || !loaded[1 - p]) {
                note("load %d", p);
                loaded[p] = true;
                load(p);
                if (own) known_features.insert({"dump_msg", "work_msg"});
                if (own && p == 3) known_features.insert("fail_msg");
                if (own && p == 4) known_features.insert("need_msg");
                if (own) VP_CHECK("plugin-load", d.get_mixin_info(mixins[size_t(mixin_of(p, 0))].name) == &libs[p].api->info(0), "a mixin of the library is not found");
                ++counters["libraries loaded"];
            }
            if (own) check_domain();
            for (auto& [o, m] : objects) verify(*o, m);
        }
        else if (what < 90) {
            int i = r.range(0, int(objects.size()) - 1);
            auto& [o, m] = objects[size_t(i)];
            bool copyable = o->get_type().copyable();
            if (r.chance(50) && copyable) {
                auto c = std::make_unique<object>();
                c->copy_from(*o);
                mobj mc = m;
                verify(*c, mc);
                objects.push_back({std::move(c), std::move(mc)});
                note("copy");
                ++counters["copies"];
            }
            else {
                auto c = std::make_unique<object>();
                static_cast<dm::object&>(*c) = std::move(static_cast<dm::object&>(*o));
                mobj mc = std::move(m);
                m.m.clear();
                verify(*o, m);
                verify(*c, mc);
                objects.push_back({std::move(c), std::move(mc)});
                note("move");
                ++counters["moves"];
            }
        }
        else if (what < 94) {
            int p = pick_plugin();
            if (loaded[p]) {
                bool rev = r.chance(50);
                auto& t = libs[p].api->type(rev);
                VP_CHECK("plugin-types", t.num_mixins() == 2 && t.mixins[rev ? 1 : 0]->name.to_std() == "person", "type of the library");
                if (own) host_types.insert({rev ? std::vector<std::string>{"worker", "person"} : std::vector<std::string>{"person", "worker"}, &t});
                note("type of the library");
                ++counters["types of libraries"];
            }
        }
        else if (what < 97 && own) {
            d.garbage_collect_types();
            host_types.clear();
            note("garbage collection");
            check_domain();
        }
        else {
            objects.erase(objects.begin() + r.range(0, int(objects.size()) - 1));
            note("object dies");
        }
        if (objects.size() > 8) objects.erase(objects.begin());
    }
};

bool loaded[num_plugins];

void run_case(rng& r) {
    known_features.insert({"dump_msg", "work_msg"});
    if (vp::opt().profile == "threads") {
        // each thread has its library; they share the domain
        int n = r.range(2, 4);
        std::vector<std::thread> ts;
        std::vector<std::unique_ptr<history>> hs;
        std::vector<rng> rs;
        static const int plugin_of[] = {0, 2, 3, 4};
        int shift = r.range(0, 3);
        for (int i = 0; i < n; ++i) rs.emplace_back(r.next());
        for (int i = 0; i < n; ++i) hs.push_back(std::make_unique<history>(rs[size_t(i)], false, loaded));
        for (int i = 0; i < n; ++i) {
            ts.emplace_back([&, i] {
                auto& h = *hs[size_t(i)];
                int p = plugin_of[(i + shift) % 4];
                if (p == 0 && h.r.chance(50)) p = 1;
                h.mine = p;
                for (int k = 0; k < 60; ++k) h.step(p);
                h.objects.clear();
                if (loaded[p]) { unload(p); loaded[p] = false; }
            });
        }
        for (auto& t : ts) t.join();
        for (auto& h : hs) {
            for (auto& c : h->counters) count(("threads: " + c.first).c_str(), c.second);
            sig(h->s);
        }
        known_features.clear();
        dm::domain_traverse(dm::g::get_domain<plug_domain>()).traverse_features([&](const dm::feature_info& f) { known_features.insert(std::string(f.name.to_std())); });
    }
    else {
        history h(r, true, loaded);
        h.check_domain();
        int n = r.range(20, 80);
        for (int i = 0; i < n; ++i) h.step(-1);
        h.objects.clear();
        for (auto& c : h.counters) count(c.first.c_str(), c.second);
        sig(h.s);
        h.check_domain();
        // libraries stay loaded at times: for the next case or to the end of the program
        for (int p = 0; p < num_plugins; ++p) {
            if (!loaded[p] || r.chance(40)) continue;
            unload(p);
            loaded[p] = false;
        }
        h.check_domain();
    }
    VP_CHECK("plugin-mixins", living() == 0 && buffers() == 0, "%d mixins and %d buffers are left", int(living()), int(buffers()));
    VP_CHECK("plugin-domain", known_features.count("own_msg") == 0, "feature of an unloaded library");
    vp::nontrivial();
}
}

int main(int argc, char** argv) {
    dir = argv[0];
    dir = dir.substr(0, dir.rfind('/'));
    if (dir.empty()) dir = ".";
    int res = vp::run_main(argc, argv, run_case);
    return res;
}
