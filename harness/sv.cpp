// C20: string views against the standard ones
#include "sv_api.h"
#include "vp.hpp"
#include <algorithm>
#include <memory>
using namespace vp;

static dnmx_sv lit(int n) {
    switch (n) {
#define X(i, l) case i: return dnmx_make_sv_lit(l);
    SV_LITS(X)
#undef X
    }
    return {};
}
static const sv_api sv_cpp = {
    dnmx_make_sv_be, dnmx_make_sv_len, dnmx_make_sv_str, dnmx_sv_is_null, dnmx_sv_is_empty, dnmx_sv_len, dnmx_sv_cmp, dnmx_sv_eq,
    dnmx_sv_starts_with, dnmx_sv_find_first, dnmx_sv_find_last, lit, [] { dnmx_sv e = DNMX_EMPTY_VAL; (void)e; return dnmx_sv DNMX_EMPTY_T(dnmx_sv); },
};

// memory of exactly the size of the text, so that nothing outside is read
struct text {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit text(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
};

static std::string show(std::string_view s) {
    if (!s.data()) return "null";
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c > 32 && c < 127) r += char(c);
        else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
static int sign(int x) { return (x > 0) - (x < 0); }

static void one(std::string_view s, const char* terminated) {
    for (auto api : {&sv_c, &sv_cpp}) {
        auto lang = api == &sv_c ? "C" : "C++";
#define SC(cond, what) VP_CHECK("sv-" what, cond, "%s: " what " of %s", lang, show(s).c_str())
        auto v = api->make_be(s.data(), s.data() + s.size());
        SC(v.begin == s.data() && v.end == s.data() + s.size(), "construction");
        if (s.data()) {
            auto w = api->make_len(s.data(), s.size());
            SC(w.begin == v.begin && w.end == v.end, "construction");
        }
        SC(api->is_null(v) == !s.data() && api->is_empty(v) == s.empty() && api->len(v) == s.size(), "size");
        if (terminated) {
            auto w = api->make_str(terminated);
            SC(w.begin == terminated && w.end == terminated + strlen(terminated), "construction");
        }
        for (char c : {'\0', 'a', 'b', '\x7f', '\x80', '\xff', 'z', ' ', 'q', s.empty() ? 'x' : s.front(), s.empty() ? 'x' : s.back(), s.empty() ? 'x' : s[s.size() / 2]}) {
            auto f = api->find_first(v, c), l = api->find_last(v, c);
            auto wf = s.find(c), wl = s.rfind(c);
            SC(f == (wf == s.npos ? nullptr : s.data() + wf), "find_first");
            SC(l == (wl == s.npos ? nullptr : s.data() + wl), "find_last");
        }
        SC(api->eq(v, v) && api->cmp(v, v) == 0, "comparison with itself");
    }
    auto v = dnmx_sv::from_std(s);
    auto lang = "C++";
    SC(v.begin == s.data() && v.end == s.data() + s.size(), "from_std");
    SC(v.to_std().data() == s.data() && v.to_std().size() == s.size() && v.empty() == s.empty(), "to_std");
    count("views");
}

static void prefix(std::string_view s, const char* p) {
    for (auto api : {&sv_c, &sv_cpp}) {
        bool want = s.size() >= strlen(p) && s.substr(0, strlen(p)) == p;
        VP_CHECK("sv-starts_with", api->starts_with(dnmx_sv{s.data(), s.data() + s.size()}, p) == want, "%s starts with %s", show(s).c_str(), show(p).c_str());
    }
    count("prefixes");
}

static void two(std::string_view a, std::string_view b) {
    auto x = dnmx_sv::from_std(a), y = dnmx_sv::from_std(b);
    int want = sign(a.compare(b));
    for (auto api : {&sv_c, &sv_cpp}) {
        auto lang = api == &sv_c ? "C" : "C++";
        VP_CHECK("sv-cmp", sign(api->cmp(x, y)) == want, "%s: cmp of %s and %s is %d and not %d", lang, show(a).c_str(), show(b).c_str(), api->cmp(x, y), want);
        VP_CHECK("sv-cmp", sign(api->cmp(y, x)) == -want, "%s: cmp of %s and %s is %d and not %d", lang, show(b).c_str(), show(a).c_str(), api->cmp(y, x), -want);
        VP_CHECK("sv-eq", api->eq(x, y) == (a == b) && api->eq(y, x) == (a == b), "%s: eq of %s and %s", lang, show(a).c_str(), show(b).c_str());
    }
    VP_CHECK("sv-operators", (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (y < x) == (b < a), "operators of %s and %s", show(a).c_str(), show(b).c_str());
    VP_CHECK("sv-operators", (x == b) == (a == b) && (a == y) == (a == b) && (x != b) == (a != b) && (a != y) == (a != b), "operators of %s and standard %s", show(a).c_str(), show(b).c_str());
    count("pairs");
    count(want ? "different pairs" : "equal pairs");
}

static void three(std::string_view a, std::string_view b, std::string_view c) {
    auto x = dnmx_sv::from_std(a), y = dnmx_sv::from_std(b), z = dnmx_sv::from_std(c);
    for (auto api : {&sv_c, &sv_cpp}) {
        if (api->cmp(x, y) <= 0 && api->cmp(y, z) <= 0) VP_CHECK("sv-order", api->cmp(x, z) <= 0, "order of %s, %s, %s is no order", show(a).c_str(), show(b).c_str(), show(c).c_str());
    }
    count("triples");
}

// all short ones
static void enumerate() {
    std::vector<std::string> all{""};
    for (size_t i = 0; i < all.size() && all[i].size() < 3; ++i)
        for (char c : {'\0', 'a', '\x80'}) all.push_back(all[i] + c);
    std::vector<text> t;
    for (auto& s : all) t.emplace_back(s);
    std::vector<std::string_view> v;
    for (auto& s : t) v.push_back(s.view());
    v.push_back({});
    for (auto a : v) {
        one(a, nullptr);
        for (auto b : v) {
            two(a, b);
            if (b.find('\0') == b.npos) prefix(a, std::string(b).c_str());
            for (auto c : v) three(a, b, c);
        }
    }
    for (auto api : {&sv_c, &sv_cpp}) {
#define X(i, l) VP_CHECK("sv-literal", api->lit(i).to_std() == std::string_view(l, sizeof(l) - 1), "literal %d", i);
        SV_LITS(X)
#undef X
        auto e = api->empty();
        VP_CHECK("sv-construction", !e.begin && !e.end && api->is_null(e) && api->is_empty(e) && !api->len(e), "an empty view is not empty");
        auto n = api->make_str(nullptr);
        VP_CHECK("sv-construction", !n.begin && !n.end, "a view of no string is not null");
    }
    count("enumerated pairs", v.size() * v.size());
}

static void run(rng& r) {
    static bool first = true;
    if (first) enumerate();
    first = false;
    // related texts: prefixes, one differing byte, shared memory
    static const char alphabet[] = {'\0', 'a', 'b', '\x7f', '\x80', '\xff', 'z', ' '};
    std::string base;
    int n = r.chance(10) ? r.range(100, 5000) : r.range(0, 24);
    int letters = r.range(1, 8);
    for (int i = 0; i < n; ++i) base += alphabet[r.below(uint32_t(letters))];
    text b(base);
    std::vector<text> own;
    std::vector<std::string_view> v{b.view()};
    own.reserve(8);
    for (int i = 0; i < 4; ++i) {
        std::string s = base;
        switch (r.range(0, 5)) {
        case 0: if (!s.empty()) s[r.below(uint32_t(s.size()))] = alphabet[r.below(8)]; break;
        case 1: s.resize(r.below(uint32_t(s.size() + 1))); break;
        case 2: s += alphabet[r.below(8)]; break;
        case 3: if (!s.empty()) s.back() = char(s.back() + 1); break;
        case 4: v.push_back(b.view().substr(0, r.below(uint32_t(n + 1)))); continue; // same memory
        case 5: v.push_back(b.view().substr(r.below(uint32_t(n + 1)))); continue;
        }
        own.emplace_back(s);
        v.push_back(own.back().view());
    }
    if (r.chance(20)) v.push_back({});
    for (auto a : v) {
        log("view %s", show(a.substr(0, 60)).c_str());
        sig(a);
        std::string z(a.substr(0, a.find('\0')));
        std::unique_ptr<char[]> zt(new char[z.size() + 1]);
        memcpy(zt.get(), z.c_str(), z.size() + 1);
        one(a, zt.get());
        prefix(a, zt.get());
        for (auto c : v) {
            prefix(c, zt.get());
            two(a, c);
            for (auto d : v) three(a, c, d);
        }
    }
    nontrivial();
}
int main(int argc, char** argv) { return run_main(argc, argv, run); }
