#pragma once
#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <utility>
namespace itlib {
template <typename C, typename T> auto qfind(C&& c, const T& v) { using std::begin; using std::end; return std::find(begin(c), end(c), v); }
template <typename C, typename P> auto qfind_if(C&& c, P&& p) { using std::begin; using std::end; return std::find_if(begin(c), end(c), std::forward<P>(p)); }
template <typename C, typename T> auto pfind(C&& c, const T& v) {
    using std::begin; using std::end;
    auto f = std::find(begin(c), end(c), v);
    using ptr = decltype(std::addressof(*f));
    return f == end(c) ? ptr(nullptr) : std::addressof(*f);
}
template <typename C, typename P> auto pfind_if(C&& c, P&& p) {
    using std::begin; using std::end;
    auto f = std::find_if(begin(c), end(c), std::forward<P>(p));
    using ptr = decltype(std::addressof(*f));
    return f == end(c) ? ptr(nullptr) : std::addressof(*f);
}
template <typename C, typename P> bool qall_of(C&& c, P&& p) { using std::begin; using std::end; return std::all_of(begin(c), end(c), std::forward<P>(p)); }
template <typename C, typename P> bool qany_of(C&& c, P&& p) { using std::begin; using std::end; return std::any_of(begin(c), end(c), std::forward<P>(p)); }
template <typename C, typename P> bool qnone_of(C&& c, P&& p) { using std::begin; using std::end; return std::none_of(begin(c), end(c), std::forward<P>(p)); }
template <typename C, typename T> size_t qcount(C&& c, const T& v) { using std::begin; using std::end; return size_t(std::count(begin(c), end(c), v)); }
template <typename C, typename P> size_t qcount_if(C&& c, P&& p) { using std::begin; using std::end; return size_t(std::count_if(begin(c), end(c), std::forward<P>(p))); }
template <typename C, typename T> T qaccumulate(C&& c, T init) { using std::begin; using std::end; return std::accumulate(begin(c), end(c), init); }
template <typename C, typename T> void qfill(C&& c, const T& v) { using std::begin; using std::end; std::fill(begin(c), end(c), v); }
template <typename C, typename O> O qcopy(C&& c, O o) { using std::begin; using std::end; return std::copy(begin(c), end(c), o); }
template <typename C, typename P> P qfor_each(C&& c, P p) { using std::begin; using std::end; return std::for_each(begin(c), end(c), p); }
template <typename C, typename T> auto qlower_bound(C&& c, const T& v) { using std::begin; using std::end; return std::lower_bound(begin(c), end(c), v); }
template <typename C, typename T, typename P> auto qlower_bound(C&& c, const T& v, P p) { using std::begin; using std::end; return std::lower_bound(begin(c), end(c), v, p); }
template <typename C> void qsort(C&& c) { using std::begin; using std::end; std::sort(begin(c), end(c)); }
template <typename C, typename P> void qsort(C&& c, P&& p) { using std::begin; using std::end; std::sort(begin(c), end(c), std::forward<P>(p)); }
template <typename C, typename T> size_t erase_all(C& c, const T& v) {
    auto n = c.size(); c.erase(std::remove(c.begin(), c.end(), v), c.end()); return n - c.size();
}
template <typename C, typename P> size_t erase_all_if(C& c, P&& p) {
    auto n = c.size(); c.erase(std::remove_if(c.begin(), c.end(), std::forward<P>(p)), c.end()); return n - c.size();
}
template <typename C, typename T> bool erase_first(C& c, const T& v) {
    auto f = std::find(c.begin(), c.end(), v); if (f == c.end()) return false; c.erase(f); return true;
}
template <typename C, typename P> bool erase_first_if(C& c, P&& p) {
    auto f = std::find_if(c.begin(), c.end(), std::forward<P>(p)); if (f == c.end()) return false; c.erase(f); return true;
}
template <typename C, typename T> bool contains(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
}
