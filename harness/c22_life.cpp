// Operations on elements whose lifetime events are recorded.
// T: element type; OPS 0 sorts, 1 subsequences and element-wise operations, 2 groupings, 3 relocation and containers
#include "fncommon.h"
#include "../rt/ledger.h"
#include <list>
#include <deque>
#include <optional>
#include <parlay/delayed.h>
#include <parlay/random.h>
#include <parlay/relocation.h>
#include <parlay/internal/uninitialized_sequence.h>
#include <parlay/internal/quicksort.h>
#include <parlay/internal/bucket_sort.h>
#include <parlay/internal/merge_sort.h>
#ifndef TYPE
#define TYPE Fixed
#endif
#ifndef OPS
#define OPS 0
#endif
using namespace ledger;
using parlay::sequence;
using T0 = ledger::TYPE;
template <class T> constexpr bool copyable = std::is_copy_constructible_v<T>;
constexpr size_t MAXN = sizeof(T0) > 5000 ? 60 : sizeof(T0) > 1000 ? 600 : 9000;
static V v;
template <class T> static sequence<T> mkseq_() { sequence<T> s; s.reserve(v.size()); for (auto x : v) s.push_back(T((int)x)); return s; }
template <class T> static size_t sum(const sequence<T>& s) { size_t z = 0; for (auto& x : s) z += (size_t)key(x); return z; }
static bool small(const T0& x) { return key(x) % 3 == 0; }
struct HashL { size_t operator()(const T0& x) const { return parlay::hash64((uint64_t)key(x)); } };
struct PlusT { T0 operator()(const T0& a, const T0& b) const { return T0(key(a) + key(b)); } };
static size_t sink;
#define mkseq() mkseq_<T>()
#define mon parlay::make_monoid(PlusT{}, T(0))
#define OP(...) { ledger::reset(); fn::call("life", {OPS * 100 + op, (ll)v.size(), (ll)sizeof(T), copyable<T>, T::reloc}); { __VA_ARGS__; } bool ok; auto o = ledger::collect(ok); if (ok) fn::emit(o); return; }
template <class X> void use(X&& x) { auto y = std::forward<X>(x); sink += y.size(); }

#if OPS == 0
constexpr int NOPS = 16;
template <class T> void run(int op, fn::rng& r) {
  int c = (int)r(3);
  auto less = [c](const T& a, const T& b) { return c == 1 ? b < a : c == 2 ? key(a) / 8 < key(b) / 8 : a < b; };
  auto ik = [](const T& x) { return (unsigned)key(x); };
  auto bk = [](const T& x) { return (unsigned char)(key(x) % 200); };
  size_t n = v.size(); (void)n;
  switch (op) {
    case 0: OP(auto s = mkseq(); parlay::sort_inplace(s, less); sink += sum(s))
    case 1: OP(auto s = mkseq(); parlay::stable_sort_inplace(s, less); sink += sum(s))
    case 2: OP(auto s = mkseq(); parlay::integer_sort_inplace(s, ik); sink += sum(s))
    case 3: OP(auto s = mkseq(); parlay::stable_integer_sort_inplace(s, ik); sink += sum(s))
    case 4: OP(auto s = mkseq(); parlay::counting_sort_inplace(s, 200, bk); sink += sum(s))
    case 5: OP(auto s = mkseq(); parlay::internal::quicksort(parlay::make_slice(s), less); sink += sum(s))
    case 6: OP(auto s = mkseq(); parlay::internal::bucket_sort(parlay::make_slice(s), less); sink += sum(s))
    case 7: OP(auto s = mkseq(); parlay::internal::merge_sort_inplace(parlay::make_slice(s), less); sink += sum(s))
    case 8: OP(auto s = mkseq(); parlay::integer_sort_inplace(parlay::make_slice(s).cut(n / 3, n), bk); sink += sum(s))
    case 9: OP(auto s = mkseq(); parlay::sort_inplace(parlay::make_slice(s).cut(n / 4, n), less); sink += sum(s))
    default:
      if constexpr (copyable<T>) switch (op) {
        case 10: OP(auto s = mkseq(); auto t = parlay::sort(s, less); sink += sum(s) + sum(t))
        case 11: OP(auto s = mkseq(); auto t = parlay::stable_sort(s, less); sink += sum(s) + sum(t))
        case 12: OP(auto s = mkseq(); auto t = parlay::integer_sort(s, ik); sink += sum(s) + sum(t))
        case 13: OP(auto s = mkseq(); auto t = parlay::stable_integer_sort(s, bk); sink += sum(s) + sum(t))
        case 14: OP(auto s = mkseq(); auto t = parlay::counting_sort(s, 200, bk); sink += sum(s) + sum(t.first))
        default: OP(auto s = mkseq(); if (n) { auto x = parlay::kth_smallest_copy(s, r(n), less); sink += (size_t)key(x); } if (n) sink += (size_t)key(*parlay::kth_smallest(s, r(n), less)); sink += sum(s))
      }
      else OP(auto s = mkseq(); if (n > 1) parlay::sort_inplace(s, less); sink += sum(s))
  }
}
#elif OPS == 1
constexpr int NOPS = 26;
template <class T> void run(int op, fn::rng& r) {
  size_t n = v.size();
  auto nest = [&]() { sequence<sequence<T>> s; size_t i = 0; while (i < n) { size_t l = r.chance(1, 3) ? r(4) : r(400); sequence<T> t; for (; l > 0 && i < n; l--, i++) t.push_back(T((int)v[i])); s.push_back(std::move(t)); if (n > 5000 && i > 5000) break; } return s; };
  switch (op) {
    case 0: OP(auto s = mkseq(); parlay::reverse_inplace(s); sink += sum(s))
    case 1: OP(auto s = nest(); auto t = parlay::flatten(std::move(s)); sink += sum(t) + s.size())
    case 2: OP(auto t = parlay::tabulate(n, [&](size_t i) { return T((int)v[i]); }); sink += sum(t))
    case 3: OP(auto s = mkseq(); auto t = parlay::map(s, [](const T& x) { return T(key(x) + 1); }); sink += sum(s) + sum(t))
    case 4: OP(auto s = mkseq(); sink += (size_t)(parlay::find_if(s, small) - s.begin()) + parlay::count_if(s, small) + (size_t)(parlay::max_element(s) - s.begin()); sink += parlay::is_sorted(parlay::make_slice(s), std::less<>{}))
    case 5: OP(auto s = mkseq(); parlay::sequence<T> t(n); std::swap(s, t); t = std::move(s); sink += sum(t))
    case 6: OP(auto s = parlay::sequence<T>::from_function(n, [&](size_t i) { return T((int)v[i]); }, 1 + r(50)); auto t = std::move(s); sink += sum(t) + s.size())
    case 7: OP(auto s = mkseq(); auto f = parlay::map(s, [](T& x) { return std::move(x); }); sink += sum(f))
    case 8: OP(parlay::sequence<std::optional<T>> s; for (auto x : v) s.push_back(x % 2 ? std::optional<T>(T((int)x)) : std::nullopt); parlay::reverse_inplace(s); sink += s.size())
    default:
      if constexpr (copyable<T>) switch (op) {
        case 9: OP(auto s = mkseq(); auto t = parlay::filter(s, small); sink += sum(s) + sum(t))
        case 10: OP(auto s = mkseq(); sequence<bool> f(n); for (size_t i = 0; i < n; i++) f[i] = v[i] % 2; auto t = parlay::pack(s, f); sink += sum(s) + sum(t))
        case 11: OP(auto s = mkseq(); auto t = parlay::remove_if(s, small); auto u = parlay::unique(s); sink += sum(t) + sum(u))
        case 12: OP(auto s = mkseq(); auto t = parlay::reverse(s); auto u = parlay::rotate(s, n ? r(n) : 0); sink += sum(t) + sum(u))
        case 13: OP(auto s = mkseq(); auto t = parlay::append(s, s); sink += sum(s) + sum(t))
        case 14: OP(auto s = nest(); auto t = parlay::flatten(s); sink += sum(t) + s.size())
        case 15: OP(auto s = mkseq(); auto t = parlay::scan(s, parlay::make_monoid(PlusT{}, T(0))); sink += sum(t.first) + (size_t)key(t.second))
        case 16: OP(auto s = mkseq(); auto t = parlay::scan_inplace(s, parlay::make_monoid(PlusT{}, T(0))); sink += sum(s) + (size_t)key(t))
        case 17: OP(auto s = mkseq(); auto t = parlay::scan_inclusive(s, parlay::make_monoid(PlusT{}, T(0))); parlay::scan_inclusive_inplace(s, parlay::make_monoid(PlusT{}, T(0))); sink += sum(t) + sum(s))
        case 18: OP(auto s = mkseq(); auto t = parlay::reduce(s, parlay::make_monoid(PlusT{}, T(0))); sink += (size_t)key(t))
        case 19: OP(auto s = mkseq(); size_t h = n / 2; parlay::sort_inplace(parlay::make_slice(s).cut(0, h)); parlay::sort_inplace(parlay::make_slice(s).cut(h, n)); auto t = parlay::merge(parlay::make_slice(s).cut(0, h), parlay::make_slice(s).cut(h, n)); sink += sum(t))
        case 20: OP(auto s = mkseq(); auto f = parlay::delayed::filter(s, small); auto t = parlay::delayed::to_sequence(f); sink += sum(t))
        case 21: OP(auto s = mkseq(); auto f = parlay::delayed::map_maybe(s, [](const T& x) { return small(x) ? std::make_optional(T(key(x))) : std::nullopt; }); auto t = parlay::delayed::to_sequence(f); sink += sum(t))
        case 22: OP(auto s = mkseq(); auto f = parlay::delayed::scan(s, parlay::make_monoid(PlusT{}, T(0))); auto t = parlay::delayed::to_sequence(f.first); auto z = parlay::delayed::reduce(f.first, parlay::make_monoid(PlusT{}, T(0))); sink += sum(t) + (size_t)key(z))
        case 23: OP(auto s = nest(); auto f = parlay::delayed::flatten(s); auto t = parlay::delayed::to_sequence(f); sink += sum(t); auto g = parlay::delayed::flatten(std::move(s)); auto u = parlay::delayed::to_sequence(g); sink += sum(u))
        case 24: OP(auto s = mkseq(); auto t = parlay::random_shuffle(s, r.next()); sink += sum(t))
        default: OP(auto s = mkseq(); sequence<bool> f(n); for (size_t i = 0; i < n; i++) f[i] = v[i] % 7 == 0; auto t = parlay::split_at(s, f); for (auto& x : t) sink += sum(x); auto u = parlay::map_maybe(s, [](const T& x) { return small(x) ? std::make_optional(T(key(x))) : std::nullopt; }); sink += sum(u))
      }
      else OP(auto s = mkseq(); parlay::reverse_inplace(s); auto t = std::move(s); sink += sum(t))
  }
}
#elif OPS == 2
constexpr int NOPS = 12;
template <class T> void run(int op, fn::rng& r) {
  using PT = std::pair<int, T>; using QT = std::pair<T, T>;
  size_t n = v.size(); (void)r;
  auto pts = [&]() { sequence<PT> s; s.reserve(n); for (auto x : v) s.push_back(PT((int)x, T((int)x))); return s; };
  auto its = [&]() { sequence<PT> s; s.reserve(n); for (auto x : v) s.push_back(PT((int)(x % 50), T((int)x))); return s; };
  auto qts = [&]() { sequence<QT> s; s.reserve(n); for (auto x : v) s.push_back(QT(T((int)x), T((int)x))); return s; };
  auto groups = [&](auto&& g) { for (auto& x : g) for (auto& y : x.second) sink += (size_t)key(y); };
  (void)pts; (void)its;
  switch (op) {
    case 0: OP(auto s = pts(); groups(parlay::group_by_key(s)); sink += s.size())
    case 1: OP(auto s = pts(); groups(parlay::group_by_key(std::move(s))))
    case 2: OP(auto s = qts(); groups(parlay::group_by_key(s, HashL{})); sink += s.size())
    case 3: OP(auto s = qts(); groups(parlay::group_by_key(std::move(s), HashL{})))
    case 4: OP(auto s = pts(); auto t = r(2) ? parlay::reduce_by_key(s, mon) : parlay::reduce_by_key(std::move(s), mon); for (auto& x : t) sink += (size_t)key(x.second))
    case 5: OP(auto s = qts(); auto t = r(2) ? parlay::reduce_by_key(s, mon, HashL{}) : parlay::reduce_by_key(std::move(s), mon, HashL{}); for (auto& x : t) sink += (size_t)key(x.second))
    case 6: OP(auto s = mkseq(); auto t = r(2) ? parlay::histogram_by_key(s, HashL{}) : parlay::histogram_by_key(std::move(s), HashL{}); for (auto& x : t) sink += (size_t)key(x.first))
    case 7: OP(auto s = mkseq(); auto t = r(2) ? parlay::remove_duplicates(s, HashL{}) : parlay::remove_duplicates(std::move(s), HashL{}); sink += sum(t))
    case 8: OP(auto s = mkseq(); auto t = parlay::remove_duplicates_ordered(s); sink += sum(t))
    case 9: OP(auto s = qts(); groups(parlay::group_by_key_ordered(s)))
    case 10: OP(auto s = its(); auto t = parlay::group_by_index(s, 50); for (auto& x : t) sink += sum(x))
    default: OP(auto s = its(); auto t = parlay::reduce_by_index(s, (size_t)50, mon); sink += sum(t))
  }
}
#else
constexpr int NOPS = 10;
template <class U> struct raw {
  U* p; size_t n;
  explicit raw(size_t n_) : p(static_cast<U*>(::operator new(sizeof(U) * (n_ + 1)))), n(n_) { memset((void*)p, 0xa5, sizeof(U) * n); }
  ~raw() { ::operator delete((void*)p); }
};
template <class T> struct From_ { T x; explicit From_(int k) : x(k) {} From_(From_&&) = default; operator T() && { return std::move(x); } };
template <class T> void run(int op, fn::rng& r) {
  using From = From_<T>;
  size_t n = v.size();
  auto fill = [&](T* p) { for (size_t i = 0; i < n; i++) new (p + i) T((int)v[i]); };
  auto drop = [&](T* p) { for (size_t i = 0; i < n; i++) { sink += (size_t)key(p[i]); p[i].~T(); } };
  switch (op) {
    case 0: OP(raw<T> a(n), b(n); fill(a.p); auto e = parlay::uninitialized_relocate(a.p, a.p + n, b.p); if (e != b.p + n) fn::call("life", {-1, 0, 0}); drop(b.p))
    case 1: OP(raw<T> a(n), b(n); fill(a.p); auto e = parlay::uninitialized_relocate_n(a.p, n, b.p); if (e.second != b.p + n || e.first != a.p + n) fn::call("life", {-1, 0, 0}); drop(b.p))
    case 2: OP(raw<T> b(n); std::list<T>* l = new std::list<T>; for (auto x : v) l->push_back(T((int)x)); raw<T> c(n); size_t i = 0; for (auto& x : *l) { parlay::relocate_at(&x, c.p + i); new (&x) T(5); i++; } delete l; parlay::uninitialized_relocate(c.p, c.p + n, b.p); drop(b.p))
    case 3: OP(raw<T> a(n); std::deque<int> keys(v.begin(), v.end()); fill(a.p); raw<T> b(n); size_t h = n ? r(n) : 0; parlay::uninitialized_relocate_n(a.p + h, n - h, b.p + h); parlay::uninitialized_relocate_n(a.p, h, b.p); drop(b.p))
    case 4: OP(raw<From> a(n); raw<T> b(n); for (size_t i = 0; i < n; i++) new (a.p + i) From((int)v[i]); parlay::uninitialized_relocate(a.p, a.p + n, b.p); drop(b.p))
    case 5: OP(raw<T> a(n), b(n); fill(a.p); for (size_t i = 0; i < n; i++) parlay::relocate_at(a.p + i, b.p + i); for (size_t i = 0; i < n; i++) { T t = parlay::relocate(b.p + i); sink += (size_t)key(t); })
    case 6: OP(raw<T> a(n), b(n); fill(a.p); parlay::parallel_for(0, n, [&](size_t i) { parlay::assign_dispatch(b.p[i], a.p[i], parlay::uninitialized_move_tag{}); }); T* p = a.p; for (size_t i = 0; i < n; i++) p[i].~T(); drop(b.p))
    case 7: if constexpr (copyable<T>) OP(raw<T> a(n), b(n); fill(a.p); parlay::parallel_for(0, n, [&](size_t i) { if (i % 2) parlay::assign_dispatch(b.p[i], a.p[i], parlay::uninitialized_copy_tag{}); else parlay::assign_uninitialized(b.p[i], static_cast<const T&>(a.p[i])); }); parlay::parallel_for(0, n, [&](size_t i) { if (i % 3) parlay::assign_dispatch(b.p[i], a.p[i], parlay::copy_assign_tag{}); else parlay::assign_dispatch(b.p[i], a.p[i], parlay::move_assign_tag{}); }); T* p = a.p; for (size_t i = 0; i < n; i++) p[i].~T(); drop(b.p))
      else OP(raw<T> a(n), b(n); fill(a.p); parlay::parallel_for(0, n, [&](size_t i) { parlay::assign_dispatch(b.p[i], a.p[i], parlay::uninitialized_relocate_tag{}); }); drop(b.p))
    case 8: OP(auto s = mkseq(); parlay::internal::uninitialized_sequence<T> u(n); parlay::uninitialized_relocate(s.begin(), s.end(), u.begin()); clear_relocated(s); auto t = sequence<T>::uninitialized(n); parlay::uninitialized_relocate(u.begin(), u.end(), t.begin()); sink += sum(t))
    default: if constexpr (copyable<T>) OP(sequence<sequence<T>> s; for (size_t i = 0; i < n && i < 300; i++) { sequence<T> z; z.push_back(T((int)v[i])); s.push_back(std::move(z)); } parlay::sort_inplace(s, [](const sequence<T>& a, const sequence<T>& b) { return a[0] < b[0]; }); s.insert(s.begin(), sequence<T>()); s.erase(s.begin()); if (s.size() > 1) { s.resize(s.size() - 1); s.pop_back(); } sink += s.size())
  }
}
#endif
void fn_case(long idx, fn::rng& r) {
  size_t n = idx % 4 == 0 ? r(12) : r.chance(1, 5) ? fn::near_len(r, {MAXN / 4}, MAXN) : r(MAXN / 12);
  if (sizeof(T0) < 100 && idx % 12 == 7) n = OPS == 0 ? 16384 + r(3000) : OPS == 2 ? 9990 + r(3000) : r(20000);
  v = fn::keys(r, n, RG[1 + r(6)], (int)r(fn::SHAPES));
  run<T0>((int)((idx + idx / 48) % NOPS), r);
}
