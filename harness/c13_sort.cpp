#include "fncommon.h"
// PART 0: trivial elements, 1: heap-owning elements, 2: large elements and words
#ifndef PART
#define PART 0
#endif
#ifndef BIGMAX
#define BIGMAX 45000
#endif

// p = [stable, copying, order, element type]
template <class T, class F> void copying(const char* name, int stable, int c, const V& v, F f) {
  auto s = mk<T>(v);
  fn::call(name, {stable, 1, c}, {v});
  ty::bad_reads = 0;
  V k, x;
  { auto r = f(s); int bad = ty::bad_reads; unpack(r, k, x); ty::bad_reads = bad; }
  int bad = ty::bad_reads;
  ll u = untouched(s, v);
  fn::emit({k, x, {u, bad}});
}
template <class T, class F> void inplace(const char* name, int stable, int c, const V& v, F f) {
  auto s = mk<T>(v);
  fn::call(name, {stable, 0, c}, {v});
  ty::bad_reads = 0;
  f(s);
  int bad = ty::bad_reads;
  V k, x; unpack(s, k, x);
  fn::emit({k, x, {1, bad}});
}

template <class T, bool Copy> void all(const V& v, int c, fn::rng& r, bool each) {
  cmp_t<T> cmp{c};
  constexpr bool word = std::is_same<T, uint64_t>::value;
  int only = each ? -1 : (int)r(Copy ? 9 : 4);
  auto want = [&](int q) { return only < 0 || only == q; };
  if (want(0)) inplace<T>("sort_inplace", word, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::sort_inplace(s); else parlay::sort_inplace(s, cmp); });
  if (want(1)) inplace<T>("stable_sort_inplace", 1, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::stable_sort_inplace(s); else parlay::stable_sort_inplace(s, cmp); });
  if (want(2)) inplace<T>("quicksort", word, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::internal::quicksort(parlay::make_slice(s), std::less<T>{}); else parlay::internal::quicksort(parlay::make_slice(s), cmp); });
  if (want(3)) inplace<T>("merge_sort_inplace", 1, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::internal::merge_sort_inplace(parlay::make_slice(s), std::less<T>{}); else parlay::internal::merge_sort_inplace(parlay::make_slice(s), cmp); });
  if constexpr (Copy) {
    if (want(4)) copying<T>("sort", word, word ? 4 : c, v, [&](auto& s) { if constexpr (word) return parlay::sort(s); else return parlay::sort(s, cmp); });
    if (want(5)) copying<T>("stable_sort", 1, word ? 4 : c, v, [&](auto& s) { if constexpr (word) return parlay::stable_sort(s); else return parlay::stable_sort(s, cmp); });
    if (want(6)) inplace<T>("bucket_sort", word, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::internal::bucket_sort(parlay::make_slice(s), std::less<T>{}); else parlay::internal::bucket_sort(parlay::make_slice(s), cmp); });
    if (want(7)) inplace<T>("bucket_sort_stable", 1, word ? 4 : c, v, [&](auto& s) { if constexpr (word) parlay::internal::bucket_sort(parlay::make_slice(s), std::less<T>{}, true); else parlay::internal::bucket_sort(parlay::make_slice(s), cmp, true); });
    if (want(8)) copying<T>("merge_sort", 1, word ? 4 : c, v, [&](auto& s) { if constexpr (word) return parlay::internal::merge_sort(parlay::make_slice(s), std::less<T>{}); else return parlay::internal::merge_sort(parlay::make_slice(s), cmp); });
  }
}

void fn_case(long idx, fn::rng& r) {
  V v;
  long ex = fn::num_seqs(3, 6);
  bool each = true;
  int c = (int)r(4);
  if (idx < ex) { fn::nth_seq(idx, 3, 6, v); c = (int)(idx % 2); }
  else {
    long j = idx - ex;
    size_t n;
    if (j % 4 != 3) n = fn::near_len(r, {8, 16, 24, 32, 48, 64, 100, 256, 300, 512, 1000}, 1200);
    else if (j % 16 != 15) n = fn::near_len(r, {256, 512, 1024, 2000, 2048, 4096}, 9000);
    else n = fn::near_len(r, {16384, 8192, 20000, (size_t)BIGMAX / 2}, BIGMAX);
    each = n < 2500;
    if (!each && n < 16384 && r.chance(1, 2)) n += 0;
    v = fn::keys(r, n, RG[r(8)], (int)r(fn::SHAPES));
  }
#if PART == 0
  all<ty::E, true>(v, c, r, each);
#elif PART == 1
  if (idx % 2) all<ty::H, true>(v, c, r, each); else all<ty::M, false>(v, c, r, each);
#else
  if (idx % 2) all<ty::B, true>(v, c, r, each); else all<uint64_t, true>(v, c, r, each);
#endif
}
