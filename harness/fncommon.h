// helpers shared by the functional harnesses
#pragma once
#include <algorithm>
#include <numeric>
#include <optional>
#include <string>
#include "../rt/fn.h"
#include "../rt/types.h"
#include <parlay/primitives.h>
#include <parlay/sequence.h>
using fn::V; using fn::ll;

template <class T> parlay::sequence<T> mk(const V& v, int base = 0) {
  parlay::sequence<T> s;
  s.reserve(v.size());
  for (size_t i = 0; i < v.size(); i++) s.push_back(ty::make<T>((int)v[i], (int)i + base));
  return s;
}
template <class S> void unpack(const S& s, V& k, V& x) {
  k.clear(); x.clear();
  for (size_t i = 0; i < s.size(); i++) { k.push_back(ty::key(s[i])); x.push_back(ty::idx(s[i])); }
}
template <class S> V ints(const S& s) { V v; for (size_t i = 0; i < s.size(); i++) v.push_back((ll)s[i]); return v; }
// 1 when s still is the input
template <class S> ll untouched(const S& s, const V& v, int base = 0) {
  if (s.size() != v.size()) return 0;
  for (size_t i = 0; i < s.size(); i++) if (ty::key(s[i]) != (int)v[i] || ty::idx(s[i]) != (int)i + base) return 0;
  return 1;
}
template <class T> struct cmp_t { int c; bool operator()(const T& a, const T& b) const { return ty::rank_of(c, ty::key(a)) < ty::rank_of(c, ty::key(b)); } };
static const ll RG[] = {1, 2, 3, 10, 100, 1000, 1000000, 2000000000};
