// Text: tokens, pieces, formatting, parsing, files.  PART 0 splitting, 1 numbers, 2 files
#include "fncommon.h"
#include <array>
#include <cmath>
#include <sstream>
#include <parlay/io.h>
#include <sys/stat.h>
#ifndef PART
#define PART 0
#endif
using parlay::chars; using parlay::sequence;
static chars text(const V& v) { chars s; for (auto c : v) s.push_back((char)(unsigned char)c); return s; }
template <class S> V codes(const S& s) { V v; for (auto it = std::begin(s); it != std::end(s); ++it) v.push_back((ll)(unsigned char)*it); return v; }
using wide = __int128;
static V limbs(wide x) { V r; bool neg = x < 0; if (neg) x = -x; do { r.push_back((ll)(x % 10000)); x /= 10000; } while (x); r.push_back(neg); std::reverse(r.begin(), r.end()); return r; }

#if PART == 0
static V make_text(fn::rng& r, size_t n, const V& sep) {
  V v(n); int dens = (int)r(5); bool all = r.chance(1, 12);
  for (size_t i = 0; i < n; i++) {
    bool s = all ? dens % 2 : dens == 0 ? r.chance(1, 2) : dens == 1 ? r.chance(1, 20) : dens == 2 ? r.chance(19, 20) : dens == 3 ? r.chance(1, 500) : (i / (1 + n / 5)) % 2;
    v[i] = s && sep.size() ? sep[r(sep.size())] : 'a' + (ll)r(26);
    if (r.chance(1, 50)) v[i] = (ll)r(256);
  }
  return v;
}
void fn_case(long idx, fn::rng& r) {
  V v, sep;
  int kind = (int)r(4);
  if (kind == 0) sep = {9, 10, 11, 12, 13, 32}; else if (kind == 1) sep = {','}; else if (kind == 2) sep = {0, 200, 255}; else if (r.chance(1, 2)) sep = {'x', 'y'};
  if (idx < 128 && idx >= 0) { sep = {32}; kind = 1; fn::nth_seq(idx, 2, 6, v); for (auto& x : v) x = x ? 'b' : 32; }
  else { size_t n = idx % 6 == 0 ? fn::near_len(r, {2000, 4096}, 7000) : r(60); v = make_text(r, n, sep); }
  std::vector<char> in(256, 0); for (auto c : sep) in[c] = 1;
  auto pred = [&](char c) { return in[(unsigned char)c] != 0; };
  chars s = text(v);
  auto out = [&](const sequence<chars>& t) { V l, f; for (auto& x : t) { l.push_back((ll)x.size()); for (char c : x) f.push_back((ll)(unsigned char)c); } fn::emit({l, f}); };
  auto tk = [&](auto&& range) { return kind == 0 && r(2) ? parlay::tokens(range) : parlay::tokens(range, pred); };
  switch (r(3)) {
    case 0: { fn::call("tokens", {(ll)v.size(), 0}, {v, sep}); out(tk(s)); break; }
    case 1: { fn::call("tokens", {(ll)v.size(), 0}, {v, sep}); auto d = parlay::delayed_tabulate(s.size(), [&](size_t i) { return s[i]; }); out(tk(d)); break; }
    default: { fn::call("tokens", {(ll)v.size(), 0}, {v, sep}); out(tk(parlay::make_slice(s))); }
  }
  { fn::call("tokens", {(ll)v.size(), 1}, {v, sep}); auto l = parlay::map_tokens(s, [](auto x) { return (ll)x.size(); }, pred); fn::emit({ints(l)}); }
  { fn::call("tokens", {(ll)v.size(), 0}, {v, sep}); auto l = parlay::map_tokens(s, [](auto x) { return chars(x.begin(), x.end()); }, pred); out(l); }
  { // without a result: each token notes itself at its place
    fn::call("tokens", {(ll)v.size(), 1}, {v, sep}); V at(v.size(), 0);
    parlay::map_tokens(s, [&](auto x) { __atomic_add_fetch(&at[(size_t)(x.begin() - s.begin())], (ll)x.size(), __ATOMIC_RELAXED); }, pred);
    V l; for (auto x : at) if (x) l.push_back(x); fn::emit({l});
  }
  V fl(v.size()); int d = (int)r(4); for (auto& f : fl) f = d == 0 ? 0 : d == 1 ? 1 : r.chance(1, d == 2 ? 3 : 60);
  if (v.size() && r.chance(1, 3)) fl.back() = 1;
  sequence<bool> fb(v.size()); for (size_t i = 0; i < v.size(); i++) fb[i] = fl[i];
  { fn::call("pieces", {(ll)v.size(), 0}, {v, fl}); out(parlay::split_at(s, fb)); }
  { fn::call("pieces", {(ll)v.size(), 1}, {v, fl}); auto l = parlay::map_split_at(s, fb, [](auto x) { return (ll)x.size(); }); fn::emit({ints(l)}); }
  { sequence<int> z; for (auto c : v) z.push_back((int)c); fn::call("pieces", {(ll)v.size(), 0}, {v, fl}); auto t = parlay::split_at(z, parlay::delayed_tabulate(fl.size(), [&](size_t i) -> bool { return fl[i]; }));
    V l, f; for (auto& x : t) { l.push_back((ll)x.size()); for (int c : x) f.push_back(c); } fn::emit({l, f}); }
}
#elif PART == 1
template <class I> I pickint(fn::rng& r) {
  using L = std::numeric_limits<I>;
  switch (r(6)) {
    case 0: return (I)(L::min() + (I)r(3));
    case 1: return (I)(L::max() - (I)r(3));
    case 2: return (I)((I)r(25) - (std::is_signed_v<I> ? (I)12 : (I)0));
    case 3: { I p = 1; for (int k = (int)r(L::digits10); k > 0; k--) p = (I)(p * 10); return (I)(p - (I)r(2)); }
    case 4: { I x = (I)r.next(); return (I)(x >> r(L::digits)); }
    default: return (I)r.next();
  }
}
template <class I, class P> void one(fn::rng& r, P parse) {
  I x = pickint<I>(r); V z = limbs((wide)x);
  fn::call("format", {(ll)sizeof(I)}, {z}); chars t = parlay::to_chars(x); fn::emit({codes(t)});
  V c = codes(t);
  if (r.chance(1, 4) && c[0] != '-') c.insert(c.begin(), '+');
  if (r.chance(1, 4)) c.insert(c.begin() + (c[0] == '-' || c[0] == '+'), r(3), (ll)'0');
  fn::call("parse", {(ll)sizeof(I)}, {c}); I y = parse(text(c)); fn::emit({limbs((wide)y)});
}
// floating point: m * 2^k with a full significand
struct parts { V m; ll neg, cls, k; };
template <class F> parts split(F x) {
  parts p; p.neg = std::signbit(x); p.cls = std::isnan(x) ? 2 : std::isinf(x) ? 1 : 0; p.k = 0; p.m = limbs(0);
  if (p.cls || x == 0) return p;
  int e; F f = std::frexp(std::fabs(x), &e); constexpr int b = std::numeric_limits<F>::digits;
  p.m = limbs((wide)std::ldexp(f, b)); p.k = e - b; return p;
}
template <class F> V literal(fn::rng& r) {
  constexpr int fast = std::is_same_v<F, float> ? 10 : 18, exact = std::is_same_v<F, float> ? 7 : 15;
  int nd = r.chance(1, 2) ? exact - (int)r(std::is_same_v<F, float> ? 5 : 3) : r.chance(1, 12) ? 19 + (int)r(20) : 1 + (int)r(fast + 1), style = (int)r(4);
  std::string d; for (int i = 0; i < nd; i++) d += (char)('0' + r(10));
  if (r.chance(1, 3)) { // near the largest exactly representable whole number
    unsigned long long c = (1ULL << (std::is_same_v<F, float> ? 24 : 53)) - 3 + r(6); d = std::to_string(c); nd = (int)d.size();
  }
  if (r.chance(1, 15)) d = std::string(1 + r(4), '0'), nd = (int)d.size();
  int point = style == 0 ? nd : (int)r(nd + 1);
  std::string t; if (r.chance(1, 10)) t += r(2) ? " " : "\t\n";
  t += r.chance(1, 3) ? "-" : r.chance(1, 6) ? "+" : "";
  t += d.substr(0, point); if (style) t += "." + d.substr(point);
  // the value stays inside the type's normal range
  int lo = std::is_same_v<F, float> ? -33 : -280, hi = std::is_same_v<F, float> ? 35 : 290, e = 0; bool ex = style == 0 ? r.chance(1, 2) : r.chance(1, 2);
  if (ex) {
    int lim = r.chance(1, 8) ? hi : std::is_same_v<F, float> ? 13 : 25;
    e = (int)r(2 * lim + 1) - lim;
    if (r.chance(1, 2)) { int net = (std::is_same_v<F, float> ? 7 : 19) + (int)r(7); e = (r(2) ? net : -net) + (nd - point); }   // about the largest exact power of ten
    e = std::min(std::max(e, lo + nd), hi - nd);
    t += r(2) ? "e" : "E"; t += e < 0 ? "-" : r(2) ? "+" : ""; std::string x = std::to_string(std::abs(e)); if (r.chance(1, 4)) x = "0" + x; t += x;
  }
  V v; for (char c : t) v.push_back((ll)c); return v;
}
template <class F, class P> void floats(fn::rng& r, P parse) {
  constexpr ll b = std::numeric_limits<F>::digits;
  for (int k = 0; k < 6; k++) {
    V t = literal<F>(r); fn::call("float", {b}, {t}); parts p = split<F>(parse(text(t))); fn::emit({p.m, {p.neg, p.cls, p.k}});
  }
  const char* sp[] = {"inf", "-inf", "nan", "infinity", "+inf", "-nan"}; int w = (int)r(6);
  V t; for (const char* c = sp[w]; *c; c++) t.push_back(*c);
  fn::call("special", {b, sp[w][0] == '-', w == 2 || w == 5 ? 2 : 1}, {t}); parts p = split<F>(parse(text(t))); fn::emit({p.m, {p.neg, p.cls, p.k}});
}
template <class F> void fmtfloat(fn::rng& r) {
  F x; switch (r(5)) {
    case 0: x = (F)pickint<int>(r); break;
    case 1: x = std::ldexp((F)(r.next() >> 8), (int)r(120) - 90); break;
    case 2: x = std::ldexp((F)(r.next() >> 8), std::is_same_v<F, float> ? 0 : (int)r(1800) - 950); break;
    case 3: x = (F)r(3000) / (F)(1 + r(64)); break;
    default: x = (F)pickint<long>(r) * (F)0.001; if (r.chance(1, 4)) x = (F)std::pow((F)10, (F)r(30)); break;
  }
  if (r.chance(1, 3)) x = -x; if (r.chance(1, 30)) x = r(2) ? (F)0 : -(F)0;
  parts p = split<F>(x); fn::call("fmtfloat", {p.neg, p.k}, {p.m}); fn::emit({codes(parlay::to_chars(x))});
}
template <class I> void lists(fn::rng& r) {
  size_t n = r.chance(1, 8) ? r(900) : r(6);
  sequence<I> s; V flat, len; for (size_t i = 0; i < n; i++) { s.push_back(pickint<I>(r)); V z = limbs((wide)s[i]); flat.insert(flat.end(), z.begin(), z.end()); len.push_back((ll)z.size()); }
  fn::call("list", {(ll)n}, {flat, len}); chars t = r(2) ? parlay::to_chars(s) : parlay::to_chars(parlay::make_slice(s)); fn::emit({codes(t)});
  if (n >= 3) { std::array<I, 3> a{s[0], s[1], s[2]}; V l3(len.begin(), len.begin() + 3); V f3(flat.begin(), flat.begin() + l3[0] + l3[1] + l3[2]); fn::call("list", {3}, {f3, l3}); fn::emit({codes(parlay::to_chars(a))}); }
  sequence<std::pair<I, I>> p; for (size_t i = 0; i + 1 < n; i += 2) p.push_back({s[i], s[i + 1]});
  V pl(len.begin(), len.begin() + 2 * p.size()); fn::call("pairs", {(ll)p.size()}, {flat, pl}); fn::emit({codes(parlay::to_chars(p))});
  V gl; sequence<sequence<I>> g; size_t i = 0; while (i < n) { size_t k = std::min<size_t>(r(5), n - i); sequence<I> h; for (size_t j = 0; j < k; j++) h.push_back(s[i + j]); i += k; g.push_back(h); gl.push_back((ll)k); }
  fn::call("lists", {(ll)g.size()}, {flat, len, gl}); fn::emit({codes(parlay::to_chars(g))});
}
void fn_case(long idx, fn::rng& r) {
  switch (idx % 6) {
    case 0: one<int>(r, parlay::chars_to_int); break;
    case 1: one<long>(r, parlay::chars_to_long); break;
    case 2: one<long long>(r, parlay::chars_to_long_long); break;
    case 3: one<unsigned>(r, parlay::chars_to_uint); break;
    case 4: one<unsigned long>(r, parlay::chars_to_ulong); break;
    default: one<unsigned long long>(r, parlay::chars_to_ulong_long); break;
  }
  switch (idx % 3) {
    case 0: floats<float>(r, parlay::chars_to_float); fmtfloat<float>(r); break;
    case 1: floats<double>(r, parlay::chars_to_double); fmtfloat<double>(r); break;
    default: floats<long double>(r, parlay::chars_to_long_double); fmtfloat<double>(r); break;
  }
  if (r(2)) lists<int>(r); else lists<unsigned long>(r);
  V v; for (size_t n = r(30); n > 0; n--) v.push_back(1 + (ll)r(255));
  std::string st; for (auto c : v) st += (char)c;
  fn::call("text", {}, {v}); fn::emit({codes(parlay::to_chars(st))});
  fn::call("text", {}, {v}); fn::emit({codes(parlay::to_chars(st.c_str()))});
  fn::call("text", {}, {v}); { chars c = text(v); fn::emit({codes(r(2) ? parlay::to_chars(c) : parlay::to_chars(std::move(c)))}); }
  fn::call("text", {}, {V{(ll)(48 + idx % 2)}}); fn::emit({codes(parlay::to_chars(idx % 2 == 1))});
  fn::call("text", {}, {V{(ll)(idx % 256)}}); fn::emit({codes(parlay::to_chars((char)(idx % 256)))});
  int x = pickint<int>(r); fn::call("pair", {}, {limbs(x), v}); fn::emit({codes(parlay::to_chars(std::make_pair(x, st)))});
  sequence<std::string> ss; V l; V f; for (size_t k = r(4); k > 0; k--) { ss.push_back(st); l.push_back((ll)st.size()); for (auto c : v) f.push_back(c); }
  fn::call("texts", {}, {f, l}); fn::emit({codes(parlay::to_chars(ss))});
}
#else
void fn_case(long idx, fn::rng& r) {
  char dir[] = "/tmp/vp_c23_XXXXXX"; if (!mkdtemp(dir)) _exit(96);
  std::string name = std::string(dir) + "/data";
  size_t n = idx % 5 == 0 ? 0 : idx % 5 == 1 ? 1 + r(20) : idx % 5 == 2 ? 4094 + r(5) : idx % 5 == 3 ? r(9000) : r(300);
  V v(n); for (auto& c : v) c = r.chance(1, 4) ? (ll)(r(2) ? 10 : 0) : (ll)r(256);
  chars s = text(v);
  fn::call("read", {(ll)n, 0, 0, 0}, {v});
  parlay::chars_to_file(s, name); fn::emit({codes(parlay::chars_from_file(name))});
  for (int k = 0; k < 3; k++) {
    ll a = (ll)r(n + 5), b = k == 0 ? a + (ll)r(n + 3) : (ll)r(n + 8), z = (ll)r(2);
    fn::call("read", {(ll)n, a, b, z}, {v}); fn::emit({codes(parlay::chars_from_file(name, z, a, b))});
  }
  fn::call("mapped", {(ll)n}, {v});
  {
    parlay::file_map m(name); V all = codes(m); ll size = (ll)m.size(), e = m.empty(), fine = 1;
    for (size_t i = 0; i < n; i += 1 + r(50)) fine = fine && (ll)(unsigned char)m[i] == v[i];
    parlay::file_map m2 = std::move(m); fine = fine && m.empty() && codes(m2) == v;
    { parlay::file_map m3(name); m3 = std::move(m2); fine = fine && m2.empty() && codes(m3) == v; m3.swap(m2); fine = fine && m3.empty() && codes(m2) == v; std::swap(m2, m3); fine = fine && codes(m3) == v; m2 = std::move(m3); }
    fine = fine && codes(m2) == v && parlay::to_chars(parlay::to_sequence(m2)).size() == n;
    fn::emit({all, {size, e, fine}});
  }
  fn::call("text", {1}, {v}); { std::ostringstream os; os << s; parlay::chars_to_stream(s, os); auto t = os.str(); fn::emit({codes(t.substr(0, t.size() / 2))}); }
  unlink(name.c_str()); rmdir(dir);
}
#endif
