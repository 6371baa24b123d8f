// Searches under controlled schedules: long ranges of zeroes with a few ones and twos.
// Events (tid, kind, a, b, c): 1 PUT position value (second range: position + 100000)
//   4 FILL from to value (before any PUT)   2 CALL op n m(length of the second range)   3 RET result second
#include "../rt/vp.h"
#include <parlay/primitives.h>
using vp::Rng;
static void scenario(uint64_t, Rng& r) {
  static const int ths[] = {1000, 3000, 7000, 2048, 4096};
  int n = r.chance(10) ? r.below(1002) : ths[r.chance(70) ? 1 : r.below(5)] - 2 + r.below(r.chance(50) ? 5 : 700);
  parlay::sequence<int> v((size_t)n, 0), w;
  int op = r.chance(40) ? r.below(3) : r.below(12), k = r.below(5), lo = r.chance(60) ? std::min(n, 1000) : 0;
  auto put = [&](parlay::sequence<int>& s, int base, int at, int x) { if (at < 0 || at >= (int)s.size()) return; s[(size_t)at] = x; vp::log(1, base + at, x); };
  int win = r.chance(50) ? 1 + r.below(60) : n, from = lo + r.below(std::max(1, n - lo));
  std::vector<std::pair<int, int>> at;
  if (n > 1500 && r.chance(60)) win = n - (from = lo);
  if (op != 4 && (op < 6 || op > 8) && n > 1500 && r.chance(50)) { // everything matches from some point on
    int f = lo + r.below(r.chance(50) ? 1000 : n - lo), t = r.chance(70) ? n : f + r.below(n - f), x = 1 + r.below(2);
    for (int i = f; i < t; i++) v[(size_t)i] = x;
    vp::log(4, f, t, x);
  }
  for (int i = 0; i < k; i++) at.push_back({from + r.below(win), 1 + r.below(2)});
  std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end(), [](auto& a, auto& b) { return a.first == b.first; }), at.end());
  for (auto& a : at) if (v[(size_t)std::min(a.first, n - 1)] == 0) put(v, 0, a.first, a.second);
  int m = 0;
  if (op == 6 || op == 7 || op == 8) { // a second range: a copy of v, changed a little
    m = r.chance(60) ? n : std::max(0, n - r.below(3)); w = parlay::sequence<int>((size_t)m, 0);
    for (int i = 0; i < m; i++) w[(size_t)i] = v[(size_t)i];
    std::vector<int> ch; for (int i = r.below(3); i > 0; i--) ch.push_back(from + r.below(win));
    for (int c : ch) if (c < m) w[(size_t)c] = r.below(3);
    for (int i = 0; i < m; i++) if (w[(size_t)i]) vp::log(1, 100000 + i, w[(size_t)i]);
  } else if (op == 9 || op == 10) { static const int pats[][3] = {{1, 0, 9}, {0, 1, 9}, {1, 9, 9}, {2, 1, 9}, {0, 0, 1}, {1, 0, 0}}; auto& p = pats[r.below(6)]; for (int i = 0; i < 3 && p[i] != 9; i++) w.push_back(p[i]); m = (int)w.size(); for (int i = 0; i < m; i++) if (w[(size_t)i]) vp::log(1, 100000 + i, w[(size_t)i]); }
  vp::param(n); vp::param(m);
  unsigned p = r.chance(10) ? 1 : (unsigned)r.range(2, 4);
  vp::log(2, op, n, m);
  int a = 0, b = 0;
  auto pos = [&](auto it) { return (int)(it - v.begin()); };
  auto one = [](int x) { return x == 1; };
  auto eq = [](int x, int y) { return x == y; };
  parlay::execute_with_scheduler(p, [&] {
    switch (op) {
      case 0: a = pos(parlay::find_if(v, one)); break;
      case 1: a = pos(parlay::find(v, 2)); break;
      case 2: a = pos(parlay::find_if_not(v, [](int x) { return x == 0; })); break;
      case 3: a = parlay::any_of(v, one); b = parlay::all_of(v, [](int x) { return x != 1; }) ? 1 : 0; break;
      case 4: a = (int)parlay::count_if(v, one); b = (int)parlay::count(v, 2); break;
      case 5: a = pos(parlay::adjacent_find(v, [](int x, int y) { return x != y; })); b = pos(parlay::adjacent_find(v, [](int x, int y) { return x == 1 && y == 1; })); break;
      case 6: { auto q = parlay::mismatch(v, w, eq); a = pos(q.first); b = (int)(q.second - w.begin()); break; }
      case 7: a = parlay::equal(v, w); b = parlay::lexicographical_compare(v, w); break;
      case 8: a = parlay::lexicographical_compare(w, v); break;
      case 9: a = pos(parlay::search(v, w)); break;
      case 10: a = pos(parlay::find_end(v, w)); break;
      default: { auto q = parlay::minmax_element(v); a = pos(q.first); b = pos(q.second); }
    }
  });
  vp::log(3, a, b);
}
// marks histories to be validated first (no verdict)
static bool suspect(const vp_event* ev, int n) {
  int f = 0, t = 0, x = 0, best = -1, op = -1, len = 0, ret = -1; bool hit = false;
  for (int i = 0; i < n; i++) if (ev[i].v[1] == 2) { op = ev[i].v[2]; len = ev[i].v[3]; }
  if (op < 0 || op > 2) return false;
  auto m = [&](int y) { return op == 0 ? y == 1 : op == 1 ? y == 2 : y != 0; };
  auto see = [&](int j) { if (!hit || j < best) { best = j; hit = true; } };
  for (int i = 0; i < n; i++) {
    const int* v = ev[i].v;
    if (v[1] == 4) { f = v[2]; t = v[3]; x = v[4]; if (f < t && m(x)) see(f); }
    if (v[1] == 1 && v[2] < 100000 && m(v[3])) see(v[2]);
    if (v[1] == 3) ret = v[2];
  }
  return ret != (hit ? best : len);
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_PLAINYIELD; c.maxsteps = 3000000; c.width = 5; c.suspect = suspect;
  return vp::drive(argc, argv, c);
}
