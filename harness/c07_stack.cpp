// Concurrent histories of the library's stack.
// Events (tid, kind, a): even kinds calls, odd kinds returns.
//   2 PUSH v / 3   4 POP / 5 v (0: empty)   6 EMPTY / 7 b   8 SIZE / 9 n   10 CLEAR / 11   12 OVER (after the threads are joined)
#include "../rt/vp.h"
#include <parlay/internal/concurrency/hazptr_stack.h>
#include <thread>
#include <memory>
#include <optional>
using vp::Rng;
struct Boxed { std::unique_ptr<int> p; Boxed(int v) : p(new int(v)) {} Boxed(Boxed&&) = default; Boxed& operator=(Boxed&&) = default; int get() const { return p ? *p : -7; } };
struct Plain { int v; Plain(int x) : v(x) {} int get() const { return v; } };
template <class V> static void go(Rng& r) {
  using St = parlay::internal::hazptr_stack<V>;
  St* s = new St();
  int nt = r.range(1, 3), nxt = 1;
  bool heavy = r.chance(60);
  auto ops = [&](Rng q, int base, int n, bool churn) {
    for (int i = 0; i < n; i++) {
      int k = q.below(100);
      if (k < 42) { int v = base + i; vp::log(2, v); s->push(V(v)); vp::log(3); }
      else if (k < 84) { vp::log(4); std::optional<V> o = s->pop(); vp::log(5, o ? o->get() : 0); }
      else if (k < 90) { vp::log(6); bool b = s->empty(); vp::log(7, b); }
      else if (k < 96) { vp::log(8); size_t z = s->size(); vp::log(9, z < 100000 ? (int)z : 100000); }
      else { vp::log(10); s->clear(); vp::log(11); }
      if (churn && q.chance(40)) { St t; int c = q.range(1, 4); for (int j = 0; j < c; j++) t.push(V(900)); for (int j = 0; j < c; j++) t.pop(); }
    }
  };
  auto warm = [&](int n) { St t; vp_quiet(1); for (int i = 0; i < n; i++) { t.push(V(900)); t.pop(); } vp_quiet(0); };
  ops(Rng(r.next()), nxt, r.below(4), false); nxt += 10;
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; i++) { uint64_t sd = r.next(); int n = r.range(1, nt == 1 ? 6 : 4), w = heavy ? r.range(24, 30) : r.below(3); int b = nxt; nxt += 10; bool ch = r.chance(50);
    ts.emplace_back([=] { warm(w); ops(Rng(sd), b, n, ch); }); }
  if (r.chance(50)) { warm(heavy ? r.range(22, 30) : 0); ops(Rng(r.next()), nxt, r.range(1, 4), true); }
  for (auto& t : ts) t.join();
  vp::log(12);
  // what is left comes out in order
  if (r.chance(60)) for (;;) { vp::log(4); auto o = s->pop(); vp::log(5, o ? o->get() : 0); if (!o) break; }
  delete s;
}
static void scenario(uint64_t, Rng& r) { vp::param(0); if (r.chance(50)) go<Boxed>(r); else go<Plain>(r); }
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 40000; c.width = 3; c.canon = vp::CANON_CALLRET;
  return vp::drive(argc, argv, c);
}
