// atomic_wait / atomic_notify_one / atomic_notify_all on the library's implementation.
// Events: 1 SETCALL loc v  2 SETRET  3 NOTIFYCALL loc all  4 NOTIFYRET  5 WAITCALL loc v  6 WAITRET loc v
//         7 READ loc v (value seen after the wait)   8 END (all threads joined)
#include "../rt/vp.h"
#include <parlay/internal/atomic_wait.h>
#include <atomic>
#include <thread>
using vp::Rng;
enum { SETCALL = 1, SETRET, NCALL, NRET, WCALL, WRET, READ, END };
template <class T> struct Cell { std::atomic<T> x; };
// four locations per type; two of them share an entry of the contention table (addresses equal modulo 256)
template <class T> struct Mem { alignas(512) char buf[2048];
  std::atomic<T>& at(int i) { static const int off[] = {0, 256, 64, 520}; return *reinterpret_cast<std::atomic<T>*>(buf + off[i]); } };

template <class T> static void go(Rng& r) {
  auto* m = new Mem<T>; for (int i = 0; i < 4; i++) new (&m->at(i)) std::atomic<T>(0);
  int nl = r.range(1, 3), l0 = r.below(2);
  auto loc = [&](int i) { return (l0 + i) % 4; };
  int nw = r.range(1, 3);
  bool one = r.chance(35);
  int steps[3]; for (int i = 0; i < nl; i++) steps[i] = r.range(1, 3);
  int wl[3]; for (int i = 0; i < nw; i++) wl[i] = r.below(nl);
  bool expl = r.chance(40), dbl = r.chance(30);
  vp::param(nl); for (int i = 0; i < nl; i++) vp::param(steps[i]);
  auto waiter = [&](int i) {
    int l = wl[i]; T v = m->at(loc(l)).load(std::memory_order_relaxed);
    if ((int)v >= steps[l]) return;
    for (;;) {
      // wait for each value in turn, until the last one
      vp::log(WCALL, l, (int)v);
      if (expl) parlay::atomic_wait_explicit(&m->at(loc(l)), v, std::memory_order_acquire);
      else parlay::atomic_wait(&m->at(loc(l)), v);
      vp::log(WRET, l, (int)v);
      T w = m->at(loc(l)).load();
      vp::log(READ, l, (int)w);
      if ((int)w >= steps[l]) break;
      if (w == v) break;      // reported by READ
      v = w;
    }
  };
  auto notifier = [&](int l) {
    int wn = 0; for (int i = 0; i < nw; i++) wn += wl[i] == l;
    for (int k = 1; k <= steps[l]; k++) {
      vp::log(SETCALL, l, k);
      if (r.s & 1) m->at(loc(l)).store((T)k, std::memory_order_release); else m->at(loc(l)).fetch_add((T)1);
      vp::log(SETRET, l, k);
      bool all = !one;
      int times = all ? 1 : (k == steps[l] ? wn : 0);
      if (dbl && all && k < steps[l]) times = 0;     // several changes, one notification at the end
      for (int q = 0; q < times; q++) {
        vp::log(NCALL, l, all);
        if (all) parlay::atomic_notify_all(&m->at(loc(l))); else parlay::atomic_notify_one(&m->at(loc(l)));
        vp::log(NRET, l, all);
      }
    }
  };
  std::vector<std::thread> ts;
  bool first = r.chance(50);
  if (first) for (int i = 0; i < nw; i++) ts.emplace_back(waiter, i);
  for (int i = 0; i < nl; i++) ts.emplace_back(notifier, i);
  if (!first) for (int i = 0; i < nw; i++) ts.emplace_back(waiter, i);
  for (auto& t : ts) t.join();
  vp::log(END);
  delete m;
}
static void scenario(uint64_t, Rng& r) {
  switch (r.below(4)) {
    case 0: go<int32_t>(r); break;
    case 1: go<uint64_t>(r); break;
    case 2: go<int64_t>(r); break;
    default: go<uint32_t>(r);
  }
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SPURIOUS; c.maxsteps = 50000; c.width = 4; c.want_to = 2;
  return vp::drive(argc, argv, c);
}
