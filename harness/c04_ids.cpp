// Worker ids and scheduler scopes: nested and concurrent private schedulers, worker-specific storage.
// Events (tid, kind, a, b, c, d, e):
//   1 ENTER s p        execute_with_scheduler(p, ..) is about to be called, opening scope s
//   2 IN s wid nw      the function given to it starts
//   3 TASK s wid nw    some task of scope s runs
//   4 LEAVE s          the function given to execute_with_scheduler ends
//   5 EXIT s wid nw    execute_with_scheduler returned (wid = nw = -1: no enclosing scope)
//   6 WSNEW w s        worker-specific object w made in scope s
//   7 WSGET w wid i a v    get() gave the element built for worker i at address a holding v
//   8 WSPUT w wid v    v was stored there
//   9 WSVIS w pos i a v    iteration: the pos-th element visited was built for worker i ...
//  10 WSEND w n        iteration over, n elements; end()-begin() = n
//  11 LIVE n           threads alive once everything has returned
//  12 OVER s           the thread whose default scheduler was scope s has ended
#include "../rt/vp.h"
#include <parlay/parallel.h>
#include <parlay/worker_specific.h>
#include <atomic>
#include <cstdlib>
#include <memory>
#include <thread>
using vp::Rng;
enum { ENTER = 1, IN, TASK, LEAVE, EXIT, WSNEW, WSGET, WSPUT, WSVIS, WSEND, LIVE, OVER };
struct El { int who; std::atomic<int> v; explicit El(int w) : who(w), v(0) {} El(const El&) = delete; };
using WS = parlay::WorkerSpecific<El>;
static std::atomic<int> nscope, nws;
static int maxscope;

static void task(int s, WS* ws, int w, uint64_t rnd, int depth, int inpar);
static void scope(int p, uint64_t rnd, int depth, bool inner) {
  int s = nscope.fetch_add(1); if (s >= maxscope) { nscope.fetch_sub(1); return; }
  vp::log(ENTER, s, p);
  parlay::execute_with_scheduler((unsigned)p, [&] {
    vp::log(IN, s, (int)parlay::worker_id(), (int)parlay::num_workers());
    Rng r(rnd);
    if (r.chance(60)) {
      int w = nws.fetch_add(1);
      WS ws([](std::size_t i) { return El((int)i); });
      vp::log(WSNEW, w, s);
      task(s, &ws, w, r.next(), depth, 0);
      auto vis = [&](int k, El& e) { vp::log(WSVIS, w, k, e.who, vp_addr(&e), e.v.load()); };
      int n = 0;
      switch (r.below(4)) {
        case 0: for (auto& e : ws) vis(n++, e); break;
        case 1: ws.for_each([&](El& e) { vis(n++, e); }); break;
        case 2: { auto b = ws.begin(); n = (int)(ws.end() - b); for (int k = 0; k < n; k++) vis(k, b[(size_t)k]); break; }
        default: { int k = (int)(ws.end() - ws.begin()); n = k; for (auto it = ws.end(); it != ws.begin();) { --it; vis(--k, *it); } }
      }
      vp::log(WSEND, w, n);
    } else task(s, nullptr, -1, r.next(), depth, 0);
    vp::log(LEAVE, s);
  });
  if (inner) vp::log(EXIT, s, (int)parlay::worker_id(), (int)parlay::num_workers()); else vp::log(EXIT, s, -1, -1);
}
static void task(int s, WS* ws, int w, uint64_t rnd, int depth, int lev) {
  Rng r(rnd);
  vp::log(TASK, s, (int)parlay::worker_id(), (int)parlay::num_workers());
  if (ws && r.chance(70)) {
    El& e = r.chance(50) ? ws->get() : **ws;
    vp::log(WSGET, w, (int)parlay::worker_id(), e.who, vp_addr(&e), e.v.load());
    int v = r.range(1, 9); e.v.store(v);
    vp::log(WSPUT, w, (int)parlay::worker_id(), v);
  }
  if (lev < 3 && r.chance(lev == 0 ? 95 : 45)) {
    uint64_t a = r.next(), b = r.next(), c = r.next(); bool cons = r.chance(30);
    if (r.chance(65)) parlay::par_do([&] { task(s, ws, w, a, depth, lev + 1); }, [&] { task(s, ws, w, b, depth, lev + 1); }, cons);
    else parlay::parallel_for(0, 3, [&](size_t i) { task(s, ws, w, i == 0 ? a : i == 1 ? b : c, depth, lev + 1); }, 1, cons);
    vp::log(TASK, s, (int)parlay::worker_id(), (int)parlay::num_workers());
  }
  if (depth < 2 && r.chance(25)) scope(r.range(1, 3), r.next(), depth + 1, true);
}
// a thread that is in no scope uses its own default scheduler, which lives until the thread ends
static void by_default(int p, uint64_t rnd, std::atomic<int>& mine) {
  int s = nscope.fetch_add(1); if (s >= maxscope) { nscope.fetch_sub(1); return; }
  mine.store(s);
  vp::log(ENTER, s, p);
  int wid, nw;
  if (rnd & 1) { wid = (int)parlay::worker_id(); nw = (int)parlay::num_workers(); } else { nw = (int)parlay::num_workers(); wid = (int)parlay::worker_id(); }
  vp::log(IN, s, wid, nw);
  task(s, nullptr, -1, rnd, 1, 1);
  vp::log(TASK, s, (int)parlay::worker_id(), (int)parlay::num_workers());
  vp::log(LEAVE, s);
}
static void foreign(int p, uint64_t rnd, int pd, int mode, std::atomic<int>& mine) {
  if (mode & 1) scope(p, rnd, 1, false);
  if (mode & 2) by_default(pd, rnd * 77 + 5, mine);
  if ((mode & 3) == 0) scope(p, rnd, 1, false);
}
static void scenario(uint64_t, Rng& r) {
  nscope.store(0); nws.store(0); maxscope = 6;
  vp::param(maxscope);
  int nth = r.chance(50) ? 0 : r.range(1, 2);
  uint64_t s0 = r.next(), s1 = r.next(), s2 = r.next(); int p0 = r.range(1, 4), p1 = r.range(1, 3), p2 = r.range(1, 3);
  int pd = r.range(1, 3), m1 = r.range(0, 3), m2 = r.range(0, 3);
  setenv("PARLAY_NUM_THREADS", pd == 1 ? "1" : pd == 2 ? "2" : "3", 1);
  std::atomic<int> mine[2] = {-1, -1};
  { std::vector<std::thread> ts;
    if (nth > 0) ts.emplace_back([&] { foreign(p1, s1, pd, m1, mine[0]); });
    if (nth > 1) ts.emplace_back([&] { foreign(p2, s2, pd, m2, mine[1]); });
    scope(p0, s0, 0, false);
    for (auto& t : ts) t.join(); }
  for (auto& m : mine) if (m.load() >= 0) vp::log(OVER, m.load());
  vp::log(LIVE, vp_live_threads());
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SPURIOUS; c.maxsteps = 400000; c.width = 7;
  return vp::drive(argc, argv, c);
}
