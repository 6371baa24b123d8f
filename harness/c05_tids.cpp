// Thread ids.  One execution per process, so that ids start from zero.
// Events (tid, kind, a, b):  1 CALL   2 GOT id   3 NUM n   4 END   5 JOIN t (thread t, by its runtime number)
//   6 WHO t (runtime number of the thread itself)  7 OVER  8 NUMCALL
#include "../rt/vp.h"
#include <parlay/thread_specific.h>
#include <thread>
#include <atomic>
#include <memory>
using vp::Rng;
enum { CALL = 1, GOT, NUM, END, JOIN, WHO, OVER, NUMCALL };
static void ops(Rng r, int n) {
  for (int i = 0; i < n; i++) {
    if (r.chance(65)) { vp::log(CALL); int id = (int)parlay::my_thread_id(); vp::log(GOT, id); }
    else { vp::log(NUMCALL); int k = (int)parlay::num_thread_ids(); vp::log(NUM, k); }
  }
}
static void scenario(uint64_t, Rng& r) {
  vp::param(0);
  if (r.chance(60)) ops(Rng(r.next()), 1);
  struct Th { std::thread t; std::unique_ptr<std::atomic<int>> who; };
  std::vector<Th> live;
  int total = r.range(2, 9);
  auto join1 = [&](size_t k) { live[k].t.join(); vp::log(JOIN, live[k].who->load()); live.erase(live.begin() + (long)k); };
  for (int i = 0; i < total; i++) {
    uint64_t s = r.next(); int n = r.range(1, 3); bool nest = r.chance(15);
    auto who = std::make_unique<std::atomic<int>>(-1); auto* wp = who.get();
    std::thread t([=] {
      wp->store(vp_tid());
      ops(Rng(s), n);
      if (nest) { std::atomic<int> w2(-1); std::thread u([&] { w2.store(vp_tid()); ops(Rng(s + 1), 1); vp::log(END); }); if (s & 2) ops(Rng(s + 2), 1); u.join(); vp::log(JOIN, w2.load()); }
      if (n == 3) ops(Rng(s + 5), 1);
      vp::log(END);
    });
    live.push_back({std::move(t), std::move(who)});
    while (!live.empty() && r.chance(live.size() >= 4 ? 90 : 35)) join1((size_t)r.below((int)live.size()));
    if (r.chance(20)) ops(Rng(r.next()), 1);
  }
  while (!live.empty()) join1((size_t)r.below((int)live.size()));
  ops(Rng(r.next()), 2);
  vp::log(OVER);
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 20000; c.width = 3; c.batch = 1;
  return vp::drive(argc, argv, c);
}
