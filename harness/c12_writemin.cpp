// Concurrent write_min / write_max / write_add on one location.
// Values are pairs (key, tag); the comparison looks at the key only (order 0: ascending, 1: descending).
// Events (tid, kind, a, b): even kinds calls, odd kinds returns
//   2 MIN v / 3 r     4 MAX v / 5 r     6 ADD v / 7     8 LOAD / 9 v    10 SET v (before the threads start)
// params: order, 1 if values are plain numbers (0: key * 10 + tag)
#include "../rt/vp.h"
#include <parlay/utilities.h>
#include <thread>
using vp::Rng;
static int order, plain_;
static int key(int v) { return plain_ ? v : v / 10; }
struct KT { short k, t; };
template <class T> struct Conv { static T to(int v) { return (T)v; } static int from(T v) { return (int)v; } };
template <> struct Conv<KT> { static KT to(int v) { return KT{(short)(v / 10), (short)(v % 10)}; } static int from(KT v) { return v.k * 10 + v.t; } };
template <class T> static void add(std::atomic<T>* a, int v) { parlay::write_add(a, Conv<T>::to(v)); }
template <> void add<KT>(std::atomic<KT>*, int) {}
template <class T> static void go(Rng& r, int prof) {
  auto* a = new std::atomic<T>;
  auto less = [](const T& x, const T& y) { int p = key(Conv<T>::from(x)), q = key(Conv<T>::from(y)); return order ? q < p : p < q; };
  int init = r.range(0, 60); vp::log(10, init); a->store(Conv<T>::to(init));
  auto body = [=](Rng q, int n) {
    for (int i = 0; i < n; i++) {
      int v = q.range(0, 60), k = prof == 0 ? 0 : prof == 1 ? 1 : prof == 2 ? 2 : q.below(4);
      if (prof == 3 && k == 2) k = q.below(2);
      if (q.chance(10)) k = 3;
      switch (k) {
        case 0: { vp::log(2, v); bool b = parlay::write_min(a, Conv<T>::to(v), less); vp::log(3, b); break; }
        case 1: { vp::log(4, v); bool b = parlay::write_max(a, Conv<T>::to(v), less); vp::log(5, b); break; }
        case 2: { v = q.range(0, 9); vp::log(6, v); add(a, v); vp::log(7); break; }
        default: { vp::log(8); int w = Conv<T>::from(a->load()); vp::log(9, w); }
      }
    } };
  std::vector<std::thread> ts; int nt = r.range(1, 3);
  for (int i = 0; i < nt; i++) { uint64_t s = r.next(); int n = r.range(1, 4); ts.emplace_back([=] { body(Rng(s), n); }); }
  body(Rng(r.next()), r.range(1, 4));
  for (auto& t : ts) t.join();
  vp::log(8); vp::log(9, Conv<T>::from(a->load()));
  delete a;
}
static void scenario(uint64_t, Rng& r) {
  order = r.below(2); plain_ = 0;
  int ty = r.below(5), prof = r.below(4);
  if (ty == 0 && prof == 2) ty = 1;
  if (prof == 2) plain_ = 1;
  vp::param(order); vp::param(plain_);
  switch (ty) { case 0: go<KT>(r, prof); break; case 1: go<int>(r, prof); break; case 2: go<long>(r, prof); break; case 3: go<unsigned char>(r, prof); break; default: go<double>(r, prof); }
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 20000; c.width = 3; c.canon = vp::CANON_CALLRET;
  return vp::drive(argc, argv, c);
}
