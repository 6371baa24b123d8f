// ThreadSpecific objects.  One execution per process (ids start from zero); the machine reports one
// processor, so that the first chunk has four elements.
// Events (tid, kind, a, b, c, d):
//   1 NEW o                2 CTOR o i a   element built for index i (or -1: default) at address a
//   3 DTOR a               element destroyed
//   4 ID i                 the thread's id
//   5 GET o a v c          the thread's element is at address a and holds v; c: value its constructor gave
//   6 PUT o v              the thread stored v there
//   7 VBEG o kind m        a traversal starts; num_thread_ids() was m just before
//   8 VIS o pos a          the pos-th element visited
//   9 VEND o m             traversal over; num_thread_ids() is m now
//  10 GONE o               the object has been destroyed
//  11 END                  thread's code over      12 OVER
//  13 CMP i j bits d         iterators at positions i and j: < 1, <= 2, > 4, >= 8, == 16, != 32; distance from i to j
#include "../rt/vp.h"
#include <parlay/thread_specific.h>
#include <thread>
#include <atomic>
#include <memory>
using vp::Rng;
enum { NEW = 1, CTOR, DTOR, ID, GET, PUT, VBEG, VIS, VEND, GONE, END, OVER, CMP };
struct El {
  int obj, init; std::atomic<int> v;
  El() : obj(-1), init(-1), v(0) { vp::log(CTOR, -1, -1, vp_addr(this)); }
  El(int o, int i) : obj(o), init(i), v(0) { vp::log(CTOR, o, i, vp_addr(this)); }
  El(const El& e) : obj(e.obj), init(e.init), v(e.v.load()) { vp::log(CTOR, 99, 99, vp_addr(this)); }
  El(El&& e) : obj(e.obj), init(e.init), v(e.v.load()) { vp::log(CTOR, 98, 98, vp_addr(this)); }
  ~El() { vp::log(DTOR, vp_addr(this)); }
};
using TS = parlay::ThreadSpecific<El>;
struct Obj { std::unique_ptr<TS> ts; int o; };
static void make(Obj& x, int o, Rng& r) {
  x.o = o;
  vp::log(NEW, o);
  if (r.chance(15)) x.ts.reset(new TS());
  else if (r.chance(70)) x.ts.reset(new TS([o](std::size_t i) { return El(o, (int)i); }));
  else x.ts.reset(new TS([o]() { return El(o, -1); }));
}
static void visit(Obj& x, int how, Rng& r) {
  TS& t = *x.ts;
  vp::log(VBEG, x.o, how, (int)parlay::num_thread_ids());
  int k = 0;
  auto vis = [&](const El& e, int pos) { vp::log(VIS, x.o, pos, vp_addr(&e)); };
  switch (how) {
    case 0: t.for_each([&](El& e) { vis(e, k++); }); break;
    case 1: for (El& e : t) vis(e, k++); break;
    case 2: { const TS& c = t; auto e = c.end(); for (auto it = c.begin(); it != e; it++) vis(*it, k++); break; }
    case 3: { auto b = t.begin(); int n = (int)(t.end() - b); for (int i = 0; i < n; i++) vis(b[(size_t)i], i); break; }
    case 4: { auto b = t.begin(), e = t.end(); int n = (int)(e - b); while (e != b) { --e; vis(*e, --n); } break; }
    case 5: case 6: {                       // a walk over all positions in a random order
      auto walk = [&](auto b, auto e) {
        int n = (int)(e - b), at = 0; std::vector<int> ord; for (int i = 0; i < n; i++) ord.insert(ord.begin() + r.below(i + 1), i);
        auto it = b; ord.push_back(n); ord.push_back(0);
        for (int k = 0; k < n + 2; k++) {
          int to = ord[(size_t)k]; auto old = it; int d = to - at;
          switch (r.below(6)) {
            case 0: it += d; break;
            case 1: it -= -d; break;
            case 2: it = it + d; break;
            case 3: it = it - (-d); break;
            case 4: { auto q = b + to; using std::swap; swap(it, q); break; }
            default: if (d >= 0) while (d-- > 0) { if (r.chance(50)) ++it; else it++; } else while (d++ < 0) { if (r.chance(50)) --it; else it--; }
          }
          vp::log(CMP, at, to, (old < it) + 2 * (old <= it) + 4 * (old > it) + 8 * (old >= it) + 16 * (old == it) + 32 * (old != it), (int)(it - old));
          at = to;
          if (k < n) { if (r.chance(50)) vis(*it, at); else if (r.chance(50)) vis(it[0], at); else vis(b[at], at); }
        }
      };
      if (how == 5) walk(t.begin(), t.end()); else { const TS& c = t; walk(c.begin(), c.end()); }
      break; }
    default: { auto b = t.begin(), e = t.end(); int n = (int)(e - b); for (int i = 0; i < n; i += 2) { vis(*(b + i), i); } for (int i = 1; i < n; i += 2) { auto q = e; q -= n - i; vis(*q, i); } }
  }
  vp::log(VEND, x.o, (int)parlay::num_thread_ids());
}
static void body(Rng r, std::vector<Obj>* os, int n, bool idfirst) {
  bool known = false;
  auto id = [&] { if (!known) vp::log(ID, (int)parlay::my_thread_id()); known = true; };
  if (idfirst) id();
  for (int i = 0; i < n; i++) {
    Obj& x = (*os)[(size_t)r.below((int)os->size())];
    if (r.chance(75)) {
      El& e = r.chance(50) ? **x.ts : x.ts->get();
      id();
      vp::log(GET, x.o, vp_addr(&e), e.v.load(), e.init);
      int v = r.range(1, 9); e.v.store(v); vp::log(PUT, x.o, v);
    } else if (known) visit(x, r.below(8), r);
  }
  vp::log(END);
}
static void scenario(uint64_t, Rng& r) {
  vp::param(0);
  std::vector<Obj> os(1);
  if (r.chance(30)) vp::log(ID, (int)parlay::my_thread_id());
  make(os[0], 0, r);
  if (r.chance(35)) { os.emplace_back(); make(os[1], 1, r); }
  int waves = r.range(1, 2);
  for (int w = 0; w < waves; w++) {
    bool crowd = w == 0 && r.chance(10);      // enough threads for a third chunk
    int nt = crowd ? r.range(8, 14) : r.range(1, w == 0 ? 6 : 4);
    std::vector<std::thread> ts; 
    for (int i = 0; i < nt; i++) { uint64_t s = r.next(); int n = crowd ? 1 : r.range(1, 3); bool f = r.chance(60); ts.emplace_back([=, &os] { body(Rng(s), &os, n, f); }); }
    for (auto& t : ts) t.join();
  }
  if (r.chance(60)) visit(os[0], r.below(8), r);
  while (!os.empty()) { int o = os.back().o; os.back().ts.reset(); vp::log(GONE, o); os.pop_back(); }
  vp::log(OVER);
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 50000; c.width = 6; c.batch = 1;
  return vp::drive(argc, argv, c);
}
