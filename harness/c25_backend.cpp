// par_do, par_do3, par_do_if, parallel_for and blocked_for on the other scheduler back ends.
// A random tree of forks and loops is executed; every branch (iteration, block) is a node.
// i = [parent, label]        per node: its parent, the branch number / index / block it stands for
// o = [runs, beg, end, join, seen, worker, thread, args]
//    runs    how often it ran             beg, end   moments it started and ended
//    join    moment the code after its parent's fork or loop went on (by then everything it wrote is visible)
//    seen    what that code read of the value the node wrote
//    args    0 if it was given the arguments that belong to its label
#include "../rt/fn.h"
#include <parlay/parallel.h>
#include <parlay/worker_specific.h>
#include <atomic>
#include <thread>
using fn::V; using fn::ll;
struct Node { int parent, kind; ll label; std::vector<int> kids; ll start, gran, block; bool cons;
  std::atomic<int> runs{0}; ll beg = -1, end = -1, join = -1, seen = -1, wid = -1; int thread = -1; ll value = 0; std::atomic<int> bad{0}; };
static std::vector<std::unique_ptr<Node>> nodes;
static std::atomic<int> clk, nthr;
static thread_local int me = -1, gen = 0; static int now = 0;   // threads are numbered anew in every case
static int budget;
static int add(fn::rng& r, int parent, ll label, int depth) {
  int id = (int)nodes.size(); nodes.emplace_back(new Node); Node& n = *nodes.back(); n.parent = parent; n.label = label; budget--;
  // 0 leaf, 1 par_do, 2 par_do3, 3 par_do_if, 4 par_do3_if, 5 parallel_for, 6 blocked_for
  int k = depth >= 5 || budget <= 0 ? 0 : depth == 0 ? 1 + (int)r(6) : (int)r(8); if (k == 7) k = r(2) ? 0 : 5;
  n.kind = k; n.cons = r.chance(1, 3); n.start = 0; n.gran = 0; n.block = 1;
  int kids = k == 0 ? 0 : k == 1 || k == 3 ? 2 : k == 2 || k == 4 ? 3 : 0; ll first = 0;
  if (k == 5) { kids = (int)(r.chance(1, 4) ? r(3) : r.chance(1, 6) ? r(70) : r(9)); n.start = r.chance(1, 5) ? (ll)r(1000000) : (ll)r(5); first = n.start; static const ll gr[] = {0, 0, 1, 2, 3, 7, 100}; n.gran = gr[r(7)]; }
  if (k == 6) { kids = (int)r(7); n.start = (ll)r(5); n.block = 1 + (ll)r(4); n.gran = kids ? (kids - 1) * n.block + 1 + (ll)r((uint64_t)n.block) : 0; }   // gran: elements
  for (int j = 0; j < kids; j++) { int c = add(r, id, first + j, depth + 1); nodes[id]->kids.push_back(c); }
  return id;
}
static void run(int id);
static void after(Node& n) { int t = clk.fetch_add(1); for (int c : n.kids) { Node& k = *nodes[c]; k.join = t; k.seen = k.value; } }
// a function object that notices when another one is called in its place
template <class F> struct Once { Node& n; F f; Once* self = this; mutable int calls = 0;
  Once(Node& n_, F f_) : n(n_), f(std::move(f_)) {}
  Once(const Once& o) : n(o.n), f(o.f), self(o.self), calls(o.calls) { n.bad++; }
  Once(Once&& o) : n(o.n), f(std::move(o.f)), self(this), calls(o.calls) {}
  void operator()() const { if (self != this || calls++) n.bad++; f(); } };
// a loop body with a count of its own, read after the loop
template <class F> struct Body { F f; std::atomic<int> calls{0}; explicit Body(F f_) : f(std::move(f_)) {} Body(const Body& o) : f(o.f), calls(o.calls.load()) {}
  template <class... A> void operator()(A... a) { calls++; f(a...); } };
static void work(int id) {
  Node& n = *nodes[id]; auto kid = [&](int j) { return Once{n, [&n, j] { run(n.kids[j]); }}; };
  switch (n.kind) {
    case 0: { volatile int z = 0; for (int i = 0; i < (id * 37) % 200; i++) z = z + i; break; }
    case 1: parlay::par_do(kid(0), kid(1), n.cons); break;
    case 2: parlay::par_do3(kid(0), kid(1), kid(2)); break;
    case 3: parlay::par_do_if(n.cons, kid(0), kid(1)); break;
    case 4: parlay::par_do3_if(n.cons, kid(0), kid(1), kid(2)); break;
    case 5: { Body body([&](size_t i) {
        size_t j = i - (size_t)n.start; if (j >= n.kids.size()) { n.bad++; return; } run(n.kids[j]); });
      parlay::parallel_for((size_t)n.start, (size_t)n.start + n.kids.size(), body, n.gran, n.cons);
      if (body.calls != (int)n.kids.size()) n.bad++;
      break; }
    default: { Body body([&](size_t b, size_t s, size_t e) {
        if (b >= n.kids.size()) { n.bad++; return; }
        if ((ll)s != n.start + (ll)b * n.block || (ll)e != std::min(n.start + n.gran, (ll)s + n.block)) n.bad++;
        run(n.kids[b]); });
      parlay::blocked_for((size_t)n.start, (size_t)(n.start + n.gran), (size_t)n.block, body, n.cons);
      if (body.calls != (int)n.kids.size()) n.bad++; }
  }
  after(n);
}
static void run(int id) {
  Node& n = *nodes[id]; n.runs++; if (me < 0 || gen != now) { me = nthr.fetch_add(1); gen = now; }
  n.thread = me; n.wid = (ll)parlay::worker_id(); n.beg = clk.fetch_add(1);
  work(id);
  n.value = 1000 + id;                       // a plain write, read after the join
  n.end = clk.fetch_add(1);
}
void fn_case(long idx, fn::rng& r) {
  if (idx % 8 == 7) {                        // one counter per index of a long loop
    size_t n = r(60000), s = r(100); static const ll gr[] = {0, 1, 100, 3000}; ll g = gr[r(4)];
    std::unique_ptr<std::atomic<int>[]> c(new std::atomic<int>[n + 2]()); std::vector<int> plain(n + 2, 0);
    fn::call("loop", {(ll)n});
    parlay::parallel_for(s, s + n, [&](size_t i) { size_t j = i - s < n ? i - s : n; c[j]++; plain[j] = 1; }, g, r(2));
    V at, val; for (size_t j = 0; j <= n; j++) { ll x = c[j] * 2 + plain[j]; if (j == 0 || j == n || x != val.back()) { at.push_back((ll)j); val.push_back(x); } }
    fn::emit({at, val}); return;
  }
  if (idx % 8 == 6) {                        // an empty or reversed range
    size_t s = 1 + r(9), e = r(2) ? s : r(s); std::atomic<int> c{0}; ll g = r(2) ? 0 : (ll)r(10);
    fn::call("none", {(ll)s, (ll)e, g}); parlay::parallel_for(s, e, [&](size_t) { c++; }, g); parlay::blocked_for(s, e, 1 + r(3), [&](size_t, size_t, size_t) { c++; }); fn::emit({{c.load()}}); return;
  }
  nodes.clear(); clk = 0; nthr = 0; budget = 10 + (int)r(120); now++;
  add(r, -1, 0, 0);
  V par, lab, kind; for (auto& n : nodes) { par.push_back(n->parent); lab.push_back(n->label); kind.push_back(n->kind); }
  fn::call("tree", {}, {par, lab, kind});
  ll nw = 0; auto all = [&] { fn::backend_workers(); nw = (ll)parlay::num_workers(); run(0); nodes[0]->join = clk.fetch_add(1); nodes[0]->seen = nodes[0]->value; };
  if (idx % 3) all(); else std::thread(all).join();
  V runs, beg, end, join, seen, wid, thr, bad;
  for (auto& n : nodes) { runs.push_back(n->runs); beg.push_back(n->beg); end.push_back(n->end); join.push_back(n->join); seen.push_back(n->seen); wid.push_back(n->wid); thr.push_back(n->thread); bad.push_back(n->bad); }
  fn::emit({runs, beg, end, join, seen, wid, thr, bad, {nw}});
}
