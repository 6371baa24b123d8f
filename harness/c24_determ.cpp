// The same call in different circumstances: one, two, seven workers, at the top level, from
// nested parallel code several times at once.  All results are recorded.
#include "c24_ops.h"
void fn_case(long idx, fn::rng& r) {
  int op = (int)((idx + idx / 48) % NOPS);
#if PART == 0
  n = op < 5 ? (idx % 8 == 3 ? 8100 + r(400) : idx % 8 == 5 ? r(30000) : r(50)) : r(300); seed = r(3) ? r.next() : r(5); v = fn::iota(n);
  const char* name = names[op];
#else
  n = idx % 5 == 0 ? fn::near_len(r, {1000, 2048, 4096}, 6000) : r(200); seed = 0;
  v = fn::keys(r, n, RG[1 + r(5)], (int)r(fn::SHAPES));
  const char* name = "value";
#endif
  size_t len = op == 4 && PART == 0 ? n % 65536 : n;
  fn::call(name, {op, (ll)len});
  constexpr int C = 9;
  V res[C]; int same[C];
  unsigned ws[] = {1, 2, 7};
  for (int c = 0; c < 3; c++) parlay::execute_with_scheduler(ws[c], [&] { res[c] = op_run(op); });
  res[3] = op_run(op);
  parlay::parallel_for(4, 7, [&](size_t c) { res[c] = op_run(op); }, 1);
  parlay::par_do([&] { res[7] = op_run(op); }, [&] { parlay::parallel_for(0, 40, [&](size_t) { jitter(); }); res[8] = op_run(op); });
  // identical results are written once; same[c] is the number of the result of c among the written ones
  std::vector<V> o{V()};
  for (int c = 0; c < C; c++) { size_t j = 1; while (j < o.size() && o[j] != res[c]) j++; if (j == o.size()) o.push_back(res[c]); same[c] = (int)j; }
  for (int c = 0; c < C; c++) o[0].push_back(same[c]);
  fn::emit(o);
}
