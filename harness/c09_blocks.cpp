// The fixed-size allocator: block_allocator with short lists, and type_allocator.
// One execution per process (type_allocator is static).
// Events (tid, kind, a, b, c):
//   2 ALLOC a ok       a block at address a (units of 8 bytes) was returned; ok: inside known memory and aligned
//   4 FREE a ok        the owner gives it back; ok: its contents are what the owner wrote
//   6 USED n           num_used_blocks() (nothing else running)
//   8 CLAIMED n        num_allocated_blocks() (nothing else running)
//  10 CLEAR b          clear() returned b (nothing else running)
//  12 OVER kept        the allocator is gone; kept: memory not released
// params: block length (units of 8), list length, kind
#include "../rt/vp.h"
#include <parlay/alloc.h>
#include <thread>
#include <memory>
using vp::Rng;
enum { ALLOC = 2, FREE = 4, USED = 6, CLAIMED = 8, CLEAR = 10, OVER = 12 };
static int addr8(const void* p) { int a = vp_addr(p); return a < 0 ? -1 : a * 2 + (int)(((uintptr_t)p >> 3) & 1); }
struct Blk { unsigned char* p; unsigned char tag; };
static std::atomic<Blk*> slots[4];
template <size_t N> struct Big { unsigned char b[N]; unsigned char* t; Big(unsigned char v) { memset(b, v, N); } };
template <class A, class F, class U, class C, class K>
static void run(Rng& r, size_t bytes, size_t align, A alloc, F dealloc, U used, C claimed, K clear) {
  for (auto& s : slots) s.store(nullptr);
  size_t probe = bytes > 64 ? 64 : bytes;
  auto get = [=](int tag) { unsigned char* p = (unsigned char*)alloc(tag); vp::log(ALLOC, addr8(p), vp_addr(p) >= 0 && (uintptr_t)p % align == 0 && (uintptr_t)p % 8 == 0);
    memset(p, tag, probe); memset(p + bytes - probe, tag, probe); return Blk{p, (unsigned char)tag}; };
  auto put = [=](Blk b) { bool ok = true; for (size_t i = 0; i < probe; i++) ok = ok && b.p[i] == b.tag && b.p[bytes - 1 - i] == b.tag; vp::log(FREE, addr8(b.p), ok); dealloc(b.p); };
  auto body = [=](Rng q, int n, int tag, int bias) {
    Blk mine[32]; int k = 0;
    for (int i = 0; i < n; i++) {
      int c = q.below(100);
      if (c < bias && k < 24) mine[k++] = get(tag + i);
      else if (c < 90 && k) { int j = q.below(k); put(mine[j]); mine[j] = mine[--k]; }
      else { Blk* b = nullptr; if (k) { vp_quiet(1); b = new Blk(mine[--k]); vp_quiet(0); } Blk* o = slots[q.below(4)].exchange(b); if (o) { mine[k++] = *o; delete o; } }
      if (q.chance(5)) bias = q.range(20, 70);
    }
    if (q.chance(50)) while (k) put(mine[--k]);
    else while (k) { Blk* b = new Blk(mine[--k]); Blk* o = slots[q.below(4)].exchange(b); if (o) { put(*o); delete o; } }
  };
  auto quiet = [&] { vp_sync_all(); vp::log(USED, (int)used()); vp::log(CLAIMED, (int)claimed()); };
  auto doclear = [&] { vp_sync_all(); long n = (long)(claimed() * bytes), l0 = vp_live_bytes(); bool b = clear(); long l1 = vp_live_bytes(); vp::log(CLEAR, b, !b || l0 - l1 >= n); quiet(); };
  int waves = r.range(1, 2);
  for (int w = 0; w < waves; w++) {
    int nt = r.range(1, 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; i++) { uint64_t s = r.next(); int n = r.range(4, 22), bias = r.range(40, 80); ts.emplace_back([=] { body(Rng(s), n, 30 * (w * 4 + i) + 1, bias); }); }
    if (r.chance(40)) body(Rng(r.next()), r.range(3, 16), 200, r.range(40, 70));
    for (auto& t : ts) t.join();
    if (r.chance(70)) quiet();
    if (r.chance(30)) doclear();
    if (w == waves - 1 || r.chance(30)) for (auto& s : slots) { Blk* o = s.exchange(nullptr); if (o) { put(*o); delete o; } }
    if (r.chance(40)) { quiet(); if (r.chance(60)) doclear(); }
  }
  quiet();
}
template <size_t N> static void typed(Rng& r) {
  using T = Big<N>; using TA = parlay::type_allocator<T>;
  vp::param((int)((sizeof(T) + 7) / 8)); vp::param((int)(((1 << 18) - 64 + sizeof(T) + 1) / sizeof(T))); vp::param(1);
  bool cr = r.chance(50);
  run(r, sizeof(T), alignof(T), [=](int t) { return (void*)(cr ? TA::create((unsigned char)t) : TA::alloc()); }, [=](void* p) { if (cr) TA::destroy((T*)p); else TA::free((T*)p); },
      [] { return TA::num_used_blocks(); }, [] { return TA::num_allocated_blocks(); }, [] { bool z = TA::num_used_blocks() == 0; TA::finish(); return z; });
  vp::log(OVER, 0);
}
struct alignas(4096) Page { unsigned char b[8192]; Page(unsigned char v) { memset(b, v, 8192); } };
static void scenario(uint64_t, Rng& r) {
  int k = r.below(10);
  if (k == 0) typed<65528>(r);
  else if (k == 1) typed<131000>(r);
  else {
    static const size_t bss[] = {8, 24, 16, 4, 1, 64, 200, 1024};
    size_t bs = bss[r.below(8)], ll = r.chance(85) ? (size_t)r.range(2, 4) : (size_t)r.range(1, 8);
    size_t al = 8; if (bs % 128 == 0) al = 128; else if (bs % 64 == 0) al = 64; else if (bs % 16 == 0) al = 16;
    size_t eff = bs < 8 ? 8 : bs;
    vp::param((int)((eff + 7) / 8)); vp::param((int)ll); vp::param(0);
    { auto* a = new parlay::internal::block_allocator(bs, al, 0, ll);
      run(r, bs, al, [=](int) { return a->alloc(); }, [=](void* p) { a->free(p); }, [=] { return a->num_used_blocks(); }, [=] { return a->num_allocated_blocks(); }, [=] { return a->clear(); });
      if (a->get_block_size() != eff) vp::log(99);
      long n = (long)(a->num_allocated_blocks() * eff), l0 = vp_live_bytes();
      delete a; 
      vp::log(OVER, l0 - vp_live_bytes() < n); }
  }
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 60000; c.width = 4; c.batch = 1;
  return vp::drive(argc, argv, c);
}
