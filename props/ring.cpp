#include "common.h"
#include <sys/mman.h>
extern "C" {
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/autocover_buffer.h"
}
namespace {
typedef unsigned long long ull;
// ------------------------------------------------------------- R01 and R02 share a world
struct Fifo {
  ring_buffer_handle rb = nullptr; ring_handle r2 = nullptr;   // one of both
  uint64_t cap = 0;
  uint64_t A = 0, R = 0;                // accepted / consumed stream bytes (completed calls)
  uint64_t wreq = 0, rreq = 0;          // requests in flight
  uint64_t base = 0;                    // stream position at which the ring was (re)started
  uint64_t room(uint64_t used) const { return used > cap ? 0 : cap - used; }
  static uint64_t diff(uint64_t a, uint64_t b) { return a > b ? a - b : 0; }
  bool two() const { return r2 != nullptr; }
  uint64_t write(const void* s, uint64_t n) { return two() ? ring_buf_write(r2, (void*)s, n) : RingBuffer_write(rb, s, (uint32_t)n); }
  uint64_t read(void* s, uint64_t n) { return two() ? ring_buf_read(r2, s, n) : RingBuffer_read(rb, s, (uint32_t)n); }
  uint64_t peek(void* s, uint64_t n) { return two() ? ring_buf_peek(r2, s, n) : RingBuffer_peek(rb, s, (uint32_t)n); }
  uint64_t discard(uint64_t n) { return two() ? ring_buf_discard(r2, n) : RingBuffer_discard(rb, (uint32_t)n); }
  uint64_t availr() { return two() ? ring_buf_available_read(r2) : RingBuffer_available_read(rb); }
  uint64_t availw() { return two() ? ring_buf_available_write(r2) : RingBuffer_available_write(rb); }
};
Fifo* Q;
uint64_t fit(uint64_t req, uint64_t room) { return Q->two() ? (req <= room ? req : 0) : (req < room ? req : room); }

uint64_t do_write(uint64_t len) {
  uint8_t* s = (uint8_t*)halloc(len ? len : 1);
  for (uint64_t i = 0; i < len; i++) s[i] = pat(1, Q->A + i);
  uint64_t r_inv = Q->R;
  Q->wreq = len;
  uint64_t n = Q->write(s, len);
  uint64_t fmin = Q->room(Q->A - r_inv);
  uint64_t rmax = Q->R + Q->rreq; if (rmax > Q->A) rmax = Q->A;
  uint64_t fmax = Q->room(Q->A - rmax);
  SIM_CHECK(n <= len && n <= fmax, "over-accept", "write of %llu bytes accepted %llu although at most %llu were free", (ull)len, (ull)n, (ull)fmax);
  if (Q->two()) {
    SIM_CHECK(n == 0 || n == len, "partial", "write of %llu bytes accepted %llu", (ull)len, (ull)n);
    if (len && len <= fmin) SIM_CHECK(n == len, "under-accept", "write of %llu bytes refused with at least %llu free", (ull)len, (ull)fmin);
  } else SIM_CHECK(n >= fit(len, fmin), "under-accept", "write of %llu bytes accepted only %llu with at least %llu free", (ull)len, (ull)n, (ull)fmin);
  Q->A += n; Q->wreq = 0;
  note("write %llu -> %llu", (ull)len, (ull)n);
  hfree(s);
  return n;
}
// kind 0 read, 1 peek, 2 discard
uint64_t do_read(uint64_t len, int kind) {
  uint8_t* d = kind == 2 ? nullptr : (uint8_t*)halloc(len ? len : 1);
  if (d) memset(d, 0x5C, len ? len : 1);
  uint64_t a_inv = Q->A;
  if (kind != 1) Q->rreq = len;
  uint64_t n = kind == 0 ? Q->read(d, len) : kind == 1 ? Q->peek(d, len) : Q->discard(len);
  uint64_t smin = Q->diff(a_inv, Q->R), smax = Q->A + Q->wreq - Q->R;
  if (smax > Q->cap) smax = Q->cap;
  SIM_CHECK(n <= len && n <= smax, "over-deliver", "request of %llu bytes returned %llu although at most %llu were stored", (ull)len, (ull)n, (ull)smax);
  if (Q->two()) {
    SIM_CHECK(n == 0 || n == len, "partial", "read of %llu bytes returned %llu", (ull)len, (ull)n);
    if (len && len <= smin) SIM_CHECK(n == len, "under-deliver", "read of %llu bytes refused with at least %llu stored", (ull)len, (ull)smin);
  } else SIM_CHECK(n >= fit(len, smin), "under-deliver", "request of %llu bytes returned only %llu with at least %llu stored", (ull)len, (ull)n, (ull)smin);
  if (d) {
    for (uint64_t i = 0; i < n; i++)
      SIM_CHECK(d[i] == pat(1, Q->R + i), "wrong-data", "byte %llu of the stream came out as %02x instead of %02x (%s)", (ull)(Q->R + i), d[i], pat(1, Q->R + i), kind ? "peek" : "read");
    for (uint64_t i = n; i < len; i++) SIM_CHECK(d[i] == 0x5C, "wrong-data", "target changed beyond the returned count");
    hfree(d);
  }
  if (kind != 1) { Q->R += n; Q->rreq = 0; }
  note("%s %llu -> %llu", kind == 0 ? "read" : kind == 1 ? "peek" : "discard", (ull)len, (ull)n);
  return n;
}
void producer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 0: do_write((uint64_t)o.a); break;
    case 1: {
      uint64_t r_inv = Q->R, n = Q->availw();
      SIM_CHECK(n >= Q->room(Q->A - r_inv) && n <= Q->cap, "avail-write", "available write %llu, but %llu bytes were free before the call (capacity %llu)", (ull)n, (ull)(Q->cap - (Q->A - r_inv)), (ull)Q->cap);
      if (n && n <= 600000) SIM_CHECK(do_write(n) == n, "avail-write", "available write promised %llu bytes but the write took less", (ull)n);
      break;
    }
    case 2:
      if (!Q->two()) {
        bool full = RingBuffer_is_full(Q->rb);
        if (!full) SIM_CHECK(do_write(1) == 1, "avail-write", "not full to the producer, but one byte was refused");
      }
      break;
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
void consumer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 0: do_read((uint64_t)o.a, 0); break;
    case 1: {
      uint64_t n = do_read((uint64_t)o.a, 1);
      if (n && o.b == 0) SIM_CHECK(do_read(n, 0) == n, "peek-read", "peek returned %llu bytes but reading them returned less", (ull)n);
      if (n && o.b == 1) SIM_CHECK(do_read(n, 2) == n, "peek-read", "peek returned %llu bytes but discarding them dropped less", (ull)n);
      break;
    }
    case 2: do_read((uint64_t)o.a, 2); break;
    case 3: {
      uint64_t a_inv = Q->A, n = Q->availr();
      SIM_CHECK(n >= Q->diff(a_inv, Q->R) && n <= Q->cap, "avail-read", "available read %llu, but %llu bytes were stored before the call (capacity %llu)", (ull)n, (ull)(a_inv - Q->R), (ull)Q->cap);
      if (n) SIM_CHECK(do_read(n, 0) == n, "avail-read", "available read promised %llu bytes but the read returned less", (ull)n);
      break;
    }
    case 4:
      if (!Q->two()) { if (!RingBuffer_is_empty(Q->rb)) SIM_CHECK(do_read(1, 0) == 1, "avail-read", "not empty to the consumer, but nothing could be read"); }
      break;
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
int64_t draw_len(Rng& r, int64_t cap) {
  switch (r.below(8)) {
    case 0: return 1;
    case 1: return cap;
    case 2: return cap + r.range(0, 3);
    case 3: return cap > 1 ? cap - 1 : 1;
    case 4: return r.range(0, 2);
    default: return r.range(1, cap < 64 ? cap : r.chance(1, 2) ? 64 : cap);
  }
}
void fifo_gen(Rng& r, Plan& p, bool two) {
  int64_t cap = r.chance(3, 4) ? r.range(3, 20) : r.logrange(3, 3000);
  int64_t mode = r.below(4) == 0, wrap = !two && r.chance(1, 4) ? 1 : 0;
  if (wrap) mode = 1;
  p.p = {mode, cap, wrap, r.range(0, 9), r.range(0, 2)};
  p.t.resize(2);
  int n = (int)r.range(2, 14);
  bool tiny = r.chance(1, 3);
  for (int i = 0; i < n; i++) {
    Op o; int k = (int)r.below(10);
    o.k = k < 6 ? 0 : k < 8 ? 1 : k == 8 ? 2 : 5; o.a = o.k == 5 ? r.range(1, 20) : tiny ? r.range(1, 4) : draw_len(r, cap);
    p.t[0].push_back(o);
  }
  n = (int)r.range(2, 14);
  for (int i = 0; i < n; i++) {
    Op o; int k = (int)r.below(12);
    o.k = k < 5 ? 0 : k < 7 ? 1 : k == 7 ? 2 : k < 10 ? 3 : k == 10 ? 4 : 5;
    o.a = o.k == 5 ? r.range(1, 20) : tiny ? r.range(1, 4) : draw_len(r, cap); o.b = r.range(0, 2);
    p.t[1].push_back(o);
  }
}
void fifo_round(const Plan& p) {
  spawn("producer", [&] { producer(p.t[0]); });
  spawn("consumer", [&] { consumer(p.t[1]); });
  join_all_clients();
}
void fifo_main(const Plan& p) {
  for (int64_t i = 0; i < P(p, 3); i++) { do_write(1 + i % 3); do_read(1 + i % 3, (int)(i % 2) * 2); }   // misalign
  for (int64_t round = 0; round <= P(p, 4); round++) {
    fifo_round(p);
    SIM_CHECK(Q->availr() == Q->A - Q->R && Q->availw() == Q->cap - (Q->A - Q->R), "occupancy", "at rest %llu bytes are stored but available read/write say %llu/%llu (capacity %llu)",
              (ull)(Q->A - Q->R), (ull)Q->availr(), (ull)Q->availw(), (ull)Q->cap);
    if (!Q->two()) SIM_CHECK(RingBuffer_is_empty(Q->rb) == (Q->A == Q->R) && RingBuffer_is_full(Q->rb) == (Q->A - Q->R == Q->cap), "occupancy", "is_empty/is_full wrong at rest");
    if (round == 1) {
      if (Q->two()) ring_buf_clear(Q->r2); else RingBuffer_clear(Q->rb);
      Q->R = Q->A;
      SIM_CHECK(Q->availr() == 0 && Q->availw() == Q->cap, "occupancy", "not empty after clear");
    }
  }
  while (Q->A > Q->R) { uint64_t left = Q->A - Q->R; SIM_CHECK(do_read(left, 0) == left, "lost", "the last %llu bytes cannot be read back", (ull)left); }
  SIM_CHECK(do_read(5, 0) == 0, "over-deliver", "empty ring delivered data");
}
// move both counters of an empty ring close to 2^32, when they can be located by observation
bool poke_wrap(void* mem, size_t n, uint64_t cap, uint32_t to) {
  uint32_t* w = (uint32_t*)mem; size_t words = n / 4; char z = 0;
  std::vector<uint32_t> s0(w, w + words);
  if (RingBuffer_write(Q->rb, &z, 1) != 1) return false;
  int in = -1, out = -1, ch = 0;
  for (size_t i = 0; i < words; i++) if (w[i] != s0[i]) { ch++; if (s0[i] == 0 && w[i] == 1) in = (int)i; }
  if (ch != 1 || in < 0) return false;
  s0.assign(w, w + words);
  if (RingBuffer_read(Q->rb, &z, 1) != 1) return false;
  ch = 0;
  for (size_t i = 0; i < words; i++) if (w[i] != s0[i]) { ch++; if (s0[i] == 0 && w[i] == 1) out = (int)i; }
  if (ch != 1 || out < 0) return false;
  for (uint64_t i = 0; i < cap + 2; i++) if (RingBuffer_write(Q->rb, &z, 1) != 1 || RingBuffer_read(Q->rb, &z, 1) != 1) return false;
  if (w[in] != cap + 3 || w[out] != cap + 3 || RingBuffer_current_write_position(Q->rb) != cap + 3) return false;   // not free-running
  w[in] = w[out] = to;
  if (RingBuffer_current_write_position(Q->rb) != to || RingBuffer_current_read_position(Q->rb) != to || Q->availr() != 0 || Q->availw() != cap) { w[in] = w[out] = 0; return false; }
  probe(1);
  return true;
}
void r01_gen(Rng& r, Plan& p, RunCfg&) { fifo_gen(r, p, false); }
// sizes and counts that do not fit 16 bits
int64_t big_len(Rng& r, int64_t cap) { switch (r.below(4)) { case 0: return r.range(65530, 65545); case 1: return cap; case 2: return r.range(1, 300); default: return r.range(1, cap + cap / 4); } }
int64_t big_cap(Rng& r) { return r.chance(1, 3) ? r.range(65530, 65545) : r.chance(1, 2) ? 131072 : r.range(33000, 300000); }
void fifo_big(Rng& r, Plan& p, RunCfg& c, bool two) {
  fifo_gen(r, p, two);
  c.max_steps = 8000000; p.p[1] = big_cap(r); p.p[2] = 0;
  for (auto& t : p.t) { if (t.size() > 7) t.resize(7); for (auto& o : t) if (o.k != 5) o.a = big_len(r, p.p[1]); }
}
void r01_big(Rng& r, Plan& p, RunCfg& c) { fifo_big(r, p, c, false); }
void r02_big(Rng& r, Plan& p, RunCfg& c) { fifo_big(r, p, c, true); }
void r01_run(const Plan& p) {
  Fifo f; Q = &f;
  int64_t cap = P(p, 1); void* mem = nullptr; size_t memn = 0;
  if (P(p, 0)) {
    memn = ((size_t)cap + 40 + 7) & ~(size_t)7; mem = halloc(memn); memset(mem, P(p, 2) ? 0 : 0xA5, memn);
    f.rb = RingBuffer_create_with_mem(mem, (uint32_t)memn);
    SIM_CHECK(f.rb, "create", "RingBuffer_create_with_mem(%zu bytes) failed", memn);
    f.cap = RingBuffer_real_capacity(f.rb);
    SIM_CHECK(f.cap >= 4 && f.cap < memn && f.cap * 2 + 64 > memn, "create", "real capacity %llu in %zu bytes of memory", (ull)f.cap, memn);
  } else {
    f.rb = RingBuffer_create((uint32_t)cap);
    SIM_CHECK(f.rb, "create", "RingBuffer_create(%lld) failed", (long long)cap);
    f.cap = RingBuffer_real_capacity(f.rb);
    SIM_CHECK(f.cap >= (uint64_t)cap && f.cap < 2 * (uint64_t)cap, "create", "real capacity %llu for requested %lld", (ull)f.cap, (long long)cap);
  }
  SIM_CHECK((f.cap & (f.cap - 1)) == 0, "create", "capacity %llu is not a power of two", (ull)f.cap);
  SIM_CHECK(f.availr() == 0 && f.availw() == f.cap, "create", "a new ring is not empty");
  if (P(p, 2) && f.cap <= 4096) poke_wrap(mem, memn, f.cap, (uint32_t)(0u - (uint32_t)(f.cap * (1 + P(p, 3) % 3)) - (uint32_t)P(p, 3)));
  fifo_main(p);
  RingBuffer_destroy(&f.rb);
  SIM_CHECK(!f.rb, "destroy", "handle not cleared by RingBuffer_destroy");
  if (mem) hfree(mem);
  check_no_leaks("after RingBuffer_destroy");
}
void r02_gen(Rng& r, Plan& p, RunCfg&) { fifo_gen(r, p, true); }
void r02_run(const Plan& p) {
  Fifo f; Q = &f;
  int64_t cap = P(p, 1); void* mem = nullptr;
  if (P(p, 0)) {
    size_t n = (size_t)cap + 64; mem = halloc(n); memset(mem, 0x3C, n);
    f.r2 = ring_buf_create_with_mem(mem, n);
    SIM_CHECK(f.r2, "create", "ring_buf_create_with_mem(%zu) failed", n);
    f.cap = f.availw();
    SIM_CHECK(f.cap >= (uint64_t)cap && f.cap < n, "create", "capacity %llu in %zu bytes of memory", (ull)f.cap, n);
  } else {
    f.r2 = ring_buf_create((size_t)cap);
    SIM_CHECK(f.r2, "create", "ring_buf_create(%lld) failed", (long long)cap);
    f.cap = (uint64_t)cap - 1;
  }
  SIM_CHECK(f.availr() == 0 && f.availw() == f.cap, "create", "a new ring_buf of size %lld offers %llu to read, %llu to write", (long long)cap, (ull)f.availr(), (ull)f.availw());
  fifo_main(p);
  ring_buf_destroy(&f.r2);
  SIM_CHECK(!f.r2, "destroy", "handle not cleared by ring_buf_destroy");
  if (mem) hfree(mem);
  check_no_leaks("after ring_buf_destroy");
}
// creation when memory is short
void cfail_gen(Rng& r, Plan& p, RunCfg&) { p.p = {r.range(0, 2), r.range(3, 300), r.range(0, 2)}; }
template <class F> void create_fails(int64_t n, F mk, const char* what) {
  fail_alloc_at(n);
  bool got = mk();
  bool fired = fail_alloc_fired();
  fail_alloc_at(-1);
  SIM_CHECK(got == !fired, "create", "%s %s although memory %s", what, got ? "succeeded" : "failed", fired ? "ran out" : "was available");
  check_no_leaks(what);
}

// ------------------------------------------------------------- R03
struct ACOp { int kind; std::string data; uint32_t pos = 0, len = 0; int res = 0; uint64_t inv = 0, ret = 0; int client = 0; };
struct AC {
  auto_cover_buf_handle h = nullptr; uint32_t cap = 0; bool locked = false; int owner = -1; int acquires = 0;
  std::vector<ACOp> hist;
};
AC* C;
int ac_acquire(void* a) {
  SIM_CHECK(a == (void*)C, "lock-arg", "lock callback called with a wrong argument");
  SIM_CHECK(!(C->locked && C->owner == self()), "lock", "the lock is acquired twice");
  SIM_CHECK(wait_until([] { return !C->locked; }, 200000), "lock", "the lock is never released");
  C->locked = true; C->owner = self(); C->acquires++;
  yield();
  return 0;
}
int ac_release(void* a) {
  SIM_CHECK(a == (void*)C && C->locked && C->owner == self(), "lock", "lock released without being held");
  C->locked = false; C->owner = -1;
  yield();
  return 0;
}
void ac_ops(int c, const std::vector<Op>& ops) {
  uint64_t written = 0;
  for (auto& o : ops) {
    if (o.k == 9) { for (int i = 0; i < o.a; i++) yield(); continue; }
    ACOp x; x.kind = (int)o.k; x.client = c;
    if (o.k == 0) {
      uint32_t n = (uint32_t)o.a; if (n > C->cap) n = C->cap; if (!n) n = 1;
      uint8_t* s = (uint8_t*)halloc(n);
      for (uint32_t i = 0; i < n; i++) s[i] = pat(10 + c, written + i);
      written += n;
      x.data.assign((char*)s, n); x.len = n;
      x.inv = seq();
      x.res = auto_cover_buf_write(C->h, s, n);
      x.ret = seq();
      hfree(s);
    } else if (o.k == 1) {
      uint32_t n = (uint32_t)o.a; if (!n) n = 1;
      uint8_t* d = (uint8_t*)halloc(n); memset(d, 0x77, n);
      x.pos = (uint32_t)o.b; x.len = n;
      x.inv = seq();
      x.res = auto_cover_buf_read(C->h, x.pos, d, n);
      x.ret = seq();
      x.data.assign((char*)d, n);
      if (x.res < 0) for (uint32_t i = 0; i < n; i++) SIM_CHECK(d[i] == 0x77, "refused-read-wrote", "a refused read changed the target");
      SIM_CHECK(x.res < 0 || (uint32_t)x.res == n, "read-result", "read of %u bytes returned %d", n, x.res);
      hfree(d);
    } else {
      x.pos = (uint32_t)o.b;
      x.inv = seq();
      x.res = auto_cover_buf_available_read(C->h, x.pos);
      x.ret = seq();
    }
    SIM_CHECK(!(C->locked && C->owner == self()), "lock", "the call returned with the lock held");
    note("c%d op%d pos %u len %u -> %d", c, x.kind, x.pos, x.len, x.res);
    C->hist.push_back(x);
  }
}
// state: 8 bytes total written W, then the window bytes [W-size, W)
bool ac_apply(std::string& st, const ACOp& x) {
  uint64_t Wp; memcpy(&Wp, st.data(), 8);
  std::string win = st.substr(8);
  uint64_t cap = C->cap;
  if (x.kind == 0) {
    if (x.res != (int)x.len) return false;
    win += x.data;
    if (win.size() > cap) win.erase(0, win.size() - cap);
    Wp += x.len;
  } else {
    uint64_t Rp = Wp - win.size();
    // the unique stored stream position congruent to pos
    uint64_t q = Rp + ((x.pos - Rp) & (cap - 1));
    bool in = q < Wp;
    uint64_t av = in ? Wp - q : 0;
    if (x.kind == 2) {
      if (in ? x.res != (int)av : x.res > 0) return false;
      return true;
    }
    if (in && av >= x.len) {
      if (x.res != (int)x.len) return false;
      if (win.compare(q - Rp, x.len, x.data) != 0) return false;
      win.erase(0, q - Rp + x.len);
    } else if (x.res >= 0) return false;
    else return true;
  }
  st.assign((char*)&Wp, 8); st += win;
  return true;
}
void ac_gen(Rng& r, Plan& p, RunCfg&) {
  int64_t cap = 1ll << r.range(2, r.chance(1, 4) ? 9 : 5);
  int n = (int)r.range(1, 4);
  p.p = {cap - (r.chance(1, 4) ? r.range(0, cap / 2 - 1) : 0), n > 1 || r.chance(1, 2) ? 1 : 0};
  p.t.resize(n);
  int64_t budget = 26 / n;
  for (auto& t : p.t) {
    int k = (int)r.range(1, budget);
    int64_t follow = r.below(2) ? r.range(0, cap - 1) : 0;
    for (int i = 0; i < k; i++) {
      Op o; int x = (int)r.below(10);
      if (x < 4) { o.k = 0; o.a = draw_len(r, cap); }
      else if (x < 8) { o.k = 1; o.a = r.chance(1, 6) ? draw_len(r, cap) : r.range(1, cap < 8 ? cap : 8); o.b = r.chance(1, 2) ? follow : r.range(0, 3 * cap); if (r.chance(1, 2)) follow += o.a; }
      else if (x == 8) { o.k = 2; o.b = r.range(0, 3 * cap); }
      else { o.k = 9; o.a = r.range(1, 10); }
      t.push_back(o);
    }
  }
}
void ac_big(Rng& r, Plan& p, RunCfg& c) {
  ac_gen(r, p, c);
  c.max_steps = 8000000;
  int64_t cap = 1ll << r.range(15, 18); p.p[0] = cap; int64_t n = 0, follow = 0;
  for (auto& t : p.t) { if (t.size() > 8 / p.t.size()) t.resize(8 / p.t.size()); for (auto& o : t) { n++; if (o.k == 0) { o.a = big_len(r, cap); } else if (o.k != 9) { o.a = big_len(r, cap); o.b = r.chance(1, 2) ? follow : r.range(0, 3 * cap); if (r.chance(1, 2)) follow += o.a; } } }
}
void ac_run(const Plan& p) {
  AC w; C = &w;
  auto_cover_buf_lock_t lk = {&w, ac_acquire, ac_release};
  w.h = auto_cover_buf_create((uint32_t)P(p, 0), P(p, 1) ? &lk : nullptr);
  SIM_CHECK(w.h, "create", "auto_cover_buf_create(%lld) failed", (long long)P(p, 0));
  memset(&lk, 0, sizeof lk);          // the caller's struct need not outlive the call
  w.cap = 1; while (w.cap < (uint32_t)P(p, 0)) w.cap <<= 1;
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { ac_ops((int)i, p.t[i]); });
  join_all_clients();
  SIM_CHECK(!w.locked, "lock", "the lock stays held");
  // final sweep: what is left must be readable from every position
  ac_ops(9, {{2, 0, 0}, {2, 0, 1}, {2, 0, (int64_t)(w.cap - 1)}});
  if (P(p, 1)) SIM_CHECK(w.acquires > 0, "lock", "the supplied lock was never taken");
  std::vector<LinOp> ops;
  for (size_t i = 0; i < w.hist.size(); i++) ops.push_back({w.hist[i].inv, w.hist[i].ret, (int)i});
  bool ok = linearizable(ops, 0, [](std::string& s) { s.assign(8, '\0'); }, [&](std::string& s, int id) { return ac_apply(s, w.hist[id]); });
  if (!ok) {
    std::string d;
    for (auto& x : w.hist) { char b[120]; snprintf(b, sizeof b, "\n  [%llu,%llu] client %d %s pos %u len %u -> %d %s", (ull)x.inv, (ull)x.ret, x.client, x.kind == 0 ? "write" : x.kind == 1 ? "read" : "available", x.pos, x.len, x.res, hex(x.data.substr(0, 8)).c_str()); d += b; }
    violation("not-linearizable", "no one-at-a-time order of these calls on a buffer of %u explains the results:%s", w.cap, d.c_str());
  }
  auto_cover_buf_destroy(&w.h);
  SIM_CHECK(!w.h, "destroy", "handle not cleared");
  check_no_leaks("after auto_cover_buf_destroy");
}
// memory of n bytes: the ring is refused, or lives entirely inside that memory (the shadow heap
// reports any access outside) and works
template <class H, class MK, class CAP, class RW> void tiny_mem(size_t n, MK mk, CAP cap, RW rw, void (*destroy)(H*), const char* what) {
  void* mem = halloc(n ? n : 1); memset(mem, 0xA5, n ? n : 1);
  H h = mk(mem, n);
  if (h) {
    SIM_CHECK(n > 0, "create", "%s accepted memory of size 0", what);
    uint64_t c = cap(h);
    SIM_CHECK(c > 0 && c < n, "create", "%s(%zu bytes) claims a capacity of %llu", what, n, (ull)c);
    rw(h, c);
    destroy(&h);
    SIM_CHECK(!h, "destroy", "handle not cleared");
  } else SIM_CHECK(n < 64, "create", "%s refused %zu bytes of memory", what, n);
  hfree(mem);
}
void cf1(const Plan& p) {
  create_fails(P(p, 0), [&] { ring_buffer_handle h = RingBuffer_create((uint32_t)P(p, 1)); bool g = h; RingBuffer_destroy(&h); SIM_CHECK(!h, "destroy", "handle not cleared"); return g; }, "RingBuffer_create");
  RingBuffer_destroy(nullptr);
  ring_buffer_handle z = nullptr; RingBuffer_destroy(&z);
  SIM_CHECK(!RingBuffer_create_with_mem(nullptr, (uint32_t)P(p, 1)), "create", "a ring was made without memory");
  SIM_CHECK(!RingBuffer_create(0), "create", "RingBuffer_create(0) succeeded");
  tiny_mem<ring_buffer_handle>((size_t)(P(p, 1) % 100), [](void* m, size_t n) { return RingBuffer_create_with_mem(m, (uint32_t)n); }, [](ring_buffer_handle h) { return (uint64_t)RingBuffer_real_capacity(h); },
    [](ring_buffer_handle h, uint64_t c) {
      for (uint64_t i = 0; i <= c; i++) { char b = (char)i; SIM_CHECK(RingBuffer_write(h, &b, 1) == (i < c), "over-accept", "write %llu into a ring of %llu bytes", (ull)i, (ull)c); }
      for (uint64_t i = 0; i <= c; i++) { char b = 0; SIM_CHECK(RingBuffer_read(h, &b, 1) == (i < c) && (i == c || b == (char)i), "wrong-data", "byte %llu", (ull)i); }
    }, RingBuffer_destroy, "RingBuffer_create_with_mem");
  // memory of 2 to 4 GiB (reserved, never touched beyond a few bytes): the largest sizes the
  // interface can express must give a working ring or a refusal
  static char* huge = [] { void* m = mmap(nullptr, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m == MAP_FAILED ? nullptr : (char*)m; }();
  if (huge) {
    static const int64_t sz[] = {0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x80000001, 0x80000100, 0xC0000000, 0x7FFFFFFF, 0x40000000};
    uint64_t n = (uint64_t)sz[P(p, 1) & 7]; ring_buffer_handle h = RingBuffer_create_with_mem(huge, (uint32_t)n);
    if (h) {
      uint64_t c = RingBuffer_real_capacity(h);
      SIM_CHECK(c > 0 && c < n && !(c & (c - 1)), "create", "RingBuffer_create_with_mem(%llu bytes) claims a capacity of %llu", (ull)n, (ull)c);
      SIM_CHECK(RingBuffer_available_write(h) == c && RingBuffer_available_read(h) == 0, "create", "a new ring of %llu bytes is not empty", (ull)c);
      char b[4] = {0}; SIM_CHECK(RingBuffer_write(h, "abc", 3) == 3 && RingBuffer_read(h, b, 3) == 3 && !memcmp(b, "abc", 3), "wrong-data", "a ring of %llu bytes does not carry 3 bytes", (ull)c);
      RingBuffer_destroy(&h);
    }
  }
}
void cf2(const Plan& p) {
  create_fails(P(p, 0), [&] { ring_handle h = ring_buf_create((size_t)P(p, 1)); bool g = h; ring_buf_destroy(&h); SIM_CHECK(!h, "destroy", "handle not cleared"); return g; }, "ring_buf_create");
  ring_buf_destroy(nullptr);
  ring_handle z = nullptr; ring_buf_destroy(&z);
  SIM_CHECK(!ring_buf_create_with_mem(nullptr, (size_t)P(p, 1)), "create", "a ring was made without memory");
  SIM_CHECK(!ring_buf_create(0) && !ring_buf_create(1), "create", "a ring_buf that can hold nothing was created");
  tiny_mem<ring_handle>((size_t)(P(p, 1) % 100), [](void* m, size_t n) { return ring_buf_create_with_mem(m, n); }, [](ring_handle h) { return (uint64_t)ring_buf_available_write(h); },
    [](ring_handle h, uint64_t c) {
      for (uint64_t i = 0; i <= c; i++) { char b = (char)i; SIM_CHECK(ring_buf_write(h, &b, 1) == (i < c), "over-accept", "write %llu into a ring of %llu bytes", (ull)i, (ull)c); }
      for (uint64_t i = 0; i <= c; i++) { char b = 0; SIM_CHECK(ring_buf_read(h, &b, 1) == (i < c) && (i == c || b == (char)i), "wrong-data", "byte %llu", (ull)i); }
    }, ring_buf_destroy, "ring_buf_create_with_mem");
}
void cf3(const Plan& p) {
  create_fails(P(p, 0), [&] { auto_cover_buf_handle h = auto_cover_buf_create((uint32_t)P(p, 1), nullptr); bool g = h; auto_cover_buf_destroy(&h); return g; }, "auto_cover_buf_create");
  SIM_CHECK(!auto_cover_buf_create(0, nullptr), "create", "a buffer of size 0 was created");
  auto_cover_buf_destroy(nullptr);
  auto_cover_buf_handle z = nullptr; auto_cover_buf_destroy(&z);
  auto_cover_buf_handle h = auto_cover_buf_create((uint32_t)P(p, 1), nullptr);
  SIM_CHECK(h, "create", "auto_cover_buf_create failed");
  uint32_t cap = 1; while (cap < (uint32_t)P(p, 1)) cap <<= 1;
  std::vector<uint8_t> big(cap + 8);
  SIM_CHECK(auto_cover_buf_read(h, 0, &big[0], cap + 1) < 0, "bad-arg", "a read larger than the buffer is not refused");
  SIM_CHECK(auto_cover_buf_write(h, &big[0], cap) == (int)cap && auto_cover_buf_available_read(h, 0) == (int)cap, "bad-arg", "refused calls disturbed the buffer");
  auto_cover_buf_destroy(&h);
  check_no_leaks("after auto_cover_buf_destroy");
}
const char* kStub = "threads are simulator fibers preempted at every memory access of the library; malloc/free and lock callbacks are simulated";
Reg r1({"R01", {{"spsc", r01_gen, r01_run}, {"scale", r01_big, r01_run, 16}, {"create", cfail_gen, cf1}}, "src/ring/ringbuffer.c (real, instrumented)", kStub});
Reg r2({"R02", {{"spsc", r02_gen, r02_run}, {"scale", r02_big, r02_run, 16}, {"create", cfail_gen, cf2}}, "src/ring/ring_buf.c (real, instrumented)", kStub});
Reg r3({"R03", {{"locked", ac_gen, ac_run}, {"scale", ac_big, ac_run, 16}, {"create", cfail_gen, cf3}}, "src/ring/autocover_buffer.c, src/ring/ringbuffer.c (real, instrumented)", kStub});
}
