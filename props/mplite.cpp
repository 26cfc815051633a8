#include "common.h"
extern "C" {
#include "mem/mplite.h"
}
namespace {
struct MB { uint8_t* p; int n; int full; uint64_t id; uint64_t inv, ret, finv, fret; bool busy; };
struct World {
  mplite_t* h = nullptr; uint8_t* pool = nullptr; int size = 0, atom = 0, nblk = 0;
  bool use_lock = true, locked = false; int owner = -1; int64_t acquires = 0;
  std::vector<std::unique_ptr<MB>> all; std::vector<MB*> live; uint64_t nid = 0;
  struct Refused { int n, full; uint64_t inv, ret; }; std::vector<Refused> refused;   // judged at the end, when every block is known
};
World* W;
struct Stat { uint64_t n = 0, total = 0, excess = 0; int64_t out = 0, count = 0, maxout = 0, maxcount = 0, maxreq = 0; };
Stat* S;                 // what the statistics must say; only when one client works alone
void s_req(int n) { if (S && n > 0 && n <= 0x40000000) S->maxreq = std::max<int64_t>(S->maxreq, n); }   // refused requests count as well
void s_alloc(int n, int full) {
  if (!S) return;
  S->n++; S->total += (uint64_t)full; S->excess += (uint64_t)(full - n); S->out += full; S->count++;
  S->maxout = std::max(S->maxout, S->out); S->maxcount = std::max(S->maxcount, S->count);
}
void s_free(int full) { if (S) { S->out -= full; S->count--; } }
std::vector<std::string>* g_lines;
void check_stats();
int acquire(void* a) {
  SIM_CHECK(a == (void*)W, "lock-arg", "lock callback called with a wrong argument");
  SIM_CHECK(!(W->locked && W->owner == self()), "lock", "the lock is acquired twice");
  yield();
  SIM_CHECK(wait_until([] { return !W->locked; }, 300000), "lock", "the lock is never released");
  W->locked = true; W->owner = self(); W->acquires++;
  return 0;
}
int release(void* a) {
  SIM_CHECK(a == (void*)W && W->locked && W->owner == self(), "lock", "lock released without being held");
  W->locked = false; W->owner = -1; yield();
  return 0;
}
void unheld(const char* fn) { SIM_CHECK(!(W->locked && W->owner == self()), "lock", "%s returned with the lock held", fn); }
int full_of(int n) { int64_t s = W->atom; while (s < n) s <<= 1; return s > 0x40000000 ? 0x40000000 : (int)s; }
// is an aligned range of `full` bytes free of every block for which busy(b) holds?
template <class F> bool room(int64_t full, F busy) {
  int64_t units = full / W->atom;
  for (int64_t i = 0; i + units <= W->nblk; i += units) {
    uint8_t* lo = W->pool + i * W->atom; uint8_t* hi = lo + full; bool clash = false;
    for (auto& b : W->all) if (b->p < hi && lo < b->p + b->full && busy(b.get())) { clash = true; break; }
    if (!clash) return true;
  }
  return false;
}
// a block may occupy its range from the call that made it until the call that freed it returned
bool room_during(int64_t full, uint64_t inv, uint64_t ret) { return room(full, [&](MB* b) { return b->inv < ret && b->fret > inv; }); }
// and certainly occupies it from the return of the former to the call of the latter
bool room_possible(int64_t full, uint64_t inv, uint64_t ret) { return room(full, [&](MB* b) { return b->ret < inv && b->finv > ret; }); }
void fillb(MB* b) { for (int i = 0; i < b->n; i++) b->p[i] = pat(900 + b->id, (uint64_t)i); }
void checkb(const uint8_t* p, uint64_t id, int n, const char* when) { for (int i = 0; i < n; i++) SIM_CHECK(p[i] == pat(900 + id, (uint64_t)i), "contents", "byte %d of a %d byte block changed %s", i, n, when); }
// `mine` is the block realloc may have freed in this call
MB* add(uint8_t* p, int n, uint64_t inv) {
  int full = full_of(n);
  SIM_CHECK(p >= W->pool && p + full <= W->pool + (int64_t)W->nblk * W->atom, "outside", "a block of %d bytes at pool offset %lld reaches outside the pool", n, (long long)(p - W->pool));
  SIM_CHECK((p - W->pool) % W->atom == 0, "alignment", "a block lies at offset %lld of a pool with %d byte units", (long long)(p - W->pool), W->atom);
  for (MB* o : W->live) SIM_CHECK(p + full <= o->p || o->p + o->full <= p, "overlap", "a block of %d bytes at %lld overlaps a live one of %d bytes at %lld", n, (long long)(p - W->pool), o->n, (long long)(o->p - W->pool));
  MB* b = new MB{p, n, full, W->nid++, inv, seq(), ~0ull, ~0ull, false};
  W->all.emplace_back(b); W->live.push_back(b); handover(); fillb(b); handover();
  return b;
}
void drop(MB* b) { for (size_t i = 0; i < W->live.size(); i++) if (W->live[i] == b) { W->live.erase(W->live.begin() + (long)i); return; } }
MB* any(uint64_t r) { handover(); std::vector<MB*> v; for (MB* b : W->live) if (!b->busy) v.push_back(b); return v.empty() ? nullptr : v[r % v.size()]; }
void quiet_numbers() {
  int64_t used = 0; for (MB* b : W->live) used += b->full;
  int fm = mplite_freemem(W->h), mm = mplite_maxmem(W->h); unheld("mplite_freemem");
  SIM_CHECK(fm == (int64_t)W->nblk * W->atom - used, "freemem", "freemem says %d with %lld of %lld bytes in use", fm, (long long)used, (long long)W->nblk * W->atom);
  int64_t best = 0; for (int64_t s = W->atom; s <= (int64_t)W->nblk * W->atom; s <<= 1) if (room(s, [](MB* b) { return b->fret == ~0ull; })) best = s;
  SIM_CHECK(mm == best, "maxmem", "maxmem says %d, the largest free range has %lld bytes", mm, (long long)best);
}
void check_stats() {
  const mplite_t* h = W->h;
  if (!S) return;
  SIM_CHECK(h->nAlloc == S->n && mplite_alloc_count(h) == S->n && h->totalAlloc == S->total && h->totalExcess == S->excess, "stats", "%llu allocations, %llu bytes, %llu excess recorded; %llu, %llu and %llu made", (unsigned long long)h->nAlloc, (unsigned long long)h->totalAlloc, (unsigned long long)h->totalExcess, (unsigned long long)S->n, (unsigned long long)S->total, (unsigned long long)S->excess);
  SIM_CHECK(h->currentOut == S->out && h->currentCount == S->count, "stats", "%u bytes in %u blocks recorded as checked out, %lld in %lld are", h->currentOut, h->currentCount, (long long)S->out, (long long)S->count);
  SIM_CHECK(h->maxOut == S->maxout && h->maxCount == S->maxcount && h->maxRequest == S->maxreq, "stats", "maxima %u, %u, %u recorded; %lld, %lld, %lld reached", h->maxOut, h->maxCount, h->maxRequest, (long long)S->maxout, (long long)S->maxcount, (long long)S->maxreq);
  std::vector<std::string> lines; g_lines = &lines;
  mplite_print_stats(h, [](const char* l) { g_lines->push_back(l); return 0; });
  unheld("mplite_print_stats");
  const long long want[8] = {(long long)S->n, (long long)S->total, (long long)S->excess, S->out, S->count, S->maxout, S->maxcount, S->maxreq};
  SIM_CHECK(lines.size() == 8, "stats", "the statistics have %zu lines", lines.size());
  for (int i = 0; i < 8; i++) {
    size_t c = lines[(size_t)i].rfind(' ');
    SIM_CHECK(c != std::string::npos && lines[(size_t)i].substr(c + 1) == std::to_string((unsigned)want[i]), "stats", "statistics line \"%s\" should end in %lld", lines[(size_t)i].c_str(), want[i]);
  }
}
// ops: 0 malloc, 1 calloc, 2 free, 3 realloc, 4 resize, 5 numbers, 6 yield, 7 bad arguments, 8 free(NULL)/stats
void op(const Op& o, bool alone) {
  int n = (int)(o.a < 0 ? 0 : o.a > 0x7fffffff ? 0x7fffffff : o.a);
  uint64_t inv = seq();
  switch (o.k) {
    case 0: case 1: {
      if (n < 1) n = 1;
      s_req(n);
      uint8_t* p = (uint8_t*)(o.k ? mplite_calloc(W->h, n) : mplite_malloc(W->h, n)); unheld("mplite_malloc");
      uint64_t ret = seq();
      if (!p) { if (n <= 0x40000000) W->refused.push_back({n, full_of(n), inv, ret}); break; }
      SIM_CHECK(room_possible(full_of(n), inv, ret), "impossible", "%d bytes were allocated although nothing was free", n);
      check_mem(p, (size_t)n, true, "pool block");
      if (o.k) for (int i = 0; i < n; i++) SIM_CHECK(p[i] == 0, "calloc", "byte %d of a calloc block is %02x", i, p[i]);
      s_alloc(n, full_of(n));
      add(p, n, inv);
      break;
    }
    case 2: { MB* b = any((uint64_t)o.b); if (!b) break; b->busy = true; checkb(b->p, b->id, b->n, "before free"); drop(b); b->finv = inv; s_free(b->full); mplite_free(W->h, b->p); unheld("mplite_free"); b->fret = seq(); break; }
    case 3: {
      if (o.c & 1) { n = n < 1 ? 1 : n; int r = mplite_roundup(W->h, n); if (n <= 0x40000000) SIM_CHECK(r == full_of(n), "roundup", "roundup of %d is %d", n, r); if (!r) break; n = r; }
      bool bad = n <= 0 || (n & (n - 1));
      MB* b = any((uint64_t)o.b); if (!b) break;
      inv = seq();
      b->busy = true; b->finv = inv; int old = b->n, oldfull = b->full; uint64_t id = b->id; uint8_t* was = b->p;
      drop(b);      // its memory may be handed out again before the call returns
      if (!bad && n > oldfull) s_req(n);
      uint8_t* p = (uint8_t*)mplite_realloc(W->h, was, n); unheld("mplite_realloc");
      uint64_t ret = seq();
      if (!p || p == was) { for (MB* o : W->live) SIM_CHECK(b->p + b->full <= o->p || o->p + o->full <= b->p, "overlap", "a live block of %d bytes at %lld was handed out again", b->n, (long long)(b->p - W->pool)); W->live.push_back(b); handover(); }
      if (!p) {
        checkb(was, id, old, "by a failed realloc"); b->finv = ~0ull; b->busy = false; handover();
        if (!bad) { SIM_CHECK(n > oldfull, "refused", "shrinking a block of %d bytes to %d failed", oldfull, n); W->refused.push_back({n, full_of(n), inv, ret}); }
        break;
      }
      SIM_CHECK(!bad, "invalid", "realloc to %d bytes, not a power of two, succeeded", n);
      checkb(p, id, old < n ? old : n, "across realloc");
      if (p == was) { SIM_CHECK(n <= oldfull, "in-place", "a block of %d bytes grew to %d bytes in place", oldfull, n); b->n = n; b->busy = false; handover(); b->finv = ~0ull; fillb(b); }
      else { b->fret = ret; b->busy = false; handover(); s_alloc(n, full_of(n)); s_free(oldfull); add(p, n, inv); }
      break;
    }
    case 4: { MB* b = any((uint64_t)o.b); if (!b) break; int f = b->full; int m = n & (n - 1) || n < 1 ? 64 : n; b->busy = true; int r = mplite_resize(W->h, b->p, m); b->busy = false; handover(); unheld("mplite_resize"); SIM_CHECK((r == MPLITE_OK) == (m <= f), "resize", "resize of a %d byte block to %d returned %d", f, m, r); break; }
    case 5:
      if (alone) quiet_numbers();
      else { int fm = mplite_freemem(W->h), mm = mplite_maxmem(W->h); unheld("mplite_maxmem"); SIM_CHECK(fm >= 0 && fm <= W->nblk * W->atom && mm >= 0 && mm <= W->nblk * W->atom, "freemem", "freemem %d, maxmem %d in a pool of %d bytes", fm, mm, W->nblk * W->atom); }
      break;
    case 6: for (int64_t i = 0; i < o.a % 12; i++) yield(); break;
    case 7:
      SIM_CHECK(!mplite_malloc(W->h, 0) && !mplite_malloc(W->h, -5) && !mplite_malloc(nullptr, 8) && !mplite_calloc(W->h, 0) && !mplite_calloc(nullptr, 8) && !mplite_realloc(W->h, nullptr, 8) && !mplite_realloc(nullptr, W->pool, 8), "invalid", "an invalid request succeeded");
      SIM_CHECK(!mplite_malloc(W->h, 0x40000001) && !mplite_malloc(W->h, 0x7fffffff), "invalid", "a request beyond the limit succeeded");
      mplite_free(nullptr, W->pool);
      SIM_CHECK(mplite_freemem(nullptr) == 0 && mplite_maxmem(nullptr) == 0 && mplite_roundup(nullptr, 8) == 0 && mplite_resize(nullptr, W->pool, 8) != MPLITE_OK && mplite_resize(W->h, nullptr, 8) != MPLITE_OK, "invalid", "a call without a pool or block succeeded");
      SIM_CHECK(mplite_roundup(W->h, 0) == 0 && mplite_roundup(W->h, -1) == 0 && mplite_roundup(W->h, 0x40000001) == 0, "roundup", "roundup of an impossible size is not 0"); SIM_CHECK(mplite_roundup(W->h, 0x40000000) == full_of(0x40000000), "roundup", "roundup of the limit is %d", mplite_roundup(W->h, 0x40000000)); unheld("an invalid call");
      break;
    case 9:        // many blocks at once
      for (int64_t i = 0; i < o.a && i < 1000; i++) op({0, o.b}, alone);
      break;
    case 10: {     // many blocks one after the other
      int m = (int)(o.b < 1 ? 1 : o.b), full = full_of(m); bool fits = room(full, [](MB* b) { return b->fret == ~0ull; });
      for (int64_t i = 0; i < o.a; i++) {
        s_req(m);
        uint8_t* p = (uint8_t*)mplite_malloc(W->h, m);
        SIM_CHECK((p != nullptr) == fits || !alone, "refused", "request %lld of %d bytes returned %s, free range: %d", (long long)i, m, p ? "a block" : "NULL", fits);
        if (!p) break;
        SIM_CHECK(p >= W->pool && p + full <= W->pool + (int64_t)W->nblk * W->atom && (p - W->pool) % W->atom == 0, "outside", "a block of %d bytes at pool offset %lld", m, (long long)(p - W->pool));
        s_alloc(m, full); p[0] = p[m - 1] = 1;
        mplite_free(W->h, p); s_free(full);
      }
      unheld("mplite_free");
      break;
    }
    default:
      mplite_free(W->h, nullptr); mplite_print_stats(nullptr, [](const char*) { return 0; }); mplite_print_stats(W->h, nullptr);
      if (alone) check_stats(); else mplite_print_stats(W->h, [](const char*) { return 0; });
      unheld("mplite_print_stats");
  }
}
int64_t rsz(Rng& r, int64_t pool) { switch (r.below(6)) { case 0: return r.logrange(1, pool * 2); case 1: return (int64_t)1 << r.range(0, 12); case 2: return ((int64_t)1 << r.range(2, 10)) + 1; default: return r.range(1, 40); } }
void gen_common(Rng& r, Plan& p, RunCfg& c, int clients) {
  c.max_steps = 1500000;
  int64_t pool = r.chance(1, 8) ? r.range(1, 40) : r.chance(1, 2) ? r.range(40, 700) : r.range(500, 6000);
  int64_t mn = r.chance(2, 3) ? (int64_t)1 << r.range(0, 7) : r.range(1, 90);
  p.p = {pool, mn, clients > 1 || r.chance(2, 3)};
  p.t.resize((size_t)clients);
  static const int w[] = {0, 0, 0, 0, 0, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8};
  for (auto& t : p.t) { int n = (int)r.range(2, clients > 1 ? 16 : 40); for (int i = 0; i < n; i++) { Op o; o.k = w[r.below(sizeof w / sizeof *w)]; o.a = rsz(r, pool); o.b = r.range(0, 5000); o.c = r.chance(4, 5); t.push_back(o); } }
}
void one(Rng& r, Plan& p, RunCfg& c) { gen_common(r, p, c, 1); }
void many(Rng& r, Plan& p, RunCfg& c) { gen_common(r, p, c, (int)r.range(2, 4)); }
// pools beyond 64 KB, more blocks and calls than 8 and 16 bits count
void big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 80000000;
  int64_t pool = r.pick({(int64_t)6000, (int64_t)70000, (int64_t)600000, r.logrange(60000, 2500000)});
  p.p = {pool, r.pick({1, 8, 16, 100}), r.chance(1, 2)}; p.t.resize(1);
  for (int i = 0, n = (int)r.range(4, 14); i < n; i++) switch (r.below(8)) {
    case 0: case 1: p.t[0].push_back({9, r.pick({20, 255, 260, 600}), r.range(1, 200)}); break;
    case 2: p.t[0].push_back({10, r.chance(1, 6) ? r.range(65500, 66000) : r.range(200, 600), r.pick({(int64_t)1, (int64_t)70, r.logrange(1, pool)})}); break;
    case 3: p.t[0].push_back({3, (int64_t)1 << r.range(4, 20), r.range(0, 5000), 1}); break;
    case 4: for (int k = 0; k < 40; k++) p.t[0].push_back({2, 0, r.range(0, 5000)}); break;
    case 5: p.t[0].push_back({r.range(5, 8), 0}); break;
    default: p.t[0].push_back({r.chance(1, 4) ? 1 : 0, r.logrange(3000, pool)});
  }
}
void run(const Plan& p, bool alone) {
  World w; W = &w;
  w.size = (int)P(p, 0, 100); if (w.size < 1) w.size = 1;
  int mn = (int)P(p, 1, 8); if (mn < 1) mn = 1;
  w.atom = 8; while (w.atom < mn) w.atom <<= 1;
  w.use_lock = P(p, 2) || !alone;
  Stat st; S = alone ? &st : nullptr;
  w.h = (mplite_t*)halloc(sizeof(mplite_t)); memset(w.h, 0xC3, sizeof *w.h); w.pool = (uint8_t*)halloc((size_t)w.size);
  mplite_lock_t lk = {&w, acquire, release};
  SIM_CHECK(mplite_init(nullptr, w.pool, w.size, mn, nullptr) != 0 && mplite_init(w.h, nullptr, w.size, mn, nullptr) != 0 && mplite_init(w.h, w.pool, 0, mn, nullptr) != 0 && mplite_init(w.h, w.pool, w.size, 0, nullptr) != 0, "init", "init accepted invalid arguments");
  SIM_CHECK(mplite_init(w.h, w.pool, w.size, mn, w.use_lock ? &lk : nullptr) == MPLITE_OK, "init", "init of a %d byte pool failed", w.size);
  memset(&lk, 0, sizeof lk);
  // the control bytes need room too: what init promises is what is free afterwards
  int fm0 = mplite_freemem(w.h), mm0 = mplite_maxmem(w.h);
  SIM_CHECK(fm0 >= 0 && fm0 <= w.size && fm0 % w.atom == 0 && mm0 <= fm0, "init", "%d bytes free, %d at most, in a pool of %d bytes", fm0, mm0, w.size);
  SIM_CHECK(fm0 >= (int64_t)w.size * w.atom / (w.atom + 1) - w.atom, "init", "only %d of %d bytes are usable", fm0, w.size);
  w.nblk = fm0 / w.atom;
  quiet_numbers();
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { for (auto& o : p.t[i]) op(o, alone); });
  join_all_clients();
  SIM_CHECK(!w.locked, "lock", "the lock stays held");
  if (w.use_lock) SIM_CHECK(w.acquires > 0, "lock", "the supplied lock was never taken");
  for (auto& x : w.refused) SIM_CHECK(!room_during(x.full, x.inv, x.ret), "refused", "%d bytes were refused although a free range of %d bytes existed all the time", x.n, x.full);
  quiet_numbers();
  check_stats();
  while (!w.live.empty()) { MB* b = w.live.back(); w.live.pop_back(); checkb(b->p, b->id, b->n, "at the end"); b->finv = seq(); s_free(b->full); mplite_free(w.h, b->p); b->fret = seq(); }
  check_stats();
  SIM_CHECK(w.h->currentOut == 0 && w.h->currentCount == 0, "stats", "%u bytes in %u blocks are still recorded as checked out after everything was freed", w.h->currentOut, w.h->currentCount);
  SIM_CHECK(mplite_freemem(w.h) == fm0 && mplite_maxmem(w.h) == mm0, "reuse", "after everything was freed %d bytes are free, %d at most; %d and %d at first", mplite_freemem(w.h), mplite_maxmem(w.h), fm0, mm0);
  if (mm0) { void* q = mplite_malloc(w.h, mm0); SIM_CHECK(q, "reuse", "the largest block of %d bytes cannot be allocated again", mm0); mplite_free(w.h, q); }
  SIM_CHECK(!w.locked, "lock", "the lock stays held");
  check_no_leaks("at the end");
}
void run1(const Plan& p) { run(p, true); }
void runn(const Plan& p) { run(p, false); }
Reg r1({"M03", {{"concurrent", many, runn}, {"scale", big, run1, 40}, {"contract", one, run1}}, "src/mem/mplite.c (real, instrumented)", "lock callbacks and thread scheduling (simulated)"});
}  // namespace
