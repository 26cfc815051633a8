#include "core.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstdlib>
#include <link.h>
#include <algorithm>

namespace sim {
State g;
const char* const kFaultName[F_N] = {
  "malloc_fail", "thread_create_fail", "eintr", "spurious_wakeup", "fopen_fail", "write_error", "short_write",
  "read_error", "short_read", "close_error", "seek_error", "mkdir_error", "stat_error", "opendir_error",
  "clock_jump", "process_crash", "thread_stall", "sync_init_fail", "signal", "disk_full"};

std::vector<Property>& registry() { static std::vector<Property> r; return r; }

int64_t Rng::logrange(int64_t lo, int64_t hi) {
  // deterministic log-uniform without floating point: choose a bit length, then a value
  if (hi <= lo) return lo;
  int bl = 64 - __builtin_clzll((uint64_t)lo | 1), bh = 64 - __builtin_clzll((uint64_t)hi | 1);
  int b = (int)range(bl, bh);
  uint64_t a = 1ull << (b - 1), z = (1ull << b) - 1;
  if (b == 1) a = 0;
  int64_t v = (int64_t)(a + below(z - a + 1));
  return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_ctx_switch(void** save, void* load);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

// ------------------------------------------------------------------ reporting
static void flush_result(int status) {
  Result* r = g.res;
  r->hash = g.hash; r->steps = g.step; r->simns = g.now; r->switches = g.switches;
  r->schedsig = g.schedsig; r->histsig = g.histsig;
  for (int i = 0; i < F_N; i++) { r->fires[i] = g.ffire[i]; r->visits[i] = g.fvis[i]; }
  for (int i = 0; i < 64; i++) r->probes[i] = g.probes[i];
  if (status == 2) {
    r->ntrace = (uint32_t)std::min<size_t>(g.trace.size(), kMaxTrace);
    for (uint32_t i = 0; i < r->ntrace; i++) r->trace[i] = g.trace[i];
    r->nfault = (uint32_t)std::min<size_t>(g.ftrace.size(), kMaxFault);
    for (uint32_t i = 0; i < r->nfault; i++) r->fault[i] = g.ftrace[i];
    r->trace_overflow = g.trace_ovf || g.trace.size() > kMaxTrace || g.ftrace.size() > kMaxFault;
  } else { r->ntrace = r->nfault = 0; }
  r->status = status;
}

static bool g_in_violation = false;
void violation(const char* cls, const char* fmt, ...) {
  if (g_in_violation || !g.res) _exit(4);
  g_in_violation = true;
  Result* r = g.res;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(r->msg, sizeof r->msg, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  for (char* c = r->msg; *c; c++) if ((unsigned char)*c < 32 || (unsigned char)*c > 126) *c = '?';
  if (n < (int)sizeof r->msg)
    snprintf(r->msg + n, sizeof r->msg - n, " [thread %d %s, step %llu, t=%lluns]", g.cur ? g.cur->id : -1,
             g.cur ? g.cur->name : "?", (unsigned long long)g.step, (unsigned long long)g.now);
  r->npcs = 0;
  if (g.cur) for (size_t i = g.cur->cs.size(); i-- > 0 && r->npcs < 24;) r->pcs[r->npcs++] = g.cur->cs[i];
  flush_result(2);
  _exit(3);
}

void finish_ok() { flush_result(1); _exit(0); }

void note(const char* fmt, ...) {
  char b[512];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  uint64_t h = 7;
  for (char* p = b; *p; p++) mix(h, (uint8_t)*p);
  mix(g.hash, h); mix(g.histsig, h);
  Result* r = g.res;
  if (!r) return;
  char line[640];
  int n = snprintf(line, sizeof line, "%llu T%d %s\n", (unsigned long long)g.step, g.cur ? g.cur->id : -1, b);
  if (r->loglen + n < kLogSize - 1) { memcpy(r->log + r->loglen, line, n); r->loglen += n; r->log[r->loglen] = 0; }
}
void hash_event(uint64_t v) { mix(g.hash, v); mix(g.histsig, v); }
uint64_t seq() { return ++g.evseq; }
uint64_t steps() { return g.step; }
void probe(int i) { if (i >= 0 && i < 64) g.probes[i]++; }
int self() { return g.cur ? g.cur->id : -1; }
int nfibers() { return (int)g.fib.size(); }
uint64_t now_ns() { return g.now; }

// ------------------------------------------------------------------ arena
struct Block { uintptr_t addr; size_t size; bool live, lib; };
static std::vector<Block> g_blocks;
static std::map<size_t, std::vector<uint32_t>> g_free;
static uintptr_t g_brk = kArenaBase + 65536;
static uint64_t g_live = 0, g_live_bytes = 0, g_alloc_calls = 0;
constexpr size_t kRed = 32;
struct Hdr { uint64_t magic; uint32_t idx; uint32_t pad; };
constexpr uint64_t kMagic = 0x51AB10C4B10C4D1Full;

static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(kShadowBase + ((a - kArenaBase) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a >= kArenaBase && a < kArenaBase + kArenaSize; }

static void set_shadow(uintptr_t a, size_t n, bool live) {
  uint8_t* s = shadow(a);
  size_t full = n / 8;
  if (live) { memset(s, 8, full); if (n % 8) s[full] = (uint8_t)(n % 8); }
  else memset(s, 0xFD, (n + 7) / 8);
}

static Block* find_block_containing(uintptr_t a) {
  for (size_t i = g_blocks.size(); i-- > 0;) {
    Block& b = g_blocks[i];
    if (a + kRed >= b.addr && a < b.addr + b.size + kRed) return &b;
  }
  return nullptr;
}

static bool g_atomic_access;
void access_check(uintptr_t a, size_t n, bool write, uintptr_t pc, const char* what) {
  if (n == 0) return;
  if (g_race) race_access(a, n, write, g_atomic_access, pc);
  if (!in_arena(a)) {
    if (a < 4096) violation("null-deref", "%s of %zu bytes at null page address 0x%zx (%s)", write ? "write" : "read", n, (size_t)a, what);
    return;
  }
  if (a + n > kArenaBase + kArenaSize || n > kArenaSize) violation("heap-overflow", "%s of %zu bytes runs past the heap (%s)", write ? "write" : "read", n, what);
  uintptr_t end = a + n;
  g.bytes += n >> 3;
  for (uintptr_t x = a; x < end;) {
    if (!(x & 63)) {                                     // 64 addressable bytes at a time
      while (end - x >= 64 && *(uint64_t*)shadow(x) == 0x0808080808080808ull) x += 64;
      if (x >= end) break;
    }
    uint8_t s = *shadow(x);
    uintptr_t gr = x & ~7ull;
    uintptr_t upto = std::min(end, gr + 8);
    if (s != 8 && !(s >= 1 && s <= 7 && upto - gr <= s)) {
      if (pc && g.cur) g.cur->cs.push_back(pc);
      Block* b = find_block_containing(x);
      if (b && !b->live && x >= b->addr && x < b->addr + std::max<size_t>(b->size, 1))
        violation("use-after-free", "%s of %zu bytes at offset %zd of a freed block of %zu bytes (%s)", write ? "write" : "read", n,
                  (ssize_t)(x - b->addr), b->size, what);
      violation("heap-overflow", "%s of %zu bytes %zd bytes from the start of a block of %zu bytes (%s)", write ? "write" : "read", n,
                b ? (ssize_t)(x - b->addr) : -1, b ? b->size : 0, what);
    }
    x = upto;
  }
}
void check_mem(const void* p, size_t n, bool w, const char* what) { g_race_off++; access_check((uintptr_t)p, n, w, 0, what); g_race_off--; }

// ------------------------------------------------------------------ happens-before and data races
// Vector clocks over the synchronisation operations of the run; a race is a pair of
// accesses to the same byte of the heap or of the library's globals, one of them a
// write and one of them not atomic, that these operations leave unordered. Volatile
// accesses count as atomic without ordering.
bool g_race = false;
int g_race_off = 0;
extern "C" { extern char sim_lib_data_a[], sim_lib_data_b[], sim_lib_bss_a[], sim_lib_bss_b[]; }
struct RaceRec { int fid; uint32_t clk; uintptr_t pc; uint8_t mask; bool w, at; };
static std::unordered_map<uintptr_t, std::vector<RaceRec>> g_cells;
static std::unordered_map<uintptr_t, Clock> g_atomics;
static uintptr_t g_pc;
static Clock& my_clock() {
  Fiber* f = g.cur;
  if (f->vc.size() <= (size_t)f->id) f->vc.resize(f->id + 1);
  if (!f->vc[f->id]) f->vc[f->id] = 1;
  return f->vc;
}
static void join_clock(Clock& to, const Clock& c) {
  if (to.size() < c.size()) to.resize(c.size());
  for (size_t i = 0; i < c.size(); i++) if (c[i] > to[i]) to[i] = c[i];
}
void hb_acquire(const Clock& c) { if (g_race && g.cur) join_clock(my_clock(), c); }
void hb_release(Clock& c) { if (!g_race || !g.cur) return; join_clock(c, my_clock()); g.cur->vc[g.cur->id]++; }
// order as for the __atomic builtins; volatile accesses count as relaxed. A fence orders
// together with the relaxed accesses after (release) or before (acquire) it.
void hb_atomic(const void* a, int order, bool load, bool store) {
  if (!g_race || !g.cur) return;
  bool acq = load && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE, rel = store && order != __ATOMIC_RELAXED && order != __ATOMIC_ACQUIRE && order != __ATOMIC_CONSUME;
  Fiber* f = g.cur;
  if (!a) {                                  // a fence
    if (acq) hb_acquire(f->vacq);
    if (rel) { f->vrel = my_clock(); f->vc[f->id]++; }
    return;
  }
  if (load) {
    auto i = g_atomics.find((uintptr_t)a);
    if (i != g_atomics.end()) { if (acq) hb_acquire(i->second); else join_clock(f->vacq, i->second); }
  }
  if (store && rel) hb_release(g_atomics[(uintptr_t)a]);
  else if (store && !f->vrel.empty()) join_clock(g_atomics[(uintptr_t)a], f->vrel);
}
void hb_all() {
  if (!g_race || !g.cur) return;
  for (Fiber* f : g.fib) if (f != g.cur) { join_clock(my_clock(), f->vc); if (f->vc.size() > (size_t)f->id) f->vc[f->id]++; }
}
static Clock g_hand;
void handover() { hb_acquire(g_hand); hb_release(g_hand); }
static char g_statics[64];
void race_static(int i) { race_access((uintptr_t)g_statics + 8 * (uintptr_t)i, 8, true, false, 0); }
static bool race_tracked(uintptr_t a) {
  return (a >= (uintptr_t)g_statics && a < (uintptr_t)g_statics + sizeof g_statics) || in_arena(a) || (a >= (uintptr_t)sim_lib_data_a && a < (uintptr_t)sim_lib_data_b) || (a >= (uintptr_t)sim_lib_bss_a && a < (uintptr_t)sim_lib_bss_b);
}
void race_access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc) {
  if (!g_race || g_race_off || !g.cur || !n || !race_tracked(a)) return;
  if (n > 65536) { race_access(a, 4096, write, atomic, pc); race_access(a + n - 4096, 4096, write, atomic, pc); return; }
  if (!pc) pc = g_pc;
  Clock& me = my_clock();
  int id = g.cur->id;
  for (uintptr_t gr = a & ~7ull; gr < a + n; gr += 8) {
    uint8_t mask = 0;
    for (int i = 0; i < 8; i++) if (gr + i >= a && gr + i < a + n) mask |= (uint8_t)(1 << i);
    auto& v = g_cells[gr];
    bool covered = false;
    for (size_t i = 0; i < v.size();) {
      RaceRec& r = v[i];
      bool before = r.fid == id || ((size_t)r.fid < me.size() && me[r.fid] >= r.clk);
      if ((r.mask & mask) && !before && (r.w || write) && !(r.at && atomic)) {
        if (pc) g.cur->cs.push_back(pc);
        Block* b = find_block_containing(gr);
        std::string where = b ? "offset " + std::to_string((ssize_t)(std::max(gr, a) - b->addr)) + " of a heap block of " + std::to_string(b->size) + " bytes" : "a global of the library";
        violation("data-race", "%s%s of %zu byte(s) at %s by T%d is not ordered with the earlier %s%s by T%d (code at 0x%zx)", atomic ? "atomic or volatile " : "", write ? "write" : "read", n, where.c_str(),
                  id, r.at ? "atomic or volatile " : "", r.w ? "write" : "read", r.fid, (size_t)r.pc);
      }
      if (r.fid == id && r.clk == me[id] && r.mask == mask && r.at == atomic && r.w == write) covered = true;
      if (before && (r.mask & ~mask) == 0 && (write || !r.w) && (!atomic || r.at) && !covered) { v[i] = v.back(); v.pop_back(); continue; }   // the new access orders after it and conflicts with all that it conflicts with
      i++;
    }
    if (!covered) { if (v.size() >= 24) v.erase(v.begin()); v.push_back({id, me[id], pc, mask, write, atomic}); }
  }
}
static void race_free(uintptr_t a, size_t n) {
  if (!g_race) return;
  race_access(a, n, true, false, 0);
  if (n / 8 > g_cells.size()) { for (auto it = g_cells.begin(); it != g_cells.end();) { if (it->first + 8 > a && it->first < a + n) it = g_cells.erase(it); else ++it; } }
  else for (uintptr_t gr = a & ~7ull; gr < a + n; gr += 8) g_cells.erase(gr);
  for (auto it = g_atomics.begin(); it != g_atomics.end();) { if (it->first >= a && it->first < a + n) it = g_atomics.erase(it); else ++it; }
}

void* arena_alloc(size_t n, bool lib, int fill) {
  if (n > kArenaSize / 4) { errno = ENOMEM; return nullptr; }
  uint32_t idx;
  uintptr_t a;
  auto it = g.cfg.reuse ? g_free.find(n) : g_free.end();
  if (it != g_free.end() && !it->second.empty()) {
    idx = it->second.back(); it->second.pop_back();
    Block& b = g_blocks[idx]; b.live = true; b.lib = lib; a = b.addr;
  } else {
    size_t tot = ((n + 15) & ~15ull) + 2 * kRed;
    if (g_brk + tot > kArenaBase + kArenaSize) { errno = ENOMEM; return nullptr; }
    a = g_brk + kRed; g_brk += tot;
    idx = (uint32_t)g_blocks.size();
    g_blocks.push_back({a, n, true, lib});
    Hdr* h = (Hdr*)(a - 16); h->magic = kMagic; h->idx = idx; h->pad = 0;
  }
  set_shadow(a, n, true);
  g.bytes += n;
  if (fill >= 0) memset((void*)a, fill, n);
  if (lib) { g_live++; g_live_bytes += n; }
  return (void*)a;
}
static Block* block_of(void* p) {
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a) || (a & 15) || a < kArenaBase + 65536 + kRed || a >= g_brk) return nullptr;
  Hdr* h = (Hdr*)(a - 16);
  if (h->magic != kMagic || h->idx >= g_blocks.size() || g_blocks[h->idx].addr != a) return nullptr;
  return &g_blocks[h->idx];
}
void arena_free(void* p) {
  if (!p) return;
  Block* b = block_of(p);
  if (!b) violation("invalid-free", "free of a pointer that is not the start of a heap block");
  if (!b->live) violation("double-free", "double free of a block of %zu bytes", b->size);
  race_free(b->addr, b->size);
  b->live = false;
  if (b->lib) { g_live--; g_live_bytes -= b->size; }
  memset(p, 0xDD, b->size);
  g.bytes += b->size;
  set_shadow(b->addr, std::max<size_t>(b->size, 1), false);
  sync_forget(b->addr, b->addr + b->size);
  if (g.cfg.reuse) g_free[b->size].push_back((uint32_t)(b - &g_blocks[0]));
}
size_t block_size(const void* p) { Block* b = block_of((void*)p); return b && b->live ? b->size : 0; }
void* halloc(size_t n) { return arena_alloc(n, false, 0); }
void hfree(void* p) { arena_free(p); }
static bool g_leak_checks = true;
void leak_checks(bool on) { g_leak_checks = on; }
uint64_t live_blocks() { return g_leak_checks ? g_live : 0; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t alloc_calls() { return g_alloc_calls; }
std::string leak_report() {
  std::string s; int n = 0;
  for (auto& b : g_blocks) if (b.live && b.lib) { if (n++ < 6) s += " " + std::to_string(b.size) + "B"; }
  return std::to_string(n) + " block(s) not freed:" + s;
}
void check_no_leaks(const char* what) {
  if (g_leak_checks && g_live) violation("leak", "%s: %s", what, leak_report().c_str());
  if (fs::open_streams()) violation("leak", "%s: %d stream(s) not closed", what, fs::open_streams());
  if (fs::open_dirs()) violation("leak", "%s: %d directory stream(s) not closed", what, fs::open_dirs());
}
void fail_alloc_at(int64_t n) { g.cur->fail_at = n; g.cur->fail_fired = false; }
bool fail_alloc_fired() { return g.cur->fail_fired; }

static bool alloc_fault() {
  g_alloc_calls++;
  Fiber* c = g.cur;
  if (c && c->fail_at >= 0) {
    if (c->fail_at-- == 0) { c->fail_fired = true; g.ffire[F_MALLOC]++; mix(g.hash, 77); return true; }
  }
  return fault(F_MALLOC);
}

// ------------------------------------------------------------------ faults & choices
bool fault(FaultKind k) {
  if (!g.active) return false;
  uint64_t idx = g.fvis[k]++;
  bool fire = false;
  if (g.replay) fire = g.rfaults.count({(int)k, (int)idx}) != 0;
  else {
    const FaultSpec& f = g.fspec[k];
    if (f.rate || f.nth >= 0) {
      bool want = (f.nth >= 0 && (int64_t)idx >= f.nth && (int64_t)idx < f.nth + f.len);
      if (f.rate && g.frng.below(65536) < f.rate) want = true;
      if (want && g.faults_on && !g.cur->nofault && (int64_t)g.ffire[k] < f.maxfires && !g.fair) fire = true;
    }
    if (fire) g.ftrace.push_back({(int)k, (int)idx});
  }
  if (fire) { g.ffire[k]++; mix(g.hash, 0xFA00 + k); mix(g.hash, idx); mix(g.schedsig, 0xFA00 + k); }
  return fire;
}
bool choose_fault(FaultKind k) { return fault(k); }
void faults(bool on) { g.faults_on = on; }
NoFaults::NoFaults() { old = true; g.cur->nofault++; }
NoFaults::~NoFaults() { g.cur->nofault--; }
uint64_t fault_fired(FaultKind k) { return g.ffire[k]; }
uint64_t fault_visits(FaultKind k) { return g.fvis[k]; }

static void record(int16_t kind, int16_t val) {
  if (g.trace.size() < (size_t)kMaxTrace) g.trace.push_back({(uint32_t)g.step, kind, val});
  else g.trace_ovf = true;
}
static const Dec* replay_dec(int16_t kind) {
  while (g.rpos < g.rtrace.size() && g.rtrace[g.rpos].step < g.step) g.rpos++;
  for (size_t i = g.rpos; i < g.rtrace.size() && g.rtrace[i].step == g.step; i++)
    if (g.rtrace[i].kind == kind) return &g.rtrace[i];
  return nullptr;
}
uint32_t pick(uint32_t n) {
  if (n <= 1 || !g.active) return 0;
  g.step++;
  uint32_t v = 0;
  if (g.replay) { const Dec* d = replay_dec(D_PICK); if (d) { v = (uint32_t)d->val % n; } }
  else v = (uint32_t)g.sched.below(n);
  if (v) record(D_PICK, (int16_t)v);
  mix(g.hash, 0x9100 + v);
  return v;
}

// ------------------------------------------------------------------ scheduler
struct Conf { uintptr_t gran; int16_t last; bool wrote; };
static Conf g_conf[8192];

Fiber* new_fiber(const char* name, std::function<void()> fn) {
  if (g.fib.size() >= (size_t)kMaxFibers) violation("thread-limit", "more than %d threads created", kMaxFibers);
  Fiber* f = new Fiber;
  f->id = (int)g.fib.size();
  hb_release(f->vc);                 // what its creator did is visible to it
  f->fn = std::move(fn);
  snprintf(f->name, sizeof f->name, "%s", name);
  f->lo = kStackBase + f->id * kStackSlot + (kStackSlot - kStackSize);
  f->hi = f->lo + kStackSize;
  if (mprotect((void*)f->lo, kStackSize, PROT_READ | PROT_WRITE)) violation("sim-limit", "stack");
  g.fib.push_back(f);
  extern void fiber_entry();
  uintptr_t* sp = (uintptr_t*)(f->hi - 64);
  sp = (uintptr_t*)((uintptr_t)sp & ~15ull);
  *--sp = 0;                       // fake return address of entry => alignment
  *--sp = (uintptr_t)&fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  f->prio = g.replay ? 0 : (int)g.sched.below(1000000) + 1000;
  return f;
}

// thread-local variables of the library (none today) get one copy per fiber
static char* g_tls = nullptr; static size_t g_tls_n = 0; static std::string g_tls_init;
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      g_tls = (char*)i->dlpi_tls_data; g_tls_n = i->dlpi_phdr[k].p_memsz;
      g_tls_init.assign(g_tls, g_tls_n);
    }
  return 1;   // the first object is the executable itself
}
static void swap_tls(Fiber* from, Fiber* to) {
  if (!g_tls_n) return;
  from->tls.assign(g_tls, g_tls_n);
  if (to->tls.empty()) to->tls = g_tls_init;
  memcpy(g_tls, to->tls.data(), g_tls_n);
}

static void switch_to(Fiber* f) {
  Fiber* c = g.cur;
  if (f == c) return;
  swap_tls(c, f);
  g.switches++;
  mix(g.hash, (g.step << 8) ^ (uint64_t)f->id);
  c->saved_errno = errno;
  g.prev = c->id;
  f->run_steps = 0;
  g.cur = f;
  sim_ctx_switch(&c->sp, f->sp);
  // resumed: g.cur was set by whoever switched to us
  errno = g.cur->saved_errno;
}

static void recompute_min_wake() {
  g.min_wake = kNever;
  for (Fiber* f : g.fib) if (f->st == FS_BLOCK && f->deadline < g.min_wake) g.min_wake = f->deadline;
}
static void wake_sleepers() {
  if (g.min_wake > g.now) return;
  for (Fiber* f : g.fib)
    if (f->st == FS_BLOCK && f->deadline <= g.now) { f->st = FS_RUN; f->wake = WK_TIMEOUT; f->deadline = kNever; f->waitobj = nullptr; }
  recompute_min_wake();
}
void wake_fiber(Fiber* f, Wake w) {
  if (f->st != FS_BLOCK) return;
  f->st = FS_RUN; f->wake = w; f->waitobj = nullptr;
  if (f->deadline != kNever) { f->deadline = kNever; recompute_min_wake(); }
}
void wake_all(const void* obj) {
  for (Fiber* f : g.fib) if (f->st == FS_BLOCK && f->waitobj == obj) wake_fiber(f, WK_OK);
}

static int g_idle_obj;
static const void* kIdle = &g_idle_obj;
static uint64_t g_idle_limit = 0;

static std::string states() {
  std::string s;
  for (Fiber* f : g.fib) {
    if (f->st == FS_DONE) continue;
    char b[128];
    snprintf(b, sizeof b, " T%d(%s):%s%s", f->id, f->name, f->st == FS_RUN ? "runnable" : "blocked in ", f->st == FS_RUN ? "" : f->waitwhat);
    s += b;
  }
  return s;
}

static Fiber* next_rr(Fiber* c) {
  int n = (int)g.fib.size(), base = c ? c->id : 0;
  for (int i = 1; i <= n; i++) { Fiber* f = g.fib[(base + i) % n]; if (f->st == FS_RUN) return f; }
  return nullptr;
}

static Fiber* random_runnable(Fiber* except) {
  Fiber* v[kMaxFibers]; int n = 0;
  for (Fiber* f : g.fib) if (f->st == FS_RUN && f != except && f->stalled_until <= g.step) v[n++] = f;
  if (!n) for (Fiber* f : g.fib) if (f->st == FS_RUN && f != except) v[n++] = f;
  return n ? v[g.sched.below(n)] : nullptr;
}
static Fiber* top_prio() {
  Fiber* b = nullptr;
  for (Fiber* f : g.fib) if (f->st == FS_RUN && (!b || f->prio > b->prio)) b = f;
  return b;
}

// mode: 0 = may preempt, 1 = current is blocked/finished, 2 = forced yield
static void decide(int mode, bool conflict, uintptr_t pc) {
  Fiber* c = g.cur;
  g.step++;
  g.now += 20;
  c->run_steps++;
  if (g.bytes >= kMaxBytes && !g.main_done)
    violation("no-progress", "not finished after %llu steps and %llu MB of memory traffic:%s", (unsigned long long)g.step, (unsigned long long)(g.bytes >> 20), states().c_str());
  if (g.step >= g.max_steps) {
    if (g.main_done) finish_ok();
    violation("no-progress", "not finished after %llu steps, the last half of them without faults and under a fair schedule:%s",
              (unsigned long long)g.step, states().c_str());
  }
  if (!g.fair && g.step >= g.max_steps / 2) g.fair = true;
  if (g.crash_step && g.step >= g.crash_step && !g.crashed && g.controller >= 0) {
    g.crashed = true; g.ffire[F_CRASH]++;
    for (Fiber* f : g.fib) if (f->id != g.controller && f->st != FS_DONE) f->st = FS_DONE;
    recompute_min_wake();
    Fiber* k = g.fib[g.controller];
    if (k->st == FS_BLOCK) wake_fiber(k, WK_OK);
    if (k != c) { switch_to(k); return; }
  }
  if (g.min_wake != kNever) {
    wake_sleepers();
    bool adv = false;
    if (g.replay) adv = replay_dec(D_ADVANCE) != nullptr;
    else if (mode != 1 && g.strat.p_adv && g.sched.below(65536) < g.strat.p_adv) adv = true;
    if (adv && g.min_wake != kNever) {
      record(D_ADVANCE, 0);
      if (g.now < g.min_wake) g.now = g.min_wake;
      wake_sleepers();
    }
  }
  if (mode == 0 && c->run_steps >= 4000) mode = 2;
  Fiber* def;
  if (mode == 0) def = c;
  else {
    def = next_rr(c);
    // only the spinning thread itself is runnable: let time pass
    while (!def || (mode == 2 && def == c && g.min_wake != kNever)) {
      Fiber* idle = nullptr;
      for (Fiber* f : g.fib) if (f->st == FS_BLOCK && f->waitobj == kIdle) idle = f;
      if (idle && !def && (g.min_wake > g_idle_limit)) { wake_fiber(idle, WK_OK); def = next_rr(c); break; }
      if (g.min_wake == kNever) {
        if (g.main_done) finish_ok();
        violation("deadlock", "every thread is blocked:%s", states().c_str());
      }
      if (g.now < g.min_wake) g.now = g.min_wake;
      wake_sleepers();
      def = next_rr(c);
    }
  }
  Fiber* t = def;
  if (g.replay) {
    const Dec* d = replay_dec(D_SWITCH);
    if (d && d->val >= 0 && d->val < (int)g.fib.size() && g.fib[d->val]->st == FS_RUN) t = g.fib[d->val];
  } else {
    const Strat& s = g.strat;
    int type = g.fair ? 1 : s.type;
    uint32_t pb = g.fair ? 1024 : s.p_base;
    if (mode == 0) {
      bool go = false;
      switch (type) {
        case 1: go = g.sched.below(65536) < pb; break;
        case 2: go = g.sched.below(65536) < (conflict ? s.p_conf : pb); break;
        case 4: go = g.sched.below(65536) < (((uint32_t)((pc >> 2) * 2654435761u) >> 16) % s.site_mod == s.site_sel ? s.p_conf : pb); break;
        case 3: {
          Strat& w = g.strat;
          if (w.ci < w.change.size() && g.step >= w.change[w.ci]) { w.ci++; c->prio = --w.lowest; }
          Fiber* b = top_prio(); if (b) t = b; break;
        }
        default: break;
      }
      if (c->stalled_until > g.step) go = true;
      if (go) { Fiber* r = random_runnable(c); if (r) t = r; }
    } else if (type == 3) {
      if (mode == 2) c->prio = --g.strat.lowest;
      Fiber* b = top_prio(); if (b) t = b;
    } else if (type != 0) {
      Fiber* r = random_runnable(nullptr); if (r) t = r;
    }
  }
  if (t != def) record(D_SWITCH, (int16_t)t->id);
  if (mode == 2) c->run_steps = 0;
  if (t != c) { mix(g.schedsig, (uint64_t)(t->id + 1) * 1000003ull + (pc & 0xFFFFFF)); switch_to(t); }
}

void deliver_signals() {
  Fiber* c = g.cur;
  while (uint64_t p = c->pending & ~c->sigmask) {
    int sig = __builtin_ctzll(p);
    c->pending &= ~(1ull << sig);
    auto it = g.sighandlers.find(sig);
    if (it == g.sighandlers.end() || it->second == nullptr) violation("killed-by-signal", "signal %d delivered with default action", sig);
    if (it->second == (void (*)(int))1) continue;
    uint64_t old = c->sigmask;
    c->sigmask |= 1ull << sig;
    int e = errno;
    mix(g.hash, 0x5160 + sig);
    it->second(sig);
    errno = e;
    c->sigmask = old;
  }
}
void signal_fiber(Fiber* f, int sig) {
  f->pending |= 1ull << sig;
  g.ffire[F_SIGNAL]++;
  if (f->st == FS_BLOCK && !(f->sigmask & (1ull << sig))) wake_fiber(f, WK_SIGNAL);
}

void point(const void* addr, bool write, uintptr_t pc) {
  if (!g.active || !g.cur) return;
  g_pc = pc;
  uintptr_t a = (uintptr_t)addr;
  if (a >= g.cur->lo && a < g.cur->hi) return;
  bool conf = false;
  if (a) {
    uintptr_t gr = a >> 3;
    Conf& e = g_conf[(gr * 0x9E3779B97F4A7C15ull) >> 51];
    if (e.gran == gr) { conf = e.last != g.cur->id && (e.wrote || write); if (e.last != g.cur->id) { e.wrote = write; e.last = (int16_t)g.cur->id; } else e.wrote |= write; }
    else { e.gran = gr; e.last = (int16_t)g.cur->id; e.wrote = write; }
  } else conf = true;
  decide(0, conf, pc);
  if (g.cur->pending) deliver_signals();
}
void forced_yield() {
  if (!g.active) return;
  decide(2, false, 0);
  if (g.cur->pending) deliver_signals();
}
void yield() { point(nullptr, false, 0x1111); }

Wake block(const void* obj, uint64_t deadline, const char* what) {
  Fiber* c = g.cur;
  if (c->pending & ~c->sigmask) { deliver_signals(); return WK_SIGNAL; }
  c->st = FS_BLOCK; c->waitobj = obj; c->waitwhat = what; c->deadline = deadline; c->wake = WK_OK;
  if (deadline < g.min_wake) g.min_wake = deadline;
  decide(1, false, 0);
  Wake w = c->wake;
  if (c->pending) deliver_signals();
  return w;
}

void fiber_entry() {
  Fiber* f = g.cur;
  errno = 0;
  if (f->pending) deliver_signals();
  f->fn();
  f->st = FS_DONE;
  mix(g.hash, 0xD0E + f->id);
  wake_all(f);
  decide(1, false, 0);
  abort();
}

int spawn(const char* name, std::function<void()> fn) { return new_fiber(name, std::move(fn))->id; }
bool fiber_done(int id) { return g.fib[id]->st == FS_DONE; }
void join(int id) {
  Fiber* f = g.fib[id];
  while (f->st != FS_DONE) block(f, kNever, "join client");
  hb_acquire(f->vc);
}
void join_all_clients() {
  for (size_t i = 1; i < g.fib.size(); i++) if (!g.fib[i]->libthread && g.fib[i] != g.cur) join((int)i);
}
void usleep_sim(uint64_t us) {
  uint64_t d = g.now + us * 1000;
  while (g.now < d) { block(&g, d, "sleep"); }
}
void settle(uint64_t ns) {
  g_idle_limit = g.now + ns;
  g.cur->waitobj = nullptr;
  block(kIdle, kNever, "settle");
  hb_all();
}
bool wait_until(const std::function<bool()>& cond, uint64_t max_polls) {
  for (uint64_t i = 0; i < max_polls; i++) { if (cond()) { hb_all(); return true; } usleep_sim(1000); }
  hb_all();
  return cond();
}
int live_threads() { int n = 0; for (Fiber* f : g.fib) if (f->libthread && f->st != FS_DONE) n++; return n; }
int created_threads() { return g.created; }
int unjoined_threads() { int n = 0; for (Fiber* f : g.fib) if (f->libthread && !f->detached && !f->joined) n++; return n; }

// ------------------------------------------------------------------ clock
int64_t wall_ns() { return g.frozen ? g.frozen_at : (int64_t)g.now + g.wall_off; }
void wall_set(int64_t ns) { g.wall_off = ns - (int64_t)g.now; if (g.frozen) g.frozen_at = ns; }
void wall_jump(int64_t d) { g.ffire[F_CLOCK]++; if (g.frozen) g.frozen_at += d; g.wall_off += d; }
void clock_freeze(bool on) {
  if (on && !g.frozen) { g.frozen_at = wall_ns(); g.frozen = true; }
  else if (!on && g.frozen) { g.frozen = false; g.wall_off = g.frozen_at - (int64_t)g.now; }
}

extern "C" { extern char sim_lib_data_a[], sim_lib_data_b[], sim_lib_bss_a[], sim_lib_bss_b[]; }
static std::string g_data0, g_bss0;
static void snapshot_globals() { g_data0.assign(sim_lib_data_a, sim_lib_data_b); g_bss0.assign(sim_lib_bss_a, sim_lib_bss_b); }
static void reset_process() {      // the next process starts with fresh globals, locks, heap and streams
  memcpy(sim_lib_data_a, g_data0.data(), g_data0.size()); memcpy(sim_lib_bss_a, g_bss0.data(), g_bss0.size());
  sync_reset(); fs_reset();
  for (Block& b : g_blocks) if (b.live && b.lib) { b.lib = false; g_live--; g_live_bytes -= b.size; }
  for (Fiber* f : g.fib) if (f->libthread) f->joined = true;
  g.sighandlers.clear(); g.sigflags.clear();
}
bool run_incarnation(std::function<void()> fn, uint64_t crash_step) {
  g.controller = g.cur->id;
  g.crashed = false;
  Fiber* f = new_fiber("process", std::move(fn));
  g.crash_step = crash_step ? g.step + crash_step : 0;
  while (f->st != FS_DONE && !g.crashed) block(f, kNever, "incarnation");
  hb_all();
  bool c = g.crashed;
  if (c) reset_process();
  g.crash_step = 0; g.controller = -1;
  return c;
}

// ------------------------------------------------------------------ process set-up
static void on_crash(int sig, siginfo_t* si, void*) {
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
  const char* n = sig == SIGSEGV ? "segv" : sig == SIGBUS ? "bus" : sig == SIGFPE ? "fpe" : sig == SIGILL ? "ill" : "crash";
  violation(n, "the code crashed with signal %d%s", sig, sig == SIGSEGV && (uintptr_t)si->si_addr < 4096 ? " (null pointer)" : "");
}
static uint64_t g_last_step; static int g_stuck, g_cpu;
static void on_prof(int) {
  if (++g_cpu >= 60) {           // far beyond the longest run of code that ends; the point it has reached depends on the machine, so the result carries none
    g.step = 0; g.now = 0; g.hash = 0x60; g.trace_ovf = true;
    violation("endless", "no end of the run after 60 seconds of CPU time");
  }
  if (g.step == g_last_step) { if (++g_stuck >= 6) violation("hang", "no simulated step for 6 seconds of CPU time (endless loop)"); }
  else { g_stuck = 0; g_last_step = g.step; }
}

void init_process() {
  static bool done = false;
  if (done) return;
  done = true;
  auto map = [](uintptr_t a, size_t n, int prot) {
    void* p = mmap((void*)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "simulator: cannot map arena\n"); _exit(4); }
  };
  map(kArenaBase, kArenaSize, PROT_READ | PROT_WRITE);
  map(kShadowBase, kArenaSize / 8, PROT_READ | PROT_WRITE);
  map(kStackBase, kStackSlot * kMaxFibers, PROT_NONE);
  dl_iterate_phdr(tls_cb, nullptr);
}

void start_run(const Scenario& sc, const Plan& plan, const RunCfg& cfg, Result* res, bool replay, uint64_t seed,
               const std::vector<Dec>* trace, const std::vector<FaultRec>* faults_in) {
  static char alt[65536];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  struct sigaction sp{}; sp.sa_handler = on_prof; sp.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sp, nullptr);
  struct itimerval tv{}; tv.it_interval.tv_sec = 1; tv.it_value.tv_sec = 1; setitimer(ITIMER_PROF, &tv, nullptr);

  g.res = res; res->status = 0; res->loglen = 0; res->log[0] = 0; res->msg[0] = 0; res->cls[0] = 0; res->ntrace = res->nfault = 0; res->npcs = 0;
  g.cfg = cfg; g.max_steps = (uint64_t)cfg.max_steps;
  g.replay = replay;
  g.trace.reserve(1024);
  if (replay) { g.rtrace = *trace; for (auto& f : *faults_in) g.rfaults.insert({f.kind, f.idx}); }
  else {
    g.sched = Rng(seed * 0x9E3779B97F4A7C15ull + 11); g.frng = Rng(seed * 0xD1B54A32D192ED03ull + 17);
    for (int i = 0; i < F_N; i++) g.fspec[i] = plan.f[i];
    Strat& s = g.strat;
    Rng& r = g.sched;
    switch (r.below(10)) {
      case 0: s.type = 0; break;
      case 1: case 2: s.type = 1; s.p_base = 65536 >> r.pick({1, 3, 5, 7, 9}); break;
      case 3: case 4: case 5: s.type = 2; s.p_conf = 65536 >> r.pick({1, 2, 3, 4}); s.p_base = r.pick({0u, 16u, 128u, 1024u}); break;
      case 6: case 7: {
        s.type = 3; int d = (int)r.range(1, 5); int64_t k = r.logrange(64, 60000);
        for (int i = 0; i < d; i++) s.change.push_back((uint64_t)r.range(1, k));
        std::sort(s.change.begin(), s.change.end()); break;
      }
      default: s.type = 4; s.site_mod = (uint32_t)r.pick({8, 16, 32}); s.site_sel = (uint32_t)r.below(s.site_mod); s.p_conf = r.pick({16384u, 32768u, 60000u}); s.p_base = r.pick({0u, 32u, 256u}); break;
    }
    s.p_adv = r.pick({0u, 0u, 20u, 200u, 2000u});
  }
  g.wall_off = 1700000000ll * 1000000000ll + 123456789;
  snapshot_globals();
  sync_init(); fs_init();
  const Plan* pp = &plan; const Scenario* psc = &sc;
  Fiber* m = new_fiber("main", [pp, psc] {
    g.faults_on = true;
    psc->run(*pp);
    g.main_done = true;
    g.max_steps = std::max<uint64_t>(g.max_steps, g.step + 50000);
  });
  g.active = true;
  g.cur = m;
  sim_ctx_switch(&g.root_sp, m->sp);
}

// ------------------------------------------------------------------ linearizability
bool linearizable(const std::vector<LinOp>& ops, size_t, const std::function<void(std::string&)>& init,
                  const std::function<bool(std::string&, int)>& apply) {
  size_t n = ops.size();
  if (n > 60) return true;  // callers keep histories short
  std::set<std::pair<uint64_t, std::string>> seen;
  std::function<bool(uint64_t, std::string&)> go = [&](uint64_t done, std::string& st) -> bool {
    if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    if (!seen.insert({done, st}).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && ops[i].ret < minret) minret = ops[i].ret;
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (ops[i].inv > minret) continue;
      std::string s2 = st;
      if (apply(s2, ops[i].id) && go(done | (1ull << i), s2)) return true;
    }
    return false;
  };
  std::string s; init(s);
  return go(0, s);
}
}  // namespace sim

// ==================================================================== tsan runtime
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
static inline void acc(void* a, size_t n, bool w, uintptr_t pc, bool atomic = false) {
  if (!g.active) return;
  uintptr_t x = (uintptr_t)a;
  if (x >= g.cur->lo && x < g.cur->hi) return;
  point(a, w, pc);
  sim::g_atomic_access = atomic;
  access_check(x, n, w, pc, "load/store");
  sim::g_atomic_access = false;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g.active && g.cur) { if (g.cur->cs.size() < 4000) g.cur->cs.push_back((uintptr_t)pc); else violation("stack-overflow", "runaway recursion"); } }
void __tsan_func_exit() { if (g.active && g.cur && !g.cur->cs.empty()) g.cur->cs.pop_back(); }
#define RW(N) \
  void __tsan_read##N(void* a) { acc(a, N, false, PC); } \
  void __tsan_write##N(void* a) { acc(a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { acc(a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { acc(a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { acc(a, N, false, PC, true); if (g.active) hb_atomic(a, __ATOMIC_RELAXED, true, false); } \
  void __tsan_volatile_write##N(void* a) { acc(a, N, true, PC, true); if (g.active) hb_atomic(a, __ATOMIC_RELAXED, false, true); } \
  void __tsan_unaligned_volatile_read##N(void* a) { acc(a, N, false, PC, true); if (g.active) hb_atomic(a, __ATOMIC_RELAXED, true, false); } \
  void __tsan_unaligned_volatile_write##N(void* a) { acc(a, N, true, PC, true); if (g.active) hb_atomic(a, __ATOMIC_RELAXED, false, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { acc(a, n, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_atomic_thread_fence(int o) { if (g.active) { point(nullptr, false, PC); hb_atomic(nullptr, o, true, true); } }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int m) { acc((void*)a, sizeof(T), false, PC, true); hb_atomic((void*)a, m, true, false); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, false, true); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), v != 0, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), v != 0, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), v != 0, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), v != 0, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int m) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int m, int) { acc((void*)a, sizeof(T), true, PC, true); hb_atomic((void*)a, m, true, true); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
// memory allocation as seen by the library
void* sim_malloc(size_t n) { point(nullptr, false, PC); if (alloc_fault()) { errno = ENOMEM; return nullptr; } return arena_alloc(n, true, (int)g.cfg.fill); }
void* sim_calloc(size_t a, size_t b) {
  point(nullptr, false, PC);
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(a * b, true, 0);
}
void sim_free(void* p) { point(nullptr, false, PC); int e = errno; arena_free(p); errno = e; }
void* sim_realloc(void* p, size_t n) {
  point(nullptr, false, PC);
  if (!p) { if (alloc_fault()) { errno = ENOMEM; return nullptr; } return arena_alloc(n, true, (int)g.cfg.fill); }
  size_t old = block_size(p);
  Block* b = block_of(p);
  if (!b) violation("invalid-free", "realloc of a pointer that is not the start of a heap block");
  if (!b->live) violation("use-after-free", "realloc of a freed block of %zu bytes", b->size);
  if (n == 0) { arena_free(p); return nullptr; }
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  void* q = arena_alloc(n, true, (int)g.cfg.fill);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  arena_free(p);
  return q;
}
}
