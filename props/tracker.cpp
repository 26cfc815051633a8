#include "common.h"
extern "C" {
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
}
#include <set>
#include "client_mem.h"
namespace {
typedef unsigned long long ull;
// the second three have names longer than the report keeps
#define L50 "/a_folder_with_a_long_name/and_another_one_below_it"
const char* kFile[] = {"a.c", "src/some/longer/path/of/a/file.c", "x.cpp", L50 L50 "/file.c", L50 L50 L50 "/file.c", L50 L50 L50 L50 L50 L50 "/x.cpp", client_mem_file()};
const char* kFn[] = {"main", "do_something", "f", "a_function_with_thirty_two_chars", "a_function_with_a_name_of_more_than_thirty_two_characters", "operator_of_a_template_with_a_name_longer_than_anything_that_a_report_keeps_for_a_function_or_a_file_because_it_spells_out_all_of_its_arguments", client_mem_func()};
// what a report may show for a name: the name, or the start or end of a long one
bool shown(const char* got, const char* name, size_t full) {
  if (!got) return false;
  size_t g = strlen(got), n = strlen(name);
  if (g == n) return !strcmp(got, name);
  return n >= full && g >= 16 && g < n && (!memcmp(got, name, g) || !memcmp(got, name + n - g, g));
}
struct B { uint8_t* p; size_t n; size_t tracked; bool slack; uint64_t id; int src; int line; uint64_t inv, ret, finv, fret; bool busy; };
struct World {
  bool on = false;
  std::vector<std::unique_ptr<B>> all;      // every block ever returned
  std::vector<B*> live;
  uint64_t nid = 0;
};
World* W;
uint8_t bb(uint64_t id, uint64_t i) { return pat(5000 + id, i); }
void fillb(B* b) { for (size_t i = 0; i < b->n; i++) b->p[i] = bb(b->id, i); }
void checkb(const uint8_t* p, uint64_t id, size_t n, const char* when) { for (size_t i = 0; i < n; i++) SIM_CHECK(p[i] == bb(id, i), "contents", "byte %zu of a %zu byte block changed (%s): %02x, stored %02x", i, n, when, p[i], bb(id, i)); }
B* add(uint8_t* p, size_t n, bool slack, int src, int line, uint64_t inv) {
  check_mem(p, n, true, "returned block");
  for (B* o : W->live) { uintptr_t a = (uintptr_t)p, b = (uintptr_t)o->p; size_t an = n ? n : 1, bn = o->n ? o->n : 1; SIM_CHECK(a + an <= b || b + bn <= a, "overlap", "a new block of %zu bytes overlaps a live one of %zu bytes", n, o->n); }
  B* b = new B{p, n, n, slack, W->nid++, src, line, inv, seq(), ~0ull, ~0ull, false};
  W->all.emplace_back(b); W->live.push_back(b); handover();
  return b;
}
// the trace variants carry an origin, the plain ones none; origin 6 is a C program that uses the macros of mem_debug.h
void* call_malloc(size_t n, int src, int& line) { return src == 6 ? client_mem(MEM_MALLOC, nullptr, n, 0, &line) : src < 0 ? line % 2 ? allocator_malloc.alloc(n) : lcu_malloc(n) : lcu_malloc_trace(n, kFile[src], kFn[src], line); }
void* call_calloc(size_t c, size_t n, int src, int& line) { return src == 6 ? client_mem(MEM_CALLOC, nullptr, c, n, &line) : src < 0 ? c == 1 && line % 2 ? allocator_calloc.alloc(n) : lcu_calloc(c, n) : lcu_calloc_trace(c, n, kFile[src], kFn[src], line); }
void* call_realloc(void* p, size_t n, int src, int& line) { return src == 6 ? client_mem(MEM_REALLOC, p, n, 0, &line) : src < 0 ? lcu_realloc(p, n) : lcu_realloc_trace(p, n, kFile[src], kFn[src], line); }
char* call_strdup(char* s, int src, int& line) { return src == 6 ? (char*)client_mem(MEM_STRDUP, s, 0, 0, &line) : src < 0 ? lcu_strdup(s) : lcu_strdup_trace(s, kFile[src], kFn[src], line); }
char* call_strndup(char* s, size_t m, int src, int& line) { return src == 6 ? (char*)client_mem(MEM_STRNDUP, s, m, 0, &line) : src < 0 ? lcu_strndup(s, m) : lcu_strndup_trace(s, m, kFile[src], kFn[src], line); }

struct Nums { uint64_t lib, bytes; };
Nums nums() { return {live_blocks(), live_bytes()}; }
// ok: the call got a block; faulted: an allocation failed inside the call
void outcome(const char* fn, size_t n, bool got, bool faulted, bool alone, Nums before) {
  if (!got) {
    SIM_CHECK(faulted, "null", "%s of %zu bytes returned NULL although memory was available", fn, n);
    if (alone) SIM_CHECK(live_blocks() == before.lib, "leak", "%s of %zu bytes failed but left %lld more heap blocks", fn, n, (long long)(live_blocks() - before.lib));
  }
}
void take_out(B* b) { for (size_t i = 0; i < W->live.size(); i++) if (W->live[i] == b) { W->live.erase(W->live.begin() + (long)i); return; } }
B* any(uint64_t r) { handover(); std::vector<B*> v; for (B* b : W->live) if (!b->busy) v.push_back(b); return v.empty() ? nullptr : v[r % v.size()]; }

size_t report_sum; std::set<void*> rep_seen;
void on_leak(void* p, size_t n, char* f, char* fn, int line, void* ud) {
  SIM_CHECK(ud == (void*)W, "report", "foreign user data in a leak report");
  SIM_CHECK(rep_seen.insert(p).second, "report-twice", "block reported twice");
  B* hit = nullptr; for (auto& b : W->all) if (b->p == p && (b->fret == ~0ull || b->busy)) hit = b.get();
  if (hit) {
    SIM_CHECK(hit->slack ? n >= hit->n && n <= 4096 + 3 * std::max(hit->n, hit->tracked) : n == hit->n, "report-size", "a block of %zu bytes is reported with %zu bytes", hit->n, n);
    if (hit->src >= 0) SIM_CHECK(shown(f, kFile[hit->src], 112) && shown(fn, kFn[hit->src], 31) && line == hit->line, "report-origin", "the block allocated at %s %s:%d is reported at %s %s:%d", kFile[hit->src], kFn[hit->src], hit->line, f ? f : "-", fn ? fn : "-", line);
    else for (int i = 0; i < 7; i++) SIM_CHECK(!(f && *f && !strcmp(f, kFile[i])) && !(fn && *fn && !strcmp(fn, kFn[i])), "report-origin", "a block allocated without an origin is reported at %s %s", f ? f : "-", fn ? fn : "-");
  }
  report_sum += n;
}
// quiescent: nothing else runs
void account(const char* when) {
  report_sum = 0; rep_seen.clear();
  size_t s = allocation_tracker_expect_no_allocations(on_leak, W);
  if (!W->on) { SIM_CHECK(s == 0 && rep_seen.empty(), "report", "an uninitialised tracker reports %zu bytes", s); return; }
  SIM_CHECK(s == report_sum, "report-sum", "%s: %zu bytes returned, the reports add up to %zu", when, s, report_sum);
  SIM_CHECK(rep_seen.size() == W->live.size(), "report-count", "%s: %zu blocks are live but %zu were reported", when, W->live.size(), rep_seen.size());
  size_t exact = 0; bool slack = false;
  for (B* b : W->live) { SIM_CHECK(rep_seen.count(b->p), "report-missing", "%s: a live block of %zu bytes was not reported", when, b->n); exact += b->n; slack |= b->slack; }
  SIM_CHECK(slack ? s >= exact : s == exact, "report-sum", "%s: live blocks have %zu bytes, %zu reported", when, exact, s);
}
// the checker running next to allocating threads
void concurrent_report() {
  uint64_t inv = seq();
  static thread_local int dummy; (void)dummy;
  struct C { std::vector<std::pair<void*, size_t>> v; } c;
  size_t s = allocation_tracker_expect_no_allocations([](void* p, size_t n, char*, char*, int, void* u) { ((C*)u)->v.push_back({p, n}); }, &c);
  uint64_t ret = seq();
  size_t sum = 0; std::set<void*> seen;
  for (auto& x : c.v) { sum += x.second; SIM_CHECK(seen.insert(x.first).second, "report-twice", "block reported twice"); }
  SIM_CHECK(sum == s, "report-sum", "%zu bytes returned, the reports add up to %zu", s, sum);
  for (auto& b : W->all) if (b->ret < inv && b->finv > ret) SIM_CHECK(seen.count(b->p), "report-missing", "a block of %zu bytes, live during the whole report, was not reported", b->n);
}
// ops: 0 malloc, 1 calloc, 2 strdup, 3 strndup, 4 realloc own, 5 realloc(NULL), 6 free, 7 realloc(p,0), 8 report, 9 yield, 10 huge, 11 free_and_reset, 12 free(NULL)
void op(const Op& o, bool alone) {
  size_t n = (size_t)(o.a < 0 ? 0 : o.a); int src = (int)(o.b % 4) - 1, line = (int)(o.c & 0xffff); if (src > 2) src = 2; if (src < -1) src = -1; if (src >= 0 && line % 3 == 0) src += 3; if (src >= 0 && line % 7 == 0) src = 6;
  int64_t failn = o.c >> 20;
  Nums before = nums(); uint64_t inv = seq();
  auto arm = [&] { if (alone && failn > 0) fail_alloc_at(failn - 1); };
  uint64_t f0 = fault_fired(F_MALLOC);
  auto faulted = [&] { bool f = fail_alloc_fired() || fault_fired(F_MALLOC) != f0; fail_alloc_at(-1); return f; };
  switch (o.k) {
    case 0: { arm(); uint8_t* p = (uint8_t*)call_malloc(n, src, line); bool f = faulted(); outcome("malloc", n, p != nullptr, f, alone, before); if (p) fillb(add(p, n, false, src, line, inv)); break; }
    case 1: {
      size_t item = (size_t)(1 + o.b / 4 % 7); if (src < 0 && line % 2 && n) item = n; size_t cnt = n / item; arm();
      uint8_t* p = (uint8_t*)call_calloc(cnt, item, src, line); bool f = faulted(); outcome("calloc", cnt * item, p != nullptr, f, alone, before);
      if (p) { B* b = add(p, cnt * item, false, src, line, inv); for (size_t i = 0; i < b->n; i++) SIM_CHECK(p[i] == 0, "calloc", "byte %zu of a calloc block is %02x", i, p[i]); fillb(b); }
      break;
    }
    case 2: case 3: {
      size_t m = o.k == 2 ? n : (size_t)(o.b / 4 % 90);
      if (o.k == 3 && m >= 86) m = m == 86 ? n + 1 : m == 87 ? (size_t)1 << 32 : (size_t)-1;      // a limit beyond the text
      if (o.k == 3 && n > 300) m = o.b / 4 % 3 == 0 ? n + 5 : n - (size_t)(o.b / 4 % 200);
      bool open = o.k == 3 && m <= n && m % 2;                                                // a source without a terminator: only m bytes may be read
      if (open) n = m;
      char* s = (char*)halloc(n + 1 - open); for (size_t i = 0; i < n; i++) s[i] = (char)(1 + pat(n, i) % 255); if (!open) s[n] = 0;
      size_t len = o.k == 2 || n < m ? n : m;
      arm();
      char* p = o.k == 2 ? call_strdup(s, src, line) : call_strndup(s, m, src, line);
      bool f = faulted(); outcome(o.k == 2 ? "strdup" : "strndup", len + 1, p != nullptr, f, alone, before);
      if (p) { B* b = add((uint8_t*)p, len + 1, false, src, line, inv); SIM_CHECK(!memcmp(p, s, len) && p[len] == 0, "string", "the copied string differs"); fillb(b); }
      hfree(s); break;
    }
    case 4: {
      B* b = any((uint64_t)o.b / 4); if (!b || n == 0) break;
      b->busy = true; size_t old = b->n; uint8_t* op = b->p; uint64_t id = b->id;
      b->finv = inv;
      arm();
      uint8_t* p = (uint8_t*)call_realloc(op, n, src, line); bool f = faulted();
      if (!p) {
        outcome("realloc", n, false, f, alone, before);
        b->finv = ~0ull; b->busy = false; handover();
        check_mem(op, old, true, "block after a failed realloc"); checkb(op, id, old, "after a failed realloc");
        break;
      }
      check_mem(p, n, true, "reallocated block");
      checkb(p, id, old < n ? old : n, "across realloc");
      if (p == op) { b->n = n; b->tracked = old > b->tracked ? old : b->tracked; b->slack = true; b->busy = false; handover(); b->finv = ~0ull; fillb(b); }
      else { take_out(b); b->fret = seq(); b->busy = false; handover(); B* nb = add(p, n, true, src, line, inv); nb->tracked = n; fillb(nb); }
      break;
    }
    case 5: { if (n == 0) n = 1; arm(); uint8_t* p = (uint8_t*)call_realloc(nullptr, n, src, line); bool f = faulted(); outcome("realloc(NULL)", n, p != nullptr, f, alone, before); if (p) fillb(add(p, n, true, src, line, inv)); break; }
    case 6: case 7: case 11: {
      B* b = any((uint64_t)o.b / 4); if (!b) break;
      b->busy = true; checkb(b->p, b->id, b->n, "before free"); take_out(b); b->finv = inv;
      if (o.k == 6) { int z; if (b->src == 6) client_mem(MEM_FREE, b->p, 0, 0, &z); else if (b->line % 4) lcu_free(b->p); else (b->line % 8 ? allocator_malloc : allocator_calloc).free(b->p); }
      else if (o.k == 7) SIM_CHECK(lcu_realloc(b->p, 0) == nullptr, "realloc0", "realloc to 0 returned a block");
      else { void** pp = (void**)halloc(sizeof(void*)); *pp = b->p; lcu_free_and_reset(pp); SIM_CHECK(*pp == nullptr, "reset", "lcu_free_and_reset left the pointer"); lcu_free_and_reset(pp); hfree(pp); }
      b->fret = seq(); b->busy = false; handover();
      break;
    }
    case 8: if (alone) account("single thread"); else if (W->on) concurrent_report(); break;
    case 9: for (int64_t i = 0; i < o.a; i++) yield(); break;
    case 10: {      // sizes that overflow
      size_t big = (size_t)-1 - (size_t)(o.a % 40); void* p = nullptr;
      switch (o.b / 4 % 10) {
        case 9: p = o.a % 3 == 0 ? call_calloc(1, big, src, line) : o.a % 3 == 1 ? call_calloc(big, 1, src, line) : call_calloc((size_t)-1 / 3, 3, src, line); break;   // the product fits, but not with the guards
        case 5: p = call_malloc(((size_t)1 << 32) + (size_t)(o.a % 40), src, line); break;      // more than there is, however narrow the arithmetic
        case 6: p = call_calloc((size_t)1 << 16, ((size_t)1 << 16) + (size_t)(o.a % 3), src, line); break;
        case 7: p = call_realloc(nullptr, ((size_t)1 << 32) + (size_t)(o.a % 40), src, line); break;
        case 0: p = call_malloc(big, src, line); break;
        case 1: p = call_calloc((size_t)1 << 33, (size_t)1 << 31, src, line); break;
        case 2: p = call_calloc(((size_t)-1) / 3 + 2, 3, src, line); break;
        case 3: p = call_realloc(nullptr, (size_t)-1 - (size_t)(o.a % 3000), src, line); break;
        default: { B* b = any((uint64_t)o.b / 4); if (b) { b->busy = true; p = call_realloc(b->p, o.b / 4 % 10 == 8 ? ((size_t)1 << 32) + (size_t)(o.a % 9) : (size_t)-1 - (size_t)(o.a % 3000), src, line); checkb(b->p, b->id, b->n, "after a failed realloc"); b->busy = false; handover(); } }
      }
      SIM_CHECK(!p, "overflow", "a request whose size overflows returned a block");
      if (alone) SIM_CHECK(live_blocks() == before.lib, "leak", "a failed huge request left heap blocks");
      break;
    }
    default: lcu_free(nullptr);
  }
}
int64_t rsize(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return r.range(1, 8); case 2: return r.logrange(100, 5000); default: return r.range(1, 64); } }
Op rop(Rng& r, bool fail) {
  static const int w[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 4, 5, 6, 6, 6, 6, 7, 8, 9, 10, 11, 12};
  Op o; o.k = w[r.below(sizeof w / sizeof *w)];
  o.a = o.k == 9 ? r.range(1, 10) : o.k == 4 && r.chance(1, 3) ? r.logrange(1, 9000) : rsize(r); if (o.k == 2 || o.k == 3) if (o.a > 300) o.a = 300; if (o.k == 10) o.a = r.range(0, 4000);
  o.b = r.range(0, 3) + 4 * r.range(0, 5000); o.c = r.range(1, 60000) | (fail && r.chance(1, 2) ? r.range(1, 5) << 20 : 0);
  return o;
}
void teardown() {
  while (!W->live.empty()) { B* b = W->live.back(); W->live.pop_back(); checkb(b->p, b->id, b->n, "at the end"); lcu_free(b->p); b->fret = 0; }
  account("after everything was freed");
  allocation_tracker_uninit();
  check_no_leaks("after everything was freed");
}
void m1_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(2, 3);
  p.p = {1};
  int nc = (int)r.range(1, 4); p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(2, 14); for (int i = 0; i < n; i++) t.push_back(rop(r, false)); }
  if (r.chance(1, 3)) draw_fault(r, p, F_MALLOC, 10, 0, 1);
}
void m1_run(const Plan& p) {
  World w; W = &w;
  { NoFaults nf; allocation_tracker_init(); allocation_tracker_init(); w.on = true; }
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { for (auto& o : p.t[i]) op(o, false); });
  join_all_clients();
  faults(false);
  account("at rest");
  teardown();
}
// table growth with many live blocks
void m1g_gen(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 6000000; c.reuse = r.chance(1, 2);
  p.p = {r.range(1530, 1580), r.range(0, 1), r.range(0, 6)};
  p.t.resize(2); for (auto& t : p.t) for (int i = 0; i < 12; i++) t.push_back(rop(r, false));
}
void m1g_run(const Plan& p) {
  World w; W = &w; allocation_tracker_init(); w.on = true;
  std::vector<uint8_t*> v;
  int64_t n = P(p, 0);
  for (int64_t i = 0; i < n; i++) {
    if (P(p, 1) && i > 1500) fail_alloc_at(P(p, 2) % 3);
    uint8_t* q = (uint8_t*)lcu_malloc(8); bool f = fail_alloc_fired(); fail_alloc_at(-1);
    SIM_CHECK(q || f, "null", "malloc of 8 bytes returned NULL although memory was available");
    if (q) { memset(q, (int)i, 8); v.push_back(q); }
  }
  SIM_CHECK(allocation_tracker_expect_no_allocations([](void*, size_t, char*, char*, int, void*) {}, nullptr) == v.size() * 8, "report-sum", "wrong total with %zu live blocks", v.size());
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { for (auto& o : p.t[i]) if (o.k != 8) op(o, false); });
  join_all_clients();
  for (size_t i = 0; i < v.size(); i++) { lcu_free(v[i]); }
  teardown();
}
// blocks beyond 64 KB, and more blocks than 16 bits count
void m1b_gen(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 80000000; c.reuse = 1; p.p = {r.chance(1, 8) ? r.range(65600, 66500) : r.range(250, 600), r.range(1, 3), 1}; p.t.resize(1);
  for (int i = 0; i < 12; i++) { Op o = rop(r, false); if (o.k == 6 && r.chance(1, 2)) o.k = (int)r.range(1, 3); if (o.k <= 1 || o.k == 4 || o.k == 5) o.a = r.logrange(3000, 300000); else if (o.k == 2 || o.k == 3) o.a = r.chance(1, 2) ? r.range(65400, 140000) : r.logrange(200, 140000); p.t[0].push_back(o); }
}
void m1b_run(const Plan& p) {
  World w; W = &w; if (P(p, 2)) { allocation_tracker_init(); w.on = true; }
  std::vector<std::pair<uint8_t*, size_t>> v; size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 0), 1), 70000), sz = (size_t)P(p, 1, 1) & 7, sum = 0;
  for (size_t i = 0; i < n; i++) { size_t k = sz + i % 3; uint8_t* q = (uint8_t*)lcu_malloc(k); SIM_CHECK(q, "null", "malloc of %zu bytes returned NULL", k); memset(q, (int)(i % 251), k); v.push_back({q, k}); sum += k; }
  size_t cnt = 0, got = allocation_tracker_expect_no_allocations([](void*, size_t, char*, char*, int, void* u) { ++*(size_t*)u; }, &cnt);
  if (w.on) SIM_CHECK(got == sum && cnt == n, "report-sum", "%zu live blocks of %zu bytes are reported as %zu of %zu", n, sum, cnt, got);
  for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < v[i].second; k++) SIM_CHECK(v[i].first[k] == i % 251, "contents", "a byte of block %zu changed", i); lcu_free(v[i].first); }
  account("after freeing many blocks");
  for (auto& o : p.t[0]) op(o, true);
  teardown();
}
// misuse must be detected
void m1x_gen(Rng& r, Plan& p, RunCfg& c) { c.reuse = 0; p.p = {r.range(0, 4), rsize(r) % 200, r.range(-8, 7), r.range(1, 255), r.range(0, 3), r.range(0, 1)}; p.t.resize(1); int n = (int)r.range(0, 5); for (int i = 0; i < n; i++) { Op o = rop(r, false); if (o.k == 10) o.k = 0; p.t[0].push_back(o); } }
void m1x_run(const Plan& p) {
  World w; W = &w; allocation_tracker_init(); w.on = true;
  for (auto& o : p.t[0]) op(o, true);
  size_t n = (size_t)P(p, 1); uint8_t* q; std::string s(n, 'q');
  switch (P(p, 4)) { case 0: q = (uint8_t*)lcu_malloc(n); break; case 1: q = (uint8_t*)lcu_calloc(1, n); break; case 2: q = (uint8_t*)lcu_strdup(s.c_str()); n++; break; default: q = (uint8_t*)lcu_strndup(s.c_str(), n); n++; }
  SIM_CHECK(q, "null", "allocation failed");
  uint8_t x = (uint8_t)P(p, 3); if (!x) x = 1;
  switch (P(p, 0)) {
    case 0: case 1: {   // write next to the block
      int64_t d = P(p, 2); uint8_t* at = d < 0 ? q + (d < -8 ? -8 : d) : q + n + (d > 7 ? 7 : d);
      *at ^= x; expect_abort(true);
      if (P(p, 5)) { allocation_tracker_expect_no_allocations(P(p, 4) & 1 ? [](void*, size_t, char*, char*, int, void*) {} : (report_leak_mem_fn) nullptr, nullptr); violation("undetected", "a write at offset %lld of a %zu byte block was not detected by the check", (long long)(at - q), n); }
      lcu_free(q); violation("undetected", "a write at offset %lld of a %zu byte block was not detected when it was freed", (long long)(at - q), n);
    }
    case 2: lcu_free(q); expect_abort(true); lcu_free(q); violation("undetected", "a double free was not detected");
    case 3: expect_abort(true); lcu_free(q + 1 + n / 2); violation("undetected", "freeing a pointer into a block was not detected");
    default: { q[0] = q[0]; lcu_free(q); expect_abort(true); void* r = lcu_realloc(q, n + 10); (void)r; violation("undetected", "realloc of a freed block was not detected"); }
  }
}
void m2_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2);
  p.p = {r.chance(2, 3), 1}; p.t.resize(1);
  int n = (int)r.range(1, 16); for (int i = 0; i < n; i++) p.t[0].push_back(rop(r, true));
  if (r.chance(1, 4)) draw_fault(r, p, F_MALLOC, 20, 0, 1);
}
void m2_run(const Plan& p) {
  World w; W = &w;
  { NoFaults nf; if (P(p, 0)) { allocation_tracker_init(); w.on = true; } }
  for (auto& o : p.t[0]) op(o, true);
  faults(false);
  account("at the end");
  teardown();
}
void m2b_gen(Rng& r, Plan& p, RunCfg& c) { m1b_gen(r, p, c); p.p[0] = r.range(1, 5); p.p[2] = r.chance(2, 3); }
void m2t_gen(Rng& r, Plan& p, RunCfg& c) { m1_gen(r, p, c); p.p = {r.chance(1, 2)}; for (auto& t : p.t) for (auto& o : t) if (r.chance(1, 3)) o.k = 4; }
void m2t_run(const Plan& p) {
  World w; W = &w;
  { NoFaults nf; if (P(p, 0)) { allocation_tracker_init(); w.on = true; } }
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { for (auto& o : p.t[i]) op(o, false); });
  join_all_clients();
  faults(false);
  account("at rest");
  teardown();
}
// a caller with allocators of its own, each under its own id, on the tracker interface itself
// ops: 0 allocate, 1 free, 2 size, 3 no pointer, 4 a tracked library allocation, 5 yield
struct CB { uint8_t* base; uint8_t* p; size_t n, real; int aid; int src, line; bool busy; };
void cu_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); p.p = {r.chance(4, 5), r.range(0, 5), r.range(0, 40)}; p.t.resize((size_t)r.range(1, 3));
  for (auto& t : p.t) { int n = (int)r.range(1, 16); for (int i = 0; i < n; i++) t.push_back({r.pick({0, 0, 0, 1, 1, 2, 3, 4, 5}), rsize(r), r.range(0, 2000), r.range(1, 60000)}); }
  if (r.chance(1, 3)) draw_fault(r, p, F_MALLOC, 12, 0, 1);
}
void cu_run(const Plan& p) {
  bool on = P(p, 0); std::vector<CB*> live; std::vector<std::unique_ptr<CB>> all; std::vector<void*> libs; size_t total = 0, count = 0;
  { NoFaults nf; if (on) { client_mem_begin(); if (P(p, 2) % 5 == 0) { allocation_tracker_uninit(); allocation_tracker_init(); } } }
  auto body = [&](const std::vector<Op>& ops) {
    for (auto& o : ops) {
      size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(o.a, 0), 6000), pick = (size_t)(o.b < 0 ? 0 : o.b); CB* b = nullptr;
      if (o.k == 1 || o.k == 2) { handover(); std::vector<CB*> v; for (CB* x : live) if (!x->busy) v.push_back(x); if (v.empty()) continue; b = v[pick % v.size()]; b->busy = true; }
      switch (o.k) {
        case 0: {
          size_t real = allocation_tracker_resize_for_canary(n); SIM_CHECK(on ? real >= n : real == n, "size", "the full size for %zu bytes is %zu", n, real);
          uint8_t* base = (uint8_t*)halloc(real ? real : 1); int aid = (int)(o.c % 3) * 100 + 7, src = (int)(pick % 4) - 1, line = (int)(o.c & 0xffff); uint64_t f0 = fault_fired(F_MALLOC);
          uint8_t* q = (uint8_t*)allocation_tracker_notify_alloc((allocator_id_t)aid, base, n, src < 0 ? nullptr : kFile[src], src < 0 ? nullptr : kFn[src], line);
          if (!q) { SIM_CHECK(on && fault_fired(F_MALLOC) != f0, "null", "a block of %zu bytes was not accepted although memory was available", n); hfree(base); break; }
          SIM_CHECK(on ? q >= base && q + n <= base + real : q == base, "place", "the block of %zu bytes is not inside its allocation", n);
          all.emplace_back(b = new CB{base, q, n, real, aid, src, line, false}); for (size_t i = 0; i < n; i++) q[i] = bb((uint64_t)line, i); live.push_back(b); handover(); total += n; count++; break;
        }
        case 1: {
          checkb(b->p, (uint64_t)b->line, b->n, "before free"); live.erase(std::find(live.begin(), live.end(), b)); total -= b->n; count--;
          void* q = allocation_tracker_notify_free((allocator_id_t)b->aid, b->p); SIM_CHECK(q == b->base, "place", "freeing a block does not give back the address of its allocation"); hfree(b->base); break;
        }
        case 2: { size_t z = allocation_tracker_ptr_size((allocator_id_t)b->aid, b->p); SIM_CHECK(z == (on ? b->n : 0), "size", "a block of %zu bytes has a recorded size of %zu", b->n, z); b->busy = false; handover(); break; }
        case 3: SIM_CHECK(!allocation_tracker_notify_alloc(7, nullptr, n, nullptr, nullptr, 0) && !allocation_tracker_notify_free(7, nullptr) && allocation_tracker_ptr_size(7, nullptr) == 0, "null", "the tracker made something of no pointer"); break;
        case 4: { uint64_t f0 = fault_fired(F_MALLOC); void* q = lcu_malloc(n); SIM_CHECK(q || fault_fired(F_MALLOC) != f0, "null", "malloc returned NULL although memory was available"); if (q) { memset(q, 1, n); libs.push_back(q); total += n; count++; } break; }
        default: yield();
      }
    }
  };
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { body(p.t[i]); });
  join_all_clients(); faults(false);
  struct R { std::vector<CB*>* live; std::set<void*> seen; size_t sum; } R{&live, {}, 0};
  auto rep = [](void* q, size_t n, char* f, char* fn, int line, void* u) {
    auto* r = (struct R*)u; SIM_CHECK(r->seen.insert(q).second, "report-twice", "block reported twice"); r->sum += n;
    for (CB* b : *r->live) if (b->p == q) { SIM_CHECK(n == b->n, "report-size", "a block of %zu bytes is reported with %zu bytes", b->n, n); if (b->src >= 0) SIM_CHECK(shown(f, kFile[b->src], 112) && shown(fn, kFn[b->src], 31) && line == b->line, "report-origin", "the block noted at %s %s:%d is reported at %s %s:%d", kFile[b->src], kFn[b->src], b->line, f ? f : "-", fn ? fn : "-", line); }
  };
  auto check = [&](const char* when) {
    R.seen.clear(); R.sum = 0; size_t s = allocation_tracker_expect_no_allocations(rep, &R); SIM_CHECK(s == R.sum, "report-sum", "%s: %zu bytes returned, the reports add up to %zu", when, s, R.sum);
    SIM_CHECK(s == (on ? total : 0) && R.seen.size() == (on ? count : 0), "report-sum", "%s: %zu blocks of %zu bytes are live, %zu of %zu reported", when, on ? count : (size_t)0, on ? total : (size_t)0, R.seen.size(), s);
    if (on) for (CB* b : live) { checkb(b->p, (uint64_t)b->line, b->n, when); SIM_CHECK(R.seen.count(b->p), "report-missing", "%s: a live block of %zu bytes was not reported", when, b->n); }
  };
  check("at rest");
  CB* b = live.empty() ? nullptr : live[(size_t)(P(p, 2) < 0 ? 0 : P(p, 2)) % live.size()];
  switch (on ? P(p, 1) : 9) {
    case 0: if (b) { expect_abort(true); allocation_tracker_notify_free((allocator_id_t)(b->aid ^ 1), b->p); violation("undetected", "a block given back to another allocator was not detected"); } break;
    case 1: if (b) { expect_abort(true); allocation_tracker_ptr_size((allocator_id_t)(b->aid + 100), b->p); violation("undetected", "asking another allocator for the size of a block was not detected"); } break;
    case 2: if (b) { expect_abort(true); allocation_tracker_notify_alloc((allocator_id_t)b->aid, b->base, b->n, nullptr, nullptr, 0); violation("undetected", "an allocation at the place of a live block was not detected"); } break;
    case 3: {      // forget everything: nothing is reported, tracking goes on
      for (void* q : libs) lcu_free(q);
      libs.clear(); std::vector<CB*> old; old.swap(live); allocation_tracker_reset(); total = 0; count = 0; check("after a reset");
      for (CB* x : old) { checkb(x->p, (uint64_t)x->line, x->n, "after a reset"); hfree(x->base); }
      void* q = lcu_malloc(20); SIM_CHECK(q, "null", "malloc failed after a reset"); total = 20; count = 1; check("after a reset"); lcu_free(q); total = 0; count = 0; check("after a reset"); break;
    }
    default: break;
  }
  for (CB* x : live) { void* q = allocation_tracker_notify_free((allocator_id_t)x->aid, x->p); SIM_CHECK(q == x->base, "place", "freeing a block does not give back the address of its allocation"); hfree(x->base); }
  for (void* q : libs) lcu_free(q);
  live.clear(); total = 0; count = 0; check("after everything was freed");
  if (P(p, 2) % 2) allocation_tracker_uninit(); else client_mem_end();
  SIM_CHECK(allocation_tracker_resize_for_canary(9) == 9, "size", "blocks still grow although the tracker is off");
  check_no_leaks("after everything was freed");
}
const char* kReal = "src/mem/allocator.c, src/mem/allocation_tracker.c, src/data/hashmap.c, src/data/hash_functions.c (built with _LCU_MEM_CHECK_FEATURE_ENABLE)";
const char* kStub = "malloc/calloc/free with checked heap and failures, pthread mutex, scheduler (simulated)";
Reg r1({"M01", {{"concurrent", m1_gen, m1_run}, {"scale", m1b_gen, m1b_run, 32}, {"misuse", m1x_gen, m1x_run}, {"growth", m1g_gen, m1g_run, 6}, {"custom", cu_gen, cu_run, 4}}, kReal, kStub});
Reg r2({"M02", {{"contract", m2_gen, m2_run}, {"scale", m2b_gen, m1b_run, 24}, {"threads", m2t_gen, m2t_run}}, kReal, kStub});
}  // namespace
