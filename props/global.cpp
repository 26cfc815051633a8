#include "common.h"
extern "C" {
#include "lcu.h"
#include "log/xlog.h"
#include "time/time_util.h"
}
#include <ctime>
namespace {
typedef unsigned long long ull;
struct World { int in_cb = 0, yields = 0, lines = 0; bool excl = false; std::vector<std::string> got; };
World* W;
void cb(LogLevel, void* m, size_t sz, void*) {
  check_mem(m, sz, false, "callback text");
  W->in_cb++;
  SIM_CHECK(!W->excl || W->in_cb == 1, "not-serialised", "two log records are delivered at the same time although the library is initialised");
  W->got.push_back(std::string((char*)m, strnlen((char*)m, sz)));
  for (int i = 0; i < W->yields; i++) yield();
  W->in_cb--;
}
const int64_t kSec = 1000000000ll;
std::string want(int64_t ns, int tz) {
  time_t t = (time_t)(ns / kSec + tz * 3600ll); struct tm tm; gmtime_r(&t, &tm); char b[64];
  snprintf(b, sizeof b, "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(ns % kSec / 1000000));
  return b;
}
void use(int id, int n, int tz) {
  for (int i = 0; i < n; i++) {
    int r = (i + id) % 3;
    if (i && (i + id) % 2 == 0) wall_jump(kSec + id * kSec);
    if (r == 2 || i == 0) {
      char* b = (char*)halloc(TIME_STR_SIZE); memset(b, 0, TIME_STR_SIZE); clock_reads().clear();
      time_util_get_time_str_current(b, tz);
      auto rd = clock_reads(); bool ok = false;
      for (int64_t ns : rd) if (want(ns, tz) == b) ok = true;
      SIM_CHECK(ok, "wrong-time", "time string \"%s\" belongs to no clock reading", b);
      hfree(b);
    }
    if (r != 2) { std::string m = "c" + std::to_string(id) + "-" + std::to_string(i); LOGI("%s", m.c_str()); W->lines++; }
  }
}
// one phase in which `nc` clients use the library together
void phase(int nc, int n, int tz, bool excl) {
  W->got.clear(); W->lines = 0; W->excl = excl; W->in_cb = 0;
  xlog_set_target(LOG_TARGET_USER_CALLBACK); xlog_set_format(LOG_FORMAT_RAW); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_user_callback(cb, nullptr);
  for (int i = 0; i < nc; i++) spawn("client", [=] { use(i, n, i == 1 ? (tz + 5) % 13 : tz); });
  join_all_clients();
  SIM_CHECK((int)W->got.size() == W->lines, "lost-record", "%d records were logged but %zu delivered", W->lines, W->got.size());
  for (int i = 0; i < nc; i++) {
    int k = 0;
    for (auto& g : W->got) { std::string tag = "c" + std::to_string(i) + "-"; size_t at = g.find(tag); if (at != std::string::npos) { int v = atoi(g.c_str() + at + tag.size()); SIM_CHECK(v >= k, "order", "records of client %d are out of order", i); k = v + 1; } }
  }
  xlog_set_user_callback(nullptr, nullptr); xlog_set_target(LOG_TARGET_NONE);
}
void g1_gen(Rng& r, Plan& p, RunCfg& c) {
  p.p = {r.chance(1, 3), r.range(0, 2), r.range(0, 4000)};   // faults, callback yields, seconds
  p.t.resize(1);
  int n = (int)r.range(1, 14), depth = 0;
  bool deep = r.chance(1, 8);
  for (int i = 0; i < n; i++) {
    uint64_t k = r.below(10);
    if (deep && i == 0) { p.t[0].push_back({0, r.range(5, 300), 0, 0}); continue; }
    if (k < 4) { p.t[0].push_back({0, r.range(1, r.chance(1, 4) ? 5 : 1), r.chance(1, 3) ? r.range(0, 6) : -1, 0}); depth++; }
    else if (k < 7) { p.t[0].push_back({1, r.range(1, r.chance(1, 4) ? (deep ? 301 : 5) : 1), 0, 0}); if (depth) depth--; }
    else if (r.chance(1, 4)) p.t[0].push_back({3, r.range(0, 1)});
    else p.t[0].push_back({2, r.range(1, 3), r.range(1, 6), r.range(0, 12)});
  }
  if (r.chance(1, 200)) { int64_t k = r.pick({70000, 65535, 65536, 65537}); c.max_steps = 3000000; p.t[0] = {{0, k, -1, 0}, {2, 2, 3, 0}, {1, k - r.range(0, 3), 0, 0}, {2, 2, 3, 0}, {1, 2, 0, 0}}; }   // beyond 16 bits
  if (p.p[0]) draw_fault(r, p, F_SYNCINIT, 4, 1, 1);
}
void g1_run(const Plan& p) {
  World w; W = &w; w.yields = (int)(P(p, 1) < 0 ? 0 : P(p, 1) % 4);
  wall_set((1700000000 + P(p, 2)) * kSec + 5000000);
  unsigned model = 0; bool degraded = false; uint64_t base = 0, after_init = 0;
  base = live_blocks();
  auto do_init = [&](int64_t failat) {
    uint64_t f0 = fault_fired(F_SYNCINIT), b0 = live_blocks();
    if (P(p, 0) && failat >= 0) fail_alloc_at(failat);
    int rc = lcu_global_init();
    bool hit = fail_alloc_fired() || fault_fired(F_SYNCINIT) != f0; fail_alloc_at(-1);
    if (model == 0) { degraded = hit; after_init = live_blocks(); SIM_CHECK(hit || rc == 0, "init-failed", "lcu_global_init returned %d without any fault", rc); }
    else {
      SIM_CHECK(rc == 0, "nested-init", "a further lcu_global_init returned %d", rc);
      SIM_CHECK(live_blocks() == b0, "nested-init", "a further lcu_global_init changed the resources held from %llu to %llu blocks", (ull)b0, (ull)live_blocks());
    }
    model++; note("init -> %d depth %u", rc, model);
  };
  auto do_clean = [&] {
    uint64_t b0 = live_blocks(); bool hit = degraded;
    int rc = lcu_global_cleanup();
    if (model == 0) { SIM_CHECK(rc == 0 && live_blocks() == b0, "surplus-cleanup", "a surplus cleanup returned %d and changed %llu blocks to %llu", rc, (ull)b0, (ull)live_blocks()); }
    else if (--model == 0) { SIM_CHECK(hit || rc == 0, "cleanup-failed", "the last lcu_global_cleanup returned %d", rc); check_no_leaks("after the last lcu_global_cleanup"); SIM_CHECK(live_blocks() == base, "leak", "memory is left after the last cleanup"); }
    else { SIM_CHECK(rc == 0 && live_blocks() == b0, "early-cleanup", "cleanup %u of a nested init released something (returned %d, %llu blocks before, %llu after)", model, rc, (ull)b0, (ull)live_blocks()); }
    note("cleanup -> %d depth %u", rc, model);
  };
  for (auto& o : p.t.empty() ? std::vector<Op>() : p.t[0]) {
    if (o.k == 0) for (int64_t i = 0; i < (o.a < 1 ? 1 : o.a > 80000 ? 80000 : o.a); i++) do_init(i == 0 ? o.b : -1);
    else if (o.k == 1) for (int64_t i = 0; i < (o.a < 1 ? 1 : o.a > 80000 ? 80000 : o.a); i++) do_clean();
    else if (o.k == 3) { if (model > 0 && !degraded) { uint64_t b0 = live_blocks(); int rc = o.a & 1 ? xlog_global_init() : time_util_global_init(); SIM_CHECK(live_blocks() == b0, "nested-init", "initialising a module again returned %d and changed %llu blocks to %llu", rc, (ull)b0, (ull)live_blocks()); } }
    else if (model > 0) phase(degraded ? 1 : (int)(o.a < 1 ? 1 : o.a > 4 ? 4 : o.a), (int)(o.b < 1 ? 1 : o.b > 8 ? 8 : o.b), (int)(o.c < 0 ? 0 : o.c % 13), !degraded);
  }
  while (model > 0) do_clean();
  do_clean();                                   // surplus
  SIM_CHECK(live_blocks() == base, "leak", "memory is left at the end"); check_no_leaks("at the end");
}
Reg r1({"G01", {{"init-cleanup", g1_gen, g1_run}}, "src/lcu.c, src/log/xlog.c, src/time/time_util.c, src/thread/posix_thread.c (unmodified)", "scheduler, mutexes, rwlocks, heap, clock (simulated)"});
}  // namespace
