#include "common.h"
extern "C" {
#include "time/time_util.h"
}
#include <ctime>
#include <cstdlib>
namespace {
typedef unsigned long long ull;
std::string want(int64_t sec, int64_t usec, int tz, bool file) {
  time_t t = (time_t)(sec + (int64_t)tz * 3600); struct tm tm; gmtime_r(&t, &tm);
  char b[64];
  snprintf(b, sizeof b, file ? "%02d%02d%02d%02d%02d.%03d" : "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(usec / 1000));
  return b;
}
const int64_t kSec = 1000000000ll;
int64_t inst(Rng& r) {      // an instant in seconds
  switch (r.below(9)) {
    case 0: return r.range(0, 3);
    case 1: return r.range(0, 90000);
    case 2: return 2147483647ll + r.range(-2, 3);
    case 3: return 4294967295ll + r.range(-2, 3);
    case 4: return r.range(2147483648ll, 7258118400ll);
    case 5: { static const int64_t y[] = {951782400, 1078012800, 1709164800, 1704067199, 1735689599, 4107542399ll, 4107456000ll, 1735603200, 68169600}; return y[r.below(9)] + r.range(-2, 2); }
    default: return r.range(1000000000, 1900000000);
  }
}
int clamp_tz(int64_t sec, int tz) { return sec + tz * 3600 < 0 ? 0 : tz; }

void one(int kind, int tz) {
  char* b = (char*)halloc(TIME_STR_SIZE); memset(b, 0x2A, TIME_STR_SIZE);
  clock_reads().clear();
  // local times before 1970 are out of scope
  int64_t w0 = wall_ns() / kSec; if (w0 < 13 * 3600 + 10 && tz < 0) tz = 0;
  int n = kind == 0 ? time_util_get_time_str_current(b, tz) : time_util_get_time_str_for_file_name_current(b, tz);
  std::string got(b, strnlen(b, TIME_STR_SIZE));
  auto rd = clock_reads();
  SIM_CHECK(!rd.empty(), "no-clock", "a current time string was made without reading the clock");
  bool ok = false, scope = true; std::string w;
  for (int64_t ns : rd) { if (ns < 0 || ns / kSec + tz * 3600 < 0) { scope = false; continue; } w = want(ns / kSec, ns % kSec / 1000, tz, kind == 1); if (w == got) ok = true; }
  note("cur %d tz %d -> %d", kind, tz, n);
  if (scope) {
    SIM_CHECK(ok, "wrong-time", "clock read %lld ns, zone %d: expected \"%s\", got \"%s\"", (long long)rd.back(), tz, w.c_str(), got.c_str());
    SIM_CHECK(n == (int)got.size(), "length", "the text has %zu characters but %d were returned", got.size(), n);
  }
  hfree(b);
}
void explicit_one(int kind, int64_t sec, int64_t usec, int tz) {
  char* b = (char*)halloc(TIME_STR_SIZE); memset(b, 0x2A, TIME_STR_SIZE);
  tz = clamp_tz(sec, tz);
  struct timeval tv; tv.tv_sec = sec; tv.tv_usec = usec;
  int n = kind == 0 ? time_util_get_time_str(&tv, b, tz) : time_util_get_time_str_for_file_name(&tv, b, tz);
  std::string got(b, strnlen(b, TIME_STR_SIZE)), w = want(sec, usec, tz, kind == 1);
  SIM_CHECK(got == w, "wrong-time", "instant %lld.%06lld zone %d: expected \"%s\", got \"%s\"", (long long)sec, (long long)usec, tz, w.c_str(), got.c_str());
  SIM_CHECK(n == (int)got.size(), "length", "the text has %zu characters but %d were returned", got.size(), n);
  struct tm lt, g; memset(&lt, 0x55, sizeof lt); time_t t = (time_t)sec, t2 = (time_t)(sec + tz * 3600ll);
  SIM_CHECK(time_util_fast_second2date(&t, &lt, tz) == 0, "date", "time_util_fast_second2date failed");
  gmtime_r(&t2, &g);
  SIM_CHECK(lt.tm_sec == g.tm_sec && lt.tm_min == g.tm_min && lt.tm_hour == g.tm_hour && lt.tm_mday == g.tm_mday && lt.tm_mon == g.tm_mon && lt.tm_year == g.tm_year, "date",
            "instant %lld zone %d is %04d-%02d-%02d %02d:%02d:%02d, got %04d-%02d-%02d %02d:%02d:%02d", (long long)sec, tz, g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec,
            lt.tm_year + 1900, lt.tm_mon + 1, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec);
  hfree(b);
}
int tz_of(int64_t v) { return (int)(((v % 25) + 25) % 25) - 12; }
struct Zone { const char* tz; int off; };
const Zone kZones[] = {{"UTC0", 0}, {"XXX-8", 28800}, {"XXX5", -18000}, {"XXX-5:30", 19800}, {"XXX-12:45", 45900}, {"XXX11", -39600}, {"XXX-14", 50400}, {"EST5EDT,M3.2.0,M11.1.0", 0}, {"CET-1CEST,M3.5.0,M10.5.0/3", 0}, {"AEST-10AEDT,M10.1.0,M4.1.0/3", 0}};
const Zone* g_zone;
void client(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 0: case 1: one((int)o.k, tz_of(o.b)); break;
    case 2: case 3: explicit_one((int)o.k - 2, o.a < 0 ? 0 : o.a, (o.c < 0 ? 0 : o.c) % 1000000, tz_of(o.b)); break;
    case 4: wall_jump(o.a * 1000000ll); break;
    case 5: wall_set((o.a < 0 ? 0 : o.a) * kSec + o.c % kSec); break;
    case 6: {
      uint64_t* ms = (uint64_t*)halloc(8); clock_reads().clear();
      if (o.b & 1) time_util_query_performance_ms(ms); else time_util_current_ms(ms);
      if (!(o.b & 1)) { auto rd = clock_reads(); bool ok = false; for (int64_t ns : rd) if (ns < 0 || (uint64_t)(ns / 1000000) == *ms) ok = true; SIM_CHECK(ok, "ms", "the clock read %lld ns but time_util_current_ms says %llu", rd.empty() ? -1ll : (long long)rd.back(), (ull)*ms); }
      hfree(ms); break;
    }
    case 7: usleep_sim((uint64_t)o.a); break;
    case 9: {
      clock_reads().clear(); int off = time_util_zone_offset_seconds_to_utc();
      if (strchr(g_zone->tz, ',')) {     // summer time: judged away from the changes
        auto rd = clock_reads(); if (rd.empty()) break;
        bool ok = false; std::string w;
        for (int64_t ns : rd) {
          if (ns < 2 * 86400 * kSec) { ok = true; break; }
          long o3[3]; for (int i = 0; i < 3; i++) { time_t t = (time_t)(ns / kSec + (i - 1) * 86400); struct tm tm; localtime_r(&t, &tm); o3[i] = tm.tm_gmtoff; }
          if (o3[0] != o3[2] || o3[1] == off) { ok = true; break; }
          w += std::to_string(o3[1]) + " ";
        }
        SIM_CHECK(ok, "zone", "the offset of zone %s is reported as %d seconds, it is %s", g_zone->tz, off, w.c_str());
        break;
      }
      SIM_CHECK(off == g_zone->off, "zone", "the offset of zone %s is reported as %d seconds, it is %d", g_zone->tz, off, g_zone->off); break;
    }
    default: clock_freeze(o.a & 1);
  }
}
void c1_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.chance(1, 8), inst(r), r.range(0, 999999999), r.chance(1, 3), (int64_t)r.below(10)};
  int nc = p.p[0] ? 1 : (int)r.range(1, 4); p.t.resize((size_t)nc);
  int64_t tz0 = r.chance(1, 4) ? 12 : r.range(0, 24), tz1 = r.range(0, 24); bool two = r.chance(1, 2);
  for (auto& t : p.t) {
    int n = (int)r.range(1, 12);
    for (int i = 0; i < n; i++) {
      int64_t tz = two && r.chance(1, 3) ? tz1 : tz0;
      switch (r.below(13)) {
        case 0: case 1: case 2: case 3: t.push_back({0, 0, tz}); break;
        case 4: case 5: case 6: t.push_back({1, 0, tz}); break;
        case 7: t.push_back({(int64_t)(2 + r.below(2)), inst(r), tz, r.range(0, 999999)}); break;
        case 8: case 9: t.push_back({4, r.pick({1, -1, 10, 999, 1000, -1000, 100, -60000, 3600000, -3600000, 86400000})}); break;
        case 10: t.push_back({5, inst(r), 0, r.range(0, 999999999)}); break;
        case 11: t.push_back({6, 0, (int64_t)r.below(4) == 0}); break;
        default: if (r.chance(1, 5)) t.push_back({9}); else if (r.chance(1, 2)) t.push_back({7, r.logrange(1, 1500000)}); else t.push_back({8, r.range(0, 1)});
      }
    }
  }
  if (r.chance(1, 2)) draw_fault(r, p, F_CLOCK, 12, 0, 1);
}
void c1_run(const Plan& p) {
  wall_set((P(p, 1) < 0 ? 0 : P(p, 1)) * kSec + P(p, 2) % kSec);
  g_zone = &kZones[(size_t)(P(p, 4) < 0 ? 0 : P(p, 4)) % 10]; setenv("TZ", g_zone->tz, 1); tzset();
  { NoFaults nf; if (!P(p, 0)) { time_util_global_init(); if (P(p, 3)) { uint64_t b = live_blocks(); time_util_global_init(); SIM_CHECK(live_blocks() == b, "nested-init", "initialising again made new locks"); } } }
  if (P(p, 3)) clock_freeze(true);
  for (size_t i = 0; i < p.t.size() && (i == 0 || !P(p, 0)); i++) spawn("client", [&, i] { client(p.t[i]); });
  join_all_clients();
  time_util_global_cleanup();
  check_no_leaks("after cleanup");
}
Reg r1({"C01", {{"clock", c1_gen, c1_run}}, "src/time/time_util.c, src/thread/posix_thread.c, src/mem/strings.c (unmodified)", "wall clock, rwlock, scheduler (simulated); strftime and the reference gmtime are the host libc's"});
}  // namespace
