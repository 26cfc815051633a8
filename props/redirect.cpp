#include "common.h"
extern "C" {
int sim_printf(const char*, ...);
#define _PRINTF_FUNC sim_printf
#include "lcu.h"
#include "log/xlog.h"
#include "log/slog.h"
}
namespace {
typedef unsigned long long ull;
const int kFiles = 3;
const char* kPath[] = {"/tmp/out0.log", "/tmp/out1.log", "out2.log", "/tmp/none/x.log", "/tmp/dir", "", nullptr};
struct World {
  int red = 0;                       // the logger that redirects: 0 xlog, 1 slog
  int where = -1;                    // -1 console, 0.. file, -2 nowhere (a redirect failed and standard output is closed)
  std::string console, file[kFiles]; // what each must hold
  bool made[kFiles] = {};
  LogLevel slog_min = LOG_LEVEL_VERBOSE; bool every = false;
};
World* W;
std::string body(int ph, int c, int i, int64_t len) { std::string s = "p" + std::to_string(ph) + "c" + std::to_string(c) + "r" + std::to_string(i) + ":"; while ((int64_t)s.size() < len) s += (char)('a' + (s.size() * 7 + (size_t)i) % 26); return s + "."; }
std::string hexline(const std::string& d) {
  char b[512]; std::string s; size_t n = d.size();
  if (n * 3 >= 256) { snprintf(b, sizeof b, "hex truncated(%zu):", n); s = b; n = 256 / 3 - 1; }
  for (size_t i = 0; i < n && s.size() + 3 < 256; i++) { snprintf(b, sizeof b, " %02x", (uint8_t)d[i]); s += b; }
  return s;
}
const char kLev[] = "?VDIWE";
// one record; returns the line it must produce, or nothing when it is filtered
bool emit(int kind, int lev, const std::string& m, std::string& want) {
  if (kind == 0) { want = m; __xlog_internal_print((LogLevel)lev, "tag", nullptr, 0, "%s", m.c_str()); return true; }
  std::string text = kind == 1 ? m : hexline(m);
  want = std::string("[") + kLev[lev] + "/tag] " + text;
  if (kind == 1) switch (lev) { case 1: SLOGV("tag", "%s", m.c_str()); break; case 2: SLOGD("tag", "%s", m.c_str()); break; case 3: SLOGI("tag", "%s", m.c_str()); break; case 4: SLOGW("tag", "%s", m.c_str()); break; default: SLOGE("tag", "%s", m.c_str()); }
  else {
    char* b = (char*)halloc(m.size()); memcpy(b, m.data(), m.size());
    switch (lev) { case 1: SLOGV_HEX("tag", b, m.size()); break; case 2: SLOGD_HEX("tag", b, m.size()); break; case 3: SLOGI_HEX("tag", b, m.size()); break; case 4: SLOGW_HEX("tag", b, m.size()); break; default: SLOGE_HEX("tag", b, m.size()); }
    hfree(b);
  }
  return W->slog_min != LOG_LEVEL_OFF && (int)W->slog_min <= lev;
}
std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) { v.push_back(s.substr(i) + "<no line end>"); break; } v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
std::string content(int f) { std::string s; fs::get(kPath[f], s); return s; }
// the target of the records must have grown by exactly the lines of the phase, nothing else may have changed
void judge(std::vector<std::vector<std::string>>& lines, const char* when) {
  std::string con = W->where == -2 ? out_sunk() : out();
  if (W->where != -2) out_sunk();
  std::string* model = W->where == -1 ? &W->console : W->where >= 0 ? &W->file[W->where] : nullptr;
  for (int k = -1; k < kFiles; k++) {
    std::string got = k < 0 ? con : content(k); std::string& m = k < 0 ? W->console : W->file[k];
    const char* name = k < 0 ? "the console" : kPath[k];
    SIM_CHECK(got.compare(0, m.size(), m) == 0, "changed", "%s: what %s already held was changed", when, name);
    if (&m != model) { SIM_CHECK(got.size() == m.size(), "misdirected", "%s: \"%s\" went to %s", when, got.substr(m.size(), 100).c_str(), name); continue; }
    std::vector<std::string> add = split(got.substr(m.size())); std::vector<size_t> at(lines.size());
    for (auto& l : add) {
      bool ok = false;
      for (size_t c = 0; c < lines.size() && !ok; c++) if (at[c] < lines[c].size() && lines[c][at[c]] == l) { at[c]++; ok = true; }
      SIM_CHECK(ok, "foreign", "%s: line \"%s\" on %s is no record, or out of order", when, l.substr(0, 200).c_str(), name);
    }
    for (size_t c = 0; c < lines.size(); c++) SIM_CHECK(at[c] == lines[c].size(), "lost", "%s: %zu of %zu records of client %zu are missing on %s", when, lines[c].size() - at[c], lines[c].size(), c, name);
    m = got;
  }
}
void quiet(const char* when) { std::vector<std::vector<std::string>> none; judge(none, when); }
// ops of t[0]: 0 log (a clients, b records, c seed), 1 redirect to file a, 2 back to the console, 3 slog level, 4 flush mode
void l5_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 64, 256, 4096});
  p.p = {r.range(0, 1), r.chance(3, 4), r.chance(1, 3)};
  p.t.resize(1); int n = (int)r.range(2, 9);
  for (int i = 0; i < n; i++) switch (r.below(9)) {
    case 0: case 1: case 2: case 3: p.t[0].push_back({0, r.range(1, 3), r.range(1, 5), (int64_t)r.below(1u << 20)}); break;
    case 4: case 5: p.t[0].push_back({1, r.chance(4, 5) ? r.range(0, 2) : r.range(3, 6)}); break;
    case 6: p.t[0].push_back({2}); break;
    case 7: p.t[0].push_back({3, r.range(-1, 7)}); break;
    default: p.t[0].push_back({4, r.range(0, 1)});
  }
  if (r.chance(1, 3)) draw_fault(r, p, F_FOPEN, 6, 2, 1);
  if (r.chance(1, 4)) draw_fault(r, p, F_CLOSE, 4, 2, 1);
}
// hundreds of switches and of records, records beyond 64 KB
void l5_big(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = 4096; c.max_steps = 6000000; p.p = {r.range(0, 1), 1, 0, 1}; p.t.resize(1);
  int kind = (int)r.below(3);
  if (kind == 0) for (int i = 0, n = (int)r.range(130, 300); i < n; i++) { p.t[0].push_back({1, r.range(0, 2)}); if (r.chance(1, 8)) p.t[0].push_back({0, 1, 1, (int64_t)r.below(1u << 20)}); if (r.chance(1, 2)) p.t[0].push_back({2}); }
  else { p.t[0].push_back({1, r.range(0, 2)}); for (int i = 0; i < 3; i++) { p.t[0].push_back({0, r.range(1, 3), kind == 1 ? r.range(90, 300) : r.range(2, 8), (int64_t)r.below(1u << 20)}); p.t[0].push_back({r.range(1, 2), r.range(0, 2)}); } }
}
void l5_run(const Plan& p) {
  World w; W = &w; w.red = P(p, 0) ? 1 : 0; bool init = P(p, 1); int ph = 0;
  fs::mkdir_p("/tmp/dir");
  out_clear(); _g_slog_min_level = LOG_LEVEL_VERBOSE;
  if (init) lcu_global_init();
  xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_format(LOG_FORMAT_RAW); xlog_set_min_level(LOG_LEVEL_VERBOSE);
  if (P(p, 2)) { w.red ? slog_back2stdout() : xlog_back2stdout(); quiet("after going back without a redirect"); }
  auto log_phase = [&](int nc, int n, int64_t seed) {
    if (!init) nc = 1;
    std::vector<std::vector<std::string>> lines((size_t)nc); ph++;
    for (int c = 0; c < nc; c++) spawn("client", [&, c] {
      Rng r((uint64_t)seed * 31 + (uint64_t)c);
      for (int i = 0; i < n; i++) {
        std::string want; int kind = (int)r.below(3); int lev = (int)r.range(1, 5);
        if (emit(kind, lev, body(ph, c, i, kind == 2 ? (P(p, 3) ? r.range(0, 3) ? 40 : r.range(200, 70000) : r.range(0, 120)) : P(p, 3) && r.chance(1, 5) ? r.logrange(900, 140000) : r.chance(1, 8) ? r.range(400, 900) : r.range(0, 60)), want)) lines[(size_t)c].push_back(want);
        if (kind == 0 && w.every && nc == 1 && w.where >= 0) {   // flushed after every record: a crash now would lose nothing
          std::string got = content(w.where); SIM_CHECK(got.size() >= want.size() + 1 && got.compare(got.size() - want.size() - 1, std::string::npos, want + "\n") == 0, "flush", "a record is not in the file after its call, with a flush after every record");
        }
      }
    });
    join_all_clients();
    judge(lines, "after a logging phase");
  };
  for (auto& o : p.t.empty() ? std::vector<Op>() : p.t[0]) switch (o.k) {
    case 0: log_phase((int)std::min<int64_t>(std::max<int64_t>(o.a, 1), 4), (int)std::min<int64_t>(std::max<int64_t>(o.b, 1), 400), o.c); break;
    case 1: {
      int k = (int)((o.a < 0 ? 0 : o.a) % 7); char* path = nullptr;
      if (kPath[k]) { path = (char*)halloc(strlen(kPath[k]) + 1); memcpy(path, kPath[k], strlen(kPath[k]) + 1); }
      uint64_t f0 = fault_fired(F_FOPEN);
      w.red ? slog_stdout2file(path) : xlog_stdout2file(path);
      bool hit = fault_fired(F_FOPEN) != f0;
      if (path) hfree(path);
      note("redirect %d%s", k, hit ? " failed" : "");
      if (k >= 5) break;                                  // no path: nothing happens
      if (hit || k >= kFiles) { w.where = -2; SIM_CHECK(hit || !fs::exists("/tmp/none/x.log"), "file", "the file of a failed redirect exists"); }
      else { w.where = k; w.file[k].clear(); w.made[k] = true; }
      break;
    }
    case 2: {
      uint64_t f0 = fault_fired(F_FOPEN);
      w.red ? slog_back2stdout() : xlog_back2stdout();
      if (fault_fired(F_FOPEN) != f0) w.where = -2; else if (w.where >= 0) w.where = -1;
      break;
    }
    case 3: {
      LogLevel old = slog_get_min_level(); slog_set_min_level((LogLevel)o.a);
      bool valid = o.a >= LOG_LEVEL_OFF && o.a <= LOG_LEVEL_ERROR;
      SIM_CHECK(slog_get_min_level() == (valid ? (LogLevel)o.a : old), "level", "the slog level is %d after setting %lld", (int)slog_get_min_level(), (long long)o.a);
      if (valid) w.slog_min = (LogLevel)o.a;
      break;
    }
    case 4: w.every = o.a & 1; xlog_set_flush_mode(w.every ? LOG_FLUSH_MODE_EVERY : LOG_FLUSH_MODE_AUTO); break;
  }
  quiet("at the end");
  faults(false);
  // whatever failed before, a redirect that works now carries the records and goes back to the console
  char last[] = "/tmp/out0.log";
  w.red ? slog_stdout2file(last) : xlog_stdout2file(last);
  w.where = 0; w.file[0].clear();
  w.slog_min = LOG_LEVEL_VERBOSE; slog_set_min_level(LOG_LEVEL_VERBOSE);
  log_phase(2, 3, 99);
  w.red ? slog_back2stdout() : xlog_back2stdout(); w.where = -1;
  log_phase(2, 2, 98);
  xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO); xlog_set_target(LOG_TARGET_NONE);
  if (init) lcu_global_cleanup();
  check_no_leaks("at the end");
}
Reg r1({"L05", {{"redirect", l5_gen, l5_run}, {"scale", l5_big, l5_run, 24}}, "src/log/xlog.c, src/log/slog.c, src/mem/strings.c, the logging macros of inc/log/slog.h (real, instrumented)", "standard streams and files are simulated (a closed standard stream swallows output and can be reopened, as in glibc); threads are scheduled by the simulator"});
}  // namespace
