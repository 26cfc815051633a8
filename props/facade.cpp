#include "common.h"
#include <set>
#include "client_log.h"
extern "C" {
#include "lcu.h"
#include "log/xlog.h"
#include "log/slog.h"
#include "thread/portable_thread.h"
extern const struct log_client log_client_0, log_client_1, log_client_2, log_client_3, log_client_4, log_client_5, log_client_6;
}
namespace {
const log_client* const kClient[] = {&log_client_0, &log_client_1, &log_client_2, &log_client_3, &log_client_4, &log_client_5, &log_client_6};
const int kClients = 7, kFiles = 2, kForms = 7;
const char* const kPath[] = {"/tmp/out0.log", "out1.log", "/tmp/none/x.log"};
const char* const kTags[] = {"T", "EightCh8", "ATagOfTwentyTwoChars12", "App.core"};
const char kLev[] = "?VDIWE";
struct Line { int level; std::string text; };   // level: of the callback
struct World {
  int where = -1, fmt = 0, min[2] = {LOG_LEVEL_VERBOSE, LOG_LEVEL_VERBOSE}, target = 0;
  std::string deftag = "XLog", console, file[kFiles];
  std::vector<Line> cb, cbwant;                 // callback records of the current phase
};
World* W;
void on_record(LogLevel l, void* m, size_t n, void* ud) { SIM_CHECK(ud == W, "cb-user-data", "the callback was called with foreign user data"); W->cb.push_back({(int)l, std::string((char*)m, n ? n - 1 : 0)}); yield(); }
std::string hexof(const std::string& d) { char b[8]; std::string s; for (unsigned char c : d) { snprintf(b, sizeof b, " %02x", c); s += b; } return s; }
// what the record of one backend looks like
std::string render(int backend, int lev, const std::string& tag, int tid, const std::string& trace, const std::string& text) {
  if (backend == 1) return std::string("[") + kLev[lev] + "/" + tag + "]" + (trace.empty() ? " " : trace) + text;
  std::string h, t = tag; while (t.size() < 8) t += ' ';
  if (W->fmt & LOG_FORMAT_WITH_TAG_LEVEL) h += std::string(" ") + kLev[lev] + "/" + t;
  if (W->fmt & LOG_FORMAT_WITH_TID) { char x[24]; snprintf(x, sizeof x, "(%5d)", tid); h += x; }
  if (!h.empty()) h += ": ";
  return h + trace + text;
}
bool on(int backend, int lev) { return backend < 2 && W->min[backend] && W->min[backend] <= lev; }
// one log statement of a client program
bool say(const log_client& k, const Op& o, int who, int n, Line& want) {
  int lev = 1 + (int)(o.b & 7) % 5, form = (int)(o.b >> 4 & 15) % (kForms + 2), num = (int)(o.b >> 8 & 1023);
  std::string own = k.tag ? k.tag : W->deftag, given = kTags[o.b >> 20 & 3], m = "w" + std::to_string(who) + "n" + std::to_string(n) + ":";
  for (int64_t i = 0; i < o.c; i++) m += (char)(form >= kForms ? pat(who * 50 + n, i) : 'a' + pat(who * 50 + n, i) % 26);
  int tid = (int)portable_thread_gettid(); want.level = lev;
  if (form >= kForms) {
    if (m.size() > 60) m.resize(60);
    char* b = (char*)halloc(m.size()); memcpy(b, m.data(), m.size()); char t[32]; strcpy(t, given.c_str());
    k.hex(form - kForms, lev, t, b, m.size()); hfree(b);
    want.text = render(k.backend, lev, form == kForms ? own : given, tid, "", hexof(m));
  } else {
    char* b = (char*)halloc(m.size() + 1); memcpy(b, m.c_str(), m.size() + 1); char t[32]; strcpy(t, given.c_str());
    int line = k.text(form, lev, t, b, num); hfree(b);
    std::string tr = "(" + std::string(k.func) + ":" + std::to_string(line) + ") ", tag = form == 2 || form == 3 || (form == 6 && !(num & 1)) ? given : own; char x[16];
    if (form == 4) { if (num & 1) m = std::to_string(num) + "/" + m; else { snprintf(x, sizeof x, "|%x", num); m += x; } }
    if (form == 5) m = "plain text 100%";
    if (form == 6) m = num & 1 ? "done" : std::to_string(num) + ":" + m;
    want.text = render(k.backend, lev, tag, tid, form == 1 || form == 3 || form == 6 ? tr : "", m);
  }
  return on(k.backend, lev);
}
std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) { v.push_back(s.substr(i) + "<no line end>"); break; } v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
// `got` must be one interleaving of the given sequences (some records look alike: every assignment is kept)
void merged(const std::vector<std::vector<std::string>>& lines, const std::vector<std::string>& got, const std::string& where) {
  std::set<std::vector<size_t>> st; st.insert(std::vector<size_t>(lines.size()));
  for (auto& l : got) {
    std::set<std::vector<size_t>> nx;
    for (auto& at : st) for (size_t c = 0; c < lines.size(); c++) if (at[c] < lines[c].size() && lines[c][at[c]] == l) { auto v = at; v[c]++; nx.insert(v); }
    if (nx.empty()) { std::string due; auto& at = *st.begin(); for (size_t c = 0; c < lines.size(); c++) if (at[c] < lines[c].size()) due += " \"" + lines[c][at[c]].substr(0, 100) + "\""; violation("bad-record", "%s: \"%s\" is not what a log statement says here; due:%s", where.c_str(), l.substr(0, 200).c_str(), due.c_str()); }
    st.swap(nx);
  }
  std::vector<size_t> end; for (auto& v : lines) end.push_back(v.size());
  if (!st.count(end)) { auto& at = *st.rbegin(); for (size_t c = 0; c < lines.size(); c++) if (at[c] < lines[c].size()) violation("lost", "%s: record \"%s\" of client %zu is missing", where.c_str(), lines[c][at[c]].substr(0, 200).c_str(), c); }
}
void judge(std::vector<std::vector<std::string>> lines, const char* when) {
  std::string con = W->where == -2 ? out_sunk() : out();
  if (W->where != -2) out_sunk();
  for (int k = -1; k < kFiles; k++) {
    std::string got; if (k < 0) got = con; else fs::get(kPath[k], got);
    std::string& had = k < 0 ? W->console : W->file[k]; const char* name = k < 0 ? "the console" : kPath[k];
    SIM_CHECK(got.compare(0, had.size(), had) == 0, "changed", "%s: what %s already held was changed", when, name);
    if (k != W->where) { SIM_CHECK(got.size() == had.size(), "misdirected", "%s: \"%s\" went to %s", when, got.substr(had.size(), 100).c_str(), name); continue; }
    merged(lines, split(got.substr(had.size())), std::string(when) + ": on " + name);
    had = got;
  }
}
// t[0]: 0 log phase (a ops of each of b threads, seed c); 1 redirect to a; 2 back; 3 level b through client a; 4 format a; 5 default tag a; 6 target a
void gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 64, 256, 4096});
  p.p = {r.range(0, 1), r.range(0, 6), r.pick({0, 400, 99990}), r.range(0, 3), (int64_t)r.below(1u << 12)};
  p.t.resize(1); int n = (int)r.range(2, 9);
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: case 1: case 2: case 3: case 4: p.t[0].push_back({0, r.range(1, 8), r.range(1, 3), (int64_t)r.below(1u << 20)}); break;
    case 5: case 6: p.t[0].push_back({1, r.chance(5, 6) ? r.range(0, 1) : 2}); break;
    case 7: p.t[0].push_back({2}); break;
    case 8: p.t[0].push_back({3, r.range(0, 6), r.range(-1, 7)}); break;
    case 9: p.t[0].push_back({4, r.range(0, 3)}); break;
    case 10: p.t[0].push_back({5, r.range(0, 3)}); break;
    default: p.t[0].push_back({6, r.range(0, 3)}); break;
  }
  if (r.chance(1, 4)) draw_fault(r, p, F_FOPEN, 6, 2, 1);
}
void run(const Plan& p) {
  World w; W = &w; int red = P(p, 0) ? 1 : 0;
  out_clear(); tid_base((int)(P(p, 2) < 0 ? 0 : P(p, 2) % 99990)); _g_slog_min_level = LOG_LEVEL_VERBOSE;
  // a program of each backend redirects; one with LOG_GLOBAL_INIT starts and stops the library
  const log_client& boss = *kClient[red ? 3 + (P(p, 3) & 1) : (P(p, 3) & 1) * 2];
  const log_client& life = log_client_2;
  life.init();
  auto set_format = [&](int64_t a) { w.fmt = (a & 1 ? LOG_FORMAT_WITH_TAG_LEVEL : 0) | (a & 2 ? LOG_FORMAT_WITH_TID : 0); xlog_set_format(w.fmt); };
  auto set_target = [&](int64_t a) { w.target = (a & 1 ? LOG_TARGET_USER_CALLBACK : 0) | (a & 2 ? 0 : LOG_TARGET_CONSOLE); xlog_set_target(w.target); };
  xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_user_callback(on_record, &w); set_format(P(p, 1)); set_target(0);
  auto phase = [&](int nc, int n, int64_t seed) {
    std::vector<std::vector<std::string>> lines((size_t)nc); std::vector<std::vector<Line>> cbs((size_t)nc); w.cb.clear();
    for (int c = 0; c < nc; c++) spawn("client", [&, c] {
      Rng r((uint64_t)seed * 31 + (uint64_t)c);
      for (int i = 0; i < n; i++) {
        Op o; o.b = (int64_t)r.below(1u << 24); o.c = r.chance(1, 8) ? r.range(400, 900) : r.range(0, 60);
        const log_client& k = *kClient[r.below(kClients)]; Line want;
        if (!say(k, o, c, i, want)) continue;
        if (k.backend == 1 || (w.target & LOG_TARGET_CONSOLE)) lines[(size_t)c].push_back(want.text);
        if (k.backend == 0 && (w.target & LOG_TARGET_USER_CALLBACK)) cbs[(size_t)c].push_back(want);
      }
    });
    join_all_clients();
    judge(lines, "after a logging phase");
    std::vector<std::string> got; for (auto& l : w.cb) got.push_back(std::to_string(l.level) + l.text);
    std::vector<std::vector<std::string>> due((size_t)nc); for (int c = 0; c < nc; c++) for (auto& l : cbs[(size_t)c]) due[(size_t)c].push_back(std::to_string(l.level) + l.text);
    merged(due, got, "callback");
  };
  for (auto& o : p.t.empty() ? std::vector<Op>() : p.t[0]) switch (o.k) {
    case 0: phase((int)std::min<int64_t>(std::max<int64_t>(o.b, 1), 4), (int)std::min<int64_t>(std::max<int64_t>(o.a, 1), 60), o.c); break;
    case 1: {
      int k = (int)((o.a < 0 ? 0 : o.a) % 3); char path[32]; strcpy(path, kPath[k]); uint64_t f0 = fault_fired(F_FOPEN);
      log_client_5.to_file(path); log_client_6.to_file(path);    // logging is switched off in these: nothing moves
      boss.to_file(path); note("redirect %d", k);
      if (fault_fired(F_FOPEN) != f0 || k >= kFiles) w.where = -2; else { w.where = k; w.file[k].clear(); }
      break;
    }
    case 2: {
      uint64_t f0 = fault_fired(F_FOPEN); log_client_5.back(); log_client_6.back(); boss.back();
      if (fault_fired(F_FOPEN) != f0) w.where = -2; else if (w.where >= 0) w.where = -1;
      break;
    }
    case 3: {
      const log_client& k = *kClient[(o.a < 0 ? 0 : o.a) % kClients]; int l = (int)(o.b < -1 ? -1 : o.b > 7 ? 7 : o.b);
      k.set_min(l); if (k.backend < 2 && l >= LOG_LEVEL_OFF && l <= LOG_LEVEL_ERROR) w.min[k.backend] = l;
      for (auto* q : kClient) if (q->backend < 2) SIM_CHECK(q->get_min() == w.min[q->backend], "level", "%s reads level %d, %d was set", q->name, q->get_min(), w.min[q->backend]);
      break;
    }
    case 4: set_format(o.a); break;
    case 5: { char t[32]; strcpy(t, kTags[o.a & 3]); xlog_set_default_tag(t); w.deftag = t; break; }
    default: set_target(o.a);
  }
  judge({}, "at the end");
  faults(false);
  char last[] = "/tmp/out0.log"; boss.to_file(last); w.where = 0; w.file[0].clear();
  for (int b = 0; b < 2; b++) kClient[b ? 3 : 2]->set_min(w.min[b] = LOG_LEVEL_VERBOSE);
  set_target(1);
  phase(2, 6, P(p, 4)); boss.back(); w.where = -1; phase(2, 6, P(p, 4) + 1);
  xlog_set_target(LOG_TARGET_NONE); xlog_set_user_callback(nullptr, nullptr);
  life.cleanup();
  check_no_leaks("after cleanup");
}
Reg r1({"L06", {{"macros", gen, run}}, "inc/log/xlog.h, inc/log/slog.h, inc/log/logger.h with both selectors and with logging switched off (compiled into seven small client programs), src/log/xlog.c, src/log/slog.c, src/mem/strings.c (real, instrumented)", "standard streams, files, heap, thread ids and scheduling (simulated)"});
}  // namespace
