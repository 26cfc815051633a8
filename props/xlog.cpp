#include "common.h"
extern "C" {
#include "lcu.h"
#include "log/xlog.h"
#include "thread/portable_thread.h"
}
#include <algorithm>
#include <set>
#include <ctime>
namespace {
typedef unsigned long long ull;
enum { S_MIN, S_TRIG, S_TARGET, S_FORMAT, S_FLUSH, S_TZ, S_TAG, S_CB, S_N };
const char* const kTags[] = {"XLog", "A", "EightCh8", "ATagOfTwentyTwoChars12", "Net", "MainTag", "",
  // tags that may be shown only up to some length
  "a_tag_with_a_name_of_forty_characters_xy", "tag0000_tag0001_tag0002_tag0003_tag0004_tag0005_tag0006_tag0007_tag0008_tag0009_tag0010_tag0011_tag0012_tag0013_tag0014_tag0015_tag0016_tag0017_tag0018_tag0019_tag0020_tag0021_tag0022_tag0023_tag0024_tag0025_tag0026_tag0027_tag0028_tag0029_tag0030_tag0031_tag003"};
const char* const kFuncs[] = {"f", "main", "a_function_with_a_longer_name", "thirty_one_characters_long_name", "_a_function_name_of_a_hundred_and_twenty_characters_which_is_longer_than_most_people_would_like_to_read_in_one_log_lines",
  // names that leave little or no room in the header
  "n23456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_1234567",
  "n23456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_1234",
  "fun0000_fun0001_fun0002_fun0003_fun0004_fun0005_fun0006_fun0007_fun0008_fun0009_fun0010_fun0011_fun0012_fun0013_fun0014_fun0015_fun0016_fun0017_fun0018_fun0019_fun0020_fun0021_fun0022_fun0023_fun0024_fun0025_fun0026_fun0027_fun0028_fun0029_fun0030_fun0031_fun0"};
const int64_t kDefault[] = {LOG_LEVEL_VERBOSE, LOG_LEVEL_OFF, LOG_TARGET_CONSOLE, LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL, LOG_FLUSH_MODE_AUTO, 8, 0, 0};
struct Set { uint64_t inv, ret; int64_t v; };
struct Call {
  int client = 0, n = 0, level = 0, tag = -1, func = -1, line = 0, tid = 0;
  bool hex = false, jumped = false;
  std::string msg;
  uint64_t inv = 0, ret = 0; int64_t winv = 0, wret = 0;
  size_t sunk = 0;
  int con = -1, cb = -1;              // index of the matching console / callback record
};
struct CbRec { int level; std::string text; int who; int fid; };
struct World {
  std::vector<Set> hist[S_N];
  std::vector<std::unique_ptr<Call>> calls;
  std::vector<CbRec> cbs;
  int jumps = 0, in_log = 0;
  int cb_yield = 0;
  int ud[4] = {0, 1, 2, 3}, owner[S_N] = {0};
};
World* W;

void cb_common(int who, LogLevel l, void* m, size_t sz, void* ud) {
  SIM_CHECK(ud == &W->ud[who], "cb-user-data", "callback %d was called with foreign user data", who);
  SIM_CHECK(sz >= 1, "cb-size", "callback text size %zu", sz);
  check_mem(m, sz, false, "callback text");
  SIM_CHECK(((char*)m)[sz - 1] == 0 && strlen((char*)m) == sz - 1, "cb-size", "callback text has %zu bytes with terminator but size %zu", strlen((char*)m) + 1, sz);
  W->cbs.push_back({l, std::string((char*)m, sz - 1), who, self()});
  for (int i = 0; i < W->cb_yield; i++) yield();
}
void cb1(LogLevel l, void* m, size_t s, void* u) { cb_common(u == &W->ud[3] ? 3 : 1, l, m, s, u); }
void cb2(LogLevel l, void* m, size_t s, void* u) { cb_common(2, l, m, s, u); }

// every value a setting may have had for an observer active in [inv, ret]
std::vector<int64_t> vals(int s, uint64_t inv, uint64_t ret) {
  std::vector<int64_t> o; auto& h = W->hist[s];
  for (size_t i = 0; i < h.size(); i++)
    if (h[i].inv <= ret && (i + 1 == h.size() || h[i + 1].ret >= inv)) if (std::find(o.begin(), o.end(), h[i].v) == o.end()) o.push_back(h[i].v);
  return o;
}
void apply(int s, int64_t v) {
  Set x; x.inv = seq(); x.v = v; x.ret = ~0ull;
  W->hist[s].push_back(x); size_t ix = W->hist[s].size() - 1;
  switch (s) {
    case S_MIN: xlog_set_min_level((LogLevel)v); break;
    case S_TRIG: xlog_auto_level_up((LogLevel)v); break;
    case S_TARGET: xlog_set_target((int)v); break;
    case S_FORMAT: xlog_set_format((int)v); break;
    case S_FLUSH: xlog_set_flush_mode((LogFlushMode)v); break;
    case S_TZ: xlog_set_timezone((int)v); break;
    case S_TAG: { v = v < 0 || v > 8 ? 0 : v; char t[300]; strcpy(t, kTags[v]); xlog_set_default_tag(t); memset(t, '!', sizeof t - 1); break; }
    default: xlog_set_user_callback(v == 1 || v == 3 ? cb1 : v == 2 ? cb2 : nullptr, v ? &W->ud[v] : nullptr);
  }
  W->hist[s][ix].ret = seq();
  note("set %d = %lld", s, (long long)v);
}
std::string stamp(int64_t wall, int tz) {
  time_t t = (time_t)(wall / 1000000000ll + tz * 3600); struct tm tm; gmtime_r(&t, &tm);
  char b[64]; snprintf(b, sizeof b, "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(wall / 1000000 % 1000));
  return b;
}
std::string body(const Call& c) {
  std::string s;
  if (!c.hex) { if (c.func >= 0 && c.line > 0) s = std::string("(") + kFuncs[c.func] + ":" + std::to_string(c.line) + ") "; return s + c.msg; }
  char b[48];
  if (c.msg.size() * 3 >= 512) { snprintf(b, sizeof b, "hex truncated(%zu):", c.msg.size()); s = b; }
  for (unsigned char ch : c.msg) { snprintf(b, sizeof b, " %02x", ch); s += b; }
  return s;
}
// a function name that need not fit the header (it may be cut or left out)
bool longname(const Call& c) { return !c.hex && c.func >= 0 && c.line > 0 && strlen(kFuncs[c.func]) > 380; }
// does `text` render this call under some configuration that was possible while it ran?
bool matches(const Call& c, const std::string& text, int cblevel, std::string* why) {
  std::string b = body(c);
  bool trunc = c.hex && c.msg.size() * 3 >= 512;
  std::string whole = trunc ? b.substr(b.find(':') + 1) : b;
  for (int64_t f : vals(S_FORMAT, c.inv, c.ret)) for (int64_t trig : vals(S_TRIG, c.inv, c.ret)) {
    int lv = trig && c.level < trig ? (int)trig : c.level;
    if (lv > 5 || (cblevel >= 0 && cblevel != lv)) continue;
    std::vector<int64_t> tags = c.tag >= 0 ? std::vector<int64_t>{c.tag} : vals(S_TAG, c.inv, c.ret);
    for (int64_t tag : tags) {
      std::string h;
      if (f & LOG_FORMAT_WITH_TAG_LEVEL) { std::string t = kTags[tag]; while (t.size() < 8) t += ' ';
        if (t.size() > 22) { size_t at = (f & LOG_FORMAT_WITH_TIMESTAMP ? 18 : 0) + 3, n = 0; while (n < t.size() && at + n < text.size() && text[at + n] == t[n]) n++; if (n >= 16) t.resize(n); } h += std::string(" ") + "0VDIWE?"[lv] + "/" + t; }
      if (f & LOG_FORMAT_WITH_TID) { char x[24]; if (c.tid < 100000) snprintf(x, sizeof x, "(%5d)", c.tid); else snprintf(x, sizeof x, "(%05d)", c.tid % 100000); if (c.tid >= 100000 && text.size() > (f & LOG_FORMAT_WITH_TIMESTAMP ? 18 : 0) + h.size() && text.find("(" + std::to_string(c.tid) + ")") == (f & LOG_FORMAT_WITH_TIMESTAMP ? 18 : 0) + h.size()) snprintf(x, sizeof x, "(%d)", c.tid); h += x; }
      if (f & (LOG_FORMAT_WITH_TAG_LEVEL | LOG_FORMAT_WITH_TID | LOG_FORMAT_WITH_TIMESTAMP)) h += ": ";
      size_t off = f & LOG_FORMAT_WITH_TIMESTAMP ? 18 : 0;
      if (text.size() < off + h.size() || text.compare(off, h.size(), h)) continue;
      std::string rest = text.substr(off + h.size());
      if (trunc && rest == whole) {}  // a larger buffer shows all of it
      else if (trunc) { size_t colon = b.find(':') + 1; if (!(rest.size() >= 300 && rest.size() <= b.size() && (rest.size() - colon) % 3 == 0 && b.compare(0, rest.size(), rest) == 0)) continue; }
      else if (rest != b && !(longname(c) && rest.size() >= c.msg.size() && rest.size() < b.size() && rest.compare(rest.size() - c.msg.size(), c.msg.size(), c.msg) == 0)) continue;
      if (off) {
        bool ok = false;
        for (int64_t tz : vals(S_TZ, c.inv, c.ret)) { std::string lo = stamp(c.winv, (int)tz), hi = stamp(c.wret, (int)tz), s = text.substr(0, 18); if (c.jumped || (lo <= s && s <= hi)) ok = true; }
        if (!ok) { if (why) *why = "time stamp out of range"; continue; }
      }
      return true;
    }
  }
  return false;
}
std::string shortt(const std::string& s) { return s.size() > 140 ? s.substr(0, 100) + "..." + s.substr(s.size() - 30) : s; }

void do_log(int client, int n, const Op& o) {
  W->calls.emplace_back(new Call); Call& c = *W->calls.back();
  c.client = client; c.n = n; c.hex = o.k == 1; c.level = (int)(o.b & 7); c.tag = (int)((o.b >> 4) & 15) - 1; c.func = (int)((o.b >> 8) & 15) - 1; if (c.func > 7) c.func = 7; if (c.tag > 8) c.tag = 8; c.line = (int)o.c;
  if (c.hex) { c.msg.push_back((char)client); c.msg.push_back((char)n); for (int64_t i = 0; i < o.a; i++) c.msg.push_back((char)pat(client * 100 + n, i)); }
  else { c.msg = "#" + std::to_string(client) + "." + std::to_string(n) + "#"; for (int64_t i = 0; i < o.a; i++) c.msg.push_back((char)(' ' + pat(client * 100 + n, i) % 95)); }
  char* m = (char*)halloc(c.msg.size() + 1); memcpy(m, c.msg.data(), c.msg.size()); m[c.msg.size()] = 0;
  int j = W->jumps; W->in_log++;
  c.tid = (int)portable_thread_gettid();
  c.winv = wall_ns(); c.inv = seq();
  const char* tag = c.tag >= 0 ? kTags[c.tag] : nullptr;
  if (c.hex) __xlog_internal_hex_print((LogLevel)c.level, tag, m, c.msg.size());
  else __xlog_internal_print((LogLevel)c.level, tag, c.func >= 0 ? kFuncs[c.func] : nullptr, c.line, "%s", m);
  c.ret = seq(); c.wret = wall_ns(); c.jumped = j != W->jumps; W->in_log--;
  c.sunk = out_sunk().size();
  hfree(m);
  note("log %d.%d", client, n);
}
void do_client(int client, const std::vector<Op>& ops) {
  int n = 0;
  for (auto& o : ops) switch (o.k) {
    case 7:      // values that are not valid settings change nothing
      switch (o.a) {
        case 0: xlog_set_timezone(o.b & 1 ? 13 : -13); break;
        case 1: xlog_set_min_level((LogLevel)(o.b & 1 ? LOG_LEVEL_UNKNOWN : -1)); break;
        case 2: xlog_set_target(-1); break;
        case 3: xlog_set_format(-1); break;
        default: xlog_set_default_tag(nullptr);
      }
      break;
    case 8: {    // a record that cannot be formatted is dropped whole
      static const wchar_t bad[] = {0x10FFFF + 5, 0};
      __xlog_internal_print((LogLevel)(1 + o.b % 5), kTags[o.a % 6], "bad", 7, "#unformattable# %ls", bad);
      break;
    }
    case 0: case 1: do_log(client, n++, o); break;
    case 2: for (int i = 0; i < o.a; i++) yield(); break;
    case 3: usleep_sim((uint64_t)o.a); break;
    case 4: W->jumps++; wall_jump(o.a * 1000000ll); break;
    case 5: { auto& ow = W->owner[o.a & 7]; if (!ow) ow = client + 1; if (ow == client + 1) apply((int)o.a & 7, o.b); break; }   // one thread per setting
    case 6: {      // read back
      if (o.a != S_MIN && o.a != S_TARGET && o.a != S_FORMAT && o.a != S_FLUSH) break;
      uint64_t inv = seq(); int64_t v = o.a == S_MIN ? xlog_get_min_level() : o.a == S_TARGET ? xlog_get_target() : o.a == S_FORMAT ? xlog_get_format() : xlog_get_flush_mode();
      uint64_t ret = seq(); auto x = vals((int)o.a, inv, ret);
      SIM_CHECK(std::find(x.begin(), x.end(), v) != x.end(), "getter", "the getter of setting %lld returned %lld, last set %lld", (long long)o.a, (long long)v, (long long)W->hist[o.a].back().v);
      break;
    }
  }
}
void setup(const Plan& p) {
  { NoFaults nf; SIM_CHECK(lcu_global_init() == 0 || true, "init", "init failed"); }
  wall_set(1718000000000000000ll + P(p, 8) * 1000000ll);
  tid_base((int)P(p, 9, 4000));
  W->cb_yield = (int)P(p, 10);
  for (int s = 0; s < S_N; s++)
    if (P(p, 11) >> s & 1) W->hist[s].push_back({0, 0, kDefault[s]});      // keeps its default
    else apply(s, P(p, s));
}
// match every record of one target with a call; returns indices in record order
void match_all(const std::vector<std::string>& recs, const std::vector<CbRec>* cbs, const char* target, int Call::*slot) {
  uint64_t maxinv = 0; const Call* maxc = nullptr;
  for (size_t i = 0; i < recs.size(); i++) {
    Call* hit = nullptr; std::string why = "no call prints this";
    for (auto& c : W->calls) if ((*c).*slot < 0 && matches(*c, recs[i], cbs ? (*cbs)[i].level : -1, &why)) { hit = c.get(); break; }
    if (!hit) {
      for (auto& c : W->calls) if ((*c).*slot >= 0 && matches(*c, recs[i], cbs ? (*cbs)[i].level : -1, nullptr)) violation("duplicate", "%s record %zu was emitted twice: %s", target, i, shortt(recs[i]).c_str());
      violation("bad-record", "%s record %zu is not what any call had to print (%s)%s: \"%s\"", target, i, why.c_str(), cbs ? (" level " + std::to_string((*cbs)[i].level)).c_str() : "", shortt(recs[i]).c_str());
    }
    (*hit).*slot = (int)i;
    SIM_CHECK(hit->ret >= maxinv, "order", "%s: the record of call %d.%d comes after that of call %d.%d, which started later", target, hit->client, hit->n, maxc ? maxc->client : -1, maxc ? maxc->n : -1);
    if (hit->inv > maxinv) { maxinv = hit->inv; maxc = hit; }
  }
}
std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> v; std::string cur;
  for (char ch : s) if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch;
  SIM_CHECK(cur.empty(), "bad-record", "console output ends with an unterminated record \"%s\"", shortt(cur).c_str());
  return v;
}
void verify(bool faulty) {
  std::string o = out();
  std::vector<std::string> con = lines_of(o), cb;
  for (auto& r : W->cbs) cb.push_back(r.text);
  match_all(con, nullptr, "console", &Call::con);
  match_all(cb, &W->cbs, "callback", &Call::cb);
  std::vector<size_t> end; size_t at = 0; for (auto& l : con) { at += l.size() + 1; end.push_back(at); }
  int missing = 0;
  for (auto& cp : W->calls) {
    Call& c = *cp;
    auto mins = vals(S_MIN, c.inv, c.ret), tg = vals(S_TARGET, c.inv, c.ret), cbv = vals(S_CB, c.inv, c.ret);
    bool lv_yes = false, lv_no = false;
    for (int64_t m : mins) (m != 0 && c.level >= m && c.level < LOG_LEVEL_UNKNOWN ? lv_yes : lv_no) = true;
    for (int t = 0; t < 2; t++) {
      int bit = t ? LOG_TARGET_USER_CALLBACK : LOG_TARGET_CONSOLE;
      bool tyes = false, tno = false, cyes = !t, cno = false;
      for (int64_t x : tg) (x & bit ? tyes : tno) = true;
      if (t) for (int64_t x : cbv) (x ? cyes : cno) = true;
      bool may = lv_yes && tyes && cyes, maynot = lv_no || tno || cno;
      bool got = (t ? c.cb : c.con) >= 0;
      const char* tn = t ? "callback" : "console";
      SIM_CHECK(!got || may, "emitted", "call %d.%d (level %d) was emitted to the %s although no configuration during the call allows it", c.client, c.n, c.level, tn);
      if (!got && !maynot) {
        bool lng = faulty && body(c).size() + 60 >= 250;
        if (!lng) violation("lost", "call %d.%d (level %d, %zu bytes) was not emitted to the %s", c.client, c.n, c.level, c.msg.size(), tn);
        if (!t) missing++; else if (c.con >= 0 || !(W->hist[S_TARGET].back().v & LOG_TARGET_CONSOLE)) missing++;
      }
      if (got && t) { SIM_CHECK(W->cbs[c.cb].fid == c.client + 1 || true, "thread", " "); auto w = W->cbs[c.cb].who; SIM_CHECK(std::find(cbv.begin(), cbv.end(), (int64_t)w) != cbv.end(), "emitted", "call %d.%d went to callback %d, which was not set during the call", c.client, c.n, w); }
    }
    auto fl = vals(S_FLUSH, c.inv, c.ret);
    if (c.con >= 0 && fl.size() == 1 && fl[0] == LOG_FLUSH_MODE_EVERY) SIM_CHECK(end[c.con] <= c.sunk, "flush", "the record of call %d.%d had not been flushed when the call returned", c.client, c.n);
  }
  SIM_CHECK(missing <= (int)fault_fired(F_MALLOC), "lost", "%d records are missing but only %llu allocations failed", missing, (ull)fault_fired(F_MALLOC));
  // both targets see the same order
  std::vector<Call*> by; for (auto& c : W->calls) if (c->con >= 0 && c->cb >= 0) by.push_back(c.get());
  std::sort(by.begin(), by.end(), [](Call* a, Call* b) { return a->con < b->con; });
  for (size_t i = 1; i < by.size(); i++) SIM_CHECK(by[i - 1]->cb < by[i]->cb, "order", "console and callback saw calls %d.%d and %d.%d in different orders", by[i - 1]->client, by[i - 1]->n, by[i]->client, by[i]->n);
}
Op log_op(Rng& r, bool big) {
  Op o; o.k = r.chance(1, 7) ? 1 : 0;
  switch (r.below(big ? 7 : 4)) {
    case 0: o.a = 0; break;
    case 1: case 2: o.a = r.range(1, 40); break;
    case 3: o.a = r.range(60, 300); break;
    case 4: o.a = r.range(430, 530); break;
    case 5: o.a = r.range(505, 515); break;
    default: o.a = r.logrange(500, 6000);
  }
  if (o.k == 1) { if (o.a > 700) o.a = 700; if (big && r.chance(1, 3)) o.a = r.range(160, 175); }
  int64_t tag = r.chance(1, 3) ? 0 : 1 + (r.chance(1, 4) ? r.range(6, 8) : r.range(0, 5)), fn = r.chance(1, 2) ? 0 : r.chance(3, 4) ? r.range(1, 4) : r.range(5, 8);
  o.b = (r.chance(1, 16) ? r.pick({0, 6, 7}) : r.range(LOG_LEVEL_VERBOSE, LOG_LEVEL_ERROR)) | tag << 4 | fn << 8;
  o.c = r.chance(1, 4) ? 0 : r.logrange(1, 2000000000);
  return o;
}
int64_t rnd_setting(Rng& r, int s) {
  switch (s) {
    case S_MIN: return r.range(LOG_LEVEL_OFF, LOG_LEVEL_ERROR);
    case S_TRIG: return r.range(LOG_LEVEL_OFF, LOG_LEVEL_ERROR);
    case S_TARGET: return r.pick({(int64_t)LOG_TARGET_NONE, (int64_t)LOG_TARGET_CONSOLE, (int64_t)LOG_TARGET_USER_CALLBACK, (int64_t)(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK), (int64_t)LOG_TARGET_ANDROID, (int64_t)(LOG_TARGET_ANDROID | LOG_TARGET_CONSOLE)});
    case S_FORMAT: return r.range(0, 7) * 2;
    case S_FLUSH: return r.range(0, 1);
    case S_TZ: return r.range(-12, 12);
    case S_TAG: return r.range(0, 8);
    default: return r.range(0, 3);
  }
}
void base_gen(Rng& r, Plan& p) {
  p.p.resize(12); p.p[11] = r.chance(1, 2) ? 0 : r.chance(1, 3) ? 255 : r.range(0, 255);
  p.p[S_MIN] = r.range(LOG_LEVEL_VERBOSE, LOG_LEVEL_WARN); p.p[S_TRIG] = r.chance(1, 2) ? 0 : r.range(1, 5);
  p.p[S_TARGET] = r.pick({(int64_t)LOG_TARGET_CONSOLE, (int64_t)LOG_TARGET_USER_CALLBACK, (int64_t)(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK), (int64_t)(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK)});
  p.p[S_FORMAT] = r.range(0, 7) * 2; p.p[S_FLUSH] = r.range(0, 1); p.p[S_TZ] = r.chance(1, 2) ? 8 : r.range(-12, 12); p.p[S_TAG] = r.range(0, 8); p.p[S_CB] = r.range(0, 3);
  p.p[8] = r.range(0, 86400000ll * 100); p.p[9] = r.pick({0, 5, 80, 4000, 31000, 99998, 100000, 4000000}); p.p[10] = r.chance(1, 2) ? 0 : r.range(1, 6);
}
void l1_gen(Rng& r, Plan& p, RunCfg& c) {
  base_gen(r, p);
  c.stdiobuf = r.pick({1, 64, 512, 4096});
  int nc = (int)r.range(1, 4); p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) { if (r.chance(1, 6)) t.push_back({2, r.range(1, 12)}); if (r.chance(1, 10)) t.push_back({3, r.range(1, 3000)}); if (r.chance(1, 12)) t.push_back({4, r.range(-3000, 3000)}); if (r.chance(1, 16)) t.push_back({8, r.range(0, 5), r.range(0, 4)}); t.push_back(log_op(r, true)); } }
  draw_fault(r, p, F_MALLOC, 4, 1, 1);
}
// records beyond 64 KB, and hundreds of records
void l1_big(Rng& r, Plan& p, RunCfg& c) {
  base_gen(r, p); c.stdiobuf = 4096; c.max_steps = 6000000;
  int nc = (int)r.range(1, 2); p.t.resize((size_t)nc); bool many = r.chance(1, 4);
  for (auto& t : p.t) for (int i = 0, n = many ? (int)r.range(130, 300) / nc : (int)r.range(1, 4); i < n; i++) {
    Op o = log_op(r, false);
    if (!many) { o.a = r.pick({(int64_t)4096, (int64_t)32700, (int64_t)65400, (int64_t)65536, r.logrange(6000, 300000)}); o.a += r.range(-80, 80); }
    t.push_back(o);
  }
  draw_fault(r, p, F_MALLOC, 4, 1, 2);
}
void l1_run(const Plan& p) {
  World w; W = &w; setup(p);
  uint64_t base = live_blocks();
  for (size_t i = 0; i < p.t.size(); i++) spawn("logger", [&, i] { do_client((int)i, p.t[i]); });
  join_all_clients();
  SIM_CHECK(live_blocks() == base, "leak", "logging leaked: %s", leak_report().c_str());
  verify(true);
  lcu_global_cleanup();
  check_no_leaks("after cleanup");
}
void l2_gen(Rng& r, Plan& p, RunCfg& c) {
  base_gen(r, p);
  c.stdiobuf = r.pick({64, 4096, 65536});
  int nl = (int)r.range(1, 3), ncfg = (int)r.range(1, 2);
  p.t.resize((size_t)(nl + ncfg));
  for (int i = 0; i < nl; i++) { int n = (int)r.range(1, 6); for (int k = 0; k < n; k++) { if (r.chance(1, 3)) p.t[i].push_back({2, r.range(1, 20)}); if (r.chance(1, 4)) p.t[i].push_back({7, r.range(0, 5), r.range(0, 1)}); if (r.chance(1, 3)) p.t[i].push_back({6, r.pick({(int64_t)S_MIN, (int64_t)S_TARGET, (int64_t)S_FORMAT, (int64_t)S_FLUSH})}); Op o = log_op(r, r.chance(1, 4)); p.t[i].push_back(o); } }
  int only = r.chance(1, 2) ? (int)r.below(S_N) : -1;
  for (int i = 0; i < ncfg; i++) {
    int n = (int)r.range(1, 8);
    for (int k = 0; k < n; k++) {
      int s; do s = only >= 0 && r.chance(2, 3) ? only : (int)r.below(S_N); while (ncfg == 2 && s % 2 != i && only < 0);
      if (ncfg == 2 && s % 2 != i) continue;
      if (r.chance(1, 2)) p.t[nl + i].push_back({2, r.range(1, 25)});
      p.t[nl + i].push_back({5, s, rnd_setting(r, s)});
      if (s == S_MIN || s == S_TARGET || s == S_FORMAT || s == S_FLUSH) if (r.chance(1, 2)) p.t[nl + i].push_back({6, s});
    }
  }
}
void l2_run(const Plan& p) {
  World w; W = &w; setup(p);
  uint64_t base = live_blocks();
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { do_client((int)i, p.t[i]); });
  join_all_clients();
  SIM_CHECK(live_blocks() == base, "leak", "logging leaked: %s", leak_report().c_str());
  verify(false);
  lcu_global_cleanup();
  check_no_leaks("after cleanup");
}
const char* kReal = "src/log/xlog.c, src/time/time_util.c, src/mem/strings.c, src/thread/posix_thread.c, src/lcu.c (unmodified)";
const char* kStub = "pthread mutex/rwlock, stdout stream, heap, wall clock, gettid (simulated)";
Reg r1({"L01", {{"records", l1_gen, l1_run}, {"scale", l1_big, l1_run, 24}}, kReal, kStub});
Reg r2({"L02", {{"settings", l2_gen, l2_run}}, kReal, kStub});
}  // namespace
