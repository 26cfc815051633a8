#include "common.h"
extern "C" {
#include "log/file_logger.h"
#include "thread/portable_thread.h"
#include "time/time_util.h"
}
#include <algorithm>
#include <set>
namespace {
typedef unsigned long long ull;
// Messages are made of 8-byte cells "[Cnnkkk]": client, number, cell index, so
// that any longer fragment of a file identifies the message it came from.
struct M { int c, n; int64_t len; bool nul; char letter = 0; int gen = 0; int status = -1; bool began = false, done = false; uint64_t inv = 0, ret = 0, fop = 0; bool dirok = false; bool healthy = false; };
struct World {
  file_logger_handle h = nullptr;
  file_logger_cfg cfg;
  std::string dir, prefix;
  size_t piece = 0; bool best = false;
  std::vector<std::unique_ptr<M>> m;
  portable_mutex_t mtx = nullptr; int owner = -1;
  int gen = 0, gens = 0, letters = 0;
};
World* W;
int lk(void* a) { SIM_CHECK(a == (void*)W, "lock-arg", "the lock callback got a foreign argument"); portable_mutex_lock(&W->mtx); SIM_CHECK(W->owner < 0, "lock", "lock taken twice"); W->owner = self(); return 0; }
int ul(void* a) { SIM_CHECK(a == (void*)W && W->owner == self(), "lock", "lock released by a thread that does not hold it"); W->owner = -1; portable_mutex_unlock(&W->mtx); return 0; }
std::string text(const M& m) {
  if (m.letter) return std::string(1, m.letter);
  std::string s; char b[32];
  for (int k = 0; (int64_t)s.size() < m.len; k++) { snprintf(b, sizeof b, "[%c%02d%03d]", 'A' + m.c, m.n % 100, k % 1000); s += b; }
  s.resize((size_t)m.len);
  return s;
}
M* find(int c, int n) { for (auto& p : W->m) if (p->c == c && p->n == n) return p.get(); return nullptr; }
M* head(const std::string& s, size_t at = 0) {
  if (s.size() > at && islower((unsigned char)s[at])) { for (auto& p : W->m) if (p->letter == s[at]) return p.get(); return nullptr; }
  if (s.size() < at + 4 || s[at] != '[' || s[at + 1] < 'A' || s[at + 1] > 'Z' || !isdigit((unsigned char)s[at + 2]) || !isdigit((unsigned char)s[at + 3])) return nullptr;
  return find(s[at + 1] - 'A', (s[at + 2] - '0') * 10 + s[at + 3] - '0');
}
M& do_log(int c, int n, int64_t len, bool nul) {
  char letter = 0;
  if (len < 4) { len = 4; if (W->letters < 26) { len = 1; letter = (char)('a' + W->letters++); } }    // a one-byte message, each with its own letter
  W->m.emplace_back(new M{c, n, len, nul, letter}); M& m = *W->m.back(); m.gen = W->gen;
  std::string t = text(m);
  size_t sz = t.size() + (nul ? 1 : 0);
  char* b = (char*)halloc(sz); memcpy(b, t.data(), t.size()); if (nul) b[sz - 1] = 0;
  m.began = true; m.dirok = fs::is_dir(W->dir); m.inv = seq();
  m.status = file_logger_log(W->h, b, sz);
  m.ret = seq(); m.done = true;
  memset(b, '~', sz); hfree(b);
  note("log %c%d len %lld -> %d", 'A' + c, n, (long long)len, m.status);
  return m;
}
bool init() {
  memset(&W->cfg, 0, sizeof W->cfg);
  std::string d = W->dir;
  snprintf(W->cfg.log_folder_path, sizeof W->cfg.log_folder_path, "%s", d.c_str());
  snprintf(W->cfg.log_file_name_prefix, sizeof W->cfg.log_file_name_prefix, "%s", W->prefix.c_str());
  W->cfg.one_piece_file_max_len = W->piece; W->cfg.is_try_my_best_to_keep_log = W->best;
  W->cfg.lock = {W, lk, ul};
  file_logger_cfg* c = (file_logger_cfg*)halloc(sizeof *c); *c = W->cfg;
  W->h = file_logger_init(c);
  memset(c, 0x5C, sizeof *c); hfree(c);
  return W->h != nullptr;
}
void deinit() {
  SIM_CHECK(file_logger_deinit(&W->h) == 0 && !W->h, "deinit", "deinit failed or left the handle");
  SIM_CHECK(live_threads() == 0, "deinit", "the writer thread is alive after deinit");
  SIM_CHECK(fs::open_streams() == 0, "leak-stream", "%d streams are open after deinit", fs::open_streams());
  SIM_CHECK(W->owner < 0, "lock", "the lock is held after deinit");
}
void drain() { settle(3000000000ull); }
std::string slash(std::string d) {
  if (d.size() == sizeof W->cfg.log_folder_path - 1 && d.back() != '/') d.pop_back();      // no room for the slash: the last character makes way
  for (auto& ch : d) if (ch == '\\') ch = '/'; if (d.back() != '/') d += '/'; return d; }
std::string lost_path() { return W->dir + W->prefix + "_lost.log"; }
struct Piece { std::string name, data; };
std::vector<Piece> pieces() {
  std::vector<Piece> v;
  for (auto& n : fs::list(W->dir)) {
    if (n == W->prefix + "_lost.log") continue;
    Piece p; p.name = n; SIM_CHECK(fs::get(W->dir + n, p.data), "file", "%s is not a file", n.c_str());
    SIM_CHECK(n.size() > W->prefix.size() + 4 && n.compare(0, W->prefix.size(), W->prefix) == 0 && n.compare(n.size() - 4, 4, ".log") == 0, "file-name", "unexpected file %s", n.c_str());
    v.push_back(p);
  }
  // nothing may be created outside the log folder
  for (auto& p : fs::all_paths()) SIM_CHECK(fs::is_dir(p) || (p + "/").compare(0, W->dir.size(), W->dir) == 0 || (p[0] == '/' && p.compare(0, W->dir.size() - 1, W->dir, 0, W->dir.size() - 1) == 0), "file-name", "unexpected file %s outside the log folder", p.c_str());
  return v;
}
// stored messages in file order, every one a whole line; cut: the very last line may be incomplete
std::vector<M*> parse_exact(const std::vector<Piece>& ps, bool cut, std::vector<M*>* cutm = nullptr) {
  std::vector<M*> o;
  for (size_t f = 0; f < ps.size(); f++) {
    const std::string& d = ps[f].data; size_t at = 0;
    while (at < d.size()) {
      size_t e = d.find('\n', at);
      std::string line = d.substr(at, e == std::string::npos ? std::string::npos : e - at);
      M* m = head(line);
      if (e == std::string::npos) {
        SIM_CHECK(cut && f + 1 == ps.size(), "bad-line", "%s ends with an incomplete line", ps[f].name.c_str());
        if (line.size() >= 4) SIM_CHECK(m && text(*m).compare(0, line.size(), line) == 0, "bad-line", "the cut last line is not the start of a message: %.60s", line.c_str());
        if (m && cutm) cutm->push_back(m);
        break;
      }
      SIM_CHECK(m && line == text(*m), "bad-line", "%s holds a line that is no logged message (%zu bytes): %.60s", ps[f].name.c_str(), line.size(), line.c_str());
      o.push_back(m);
      at = e + 1;
    }
  }
  return o;
}
void check_order(const std::vector<M*>& s) {
  std::set<M*> seen; uint64_t maxinv = 0; M* mi = nullptr;
  for (M* m : s) {
    SIM_CHECK(seen.insert(m).second, "duplicate", "message %c%d is stored twice", 'A' + m->c, m->n);
    SIM_CHECK(!m->done || m->status == 0, "refused-stored", "message %c%d was refused with %d but is stored", 'A' + m->c, m->n, m->status);
    if (m->done) SIM_CHECK(m->ret >= maxinv, "order", "message %c%d is stored after %c%d, which was logged later", 'A' + m->c, m->n, 'A' + mi->c, mi->n);
    if (m->inv > maxinv) { maxinv = m->inv; mi = m; }
  }
}
// accepted messages that are not stored must not precede a stored one of the same generation
void check_prefix(const std::vector<M*>& s, const std::vector<M*>& also) {
  std::set<M*> st(s.begin(), s.end()); st.insert(also.begin(), also.end());
  for (auto& a : W->m) if (a->done && a->status == 0 && !st.count(a.get()))
    for (M* b : st) if (b->gen == a->gen) SIM_CHECK(b->inv < a->ret, "gap", "accepted message %c%d is missing although the later message %c%d is stored", 'A' + a->c, a->n, 'A' + b->c, b->n);
}
void check_sizes(const std::vector<Piece>& ps, int gens) {
  size_t mx = W->piece < 64 ? 0 : W->piece;
  size_t small = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    const std::string& d = ps[i].data;
    if (!mx) continue;
    size_t last = d.size() >= 2 ? d.rfind('\n', d.size() - 2) : std::string::npos; last = last == std::string::npos ? 0 : last + 1;
    SIM_CHECK(last < mx, "piece-size", "%s reached the piece length %zu at %zu bytes or earlier but was continued to %zu bytes", ps[i].name.c_str(), mx, last, d.size());
    if (d.size() < mx) small++;
  }
  if (mx) SIM_CHECK(small <= (size_t)gens, "piece-size", "%zu of %zu pieces are smaller than the piece length %zu", small, ps.size(), mx);
  else SIM_CHECK(ps.size() <= (size_t)gens, "piece-size", "%zu files without a piece limit", ps.size());
}
void setup(const Plan& p) {
  { NoFaults nf; time_util_global_init(); portable_mutex_init(&W->mtx, nullptr); }
  static const char* dirs[] = {"/logs", "/logs/", "/var/log/app", "/a\\b\\c", "/x", "/deep/er/still/deeper/and/deeper/",
    "/ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff/gggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggg",
    "/hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh/iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii/",
    "/jjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjjj/kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"};
  W->dir = dirs[(size_t)P(p, 0) % (sizeof dirs / sizeof *dirs)]; W->prefix = P(p, 1) == 0 ? "" : P(p, 1) == 1 ? "app_" : "p";
  W->piece = (size_t)P(p, 2); W->best = P(p, 4) != 0;
  wall_set(1718000000000000000ll + P(p, 5) * 1000000ll);
}
void teardown() { NoFaults nf; portable_mutex_destroy(&W->mtx); time_util_global_cleanup(); }
bool init_q(const Plan& p) {
  std::string raw = W->dir;
  memset(&W->cfg, 0, sizeof W->cfg);
  file_logger_cfg* c = (file_logger_cfg*)halloc(sizeof *c); memset(c, 0, sizeof *c);
  snprintf(c->log_folder_path, sizeof c->log_folder_path, "%s", raw.c_str());
  snprintf(c->log_file_name_prefix, sizeof c->log_file_name_prefix, "%s", W->prefix.c_str());
  c->one_piece_file_max_len = W->piece; c->log_queue_size = (size_t)P(p, 3, 8); c->is_try_my_best_to_keep_log = W->best; c->lock = {W, lk, ul};
  W->h = file_logger_init(c);
  memset(c, 0x5C, sizeof *c); hfree(c);
  note("init -> %d", W->h != nullptr);
  return W->h != nullptr;
}
void client(int c, int base, const std::vector<Op>& ops) {
  int n = base;
  for (auto& o : ops) switch (o.k) {
    case 0: do_log(c, n++, o.a, o.b != 0); break;
    case 1: usleep_sim((uint64_t)o.a); break;
    case 2: for (int i = 0; i < o.a; i++) yield(); break;
    case 3: wall_jump(o.a * 1000000ll); break;
    case 5: if (!W->best) { char e[1] = {'#'}; note("empty message"); file_logger_log(W->h, e, 0); } break;   // leaves no line and does no harm
    case 4: for (int64_t i = 0; i < o.a && n < 595; i++) { do_log(n < 100 ? c : 3 + c * 5 + n / 100, n % 100, o.b, i % 5 == 0); n++; if (i % 16 == 15) usleep_sim(4000); } break;
  }
}
int64_t rlen(Rng& r, int64_t q) {
  switch (r.below(12)) { case 0: return r.below(2) ? 1 : 4; case 1: case 2: return r.range(30, 80); case 3: return r.range(56, 66); case 4: return r.logrange(100, 1000); case 5: return r.chance(1, 3) ? r.logrange(1000, q * 1024 - 60) : 20; default: return r.range(4, 30); }
}
void gen(Rng& r, Plan& p, int maxops) {
  int64_t q = r.pick({2, 2, 3, 4, 8, 9, 16});
  p.p = {r.chance(1, 8) ? r.range(6, 8) : r.range(0, 5), r.range(0, 2), r.pick({(int64_t)0, (int64_t)10, (int64_t)64, (int64_t)64, (int64_t)65, (int64_t)100, r.range(64, 600), (int64_t)3000}), q, r.range(0, 1), r.range(0, 86400000ll * 300)};
  int nc = (int)r.range(1, 3); p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, maxops); for (int i = 0; i < n; i++) { if (r.chance(1, 4)) t.push_back({1, r.logrange(1, 8000)}); if (r.chance(1, 8)) t.push_back({2, r.range(1, 20)}); if (r.chance(1, 10)) t.push_back({3, r.pick({-1, -5, -1000, -86400000, 2, 3600000})}); t.push_back({0, rlen(r, q), r.below(4) == 0}); } }
}
// ---------------------------------------------------------------- L03
void l3_gen(Rng& r, Plan& p, RunCfg& c) {
  gen(r, p, 9);
  c.stdiobuf = r.pick({1, 32, 512, 4096});
  p.p.push_back(r.range(1, 3));          // 6: generations (logger restarted)
  p.p.push_back(r.range(0, 2));          // 7: 0 clock runs, 1 stands still, 2 reset to the start for each generation
  p.p.push_back(r.chance(1, 4));         // 8: deinit without draining
  p.p.push_back(r.chance(1, 3) ? r.range(1, 100) : 0);   // 9: one large message at rest
  if (r.chance(1, 6)) for (auto& t : p.t) t.insert(t.begin() + (long)r.below(t.size() + 1), {5, 0});
  if (r.chance(1, 3)) draw_fault(r, p, F_EINTR, 6);
}
// many pieces at one time, messages and pieces beyond 64 KB
void l3_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 8000000; c.stdiobuf = 4096;
  int kind = (int)r.below(4);
  p.p = {r.range(0, 4), r.range(0, 2), kind == 0 ? 64 : kind == 1 ? r.pick({65530, 65536, 66000, 100000, 131072, 200000}) : kind == 2 ? 0 : r.pick({1000, 70000}), kind == 0 ? r.pick({16, 64}) : kind == 2 ? 64 : r.pick({100, 300, 1100}), r.range(0, 1), r.range(0, 86400000ll * 300),
    1, kind == 0 ? r.range(0, 1) : 0, 0, r.chance(1, 2) ? r.range(1, 100) : 0};
  p.t.resize((size_t)r.range(1, 2));
  for (auto& t : p.t) {
    if (kind == 0) t.push_back({4, r.range(260, 330) / (int64_t)p.t.size(), r.range(64, 70)});
    else if (kind == 2) t.push_back({4, r.range(300, 590), r.range(20, 300)});
    else for (int i = 0, n = (int)r.range(2, 7); i < n; i++) { t.push_back({0, r.pick({(int64_t)2049, (int64_t)32767, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65537, r.logrange(1000, 130000), r.logrange(1000, p.p[3] * 500)}), r.below(4) == 0}); if (r.chance(1, 2)) t.push_back({1, 8000}); }
  }
}
void l3_run(const Plan& p) {
  World w; W = &w; setup(p);
  std::string raw = w.dir; int gens = (int)P(p, 6, 1);
  if (P(p, 7) == 1) clock_freeze(true);
  int64_t w0 = wall_ns();
  bool undrained = P(p, 8) != 0;
  for (int g = 0; g < gens; g++) {
    w.gen = g;
    if (P(p, 7) == 2) wall_set(w0);
    w.dir = raw;
    { NoFaults nf; SIM_CHECK(init_q(p), "init", "file_logger_init failed"); }
    w.dir = slash(raw);
    for (size_t i = 0; i < p.t.size(); i++) spawn("logger", [&, i, g] { client((int)i, g * 33, p.t[i]); });
    join_all_clients();
    if (!undrained) {
      drain();
      if (P(p, 9)) {      // the queue is empty: a message that fits the configured queue is taken
        int64_t pw = 1; while (pw * 2 <= P(p, 3) * 1024 - 64) pw *= 2;
        M& m = do_log(20, g, pw - 64 - P(p, 9) % 40, false);
        SIM_CHECK(m.status == 0, "refused", "a message of %lld bytes was refused with %d by an empty queue of %lld KB", (long long)m.len, m.status, (long long)P(p, 3));
        drain();
      }
    }
    deinit();
    SIM_CHECK(!fs::exists(lost_path()) || w.best, "lost-log", "a lost-log file was made without best-effort mode");
  }
  auto ps = pieces();
  auto st = parse_exact(ps, false);
  check_order(st);
  check_prefix(st, {});
  size_t acc = 0; for (auto& m : w.m) acc += m->status == 0;
  if (!undrained) {
    std::set<M*> s(st.begin(), st.end());
    for (auto& m : w.m) if (m->status == 0) SIM_CHECK(s.count(m.get()), "lost", "accepted message %c%d (%lld bytes) is in no file (%zu of %zu stored)", 'A' + m->c, m->n, (long long)m->len, st.size(), acc);
  }
  check_sizes(ps, gens);
  teardown();
  check_no_leaks("after deinit");
}
// ---------------------------------------------------------------- L04
void l4_gen(Rng& r, Plan& p, RunCfg& c) {
  gen(r, p, 8);
  c.stdiobuf = r.pick({1, 32, 512, 4096});
  int kind = (int)r.below(6);
  if (kind == 0 || kind == 5) { draw_fault(r, p, F_FOPEN, 6); draw_fault(r, p, F_MKDIR, 4); }
  if (kind == 1 || kind == 5) { draw_fault(r, p, F_WRITE, 8, 0, 1); draw_fault(r, p, F_CLOSE, 3); }
  if (kind == 2 || kind == 5) draw_fault(r, p, F_MALLOC, 12, 0, 1);
  if (kind == 5) { draw_fault(r, p, F_THREAD, 0, 3, 1); draw_fault(r, p, F_EINTR, 6); draw_fault(r, p, F_SYNCINIT, 3, 3, 1); }
  p.p.push_back(kind == 3 || r.chance(1, 10) ? r.range(0, 2000) : -1);   // 6: disk capacity
  if (kind == 4) for (auto& t : p.t) { int n = (int)r.range(2, 5); for (int i = 0; i < n; i++) t.push_back({0, r.range(300, p.p[3] * 512 - 40), 0}); }   // the queue overflows
}
void l4_big(Rng& r, Plan& p, RunCfg& c) {
  l3_big(r, p, c); p.p.resize(6);
  int kind = (int)r.below(5);
  if (kind == 0) p.f[F_FOPEN].nth = r.range(0, 200);
  if (kind == 1) p.f[F_WRITE].nth = r.range(0, 100);
  if (kind == 2) p.f[F_MALLOC].nth = r.range(0, 400);
  if (kind == 4) p.f[F_WRITE].rate = 2000;
  p.p.push_back(kind == 3 ? r.range(10000, 200000) : -1);
}
void l4_run(const Plan& p) {
  World w; W = &w;
  setup(p);
  std::string raw = w.dir;
  if (P(p, 6, -1) >= 0) fs::set_capacity(P(p, 6));
  bool ok = init_q(p);
  w.dir = slash(raw);
  if (!ok) {
    SIM_CHECK(fault_fired(F_MALLOC) + fault_fired(F_THREAD) + fault_fired(F_SYNCINIT) > 0, "init", "file_logger_init failed without a fault");
    SIM_CHECK(live_threads() == 0 && fs::open_streams() == 0, "init", "a failed init left %d threads, %d streams", live_threads(), fs::open_streams());
    teardown(); check_no_leaks("after a failed init"); return;
  }
  struct Lost { M* m; bool must; };
  std::vector<Lost> refused;
  for (size_t i = 0; i < p.t.size(); i++) spawn("logger", [&, i] { client((int)i, 0, p.t[i]); });
  join_all_clients();
  drain();
  uint64_t f_open = fault_fired(F_FOPEN), f_mk = fault_fired(F_MKDIR), f_wr = fault_fired(F_WRITE), f_full = fault_fired(F_DISKFULL);
  uint64_t f_mem = fault_fired(F_MALLOC);
  // the disk works again: what is accepted from now on must be stored
  faults(false); fs::set_capacity(-1);
  std::vector<M*> late; bool dead = false;    // dead: the writer stopped because memory for a message ran out
  for (int i = 0; i < 4; i++) { M& m = do_log(25, i, i == 2 ? 200 : 12 + i, false); if (m.status != 0) { SIM_CHECK(f_mem > 0, "refused", "a %lld byte message was refused with %d on an empty queue", (long long)m.len, m.status); dead = true; break; } late.push_back(&m); if (i == 1) drain(); }
  drain();
  deinit();
  auto ps = pieces();
  bool torn = f_wr || f_full;
  if (!torn) {
    auto st = parse_exact(ps, false);
    check_order(st);
    std::set<M*> s(st.begin(), st.end()); uint64_t missing = 0;
    for (auto& m : w.m) if (m->status == 0 && !s.count(m.get())) missing++;
    if (dead) { if (!f_open && !f_mk) check_prefix(st, {}); SIM_CHECK(late.empty(), "refused", "refused in between"); }
    else SIM_CHECK(missing <= f_open + f_mk, "lost", "%llu accepted messages are missing after %llu failed opens and %llu failed mkdirs", (ull)missing, (ull)f_open, (ull)f_mk);
    for (M* m : late) SIM_CHECK(s.count(m), "lost", "a message accepted while the disk works is not stored");
  } else {
    // cells in file order: each at most once, messages in order, cells of one message ascending
    std::set<std::pair<M*, int>> seen; std::vector<M*> ord; M* cur = nullptr; int lastk = -1; std::set<M*> finished;
    for (auto& pc : ps) {
      const std::string& d = pc.data;
      for (size_t i = 0; i < d.size();) {
        unsigned char ch = (unsigned char)d[i];
        SIM_CHECK(ch == '\n' || ch == '[' || ch == ']' || isalnum(ch), "garbage", "%s holds byte %02x at %zu, which no message contains", pc.name.c_str(), ch, i);
        if (d.size() - i >= 8 && d[i] == '[' && d[i + 7] == ']' && d.find('\n', i) > i + 7 && d.find('[', i + 1) > i + 7) {
          M* m = head(d, i); int k = atoi(d.substr(i + 4, 3).c_str());
          SIM_CHECK(m && k < (m->len + 7) / 8, "garbage", "%s holds a cell nobody logged: %s", pc.name.c_str(), d.substr(i, 8).c_str());
          if (m->len <= 8000) SIM_CHECK(seen.insert({m, k}).second, "duplicate", "cell %d of message %c%d is stored twice", k, 'A' + m->c, m->n);
          if (m != cur) { SIM_CHECK(!finished.count(m), "order", "message %c%d is stored in separate places", 'A' + m->c, m->n); if (cur) finished.insert(cur); cur = m; lastk = -1; ord.push_back(m); }
          SIM_CHECK(k > lastk || m->len > 8000, "order", "cells of message %c%d are out of order", 'A' + m->c, m->n);
          lastk = k; i += 8;
        } else i++;
      }
    }
    check_order(ord);
    std::string all; for (auto& pc : ps) all += pc.data;
    for (M* m : late) if (m != late[0] && m != late[1]) SIM_CHECK(all.find(text(*m) + "\n") != std::string::npos, "lost", "message %c%d, accepted while the disk works, is not stored", 'A' + m->c, m->n);
  }
  // overload and lost log
  std::string lost; bool have = fs::get(lost_path(), lost);
  if (!w.best) SIM_CHECK(!have, "lost-log", "a lost-log file was made without best-effort mode");
  else {
    uint64_t nmiss = 0, nref = 0; size_t at = 0; std::set<M*> in;
    if (!torn) {
      while (at < lost.size()) { size_t e = lost.find("\n\n", at); SIM_CHECK(e != std::string::npos, "lost-log", "incomplete entry in the lost log"); M* m = head(lost, at); SIM_CHECK(m && lost.substr(at, e - at) == text(*m), "lost-log", "an entry of the lost log is no logged message"); SIM_CHECK(in.insert(m).second, "lost-log", "message %c%d is twice in the lost log", 'A' + m->c, m->n); SIM_CHECK(m->status != 0, "lost-log", "accepted message %c%d is in the lost log", 'A' + m->c, m->n); at = e + 2; }
      for (auto& m : w.m) if (m->status != 0) { nref++; if (m->dirok && !in.count(m.get())) nmiss++; }
      SIM_CHECK(nmiss <= f_open, "lost-log", "%llu of %llu refused messages are missing in the lost log after %llu failed opens", (ull)nmiss, (ull)nref, (ull)f_open);
    }
  }
  (void)f_mem;
  teardown();
  check_no_leaks("after deinit");
}
// crash at any step, then a new process goes on in the same folder
void l4c_gen(Rng& r, Plan& p, RunCfg& c) {
  gen(r, p, 7);
  c.stdiobuf = r.pick({1, 8, 32, 512, 4096});
  p.p.push_back(r.chance(1, 6) ? 0 : r.logrange(20, 6000));      // 6: crash step
  p.p.push_back(r.chance(1, 2));                                 // 7: the next start happens at the same instant
}
void l4c_run(const Plan& p) {
  World w; W = &w; setup(p);
  std::string raw = w.dir; w.dir = slash(raw);
  int64_t w0 = wall_ns();
  int running = 0;
  bool crashed = run_incarnation([&] {
    w.dir = raw; bool ok = init_q(p); w.dir = slash(raw);
    SIM_CHECK(ok, "init", "file_logger_init failed");
    for (size_t i = 0; i < p.t.size(); i++) { running++; spawn("logger", [&, i] { client((int)i, 0, p.t[i]); running--; }); }
    SIM_CHECK(wait_until([&] { return running == 0; }, 250000), "stuck", "a logging thread never finished");
    deinit();
  }, (uint64_t)P(p, 6));
  note("crashed %d", crashed);
  w.dir = slash(raw);
  auto ps = pieces(); std::vector<M*> cut;
  auto st = parse_exact(ps, crashed, &cut);
  auto so = st; so.insert(so.end(), cut.begin(), cut.end());
  check_order(so);
  check_prefix(st, cut);
  check_sizes(ps, 1);
  // restart
  if (P(p, 7)) wall_set(w0);
  w.gen = 1; w.owner = -1;
  { NoFaults nf; if (!crashed) portable_mutex_destroy(&w.mtx); w.mtx = nullptr; portable_mutex_init(&w.mtx, nullptr); if (crashed) time_util_global_init(); }
  std::string r2 = raw; w.dir = r2;
  SIM_CHECK(init_q(p), "init", "file_logger_init failed after a crash");
  w.dir = slash(raw);
  std::vector<M*> late;
  for (int i = 0; i < 3; i++) { late.push_back(&do_log(25, i, 20 + 40 * i, false)); drain(); }
  deinit();
  auto p2 = pieces();
  std::map<std::string, std::string> now; for (auto& x : p2) now[x.name] = x.data;
  for (auto& x : ps) { SIM_CHECK(now.count(x.name) && now[x.name].compare(0, x.data.size(), x.data) == 0, "destroyed", "%s was changed by the restarted logger", x.name.c_str()); }
  std::string all; for (auto& x : p2) all += x.data;
  for (M* m : late) SIM_CHECK(m->status == 0 && all.find(text(*m) + "\n") != std::string::npos, "lost", "a message logged after the restart is not stored");
  teardown(); check_no_leaks("after the restarted logger");
}
const char* kReal = "src/log/file_logger.c, src/ring/msg_queue_handler.c, msg_queue.c, ringbuffer.c, src/time/time_util.c, src/file/file_util.c, src/mem/strings.c, src/thread/posix_thread.c (unmodified)";
const char* kStub = "threads, mutexes, semaphores, heap, wall clock, disk and stdio buffering, process crash (simulated)";
Reg r1({"L03", {{"pieces", l3_gen, l3_run}, {"scale", l3_big, l3_run, 12}}, kReal, kStub});
Reg r2({"L04", {{"faults", l4_gen, l4_run}, {"scale", l4_big, l4_run, 12}, {"crash", l4c_gen, l4c_run}}, kReal, kStub});
}  // namespace
