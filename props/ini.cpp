#include "common.h"
extern "C" {
#include "file/ini_parser.h"
#include "file/ini_reader.h"
FILE* sim_fopen(const char*, const char*); int sim_fclose(FILE*); char* sim_fgets(char*, int, FILE*);
}
#include "client_ini.h"
#include <array>
#include <cmath>
#include <set>
namespace {
typedef std::pair<std::string, std::string> KV;
struct Sec { std::string name; std::vector<KV> kv; };
typedef std::vector<Sec> Model;
bool same(const std::string& a, const std::string& b) { return strcasecmp(a.c_str(), b.c_str()) == 0; }
Sec* msec(Model& m, const std::string& s) { for (auto& x : m) if (same(x.name, s)) return &x; return nullptr; }
KV* mkv(Sec* s, const std::string& k) { if (s) for (auto& x : s->kv) if (same(x.first, k)) return &x; return nullptr; }
void mput(Model& m, const std::string& s, const std::string& k, const std::string& v) { Sec* x = msec(m, s); if (!x) { m.push_back({s, {}}); x = &m.back(); } if (KV* y = mkv(x, k)) y->second = v; else x->kv.push_back({k, v}); }
struct Seen { std::vector<std::array<std::string, 3>> v; int stop = -1; };
int on_pair(const char* s, const char* k, const char* v, const void* u) { Seen* x = (Seen*)u; SIM_CHECK(s && k && v, "foreach", "a NULL text was passed to the handler"); x->v.push_back({s, k, v}); yield(); return (int)x->v.size() == x->stop ? 1 : 0; }
void equal_model(ini_parser_handle h, Model& m, const char* when, bool empties = true) {
  NoFaults nf; Seen x; SIM_CHECK(ini_parser_foreach(h, on_pair, &x) == 0, "foreach", "foreach failed");
  size_t i = 0;
  for (auto& s : m) for (auto& kv : s.kv) {
    SIM_CHECK(i < x.v.size(), "content", "%s: [%s] %s is missing", when, s.name.c_str(), kv.first.c_str());
    SIM_CHECK(x.v[i][0] == s.name && x.v[i][1] == kv.first && x.v[i][2] == kv.second, "content", "%s: pair %zu is [%s] %s = '%s', it should be [%s] %s = '%s'", when, i, x.v[i][0].c_str(), x.v[i][1].c_str(), x.v[i][2].c_str(), s.name.c_str(), kv.first.c_str(), kv.second.c_str());
    i++;
  }
  SIM_CHECK(i == x.v.size(), "content", "%s: %zu pairs instead of %zu", when, x.v.size(), i);
  if (empties) for (auto& s : m) SIM_CHECK(ini_parser_has_section(h, s.name.c_str()) == 0, "content", "%s: section %s is missing", when, s.name.c_str());
}
char* hs(const std::string& s) { char* b = (char*)halloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); return b; }
const char* kSec[] = {"main", "Main", "net", "a b", "S", "section_with_a_rather_long_name_of_49_characters_ok", "x=y"};
const char* kKey[] = {"key", "KEY", "port", "a key", "k", "_", "Name.of.a.key", "a_key_of_forty_nine_characters_is_the_longest_one", "the_longest_key_an_entry_can_hold_has_sixty_three_characters_ok_"};
std::string value(Rng& r, bool lng = false) {
  static const char* v[] = {"", "1", "0", "-17", "0x1F", "017", "true", "FALSE", "yes", "no", "3.25", "-1e-3", "text", "text with  spaces", "a=b:c", "semi;colon", "[x]", "#hash", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "12abc", "0x", "1 2", "\xe4\xbd\xa0", "nan", "1e400"};
  if (r.chance(1, 12)) {   // numbers whose text is long
    std::string z((size_t)(lng && r.chance(1, 3) ? r.range(110, 240) : r.range(1, 110)), '0');
    switch (r.below(5)) { case 0: return "0x" + z + "1F"; case 1: return r.pick({"-", "+", ""}) + z + "17"; case 2: return z + "1.5"; case 3: return "0." + z + "25e10"; default: return r.pick({"1.00000017881393432617187499", "-0x7fffffffffffffff", "0x80000000", "0777777777777777777777"}); }
  }
  if (r.chance(1, 5)) { std::string s; for (int64_t n = r.logrange(1, 120); n > 0; n--) s += (char)('A' + r.below(26)); return s; }
  return v[r.below(sizeof v / sizeof *v)];
}
std::string sec_of(int64_t i) { return std::string(kSec[(size_t)(i < 0 ? 0 : i) % 7]).substr(0, 49); }
std::string key_of(int64_t i) { i = (i < 0 ? 0 : i) % 9; return std::string(kKey[i]).substr(0, i == 8 ? 63 : 49); }
std::string val_of(int64_t i, bool lng = false) { Rng r((uint64_t)i); return value(r, lng); }
// typed getters against the C conversions of the whole stored text
void typed(ini_parser_handle h, Model& m, const std::string& s, const std::string& k) {
  KV* kv = mkv(msec(m, s), k); std::string v = kv ? kv->second : ""; char* cs = hs(s); char* ck = hs(k);
  auto bad = [&](int rc, const char* fn) { if (!kv) SIM_CHECK(rc == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "get", "%s of a missing key returned %d", fn, rc); else if (v.empty()) SIM_CHECK(rc != 0, "get", "%s of an empty value returned 0", fn); return !kv || v.empty(); };
  char* e; errno = 0; long long want = strtoll(v.c_str(), &e, 0); bool num = !*e && errno == 0;
  { int x = 99; int rc = ini_parser_get_int(h, cs, ck, &x); if (!bad(rc, "get_int")) { if (*e) SIM_CHECK(rc != 0, "get", "get_int of '%s' returned 0", v.c_str()); else if (num && want == (int)want) SIM_CHECK(rc == 0 && x == want, "get", "get_int of '%s' gave %d (%d)", v.c_str(), x, rc); } }
  { long x = 99; int rc = ini_parser_get_long(h, cs, ck, &x); if (!bad(rc, "get_long")) { if (*e) SIM_CHECK(rc != 0, "get", "get_long of '%s' returned 0", v.c_str()); else if (num) SIM_CHECK(rc == 0 && x == want, "get", "get_long of '%s' gave %ld (%d)", v.c_str(), x, rc); } }
  { long long x = 99; int rc = ini_parser_get_long_long(h, cs, ck, &x); if (!bad(rc, "get_long_long")) { if (*e) SIM_CHECK(rc != 0, "get", "get_long_long of '%s' returned 0", v.c_str()); else if (num) SIM_CHECK(rc == 0 && x == want, "get", "get_long_long of '%s' gave %lld (%d)", v.c_str(), x, rc); } }
  { double x = 99, w = strtod(v.c_str(), &e); int rc = ini_parser_get_double(h, cs, ck, &x); if (!bad(rc, "get_double")) { if (*e) SIM_CHECK(rc != 0, "get", "get_double of '%s' returned 0", v.c_str()); else SIM_CHECK(rc == 0 && (x == w || (std::isnan(x) && std::isnan(w))), "get", "get_double of '%s' gave %g (%d)", v.c_str(), x, rc); } }
  { float x = 99, w = strtof(v.c_str(), &e); int rc = ini_parser_get_float(h, cs, ck, &x); if (!bad(rc, "get_float")) { if (*e) SIM_CHECK(rc != 0, "get", "get_float of '%s' returned 0", v.c_str()); else SIM_CHECK(rc == 0 && (x == w || (std::isnan(x) && std::isnan(w))), "get", "get_float of '%s' gave %g (%d)", v.c_str(), x, rc); } }
  {
    bool x = false; int rc = ini_parser_get_bool(h, cs, ck, &x);
    if (!bad(rc, "get_bool")) {
      static const char* yes[] = {"true", "yes"}; static const char* no[] = {"false", "no"}; int w = -1;
      for (auto t : yes) if (!strcasecmp(v.c_str(), t)) w = 1;
      for (auto t : no) if (!strcasecmp(v.c_str(), t)) w = 0;
      if (w < 0 && num && want == (int)want) w = want != 0;
      if (w >= 0) SIM_CHECK(rc == 0 && (int)x == w, "get", "get_bool of '%s' gave %d (%d)", v.c_str(), (int)x, rc);
    }
  }
  hfree(cs); hfree(ck);
}
// ------------------------------------------------------------------ reference reader
struct Trip { std::string s, n, v; bool nul; int line; bool sec = false; };
bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
std::string rtrim(std::string s) { while (!s.empty() && sp(s.back())) s.pop_back(); return s; }
std::string ltrim(const std::string& s) { size_t i = 0; while (i < s.size() && sp(s[i])) i++; return s.substr(i); }
size_t comment_at(const std::string& s, const IniConfig& o) { if (o.inl) for (size_t i = 1; i < s.size(); i++) if (strchr(o.mid, s[i]) && sp(s[i - 1])) return i; return s.size(); }
const IniConfig kShipped = {200, 0, 0, 0, 0, 1, 1, 1, 1, 0, ";#", ";"};
// false: a line is longer than the documented limits
bool reference(const std::string& text, std::vector<Trip>& out, std::vector<int>& bad, const IniConfig& o = kShipped) {
  std::string section, prev; int line = 0;
  for (size_t i = 0; i < text.size();) {
    size_t e = text.find('\n', i); std::string l = text.substr(i, e == std::string::npos ? e : e - i + 1); i += l.size(); line++;
    if (l.size() > (size_t)o.max - 1) return false;
    bool indented;
    if (o.bom && line == 1 && l.compare(0, 3, "\xEF\xBB\xBF") == 0) l = l.substr(3);
    l = rtrim(l); indented = !l.empty() && sp(l[0]); l = ltrim(l);
    if (l.empty() || strchr(o.start, l[0])) continue;
    if (o.multi && !prev.empty() && indented) { out.push_back({section, prev, rtrim(l.substr(0, comment_at(l, o))), false, line}); continue; }
    if (l[0] == '[') {
      std::string in = l.substr(1); size_t c = in.find(']');
      if (c != std::string::npos && c < comment_at(in, o)) { section = in.substr(0, c).substr(0, 49); prev.clear(); if (o.newsec) out.push_back({section, "", "", true, line, true}); } else bad.push_back(line);
      continue;
    }
    size_t q = l.find_first_of("=:"), c = comment_at(l, o);
    if (q != std::string::npos && q < c) {
      std::string v = l.substr(q + 1); v = rtrim(ltrim(v.substr(0, comment_at(v, o))));
      prev = rtrim(l.substr(0, q)).substr(0, 49);
      out.push_back({section, rtrim(l.substr(0, q)), v, false, line});
    } else if (o.noval) out.push_back({section, rtrim(l.substr(0, c)), "", true, line});
    else bad.push_back(line);
  }
  return true;
}
std::string text_of(uint64_t seed, int64_t lines, bool clean) {
  Rng r(seed); std::string s; if (!clean && r.chance(1, 12)) s += "\xEF\xBB\xBF";
  auto eol = [&] { return r.chance(1, 3) ? "\r\n" : "\n"; };
  if (clean) s += std::string("[") + kSec[r.below(3)] + "]\n";
  for (int64_t i = 0; i < lines; i++) {
    switch (r.below(clean ? 7 : 16)) {
      case 0: s += "[" + sec_of(r.range(0, 6)) + "]"; break;
      case 1: s += key_of(r.range(0, 7)) + (r.chance(1, 2) ? "=" : " : ") + val_of((int64_t)r.below(1000)); break;
      case 2: case 3: s += key_of(r.range(0, 7)) + " = " + val_of((int64_t)r.below(1000)); break;
      case 4: s += "; comment [x]"; break;
      case 5: s += r.chance(1, 2) ? "" : "# c = 1"; break;
      case 6: s += key_of(r.range(0, 7)) + std::string(r.pick({" = value ; comment", "\t=\tvalue\t; comment", " = val\v;c", "=;none", "= ;none"})); break;
      case 7: s += "  continued ; c"; break;
      case 8: s += "\t " + key_of(r.range(0, 7)) + " = 5"; break;
      case 9: s += "[broken"; break;
      case 10: s += "lonely"; break;
      case 11: s += "= no name"; break;
      case 12: s += "[sec ; x]"; break;
      case 13: s += std::string((size_t)r.range(1, 90), 's') + "=" + std::string((size_t)r.range(0, 100), 'v'); break;
      case 14: if (r.chance(1, 3)) { s += std::string((size_t)r.range(150, 260), 'k') + " = " + std::string((size_t)r.range(100, 300), 'w'); break; } s += "[" + std::string((size_t)r.range(1, 80), 't') + "]"; break;
      case 15: s += r.pick({"a ;b = c", "a\t;b = c", "a;b = c", "key = v\t;x;y", "[a\t;]", "[a;b]", " ; indented comment", "\t# indented"}); break;
    }
    if (i + 1 < lines || r.chance(2, 3)) s += eol();
  }
  return s;
}
// ------------------------------------------------------------------ I02
// ops: 0 put, 1 delete key, 2 delete section, 3 get_string, 4 typed, 5 foreach with stop, 6 has, 7 invalid
void i2_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 1500000;
  int nc = r.chance(1, 5) ? 2 : 1; p.p = {(int64_t)r.below(1u << 30), r.chance(1, 2) ? r.range(1, 12) : 0, r.chance(1, 2)}; p.t.resize((size_t)nc);
  static const int w[] = {0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7};
  for (auto& t : p.t) { int n = (int)r.range(2, 20); for (int i = 0; i < n; i++) t.push_back({w[r.below(16)], r.range(0, 3) + 4 * (r.chance(1, 5) ? 1 : 0), r.range(0, r.chance(1, 3) ? 8 : 3), (int64_t)r.below(1000) | (r.chance(1, 4) ? r.range(1, 6) << 20 : 0)}); }
  if (r.chance(1, 2)) draw_fault(r, p, F_MALLOC, 40, 0, 1);
}
void i2_client(const Plan& p, size_t ti) {
  Model m; ini_parser_handle h = nullptr;
  uint64_t f0 = fault_fired(F_MALLOC);
  std::string text;
  if (P(p, 1) > 0) {
    text = text_of((uint64_t)(P(p, 0) + (int64_t)ti), std::min<int64_t>(P(p, 1), 30), P(p, 2));
    std::vector<Trip> tr; std::vector<int> bad; bool judged = reference(text, tr, bad);
    bool ok = bad.empty();
    for (auto& t : tr) { if (t.s.empty() || t.n.empty()) ok = false; if (t.n.size() > 63 || t.v.size() > 255) judged = false; }
    char* ct = hs(text); h = ini_parser_parse_str(ct); hfree(ct);
    bool f = fault_fired(F_MALLOC) != f0;
    if (judged) {
      if (h) { SIM_CHECK(ok, "parse", "a text with errors was parsed"); for (auto& t : tr) mput(m, t.s, t.n, t.v); equal_model(h, m, "after parsing"); }
      else SIM_CHECK(!ok || f, "parse", "a good text of %zu bytes was not parsed", text.size());
    } else if (h) { ini_parser_destroy(&h); h = nullptr; }
    if (!h) { if (p.t.size() == 1) check_no_leaks("after a failed parse"); m.clear(); }
  }
  if (!h) { uint64_t g0 = fault_fired(F_MALLOC); h = ini_parser_create(); if (!h) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed without reason"); return; } }
  for (auto& o : p.t[ti]) {
    std::string s = sec_of(o.a), k = key_of(o.b), v = val_of(o.c & 0xfffff, true); if ((o.c & 31) == 9) v = std::string((size_t)(o.c & 0xfffff) % 3 ? 255 : 200 + (o.c & 0xfffff) % 50, (char)('a' + o.c % 7));
    if ((o.c & 31) == 11 && o.k == 0) if (KV* was = mkv(msec(m, s), k)) if (!was->second.empty()) { v = was->second; size_t at = (o.c >> 5) % 3 ? v.size() - 1 : (size_t)(o.c >> 5 & 0x7fff) % v.size(); v[at] = v[at] == 'z' ? 'y' : 'z'; }   // differs in one character
    char* cs = hs(s); char* ck = hs(k); char* cv = hs(v);
    uint64_t g0 = fault_fired(F_MALLOC); int64_t fn = o.c >> 20; if (fn > 0 && fn < 100) fail_alloc_at(fn - 1);
    switch (o.k) {
      case 0: {
        int rc = ini_parser_put_string(h, cs, ck, (o.c & 15) == 3 ? nullptr : cv); if ((o.c & 15) == 3) v = "";
        bool f = fail_alloc_fired() || fault_fired(F_MALLOC) != g0; fail_alloc_at(-1);
        if (rc == 0) mput(m, s, k, v); else SIM_CHECK(f, "put", "put failed (%d) without reason", rc);
        if (rc) { equal_model(h, m, "after a failed put"); NoFaults nf; if (!msec(m, s)) SIM_CHECK(ini_parser_has_section(h, cs) != 0, "put", "a failed put left section %s behind", s.c_str()); SIM_CHECK((ini_parser_has_section_key(h, cs, ck) == 0) == (mkv(msec(m, s), k) != nullptr), "put", "a failed put left its key behind"); }
        break;
      }
      case 1: { int rc = ini_parser_delete_by_section_key(h, cs, ck); Sec* x = msec(m, s); KV* y = mkv(x, k); SIM_CHECK(y ? rc == 0 : rc == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete", "deleting %s key returned %d", y ? "a present" : "a missing", rc); if (y) x->kv.erase(x->kv.begin() + (y - x->kv.data())); break; }
      case 2: { int rc = ini_parser_delete_section(h, cs); Sec* x = msec(m, s); SIM_CHECK(x ? rc == 0 : rc == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete", "deleting %s section returned %d", x ? "a present" : "a missing", rc); if (x) m.erase(m.begin() + (x - m.data())); break; }
      case 3: {
        size_t n = (size_t)(1 + ((o.c & 0xfffff) % 3 ? (o.c & 0xfffff) % 140 : 100 + (o.c & 0xfffff) % 180)); char* b = (char*)halloc(n); memset(b, 0x33, n);
        int rc = ini_parser_get_string(h, cs, ck, b, n); KV* y = mkv(msec(m, s), k);
        if (!y) SIM_CHECK(rc == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "get", "get of a missing key returned %d", rc);
        else if (y->second.size() + 1 > n) SIM_CHECK(rc == INI_PARSER_CODE_NO_ENOUGH_MEMORY, "get", "get of %zu characters into %zu bytes returned %d", y->second.size(), n, rc);
        else SIM_CHECK(rc == 0 && !strcmp(b, y->second.c_str()), "get", "get of '%s' returned %d and '%s'", y->second.c_str(), rc, std::string(b, strnlen(b, n)).c_str());
        hfree(b); break;
      }
      case 4: typed(h, m, s, k); break;
      case 5: { Seen x; x.stop = (int)(1 + (o.c & 0xfffff) % 5); size_t all = 0; for (auto& q : m) all += q.kv.size(); ini_parser_foreach(h, on_pair, &x); SIM_CHECK(x.v.size() == std::min<size_t>(all, (size_t)x.stop), "foreach", "%zu of %zu pairs were visited, the handler asked to stop at %d", x.v.size(), all, x.stop); break; }
      case 6: { SIM_CHECK((ini_parser_has_section(h, cs) == 0) == (msec(m, s) != nullptr), "has", "has_section is wrong for %s", s.c_str()); SIM_CHECK((ini_parser_has_section_key(h, cs, ck) == 0) == (mkv(msec(m, s), k) != nullptr), "has", "has_section_key is wrong for %s", k.c_str()); break; }
      default:
        SIM_CHECK(ini_parser_put_string(nullptr, cs, ck, cv) && ini_parser_put_string(h, nullptr, ck, cv) && ini_parser_put_string(h, "", ck, cv) && ini_parser_put_string(h, cs, "", cv) && ini_parser_put_string(h, cs, nullptr, cv), "invalid", "an invalid put succeeded");
        SIM_CHECK(ini_parser_delete_section(h, nullptr) && ini_parser_delete_by_section_key(h, cs, nullptr) && ini_parser_get_string(h, nullptr, ck, nullptr, 0) && ini_parser_foreach(h, nullptr, nullptr) && ini_parser_destroy(nullptr), "invalid", "an invalid call succeeded");
        if (true) { fail_alloc_at(-1); equal_model(h, m, "after invalid calls"); }
    }
    fail_alloc_at(-1);
    hfree(cs); hfree(ck); hfree(cv);
    if (o.k <= 2) equal_model(h, m, o.k == 0 ? "after a put" : "after a delete");
  }
  SIM_CHECK(ini_parser_destroy(&h) == 0 && h == nullptr, "destroy", "destroy failed");
}
void i2_run(const Plan& p) {
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { i2_client(p, i); });
  if (p.t.size() == 1) { join_all_clients(); check_no_leaks("at the end"); } else { join_all_clients(); check_no_leaks("at the end"); }
}
// ------------------------------------------------------------------ I01
// ops: 0 save+reparse, 1 dump_to_mem, 2 dump, 3 put, 4 delete
void i1_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 64, 512, 4096}); c.max_steps = 2000000;
  int nc = r.chance(1, 5) ? 2 : 1; p.p = {(int64_t)r.below(1u << 30), r.range(0, 10), r.chance(1, 4) ? r.range(0, 500) : -1}; p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) t.push_back({r.pick({0, 0, 0, 0, 1, 1, 2, 3, 3, 4}), r.range(0, 7), r.range(0, 7), (int64_t)r.below(1000)}); }
  if (r.chance(3, 4)) { draw_fault(r, p, F_MALLOC, 14, 2, 1); draw_fault(r, p, F_FOPEN, 2, 4, 1); draw_fault(r, p, F_WRITE, 6, 2, 1); draw_fault(r, p, F_CLOSE, 2, 3, 1); draw_fault(r, p, F_READ, 3, 2, 1); draw_fault(r, p, F_SEEK, 3, 5, 1); }
  if (r.chance(1, 2)) p.f[F_SHORTREAD].rate = (uint32_t)r.pick({6000, 40000});
}
void parses_to(Model& m, const char* text, const char* when) {
  NoFaults nf; ini_parser_handle q = ini_parser_parse_str(text); SIM_CHECK(q, "reparse", "%s: the text cannot be parsed", when);
  Model f; for (auto& s : m) if (!s.kv.empty()) f.push_back(s);
  equal_model(q, f, when, false); ini_parser_destroy(&q);
}
void i1_client(const Plan& p, size_t ti, bool alone) {
  Rng r((uint64_t)(P(p, 0) + (int64_t)ti)); Model m; ini_parser_handle h;
  { NoFaults nf; h = ini_parser_create(); for (int64_t i = P(p, 1); i > 0; i--) { std::string s = sec_of(r.range(0, 6)), k = key_of(r.range(0, 7)), v = value(r); ini_parser_put_string(h, s.c_str(), k.c_str(), v.c_str()); mput(m, s, k, v); } }
  std::string path = "/tmp/ini" + std::to_string(ti) + ".ini";
  for (auto& o : p.t[ti]) {
    auto fired = [&] { return fault_fired(F_MALLOC) + fault_fired(F_FOPEN) + fault_fired(F_WRITE) + fault_fired(F_CLOSE) + fault_fired(F_DISKFULL); };
    uint64_t f0 = fired(); size_t pairs = 0; for (auto& s : m) pairs += s.kv.size();
    switch (o.k) {
      case 0: {
        if (o.a == 7) { SIM_CHECK(ini_parser_save(h, "") && ini_parser_save(h, nullptr) && ini_parser_save(nullptr, path.c_str()) && ini_parser_save(h, "/nowhere/x.ini"), "invalid", "an impossible save succeeded"); if (alone) SIM_CHECK(fs::open_streams() == 0, "stream-leak", "a stream stays open after an impossible save"); }
        f0 = fired();
        uint64_t nsess = fs::sessions().size();
        int rc = ini_parser_save(h, path.c_str()); uint64_t f1 = fired();
        if (alone) SIM_CHECK(fs::open_streams() == 0, "stream-leak", "the file stream stays open after a save that returned %d", rc);
        if (rc == 0) {
          std::string got; SIM_CHECK(fs::get(path, got), "save", "save succeeded but the file does not exist");
          for (size_t i = nsess; i < fs::sessions().size(); i++) if (fs::sessions()[i].path == path) SIM_CHECK(!fs::sessions()[i].lost || fs::sessions()[i].truncated, "save", "bytes were lost");
          parses_to(m, got.c_str(), "after a successful save");
          { NoFaults nf; ini_parser_handle q = ini_parser_parse_file(path.c_str()); SIM_CHECK(q || !pairs, "reparse", "the saved file cannot be parsed"); if (q) { Model f; for (auto& s : m) if (!s.kv.empty()) f.push_back(s); equal_model(q, f, "after reading the saved file", false); ini_parser_destroy(&q); } }
        } else SIM_CHECK(f1 != f0 || m.empty(), "save", "save failed (%d) although nothing went wrong", rc);
        break;
      }
      case 1: {
        size_t n = (size_t)(o.c * 3 % 2600); char* b = (char*)halloc(n + 1); memset(b, 0x44, n + 1); size_t sz = n;
        int rc = ini_parser_dump_to_mem(h, b, &sz); uint64_t f1 = fired();
        if (rc == 0) { SIM_CHECK(sz <= n && sz > 0 && b[sz - 1] == 0 && strlen(b) == sz - 1, "dump", "dump_to_mem reports %zu bytes, the text has %zu", sz, strnlen(b, n)); parses_to(m, b, "after a dump to memory"); }
        else if (f1 == f0) {
          NoFaults nf; char* t = ini_parser_dump(h); size_t need = t ? strlen(t) + 1 : 0; lib_free(t);
          SIM_CHECK(m.empty() || n < need + 600, "dump", "dump_to_mem of %zu bytes into %zu failed (%d)", need, n, rc);
        }
        SIM_CHECK(b[n] == 0x44, "dump", "dump_to_mem wrote beyond the buffer"); hfree(b);
        break;
      }
      case 2: { char* t = ini_parser_dump(h); uint64_t f1 = fired(); if (t) { parses_to(m, t, "after a dump"); lib_free(t); } else SIM_CHECK(f1 != f0, "dump", "dump failed although memory was available"); break; }
      case 3: { std::string s = sec_of(o.a), k = key_of(o.b), v = val_of(o.c); NoFaults nf; ini_parser_put_string(h, s.c_str(), k.c_str(), v.c_str()); mput(m, s, k, v); break; }
      default: { std::string s = sec_of(o.a), k = key_of(o.b); NoFaults nf; if (o.c % 3 == 0) { ini_parser_delete_section(h, s.c_str()); if (Sec* x = msec(m, s)) m.erase(m.begin() + (x - m.data())); } else { ini_parser_delete_by_section_key(h, s.c_str(), k.c_str()); Sec* x = msec(m, s); KV* y = mkv(x, k); if (y) x->kv.erase(x->kv.begin() + (y - x->kv.data())); } }
    }
    equal_model(h, m, "after the operation");
  }
  // a parse of the file under failures gives the whole or nothing
  if (alone) {
    { NoFaults nf; fs::set_capacity(-1); if (ini_parser_save(h, path.c_str())) { ini_parser_destroy(&h); return; } }
    auto bad = [&] { return fault_fired(F_MALLOC) + fault_fired(F_FOPEN) + fault_fired(F_READ) + fault_fired(F_SEEK) + fault_fired(F_CLOSE); };
    uint64_t b0 = bad(); size_t pairs = 0; for (auto& s : m) pairs += s.kv.size();
    ini_parser_handle q = ini_parser_parse_file(path.c_str());
    SIM_CHECK(q || !pairs || bad() != b0, "reparse", "the saved file cannot be parsed although nothing went wrong");
    SIM_CHECK(fs::open_streams() == 0, "stream-leak", "a stream stays open after parsing a file");
    if (q) { Model f; for (auto& s : m) if (!s.kv.empty()) f.push_back(s); equal_model(q, f, "after reading under failures", false); NoFaults nf; ini_parser_destroy(&q); }
  }
  NoFaults nf; ini_parser_destroy(&h);
}
void i1_run(const Plan& p) {
  if (P(p, 2, -1) >= 0) fs::set_capacity(fs::used() + P(p, 2));
  bool alone = p.t.size() == 1;
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { i1_client(p, i, alone); });
  join_all_clients();
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams());
  check_no_leaks("at the end");
}
// ------------------------------------------------------------------ I03
struct H3 { std::vector<Trip> got; std::set<int> fail; };
int on_trip(void* u, const char* s, const char* n, const char* v) { H3* h = (H3*)u; SIM_CHECK(s && n, "handler", "a NULL section or name was passed"); h->got.push_back({s, n, v ? v : "", v == nullptr, 0}); yield(); return h->fail.count((int)h->got.size() - 1) ? 0 : 1; }
struct Src { const std::string* t; size_t pos; };
char* on_read(char* b, int n, void* u) { Src* s = (Src*)u; yield(); if (s->pos >= s->t->size() || n < 2) return nullptr; int i = 0; while (i < n - 1 && s->pos < s->t->size()) { char c = (*s->t)[s->pos++]; b[i++] = c; if (c == '\n') break; } b[i] = 0; return b; }
// ops: 0 string, 1 file by name, 2 open stream, 3 own reader, 4 missing file
void i3_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 33, 200, 4096}); c.max_steps = 2000000;
  int nc = (int)r.range(1, 2); p.p = {(int64_t)r.below(1u << 30), r.range(0, 14), r.chance(1, 3) ? r.range(0, 6) : -1, r.chance(1, 4) ? r.range(0, 6) : -1}; p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) t.push_back({r.pick({0, 0, 1, 1, 2, 3, 4})}); }
  if (r.chance(2, 3)) p.f[F_SHORTREAD].rate = (uint32_t)r.pick({10000, 65535});
  draw_fault(r, p, F_READ, 6, 3, 1); draw_fault(r, p, F_FOPEN, 3, 4, 1); draw_fault(r, p, F_MALLOC, 3, 5, 1);
}
void i3_run(const Plan& p) {
  std::string text = text_of((uint64_t)P(p, 0), std::min<int64_t>(std::max<int64_t>(P(p, 1), 0), 40), false);
  fs::put("/tmp/r.ini", text);
  std::set<int> fail; if (P(p, 2, -1) >= 0) fail.insert((int)P(p, 2)); if (P(p, 3, -1) >= 0) fail.insert((int)P(p, 3));
  std::vector<Trip> want; std::vector<int> bad; bool judged = reference(text, want, bad); int first = 0;
  if (judged) { for (int b : bad) if (!first || b < first) first = b; for (int i : fail) if (i < (int)want.size() && (!first || want[(size_t)i].line < first)) first = want[(size_t)i].line; }
  else { H3 h; h.fail = fail; char* t = hs(text); first = ini_reader_parse_string(t, on_trip, &h); hfree(t); want = h.got; }
  for (size_t ti = 0; ti < p.t.size(); ti++) spawn("client", [&, ti] {
    for (auto& o : p.t[ti]) {
      H3 h; h.fail = fail; int rc = 0; uint64_t f0 = fault_fired(F_READ) + fault_fired(F_MALLOC), o0 = fault_fired(F_FOPEN);
      switch (o.k) {
        case 0: { char* t = hs(text); rc = ini_reader_parse_string(t, on_trip, &h); SIM_CHECK(text == t, "input", "the parsed string was changed"); hfree(t); break; }
        case 1: rc = ini_reader_parse("/tmp/r.ini", on_trip, &h); break;
        case 2: { FILE* f = sim_fopen("/tmp/r.ini", "r"); if (!f) continue; rc = ini_reader_parse_file(f, on_trip, &h); char b[8]; if (fault_fired(F_READ) + fault_fired(F_MALLOC) == f0) SIM_CHECK(!sim_fgets(b, 8, f), "stream", "the stream was not read to its end"); sim_fclose(f); break; }
        case 3: { Src s = {&text, 0}; rc = ini_reader_parse_stream(on_read, &s, on_trip, &h); break; }
        default: rc = ini_reader_parse("/tmp/none.ini", on_trip, &h); SIM_CHECK(rc == -1 && h.got.empty(), "missing", "parsing a missing file returned %d", rc); continue;
      }
      bool f = fault_fired(F_READ) + fault_fired(F_MALLOC) != f0; bool of = fault_fired(F_FOPEN) != o0;
      if (o.k == 1 && of && rc == -1) { SIM_CHECK(h.got.empty(), "open", "handler called although the file cannot be opened"); continue; }
      bool io = (o.k == 1 || o.k == 2) && f;
      size_t n = h.got.size();
      SIM_CHECK(n <= want.size() && (io || n == want.size()), "entries", "%zu entries were reported, the text has %zu", n, want.size());
      for (size_t i = 0; i < n; i++) { Trip &a = h.got[i], &b = want[i]; SIM_CHECK(a.s == b.s && a.n == b.n && a.v == b.v && a.nul == b.nul, "entry", "entry %zu is [%s] '%s' = '%s'%s, it should be [%s] '%s' = '%s'%s", i, a.s.c_str(), a.n.c_str(), a.v.c_str(), a.nul ? " (none)" : "", b.s.c_str(), b.n.c_str(), b.v.c_str(), b.nul ? " (none)" : ""); }
      if (!io) SIM_CHECK(rc == first, "result", "the result is %d, the first bad line is %d", rc, first);
    }
  });
  join_all_clients();
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams());
  check_no_leaks("at the end");
}
// ------------------------------------------------------------------ scale: many sections, many keys, texts beyond 2^16 bytes or lines
// p: seed, sections, keys of each, length of the values, what (0 operations only, 1 save and dump too)
void big_gen(Rng& r, Plan& p, RunCfg& c, int what) {
  c.max_steps = 20000000; c.stdiobuf = r.pick({512, 4096});
  int64_t shape = r.range(0, 2), a = shape == 0 ? 1 : shape == 1 ? r.range(250, 400) : r.range(10, 40), b = shape == 0 ? r.range(250, 900) : shape == 1 ? r.range(1, 3) : r.range(10, 30);
  p.p = {(int64_t)r.below(1u << 30), a, b, r.chance(1, 2) ? r.range(0, 12) : r.range(60, 95), what, (int64_t)r.below(1000), r.range(0, 3)}; p.t.resize(1);
}
void big2_gen(Rng& r, Plan& p, RunCfg& c) { big_gen(r, p, c, 0); }
void big1_gen(Rng& r, Plan& p, RunCfg& c) { big_gen(r, p, c, 1); if (r.chance(1, 2)) { p.p[2] = std::max<int64_t>(p.p[2], 70000 / 90 / p.p[1] + 1); p.p[3] = r.range(80, 95); } }
void big_run(const Plan& p) {
  Rng r((uint64_t)P(p, 0)); int64_t ns = std::min<int64_t>(std::max<int64_t>(P(p, 1), 1), 1000), nk = std::min<int64_t>(std::max<int64_t>(P(p, 2), 1), 1200); if (ns * nk > 1500) nk = 1500 / ns + 1;
  size_t vl = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 3), 0), 95);
  Model m; ini_parser_handle h = ini_parser_create();
  auto val = [&](int64_t i, int64_t k, int64_t gen) { std::string v = std::to_string(i * 100000 + k * 7 + gen); while (v.size() < vl) v += (char)('a' + v.size() % 26); return v; };
  for (int64_t i = 0; i < ns; i++) {
    m.push_back({"sec" + std::to_string(i), {}});
    for (int64_t k = 0; k < nk; k++) { std::string key = "key" + std::to_string(k), v = val(i, k, 0); SIM_CHECK(ini_parser_put_string(h, m.back().name.c_str(), key.c_str(), v.c_str()) == 0, "put", "put number %lld failed", (long long)(i * nk + k)); m.back().kv.push_back({key, v}); }
  }
  equal_model(h, m, "after many puts");
  for (int64_t n = P(p, 5) % 40 + 5; n > 0; n--) {     // change, delete, ask
    size_t i = (size_t)r.below((uint32_t)m.size()); Sec& s = m[i]; if (s.kv.empty()) continue; size_t k = r.chance(1, 3) ? s.kv.size() - 1 : r.below((uint32_t)s.kv.size()); std::string key = s.kv[k].first;
    switch (r.below(6)) {
      case 5: {   // a new key with memory running out: the section stays as it is
        fail_alloc_at((int64_t)r.below(2)); int rc = ini_parser_put_string(h, s.name.c_str(), "another", "x"); bool f = fail_alloc_fired(); fail_alloc_at(-1);
        if (rc) SIM_CHECK(f, "put", "put failed (%d) without reason", rc); else if (!mkv(&s, "another")) s.kv.push_back({"another", "x"});
        SIM_CHECK(ini_parser_has_section(h, s.name.c_str()) == 0, "put", "after a put that returned %d the section is gone", rc); break;
      }
      case 0: case 1: { std::string v = val((int64_t)i, (int64_t)k, n); SIM_CHECK(ini_parser_put_string(h, s.name.c_str(), key.c_str(), v.c_str()) == 0, "put", "changing a value failed"); s.kv[k].second = v; break; }
      case 2: SIM_CHECK(ini_parser_delete_by_section_key(h, s.name.c_str(), key.c_str()) == 0, "delete", "deleting a present key failed"); s.kv.erase(s.kv.begin() + (long)k); break;
      case 3: if (r.chance(1, 2) && m.size() > 1) { SIM_CHECK(ini_parser_delete_section(h, s.name.c_str()) == 0, "delete", "deleting a present section failed"); m.erase(m.begin() + (long)i); } break;
      default: { char b[128]; int rc = ini_parser_get_string(h, s.name.c_str(), key.c_str(), b, sizeof b); SIM_CHECK(rc == 0 && s.kv[k].second == b, "get", "[%s] %s gives %d", s.name.c_str(), key.c_str(), rc); SIM_CHECK(ini_parser_has_section_key(h, s.name.c_str(), (key + "x").c_str()) != 0, "has", "a missing key is present"); }
    }
  }
  equal_model(h, m, "after the operations");
  size_t total = 0; for (auto& s : m) total += s.kv.size();
  { Seen x; x.stop = (int)(total ? 1 + (size_t)P(p, 5) * 977 % total : 1); ini_parser_foreach(h, on_pair, &x); SIM_CHECK(x.v.size() == std::min<size_t>(total, (size_t)x.stop), "foreach", "%zu of %zu pairs were visited, the handler asked to stop at %d", x.v.size(), total, x.stop); }
  if (P(p, 4) && total) {
    char* t = ini_parser_dump(h); SIM_CHECK(t, "dump", "dump failed although memory was available"); parses_to(m, t, "after a dump"); size_t need = strlen(t) + 1;
    size_t n = P(p, 6) == 0 ? need - 1 : need + 700; char* b = (char*)halloc(n); size_t sz = n; int rc = ini_parser_dump_to_mem(h, b, &sz);
    if (n < need) SIM_CHECK(rc != 0, "dump", "a text of %zu bytes was put into %zu", need, n);
    else { SIM_CHECK(rc == 0 && sz == need && !strcmp(b, t), "dump", "dump_to_mem of %zu bytes into %zu returned %d and %zu bytes", need, n, rc, sz); }
    hfree(b); lib_free(t);
    SIM_CHECK(ini_parser_save(h, "/tmp/big.ini") == 0, "save", "save failed although nothing went wrong");
    ini_parser_handle q = ini_parser_parse_file("/tmp/big.ini"); SIM_CHECK(q, "reparse", "the saved file cannot be parsed"); Model f; for (auto& s : m) if (!s.kv.empty()) f.push_back(s); equal_model(q, f, "after reading the saved file", false); ini_parser_destroy(&q);
  }
  ini_parser_destroy(&h); SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams()); check_no_leaks("at the end");
}
// p: lines, first bad line or 0, entry the handler refuses or -1, form of the lines
void big3_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({512, 4096}); c.max_steps = 40000000; int64_t n = r.chance(1, 2) ? r.range(65500, 67000) : r.range(300, 20000);
  p.p = {n, r.chance(1, 2) ? n - r.range(0, 40) : 0, r.chance(1, 4) ? r.range(1, n) : -1, r.range(0, 3)}; p.t.resize(1); p.t[0].push_back({r.range(0, 3)});
}
struct H4 { int64_t n = 0, fail = -1, bad = 0; const std::vector<std::pair<int, int>>* want; };
int on_big(void* u, const char* s, const char* n, const char* v) {
  H4* h = (H4*)u; char es[32], en[32], ev[32];
  if (h->n < (int64_t)h->want->size()) { auto& w = (*h->want)[(size_t)h->n]; snprintf(es, sizeof es, w.first ? "s%d" : "", w.first); snprintf(en, sizeof en, "k%d", w.second % 1000); snprintf(ev, sizeof ev, "v%d", w.second); SIM_CHECK(!strcmp(s, es) && !strcmp(n, en) && v && !strcmp(v, ev), "entry", "entry %lld is [%s] %s = %s, it should be [%s] %s = %s", (long long)h->n, s, n, v ? v : "(none)", es, en, ev); }
  return h->n++ != h->fail;
}
void big3_run(const Plan& p) {
  int64_t n = std::min<int64_t>(std::max<int64_t>(P(p, 0), 1), 80000); std::string t; std::vector<std::pair<int, int>> want; int sec = 0; int64_t first = 0; char b[64];
  for (int64_t i = 1; i <= n; i++) {
    if (i == P(p, 1)) { t += "[broken\n"; if (!first) first = i; }
    else if (i % 97 == 5) { sec = (int)i; snprintf(b, sizeof b, "[s%d]\r\n", sec); t += b; }
    else if (i % 13 == 0) t += P(p, 3) & 1 ? "; comment\n" : "\n";
    else { if ((int64_t)want.size() == P(p, 2) && !first) first = i; want.push_back({sec, (int)i}); snprintf(b, sizeof b, P(p, 3) & 2 ? "k%d = v%d ; c\n" : "k%d=v%d\n", (int)(i % 1000), (int)i); t += b; }
  }
  fs::put("/tmp/big.ini", t);
  for (auto& o : p.t.empty() ? std::vector<Op>() : p.t[0]) {
    H4 h; h.fail = P(p, 2); h.want = &want; int rc; Src src = {&t, 0};
    switch (o.k) { case 0: rc = ini_reader_parse_string(t.c_str(), on_big, &h); break; case 1: rc = ini_reader_parse("/tmp/big.ini", on_big, &h); break; case 2: { FILE* f = sim_fopen("/tmp/big.ini", "r"); rc = ini_reader_parse_file(f, on_big, &h); sim_fclose(f); break; } default: rc = ini_reader_parse_stream(on_read, &src, on_big, &h); }
    SIM_CHECK(h.n == (int64_t)want.size(), "entries", "%lld entries were reported, the text has %zu", (long long)h.n, want.size());
    SIM_CHECK(rc == first, "result", "the result is %d, the first bad line is %lld", rc, (long long)first);
  }
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams()); check_no_leaks("at the end");
}
#ifndef Reg   // not part of the leak check over all scenarios
// ------------------------------------------------------------------ the documented compile-time options of the reader
extern "C" {
#define READER(i) int client_ini##i##_parse(const char*, void*, void*); int client_ini##i##_file(FILE*, void*, void*); int client_ini##i##_stream(void*, void*, void*, void*); int client_ini##i##_string(const char*, void*, void*);
READER(0) READER(1) READER(2) READER(3) READER(4) READER(5)
}
struct Reader { int (*parse)(const char*, void*, void*); int (*file)(FILE*, void*, void*); int (*stream)(void*, void*, void*, void*); int (*string)(const char*, void*, void*); };
#define READER_OF(i) {client_ini##i##_parse, client_ini##i##_file, client_ini##i##_stream, client_ini##i##_string}
const Reader kReader[] = {READER_OF(0), READER_OF(1), READER_OF(2), READER_OF(3), READER_OF(4), READER_OF(5)};
int64_t g_own_live, g_own_fail, g_own_calls; bool g_own_failed;
extern "C" void* client_ini_malloc(size_t n) { g_own_calls++; if (g_own_fail-- == 0) { g_own_failed = true; return nullptr; } g_own_live++; return halloc(n); }
extern "C" void client_ini_free(void* p) { if (p) { g_own_live--; hfree(p); } }
extern "C" void* client_ini_realloc(void* p, size_t n) { SIM_CHECK(p, "allocator", "realloc of nothing"); g_own_calls++; if (g_own_fail-- == 0) { g_own_failed = true; return nullptr; } char* q = (char*)halloc(n); size_t m = block_size(p); memcpy(q, p, std::min(m, n)); hfree(p); return q; }
struct HA { std::vector<Trip> got; std::set<int> fail; const IniConfig* o; };
int alt_entry(void* u, const char* s, const char* n, const char* v, int line) {
  HA* h = (HA*)u; SIM_CHECK(s, "handler", "a NULL section was passed"); SIM_CHECK(n || (h->o->newsec && !v), "handler", "a NULL name was passed");
  h->got.push_back({s, n ? n : "", v ? v : "", v == nullptr, line, n == nullptr}); return h->fail.count((int)h->got.size() - 1) ? 0 : 1;
}
int on_alt(void* u, const char* s, const char* n, const char* v) { return alt_entry(u, s, n, v, 0); }
int on_alt_line(void* u, const char* s, const char* n, const char* v, int line) { SIM_CHECK(line > 0, "handler", "entry in line %d", line); return alt_entry(u, s, n, v, line); }
// ops as above; c: allocation of the reader that fails + 1
void alt_gen(Rng& r, Plan& p, RunCfg& c) {
  i3_gen(r, p, c); p.p.push_back(r.range(0, 5)); p.p.push_back(r.range(0, 3)); p.p.push_back((int64_t)r.below(1u << 30)); p.t.resize(1);
  for (auto& o : p.t[0]) if (r.chance(1, 4)) o.c = r.range(1, 7);
}
void alt_run(const Plan& p) {
  size_t ci = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 4), 0), 5); const IniConfig& o = kIniConfig[ci]; const Reader& rd = kReader[ci];
  std::string text = text_of((uint64_t)P(p, 0), std::min<int64_t>(std::max<int64_t>(P(p, 1), 0), 40), false);
  Rng r((uint64_t)P(p, 6));
  for (int64_t n = std::min<int64_t>(std::max<int64_t>(P(p, 5), 0), 5); n > 0; n--) {   // lines around the sizes at which the buffer grows
    size_t len = (size_t)std::max<int64_t>(8, r.pick({20, 40, 64, 80, 128, 160, 200, 256, 300, 320, 400, 640, 1000}) - r.range(0, 3)); std::string l = r.pick({"key = ", "k:", "[", " ", "name", "x = y ; "}); if (l == "[" ) l += std::string(len - 3, 't') + "]"; else while (l.size() + 1 < len) l += (char)('a' + l.size() % 26);
    if (r.chance(1, 2) && !text.empty() && text.back() != '\n') text += '\n'; text += l; if (r.chance(4, 5)) text += r.chance(1, 3) ? "\r\n" : "\n";
  }
  for (char& ch : text) if ((ch == ';' || ch == '#') && r.chance(1, 3)) ch = r.pick({'!', '%', '#', ';'});
  fs::put("/tmp/r.ini", text);
  std::set<int> fail; if (P(p, 2, -1) >= 0) fail.insert((int)P(p, 2)); if (P(p, 3, -1) >= 0) fail.insert((int)P(p, 3));
  std::vector<Trip> want; std::vector<int> bad; bool judged = reference(text, want, bad, o); int first = 0;
  for (int b : bad) if (!first || b < first) first = b;
  for (int i : fail) if (i < (int)want.size() && (!first || want[(size_t)i].line < first)) first = want[(size_t)i].line;
  if (o.stop && first) { size_t n = 0; while (n < want.size() && want[n].line <= first) n++; want.resize(n); }
  void* handler = o.lineno ? (void*)on_alt_line : (void*)on_alt;
  spawn("client", [&] {
    for (auto& op : p.t.empty() ? std::vector<Op>() : p.t[0]) {
      HA h; h.fail = fail; h.o = &o; int rc = 0; uint64_t f0 = fault_fired(F_READ), m0 = fault_fired(F_MALLOC), o0 = fault_fired(F_FOPEN);
      g_own_fail = -1; g_own_failed = false; g_own_live = g_own_calls = 0;
      char* t = op.k == 0 ? hs(text) : nullptr; FILE* f = op.k == 2 ? sim_fopen("/tmp/r.ini", "r") : nullptr; if (op.k == 2 && !f) continue;
      if (op.c > 0) { if (o.own) g_own_fail = op.c - 1; else fail_alloc_at(op.c - 1); }
      switch (op.k) {
        case 0: rc = rd.string(t, handler, &h); SIM_CHECK(text == t, "input", "the parsed string was changed"); hfree(t); break;
        case 1: rc = rd.parse("/tmp/r.ini", handler, &h); break;
        case 2: rc = rd.file(f, handler, &h); break;
        case 3: { Src s = {&text, 0}; rc = rd.stream((void*)on_read, &s, handler, &h); break; }
        default: rc = rd.parse("/tmp/none.ini", handler, &h);
      }
      bool mf = fail_alloc_fired() || g_own_failed || fault_fired(F_MALLOC) != m0; if (op.c > 0 && !o.own) fail_alloc_at(-1);
      if (f) { NoFaults nf; sim_fclose(f); }
      SIM_CHECK(g_own_live == 0, "leak", "configuration %zu: %lld blocks of the reader's own allocator stay allocated", ci, (long long)g_own_live);
      if (op.k >= 4) { SIM_CHECK(rc == -1 && h.got.empty(), "missing", "parsing a missing file returned %d", rc); continue; }
      if (o.own) SIM_CHECK(g_own_calls > 0 || rc == -1, "allocator", "the reader's own allocator was not used");
      bool io = (op.k == 1 || op.k == 2) && (fault_fired(F_READ) != f0 || fault_fired(F_MALLOC) != m0);
      if (op.k == 1 && rc == -1) { SIM_CHECK(h.got.empty() && (fault_fired(F_FOPEN) != o0 || mf), "open", "parsing returned -1 although the file can be opened"); continue; }
      if (rc == -2) SIM_CHECK(mf && o.heap, "result", "configuration %zu: the result is -2 although no allocation failed", ci);
      if (rc == -2) io = true;
      if (!judged) continue;
      size_t n = h.got.size();
      if (io && (rc != -2 || fault_fired(F_READ) != f0) && ci != 2 && ci != 3 && ci != 5) continue;   // a read error within a long line cuts it where the buffer grew
      SIM_CHECK(n <= want.size() && (io || n == want.size()), "entries", "configuration %zu: %zu entries were reported, the text has %zu", ci, n, want.size());
      for (size_t i = 0; i < n; i++) { Trip &a = h.got[i], &b = want[i]; SIM_CHECK(a.s == b.s && a.n == b.n && a.v == b.v && a.nul == b.nul && a.sec == b.sec && (!o.lineno || a.line == b.line), "entry", "configuration %zu: entry %zu is [%s] '%s' = '%s'%s in line %d, it should be [%s] '%s' = '%s'%s in line %d", ci, i, a.s.c_str(), a.n.c_str(), a.v.c_str(), a.nul ? " (none)" : "", a.line, b.s.c_str(), b.n.c_str(), b.v.c_str(), b.nul ? " (none)" : "", b.line); }
      if (!io) SIM_CHECK(rc == first, "result", "configuration %zu: the result is %d, the first bad line is %d", ci, rc, first);
    }
  });
  join_all_clients();
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams());
  check_no_leaks("at the end");
}
#endif
const char* kReal = "src/file/ini_parser.c, src/file/ini_reader.c, src/data/list.c, src/mem/stringbuilder.c, src/mem/allocator.c (real, instrumented)";
const char* kStub = "memory, files and their failures are simulated; callers run as simulator threads";
Reg r1({"I01", {{"save", i1_gen, i1_run}, {"scale", big1_gen, big_run, 40}}, kReal, kStub});
Reg r2({"I02", {{"ops", i2_gen, i2_run}, {"scale", big2_gen, big_run, 32}}, kReal, kStub});
#ifdef Reg
Reg r3({"I03", {{"read", i3_gen, i3_run}, {"scale", big3_gen, big3_run, 40}}, kReal, kStub});
#else
Reg r3({"I03", {{"read", i3_gen, i3_run}, {"options", alt_gen, alt_run}, {"scale", big3_gen, big3_run, 40}}, kReal, kStub});
#endif
}  // namespace
