#include "common.h"
extern "C" {
#include "mem/strings.h"
#include "mem/asprintf.h"
#include "data/base64.h"
#include "data/integer.h"
#include "data/hash_functions.h"
#include "net/url_encoder_decoder.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include "file/ini_parser.h"
}
#include "client_util.h"
namespace {
typedef unsigned long long ull;
typedef std::string S;
// ------------------------------------------------ buffers of exactly the given size
struct Buf {
  char *base, *p; size_t n;
  Buf(size_t n_, char fill = (char)0xEE) : base((char*)halloc(n_ ? n_ : 1)), p(n_ ? base : base + 1), n(n_) { memset(base, fill, n_ ? n_ : 1); }   // one of no bytes lies behind its block
  Buf(const S& s, bool nul) : base((char*)halloc(s.size() + (nul || s.empty()))), p(base), n(s.size() + nul) { memcpy(p, s.data(), s.size()); if (nul || s.empty()) p[s.size()] = 0; }
  ~Buf() { hfree(base); }
  Buf(const Buf&) = delete;
  bool is(const S& s) const { return n >= s.size() && !memcmp(p, s.data(), s.size()); }
  bool str(const S& s) const { return n >= s.size() + 1 && !memcmp(p, s.data(), s.size()) && p[s.size()] == 0; }
  bool ended() const { return memchr(p, 0, n) != nullptr; }
};
S text(Rng& r, int64_t maxlen, const char* alpha) { S s; size_t a = strlen(alpha); int64_t n = r.range(0, maxlen); while ((int64_t)s.size() < n) s += alpha[r.below(a)]; return s; }
S bytes(Rng& r, int64_t minlen, int64_t maxlen, bool nul) { S s; int64_t n = r.range(minlen, maxlen); while ((int64_t)s.size() < n) { char c = (char)r.below(256); s += c || nul ? c : 'x'; } return s; }
// ------------------------------------------------------------- inputs all clients share
const int kShared = 5;
Buf* shared[kShared]; S shared_is[kShared];
const char kUrl[] = "ABYZabyz0189.-*_ +%/=&?~";
S gen_src(Rng& r, int i) {
  switch (i) {
    case 0: return text(r, 48, "ab");
    case 1: return text(r, 48, "abcXYZ ,;.\t");
    case 2: return bytes(r, 1, 48, false);
    case 3: { S s = text(r, 40, kUrl); return s.empty() ? "q" : s; }
    default: return bytes(r, 1, 32, false);
  }
}
// a source: one of the shared ones or an own one
struct Src { S s; std::unique_ptr<Buf> own; const char* p; };
Src source(Rng& r, int i) {
  Src x;
  if (r.chance(1, 2)) { x.s = shared_is[i]; x.p = shared[i]->p; return x; }
  x.s = gen_src(r, i); x.own.reset(new Buf(x.s, true)); x.p = x.own->p; return x;
}
void same(const Src& x, const char* what) { SIM_CHECK(!memcmp(x.p, x.s.c_str(), x.s.size() + 1), "input", "%s changed its constant input", what); }
// ------------------------------------------------------------------ reference functions
S ref_b64(const S& in) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; unsigned acc = 0; int bits = 0;
  for (unsigned char c : in) { acc = (acc << 8 | c) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; o += A[acc >> bits & 63]; } }
  if (bits) o += A[acc << (6 - bits) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
S ref_url(const S& in) { S o; char b[8]; for (unsigned char c : in) if (c < 128 && (isalnum(c) || strchr(".-*_", c))) o += (char)c; else if (c == ' ') o += '+'; else { snprintf(b, sizeof b, "%%%02X", c); o += b; } return o; }
int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// decodes up to max characters; -2: not an encoded text, else consumed holds how far it came
int ref_unurl(const S& in, size_t max, S& o, size_t& used) {
  used = 0; o.clear();
  while (used < in.size() && o.size() < max) {
    unsigned char c = (unsigned char)in[used];
    if (c == '+') { o += ' '; used++; }
    else if (c == '%') {
      if (used + 3 > in.size()) return 0;
      int h = hexval(in[used + 1]), l = hexval(in[used + 2]); if (h < 0 || l < 0) return -2;
      o += (char)(h * 16 + l); used += 3;
    } else if (c < 128 && (isalnum(c) || strchr(".-*_", c))) { o += (char)c; used++; }
    else return -2;
  }
  return 0;
}
struct Civil { long y; int mo, d, h, mi, s, wd; };
Civil civil(long long t) {
  long long day = t / 86400, sec = t % 86400; if (sec < 0) { sec += 86400; day--; }
  Civil c; c.h = (int)(sec / 3600); c.mi = (int)(sec / 60 % 60); c.s = (int)(sec % 60);
  c.wd = (int)(((day + 4) % 7 + 7) % 7);
  long long z = day + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  c.d = (int)(doy - (153 * mp + 2) / 5 + 1); c.mo = (int)(mp < 10 ? mp + 3 : mp - 9); c.y = (long)(yoe + era * 400 + (c.mo <= 2)); return c;
}
const char* const kDay[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
const char* const kMon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
S stamp(long long t, const char* zone) { Civil c = civil(t); char b[64]; snprintf(b, sizeof b, "%s, %02d %s %04ld %02d:%02d:%02d %s", kDay[c.wd], c.d, kMon[c.mo - 1], c.y, c.h, c.mi, c.s, zone); return b; }
int count_fmt(bool& usable, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); int n = vscprintf(fmt, ap);
  S b(4096, 0); int m = vsnprintf(&b[0], b.size(), fmt, ap); va_end(ap);   // the caller's arguments are still there
  usable = m == n; return n;
}
// ---------------------------------------------------------------------- the operations
enum { O_LCPY, O_LCAT, O_REPLACE, O_SPLIT, O_TRIM, O_UTF8, O_HEX, O_CASE, O_B64, O_UNB64, O_URL, O_UNURL, O_RFC, O_FMT, O_INT, O_HASH, O_INIPATH, O_MACRO, O_N };
void op_lcpy(Rng& r) {
  Src x = source(r, (int)r.below(3)); size_t cap = (size_t)(r.chance(1, 3) ? (int64_t)x.s.size() + r.range(-1, 2) : r.range(0, 60)); if ((int64_t)cap < 0) cap = 0;
  Buf d(cap); size_t ret = strlcpy(d.p, x.p, cap);
  SIM_CHECK(ret == x.s.size(), "strlcpy", "strlcpy returned %zu for a text of %zu", ret, x.s.size());
  if (cap) SIM_CHECK(d.str(x.s.substr(0, cap - 1)), "strlcpy", "strlcpy of %zu bytes into %zu left a wrong text", x.s.size(), cap);
  same(x, "strlcpy");
}
void op_lcat(Rng& r) {
  Src x = source(r, (int)r.below(3)); S had = text(r, 20, "hij"); size_t cap = (size_t)(r.chance(1, 3) ? (int64_t)(x.s.size() + had.size()) + r.range(-1, 2) : r.range(0, 60));
  if ((int64_t)cap < 0) cap = 0;
  Buf d(cap); size_t pre = std::min(cap, had.size()); memcpy(d.p, had.data(), pre); if (pre < cap) d.p[pre] = 0;
  size_t ret = strlcat(d.p, x.p, cap);
  SIM_CHECK(ret == x.s.size() + pre, "strlcat", "strlcat returned %zu, not %zu + %zu", ret, x.s.size(), pre);
  if (pre == cap) SIM_CHECK(d.is(had.substr(0, cap)), "strlcat", "strlcat changed a full buffer");
  else SIM_CHECK(d.str(had + x.s.substr(0, cap - pre - 1)), "strlcat", "strlcat of %zu bytes to %zu in %zu left a wrong text", x.s.size(), pre, cap);
  same(x, "strlcat");
}
void op_replace(Rng& r) {
  Src x = source(r, (int)r.below(2)); S pat = text(r, 3, "aab"), rep = text(r, r.pick({0, 1, 4, 30}), "abcde"); if (pat.empty()) pat = r.pick({"a", "ab", ",", "XY"});
  if (r.chance(1, 8)) pat = x.s.empty() ? "b" : x.s;
  S want; size_t i = 0, k; while ((k = x.s.find(pat, i)) != S::npos) { want += x.s.substr(i, k - i) + rep; i = k + pat.size(); } want += x.s.substr(i);
  Buf bp(pat, true), br(rep, true);
  bool arm = r.chance(1, 5); if (arm) fail_alloc_at(0);
  char* got = strreplace(x.p, bp.p, br.p);
  bool hit = arm && fail_alloc_fired(); if (arm) fail_alloc_at(-1);
  SIM_CHECK(!hit || !got || S(got) == want, "strreplace", "strreplace without memory returned another text");
  if (!hit && !fault_fired(F_MALLOC)) SIM_CHECK(got, "strreplace", "strreplace returned NULL with memory at hand");
  if (got) { SIM_CHECK(block_size(got) >= want.size() + 1, "strreplace", "strreplace returned a block of %zu bytes for a text of %zu", block_size(got), want.size()); SIM_CHECK(S(got) == want, "strreplace", "strreplace returned \"%s\", not \"%s\"", got, want.c_str()); lib_free(got); }
  same(x, "strreplace"); SIM_CHECK(bp.str(pat) && br.str(rep), "input", "strreplace changed its pattern or replacement");
}
void op_split(Rng& r) {
  S s = gen_src(r, (int)r.below(2)); S del = r.pick({",", ",;", " ", "b", ";.\t", "Q"}); size_t slots = (size_t)r.pick({0, 1, 2, 3, 50});
  std::vector<S> want; size_t i = 0;
  while (want.size() < slots && (i = s.find_first_not_of(del, i)) != S::npos) { size_t e = s.find_first_of(del, i); if (e == S::npos) e = s.size(); want.push_back(s.substr(i, e - i)); i = e; }
  Buf b(s, true), bd(del, true), tab(slots * sizeof(char*)); size_t n = slots;
  strsplit((char**)tab.p, &n, b.p, bd.p);
  SIM_CHECK(n == want.size(), "strsplit", "strsplit found %zu parts, not %zu", n, want.size());
  for (size_t k = 0; k < n; k++) { char* t = ((char**)tab.p)[k]; SIM_CHECK(t >= b.p && t < b.p + b.n && S(t) == want[k], "strsplit", "part %zu is \"%s\", not \"%s\"", k, t >= b.p && t < b.p + b.n ? t : "(elsewhere)", want[k].c_str()); }
}
void op_trim(Rng& r) {
  S s = r.chance(1, 2) ? gen_src(r, (int)r.below(2)) : text(r, 5, " \tx") + text(r, 6, "abc ") + text(r, 5, " \tx"); S set = r.pick({" ", " \t", "a", "ab", "abcXYZ ,;.\t", "", "x \t"});
  size_t i = s.find_first_not_of(set); S want = i == S::npos ? "" : s.substr(i, s.find_last_not_of(set) - i + 1);
  Buf b(s, true), bs(set, true); strtrim(b.p, bs.p);
  SIM_CHECK(b.str(want), "strtrim", "trimming \"%s\" of \"%s\" gave \"%s\"", s.c_str(), set.c_str(), b.ended() ? b.p : "(not ended)");
}
void op_utf8(Rng& r) {
  S s; static const char* u[] = {"a", "\xC3\xA4", "\xE4\xBD\xA0", "\xF0\x9F\x98\x80", "z"}; int64_t n = r.range(0, 16); size_t points = 0;
  for (; n; n--) { s += u[r.below(5)]; points++; }
  Buf b(s, true); SIM_CHECK(strutf8len(b.p) == points, "utf8len", "strutf8len counted %zu of %zu", strutf8len(b.p), points);
  size_t max = (size_t)(r.chance(1, 2) ? (int64_t)s.size() : r.range(0, (int64_t)s.size() + 4)), want = 0;
  for (size_t i = 0; i < s.size() && i < max; i++) want += ((unsigned char)s[i] & 0xC0) != 0x80;
  Buf c(s, max > s.size()); size_t got = strnutf8len(c.p, max);
  SIM_CHECK(got == want, "utf8len", "strnutf8len counted %zu of %zu", got, want);
}
void op_hex(Rng& r) {
  Src x = source(r, r.chance(1, 2) ? 2 : 4); size_t cap = (size_t)(r.chance(1, 2) ? 3 * (int64_t)x.s.size() + r.range(-3, 3) : r.range(1, 200)); if ((int64_t)cap < 1) cap = 1;
  S all; char t[64]; for (unsigned char c : x.s) { snprintf(t, sizeof t, " %02x", c); all += t; }
  Buf o(cap); size_t ret = str_char2hex(o.p, cap, x.p, x.s.size());
  SIM_CHECK(ret < cap && o.p[ret] == 0 && strlen(o.p) == ret, "hex", "str_char2hex into %zu bytes returned %zu", cap, ret);
  if (all.size() < cap) SIM_CHECK(o.str(all), "hex", "hex of %zu bytes in %zu is \"%s\"", x.s.size(), cap, o.p);
  else {                                                    // announced as truncated, then a whole number of the first bytes
    snprintf(t, sizeof t, "hex truncated(%zu):", x.s.size()); S head = t, got = o.p;
    if (got.size() > head.size()) SIM_CHECK(got.compare(0, head.size(), head) == 0 && (got.size() - head.size()) % 3 == 0 && all.compare(0, got.size() - head.size(), got, head.size(), S::npos) == 0, "hex", "truncated hex is \"%s\"", got.c_str());
    else SIM_CHECK(head.compare(0, got.size(), got) == 0, "hex", "truncated hex is \"%s\"", got.c_str());
  }
  same(x, "str_char2hex");
}
void op_case(Rng& r) {
  S s = text(r, 20, "abzABZ09[`{@ "), up = s, lo = s; for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32; for (auto& c : lo) if (c >= 'A' && c <= 'Z') c += 32;
  Buf a(s, true), b(s, true); STRING2UPPER(a.p); STRING2LOWER(b.p);
  SIM_CHECK(a.str(up) && b.str(lo), "case", "upper or lower case of \"%s\" is wrong", s.c_str());
}
void op_b64(Rng& r) {
  Src x = source(r, r.chance(1, 2) ? 2 : 4); if (r.chance(1, 4)) { x.s = bytes(r, 1, 7, true); x.own.reset(new Buf(x.s, true)); x.p = x.own->p; }
  size_t n = x.own ? x.s.size() : (size_t)r.range(1, (int64_t)x.s.size()); S in = x.s.substr(0, n), want = ref_b64(in);
  std::unique_ptr<Buf> exact; const char* p = x.p; if (r.chance(1, 2)) { exact.reset(new Buf(in, false)); p = exact->p; }
  int room = lcu_base64_encode_buf_size(n); SIM_CHECK(room >= (int)want.size() + 1 && room <= (int)want.size() + 16, "base64", "%d bytes are advised for encoding %zu", room, n);
  Buf o((size_t)room); int ret = lcu_base64_encode(o.p, p, n);
  SIM_CHECK(ret == (int)want.size() + 1, "base64", "encoding %zu bytes returned %d, not %zu", n, ret, want.size() + 1);
  SIM_CHECK(o.str(want), "base64", "encoding %s gave \"%s\"", hex(in).c_str(), o.ended() ? o.p : "(not ended)");
  same(x, "lcu_base64_encode");
  Buf e(want, true); int droom = lcu_base64_decode_buf_size(want.size()); SIM_CHECK(droom >= (int)n + 1, "base64", "%d bytes are advised for decoding %zu", droom, want.size());
  Buf d((size_t)droom); ret = lcu_base64_decode(d.p, e.p);
  SIM_CHECK(ret == (int)n, "base64", "decoding returned %d, not %zu", ret, n); SIM_CHECK(d.str(in), "base64", "decoding gave %s, not %s", hex(S(d.p, std::min(d.n, n))).c_str(), hex(in).c_str());
  SIM_CHECK(e.str(want), "input", "lcu_base64_decode changed its constant input");
}
void op_unb64(Rng& r) {   // decoding stops at the first character that is none of base64, padded or not
  S in = bytes(r, 0, 24, true), e = ref_b64(in); while (!e.empty() && e.back() == '=') e.pop_back();
  S tail = r.pick({"", "=", "==", "\n", " QUJD", "-_", "\x80", "===="});
  Buf b(e + tail, true), d((size_t)lcu_base64_decode_buf_size(e.size()));
  int ret = lcu_base64_decode(d.p, b.p);
  SIM_CHECK(ret == (int)in.size() && d.str(in), "base64", "decoding \"%s%s\" gave %d bytes", e.c_str(), tail.c_str(), ret);
}
void op_url(Rng& r) {
  Src x = source(r, r.chance(1, 2) ? 3 : 2); S want = ref_url(x.s);
  size_t cap = (size_t)(r.chance(1, 3) ? 3 * (int64_t)x.s.size() + 1 : (int64_t)want.size() + r.pick({1, 1, 1, 2, 3, 0, -1, -2, -20})); if ((int64_t)cap < 0) cap = 0;
  Buf o(cap); int ret = lcu_url_encode(o.p, cap, x.p, x.s.size());
  if (cap >= want.size() + 1 && cap >= 2) SIM_CHECK(ret == (int)want.size() && o.str(want), "url", "encoding %s into %zu returned %d, not \"%s\"", hex(x.s).c_str(), cap, ret, want.c_str());
  else SIM_CHECK(ret < 0, "url", "encoding into a buffer too small (%zu for %zu) returned %d", cap, want.size(), ret);
  same(x, "lcu_url_encode");
  if (ret > 0) {
    Buf e(want, true), d(x.s.size() + 1); char* last = nullptr;
    if (d.n >= 2) { ret = lcu_url_decode(d.p, d.n, e.p, want.size(), r.chance(1, 2) ? &last : nullptr); SIM_CHECK(ret == (int)x.s.size() && d.str(x.s) && (!last || last == e.p + want.size()), "url", "decoding \"%s\" returned %d", want.c_str(), ret); }
  }
}
void op_unurl(Rng& r) {   // decoding piece by piece into small buffers
  S e; int64_t n = r.range(0, 14); for (; n; n--) switch (r.below(r.chance(1, 6) ? 7 : 5)) { case 0: e += '+'; break; case 1: { char b[8]; snprintf(b, sizeof b, r.chance(1, 2) ? "%%%02x" : "%%%02X", (unsigned)r.below(256)); e += b; break; } case 5: e += r.pick({"%4", "%g1", "%1G", "%"}); break; case 6: e += r.pick({"/", "\x80", " ", "="}); break; default: e += kUrl[r.below(12)]; }
  std::unique_ptr<Buf> b(new Buf(e, false)); size_t at = 0; S whole, got;
  size_t used; bool bad = ref_unurl(e, 1000, whole, used) < 0;
  for (int guard = 0; guard < 60; guard++) {
    size_t cap = (size_t)r.range(r.chance(1, 8) ? 0 : 2, 9); Buf d(cap); S part; size_t u; char* last = nullptr;
    int want = ref_unurl(e.substr(at), cap ? cap - 1 : 0, part, u);
    int ret = lcu_url_decode(d.p, cap, b->p + at, e.size() - at, &last);
    if (at == e.size() || cap < 2) { SIM_CHECK(ret < 0, "url", "decoding %zu bytes into %zu returned %d", e.size() - at, cap, ret); SIM_CHECK(last == b->p + at, "url", "a refused decode moved the position"); if (at == e.size()) break; continue; }
    if (want < 0) { SIM_CHECK(ret < 0, "url", "decoding the bad text \"%s\" returned %d", e.substr(at).c_str(), ret); break; }
    SIM_CHECK(ret == (int)part.size() && d.str(part), "url", "decoding \"%s\" into %zu returned %d, not %zu", e.substr(at).c_str(), cap, ret, part.size());
    SIM_CHECK(last == b->p + at + u, "url", "decoding \"%s\" into %zu stopped after %td, not %zu", e.substr(at).c_str(), cap, last - b->p - (ptrdiff_t)at, u);
    got += part; at += u; if (!u) break;
  }
  if (!bad && used == e.size() && at == e.size()) SIM_CHECK(got == whole, "url", "the pieces do not make the whole");
  SIM_CHECK(b->is(e), "input", "lcu_url_decode changed its constant input");
}
void op_rfc(Rng& r) {
  long long t; switch (r.below(4)) { case 0: t = r.range(0, 2147483647); break; case 1: t = r.range(-2208988800ll, 253402300799ll); break; case 2: t = r.pick({0ll, -1ll, 951782400ll, 951868799ll, 2147483647ll, 2147483648ll, 4102444799ll, 253402300799ll}); break; default: t = r.range(0, 60000) * 86400 - r.range(0, 1); }
  Buf tb(sizeof(time_t)); time_t tt = (time_t)t; memcpy(tb.p, &tt, sizeof tt); time_t* tp = (time_t*)tb.p;
  int kind = (int)r.below(3); size_t need = kind == 0 ? TIME_RFC1123_STR_SIZE : kind == 1 ? TIME_RFC2822_STR_SIZE : TIME_RFC2822_UTC_STR_SIZE;
  size_t cap = need + (size_t)r.pick({0, 0, 1, 40}); if (r.chance(1, 8)) cap = (size_t)r.range(0, (int64_t)need - 1);
  Buf o(cap); int ret = kind == 0 ? time_rfc1123(tp, o.p, cap) : kind == 1 ? time_rfc2822(tp, o.p, cap) : time_rfc2822_utc(tp, o.p, cap);
  SIM_CHECK(!memcmp(tb.p, &tt, sizeof tt), "input", "a time string changed the time");
  if (cap < need) { SIM_CHECK(ret == -1, "rfc", "a buffer of %zu was accepted", cap); return; }
  SIM_CHECK(ret == 0 && o.ended(), "rfc", "kind %d of %lld returned %d", kind, t, ret);
  S got = o.p;
  if (kind == 1) {   // any zone will do as long as it is the same instant
    int sg = 0, zh = 0, zm = 0; size_t k = got.size(); bool ok = k == 31 && (got[26] == '+' || got[26] == '-');
    if (ok) { sg = got[26] == '+' ? 1 : -1; zh = atoi(got.substr(27, 2).c_str()); zm = atoi(got.substr(29, 2).c_str()); }
    SIM_CHECK(ok && got == stamp(t + sg * (zh * 3600 + zm * 60), got.substr(26).c_str()), "rfc", "%lld gave \"%s\"", t, got.c_str());
  } else { S want = stamp(t, kind == 0 ? "GMT" : "UTC"); SIM_CHECK(got == want, "rfc", "%lld gave \"%s\", not \"%s\"", t, got.c_str(), want.c_str()); }
  SIM_CHECK((kind == 0 ? time_rfc1123(tp, nullptr, need) : kind == 1 ? time_rfc2822(tp, nullptr, need) : time_rfc2822_utc(tp, nullptr, need)) == -1, "rfc", "no buffer was accepted");
}
void op_fmt(Rng& r) {
  bool usable = false; int n, want; S s = text(r, r.pick({5, 60, 2000}), "abc"); char b[4096];
  switch (r.below(4)) {
    case 0: n = count_fmt(usable, "%s", s.c_str()); want = (int)s.size(); break;
    case 1: { int64_t v = r.range(-100000, 100000); n = count_fmt(usable, "%lld:%-8d|%x", (long long)v * 1000003, (int)v, (unsigned)v); want = snprintf(b, sizeof b, "%lld:%-8d|%x", (long long)v * 1000003, (int)v, (unsigned)v); break; }
    case 2: n = count_fmt(usable, "%.3f %c %5s%%", 3.14159 * (double)r.below(100000), 'q', s.substr(0, 9).c_str()); want = n; SIM_CHECK(n > 0, "fmt", "counting returned %d", n); break;
    default: n = count_fmt(usable, ""); want = 0;
  }
  SIM_CHECK(n == want, "fmt", "vscprintf counted %d, not %d", n, want); SIM_CHECK(usable, "fmt", "the arguments are no longer usable after vscprintf, or it counted wrongly");
}
void op_int(Rng& r) {
  uint32_t i; switch (r.below(4)) { case 0: i = (uint32_t)r.below(70); break; case 1: i = (uint32_t)(1ull << r.below(32)) + (uint32_t)r.range(-2, 2); break; case 2: i = (uint32_t)r.next(); break; default: i = (uint32_t)r.logrange(1, 0xffffffffll); }
  bool pow = i > 1 && __builtin_popcount(i) == 1; SIM_CHECK(integer_is_power_of_two(i) == pow, "integer", "is_power_of_two(%u)", i);
  uint64_t up = 2; while (up < i) up *= 2; if (i == 0) up = 0;
  if (up <= 0x80000000ull) SIM_CHECK(integer_roundup_pow_of_two(i) == up, "integer", "roundup(%u) is %u, not %llu", i, integer_roundup_pow_of_two(i), (ull)up);
  uint64_t dn = 2; while (dn * 2 <= i) dn *= 2; if (i < 2) dn = 0;
  SIM_CHECK(integer_rounddown_pow_of_two(i) == dn, "integer", "rounddown(%u) is %u, not %llu", i, integer_rounddown_pow_of_two(i), (ull)dn);
}
void op_hash(Rng& r) {
  Src x = source(r, (int)r.below(3)); Buf copy(x.s, true);
  int a = hash_function_string(x.p), b = hash_function_string(copy.p); SIM_CHECK(a == b, "hash", "equal strings hash to %d and %d", a, b);
  const void* k = (const void*)(uintptr_t)r.next();
  int n1 = hash_function_naive(k), i1 = hash_function_integer(k), p1 = hash_function_pointer(k);
  SIM_CHECK(n1 == hash_function_naive(k) && i1 == hash_function_integer(k) && p1 == hash_function_pointer(k), "hash", "a key hashes differently the second time");
  same(x, "hash_function_string");
}
void op_inipath(Rng& r) {   // a text is a path unless it has a line break, or starts (after blanks) like ini content
  static const char* const bits[] = {"a", "/tmp/x.ini", "[s]", "#", "\n", " ", "\t", "k = v", ";", "C:\\d\\e.ini", "\x80", "\r", "."};
  S s; for (int64_t n = r.range(0, 5); n; n--) s += bits[r.below(13)];
  if (r.chance(1, 6)) s.insert(r.chance(1, 2) ? s.size() : 0, std::string((size_t)r.pick({255, 256, 300, 700}), r.chance(1, 2) ? 'p' : ' '));
  size_t i = 0; while (i < s.size() && strchr(" \t\n\v\f\r", s[i])) i++;
  bool want = !s.empty() && s.find('\n') == S::npos && !(i < s.size() && (s[i] == '#' || s[i] == '['));
  Buf b(s, true); bool got = ini_parser_is_file_path(b.p);
  SIM_CHECK(got == want, "ini-path", "\"%s\" is taken for %s", s.c_str(), got ? "a path" : "content"); SIM_CHECK(b.str(s), "input", "ini_parser_is_file_path changed its input");
  SIM_CHECK(!ini_parser_is_file_path(nullptr), "ini-path", "no text is taken for a path");
}
void op_macro(Rng& r) {   // the general macros, from a C program
  auto any = [&] { return r.chance(1, 2) ? r.range(-5, 5) : (int64_t)r.next() >> r.range(1, 40); };
  long long a = any(), b = any();
  SIM_CHECK(mac_max(a, b) == std::max(a, b) && mac_min(a, b) == std::min(a, b) && mac_abs(a) == (a < 0 ? -a : a), "macro", "__max, __min or __abs of %lld and %lld", a, b);
  int x = (int)r.range(-999, 999), y = (int)r.range(-999, 999), z = (int)r.range(0, 9);
  SIM_CHECK(mac_choice(x, y, z) == 2 * std::max(x & y, z | 1) + 3 * std::min(x - y, z ? x : y) + abs(x - y) * 2, "macro", "__max, __min or __abs of expressions of %d, %d, %d", x, y, z);
  SIM_CHECK(mac_uint((uintptr_t)a) == (uintptr_t)a && mac_int((intptr_t)a) == (intptr_t)a && mac_long(a) == a, "macro", "%lld does not come back from a pointer", a);
  SIM_CHECK(mac_free((size_t)r.range(0, 40), (int)r.below(2)) == 1, "macro", "FREE did not clear the pointer");
  SIM_CHECK(mac_len(0) == 7 && mac_len(1) == 1 && mac_len(2) == 3, "macro", "ARRAY_LEN");
  SIM_CHECK(!strcmp(mac_text("q"), "q") && !strcmp(mac_text(""), "") && mac_text(nullptr), "macro", "NULLABLE_STRING");
  int lo = (int)r.range(-50, 50), hi = lo + (int)r.range(1, 60), got = mac_random(lo, hi, (int)r.below(1u << 30), 1);
  SIM_CHECK(got >= lo && got < hi, "macro", "RANDOM(%d, %d) is %d", lo, hi, got);
  static const char* const names[] = {"MAC_START", "MAC_RUN", "MAC_STOP"};
  for (int i = 0; i < 3; i++) SIM_CHECK(!strcmp(mac_enum(i), names[i]) && mac_enum_value(i) == i, "macro", "enum item %d is called %s", i, mac_enum(i));
  S p = "/tmp/m" + std::to_string(r.below(1u << 20)); int f = mac_fclose(p.c_str()); SIM_CHECK(f == 1 || fault_fired(F_FOPEN), "macro", "fclose did not clear the stream");
  S s = text(r, 20, "abzABZ09[`{@ "), up = s, lw = s; for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32; for (auto& c : lw) if (c >= 'A' && c <= 'Z') c += 32;
  Buf u(s, true), v(s, true), w(s, true); int both = (int)r.below(2); mac_upper(u.p, v.p, both); mac_lower(w.p);
  SIM_CHECK(w.str(lw) && (both ? u.str(up) && v.str(s) : v.str(up) && u.str(s)), "case", "upper or lower case of \"%s\" in C is wrong", s.c_str());
}
void (*const kOp[O_N])(Rng&) = {op_lcpy, op_lcat, op_replace, op_split, op_trim, op_utf8, op_hex, op_case, op_b64, op_unb64, op_url, op_unurl, op_rfc, op_fmt, op_int, op_hash, op_inipath, op_macro};
// p: seed of the shared inputs, op kind all clients prefer (-1 none)
void d4_gen(Rng& r, Plan& p, RunCfg& c) {
  p.p = {(int64_t)r.below(1u << 30)}; int fav = r.chance(1, 2) ? (int)r.below(O_N) : -1;
  p.t.resize((size_t)r.range(1, 4));
  for (auto& t : p.t) { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) t.push_back({fav >= 0 && r.chance(3, 4) ? fav : (int64_t)r.below(O_N), (int64_t)r.below(1u << 30)}); }
  if (r.chance(1, 6)) draw_fault(r, p, F_MALLOC, 6);
}
void d4_run(const Plan& p) {
  Rng sr((uint64_t)P(p, 0)); std::vector<std::unique_ptr<Buf>> own;
  for (int i = 0; i < kShared; i++) { shared_is[i] = gen_src(sr, i); own.emplace_back(new Buf(shared_is[i], true)); shared[i] = own.back().get(); }
  for (size_t c = 0; c < p.t.size(); c++) spawn("client", [&, c] { for (auto& o : p.t[c]) { Rng r((uint64_t)o.a * 2654435761u + 7); kOp[((o.k % O_N) + O_N) % O_N](r); note("op %lld", (long long)o.k); } });
  join_all_clients();
  for (int i = 0; i < kShared; i++) SIM_CHECK(own[(size_t)i]->str(shared_is[i]), "input", "a shared constant input was changed");
  own.clear(); check_no_leaks("after all calls");
}
// ------------------------------------------------------- scale: texts beyond 2^16 bytes, many parts and matches
// p: operation, size, seed
void d4b_gen(Rng& r, Plan& p, RunCfg& c) { c.max_steps = 8000000; p.p = {(int64_t)r.below(9), r.chance(1, 3) ? r.range(65500, 65580) : r.range(1000, 90000), (int64_t)r.below(1u << 30)}; }
void d4b_run(const Plan& p) {
  size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 1), 1), 100000); Rng r((uint64_t)P(p, 2)); S s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)('a' + (i * 7 + i / 26) % 26);
  switch (P(p, 0)) {
    case 0: { Buf b(s, true); size_t cap = n + (size_t)r.range(0, 2) - 1 + (size_t)r.chance(1, 2) * 70000; Buf d(cap); size_t ret = strlcpy(d.p, b.p, cap); SIM_CHECK(ret == n && (!cap || d.str(s.substr(0, cap - 1))), "strlcpy", "strlcpy of %zu bytes into %zu returned %zu or left a wrong text", n, cap, ret); break; }
    case 1: { S had = s.substr(n / 9); Buf b(s, true); size_t cap = had.size() + n + (size_t)r.range(0, 2) - 1; Buf d(cap); memcpy(d.p, had.c_str(), had.size() + 1); size_t ret = strlcat(d.p, b.p, cap); SIM_CHECK(ret == had.size() + n && d.str((had + s).substr(0, cap - 1)), "strlcat", "strlcat of %zu to %zu bytes in %zu returned %zu or left a wrong text", n, had.size(), cap, ret); break; }
    case 2: {
      S t, want, rep = r.pick({"", "1", "12345"}), pat = r.pick({"a", "ab"}); size_t m = r.chance(1, 2) ? 65530 + r.below(20) : r.below(3000) + 1; for (size_t i = 0; i < m; i++) { t += pat; want += rep; if (i % 3 == 0) { t += "-"; want += "-"; } }
      Buf b(t, true), bp(pat, true), br(rep, true); char* g = strreplace(b.p, bp.p, br.p); SIM_CHECK(g && block_size(g) >= want.size() + 1 && want == g, "strreplace", "%zu matches were not replaced rightly", m); lib_free(g); break;
    }
    case 3: { size_t m = r.chance(1, 2) ? 65530 + r.below(20) : r.below(3000) + 200, slots = r.chance(1, 3) ? r.below((uint32_t)m) : m + 5; S t; for (size_t i = 0; i < m; i++) { t += (char)('a' + i % 26); t += i % 5 ? "," : ",;"; } Buf b(t, true), bd(",;", true), tab(slots * sizeof(char*)); size_t k = slots; strsplit((char**)tab.p, &k, b.p, bd.p); SIM_CHECK(k == std::min(m, slots), "strsplit", "strsplit found %zu parts of %zu with room for %zu", k, m, slots); for (size_t i = 0; i < k; i++) { char* q = ((char**)tab.p)[i]; SIM_CHECK(q >= b.p && q + 1 < b.p + b.n && q[0] == (char)('a' + i % 26) && !q[1], "strsplit", "part %zu is wrong", i); } break; }
    case 4: { S t = S(n, ' ') + s + S(n / 2, ' '); Buf b(t, true), bs(" ", true); strtrim(b.p, bs.p); SIM_CHECK(b.str(s), "strtrim", "trimming %zu bytes gave a wrong text", t.size()); break; }
    case 5: { S t; for (size_t i = 0; i < n; i++) t += i % 3 ? "q" : "\xE4\xBD\xA0"; Buf b(t, true); SIM_CHECK(strutf8len(b.p) == n, "utf8len", "strutf8len counted %zu of %zu", strutf8len(b.p), n); size_t k = strnutf8len(b.p, t.size() + 10); if (r.chance(1, 2)) { Buf u(t, false); k = strnutf8len(u.p, t.size()); } SIM_CHECK(k == n, "utf8len", "strnutf8len counted %zu of %zu", k, n); break; }
    case 6: { S all; char t[8]; size_t m = std::min<size_t>(n, r.chance(1, 2) ? 40000 : 70000); for (size_t i = 0; i < m; i++) { snprintf(t, sizeof t, " %02x", (unsigned char)s[i]); all += t; } Buf b(s.substr(0, m), true), o(all.size() + 1); size_t ret = str_char2hex(o.p, o.n, b.p, m); SIM_CHECK(ret == all.size() && o.str(all), "hex", "hex of %zu bytes returned %zu or is wrong", m, ret); break; }
    case 7: {
      S in = s; for (size_t i = 0; i < in.size(); i++) in[i] = (char)pat(n, i); S want = ref_b64(in); Buf b(in, false), o((size_t)lcu_base64_encode_buf_size(n)); int ret = lcu_base64_encode(o.p, b.p, n); SIM_CHECK(ret == (int)want.size() + 1 && o.str(want), "base64", "encoding %zu bytes returned %d or is wrong", n, ret);
      Buf d((size_t)lcu_base64_decode_buf_size(want.size())); ret = lcu_base64_decode(d.p, o.p); SIM_CHECK(ret == (int)n && d.str(in), "base64", "decoding %zu characters returned %d or is wrong", want.size(), ret); break;
    }
    default: {
      S in = s; for (size_t i = 0; i < in.size(); i += 3) in[i] = (char)(1 + pat(n, i) % 255); S want = ref_url(in); Buf b(in, false), o(3 * n + 1); int ret = lcu_url_encode(o.p, o.n, b.p, n); SIM_CHECK(ret == (int)want.size() && o.str(want), "url", "encoding %zu bytes returned %d or is wrong", n, ret);
      Buf d(n + 1), e(want, false); char* last = nullptr; ret = lcu_url_decode(d.p, d.n, e.p, want.size(), &last); SIM_CHECK(ret == (int)n && d.str(in) && last == e.p + want.size(), "url", "decoding %zu characters returned %d or is wrong", want.size(), ret); break;
    }
  }
  check_no_leaks("at the end");
}
const char kReal[] = "src/mem/strings.c, src/mem/asprintf.c, src/data/base64.c, src/net/url_encoder_decoder.c, src/data/integer.c, src/data/hash_functions.c, src/time/time_rfc1123.c, src/time/time_rfc2822.c, src/file/ini_parser.c (unmodified, from the working tree)";
const char kStub[] = "threads and scheduling, heap";
Reg reg({"D04", {{"helpers", d4_gen, d4_run}, {"scale", d4b_gen, d4b_run, 32}}, kReal, kStub});
}  // namespace
