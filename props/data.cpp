#include "common.h"
extern "C" {
#include "data/hashmap.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "data/array.h"
#include "data/list.h"
#include <pthread.h>
int sim_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int sim_pthread_mutex_lock(pthread_mutex_t*); int sim_pthread_mutex_unlock(pthread_mutex_t*); int sim_pthread_mutex_destroy(pthread_mutex_t*);
}
#include <algorithm>
#include <cmath>
#include <climits>
namespace {
// ================================================================== D01
struct K { int k; int freed; int id; };
struct Vl { int id; int freed; };
struct World1 {
  hashmap_t* m = nullptr; int hashmode = 0; bool kfrees = false, vfrees = false; int lockmode = 0;
  pthread_mutex_t* mu = nullptr; int holder = -1; long acq = 0, rel = 0;
  std::vector<K*> keys; std::vector<Vl*> vals;
};
World1* W;
K* newk(int k) { K* x = (K*)halloc(sizeof(K)); *x = {k, 0, (int)W->keys.size()}; W->keys.push_back(x); return x; }
Vl* newv() { Vl* x = (Vl*)halloc(sizeof(Vl)); *x = {(int)W->vals.size(), 0}; W->vals.push_back(x); return x; }
int h_hash(const void* p) {
  const K* k = (const K*)p; SIM_CHECK(!k->freed, "freed-key", "a freed key was hashed");
  switch (W->hashmode) { case 0: return k->k * 2654435761u; case 1: return 7; case 2: return k->k << 20; case 3: return -k->k; default: { int v = k->k & 3; return hashmap_hash(&v, sizeof v); } }
}
bool h_eq(const void* a, const void* b) { const K *x = (const K*)a, *y = (const K*)b; SIM_CHECK(!x->freed && !y->freed, "freed-key", "a freed key was compared"); bool r = x->k == y->k; yield(); return r; }
void h_kfree(void* p) { K* k = (K*)p; SIM_CHECK(W->kfrees, "free", "a key was freed although no callback was given"); k->freed++; SIM_CHECK(k->freed == 1, "double-free", "a key was freed twice"); yield(); }
void h_vfree(void* p) { Vl* v = (Vl*)p; SIM_CHECK(W->vfrees, "free", "a value was freed although no callback was given"); v->freed++; SIM_CHECK(v->freed == 1, "double-free", "a value was freed twice"); yield(); }
int h_acq(void* a) { SIM_CHECK(a == (void*)W, "lock", "acquire got a foreign argument"); sim_pthread_mutex_lock(W->mu); SIM_CHECK(W->holder < 0, "lock", "the lock was acquired twice"); W->holder = self(); W->acq++; return 0; }
int h_rel(void* a) { SIM_CHECK(a == (void*)W, "lock", "release got a foreign argument"); SIM_CHECK(W->holder == self(), "lock", "the lock was released by a thread that does not hold it"); W->holder = -1; W->rel++; sim_pthread_mutex_unlock(W->mu); return 0; }
// one recorded operation: kind, key, key object, value, outcome
struct R1 { int kind; int key; int kid; int vid; int out; uint64_t inv, ret; std::vector<std::pair<int, int>> seen; int stop; };   // out: -1 none, else value id; -2 failed
struct Iter { std::vector<std::pair<int, int>> seen; int stop; std::vector<int> kids; };
bool h_iter(void* k, void* v, void* c) {
  Iter* it = (Iter*)c; K* x = (K*)k; Vl* y = (Vl*)v; SIM_CHECK(!x->freed && !y->freed, "freed-entry", "the iteration visits a freed entry");
  SIM_CHECK(it->stop <= 0 || (int)it->seen.size() < it->stop, "foreach", "the iteration went on after the callback asked to stop at %d", it->stop);
  it->seen.push_back({x->k, y->id}); it->kids.push_back(x->id); yield();
  return !(it->stop > 0 && (int)it->seen.size() >= it->stop);
}
// ops: 0 put, 1 get, 2 remove, 3 foreach, 4 clear
void d1_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 800000;
  int nc = (int)r.range(1, 4); bool many = r.chance(1, 3); int64_t nk = many ? r.range(6, 20) : r.range(1, 5);
  p.p = {nk, r.range(0, 4), r.range(0, 3), nc == 1 && r.chance(1, 3) ? 0 : 1, r.pick({0, 0, 1, 2, 3, 8, 16})}; p.t.resize((size_t)nc);
  static const int w[] = {0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 4}; int total = 0;
  for (auto& t : p.t) { int n = (int)r.range(2, many ? 14 : 10); for (int i = 0; i < n && total < 40; i++, total++) t.push_back({many && r.chance(1, 2) ? 0 : w[r.below(r.chance(1, 3) ? 12 : 11)], r.range(0, nk - 1), r.range(0, 3), r.chance(1, 5) ? r.range(1, 3) : 0}); }
  draw_fault(r, p, F_MALLOC, 20, 2, 1);
}
void d1_client(const std::vector<Op>& ops, std::vector<R1>* hist) {
  for (auto& o : ops) {
    R1 e = {(int)o.k, (int)(o.a < 0 ? 0 : o.a % 32), -1, -1, -1, 0, 0, {}, 0};
    K probe_key = {e.key, 0, -1};
    fail_alloc_at(o.c > 0 && o.c < 10 ? o.c - 1 : -1);
    uint64_t g0 = fault_fired(F_MALLOC);
    switch (o.k) {
      case 0: {
        K* k = newk(e.key); Vl* v = newv(); e.kid = k->id; e.vid = v->id; errno = 0; e.inv = seq();
        void* r = hashmap_put(W->m, k, v); e.ret = seq(); int err = errno; bool f = fail_alloc_fired() || fault_fired(F_MALLOC) != g0;
        if (r) e.out = ((Vl*)r)->id; else if (err == ENOMEM) { e.out = -2; SIM_CHECK(f, "put", "put reports ENOMEM although memory was available"); } else e.out = -1;
        if (r && W->vfrees) SIM_CHECK(((Vl*)r)->freed == 1, "put", "a replaced value was not freed");
        break;
      }
      case 1: { e.inv = seq(); void* r = hashmap_get(W->m, &probe_key); e.ret = seq(); e.out = r ? ((Vl*)r)->id : -1; break; }
      case 2: { e.inv = seq(); void* r = hashmap_remove(W->m, &probe_key); e.ret = seq(); e.out = r ? ((Vl*)r)->id : -1; break; }
      case 3: { Iter it; it.stop = (int)(o.b > 0 ? o.b : 0); e.inv = seq(); hashmap_foreach(W->m, h_iter, &it); e.ret = seq(); e.seen = it.seen; e.stop = it.stop; std::sort(it.kids.begin(), it.kids.end()); SIM_CHECK(std::adjacent_find(it.kids.begin(), it.kids.end()) == it.kids.end(), "foreach", "an entry was visited twice"); break; }
      default: { e.kind = 4; e.inv = seq(); hashmap_clear(W->m); e.ret = seq(); }
    }
    fail_alloc_at(-1);
    SIM_CHECK(W->holder != self(), "lock", "the lock is still held after the call");
    hist->push_back(e);
  }
}
int16_t* st(std::string& s) { return (int16_t*)&s[0]; }
void d1_run(const Plan& p) {
  World1 w; W = &w; w.hashmode = (int)P(p, 1); w.kfrees = P(p, 2) & 1; w.vfrees = P(p, 2) & 2; w.lockmode = (int)(p.t.size() > 1 ? 1 : P(p, 3, 1));
  w.mu = (pthread_mutex_t*)halloc(sizeof(pthread_mutex_t)); { NoFaults nf; sim_pthread_mutex_init(w.mu, nullptr); }
  hashmap_lock_t lk = {&w, h_acq, h_rel}; uint64_t g0 = fault_fired(F_MALLOC);
  w.m = hashmap_create((size_t)std::min<int64_t>(std::max<int64_t>(P(p, 4), 0), 64), h_hash, w.kfrees ? h_kfree : nullptr, w.vfrees ? h_vfree : nullptr, h_eq, w.lockmode ? &lk : nullptr);
  if (!w.m) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed although memory was available"); check_no_leaks("after a failed create"); return; }
  memset(&lk, 0x77, sizeof lk);
  std::vector<std::vector<R1>> hs(p.t.size());
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { d1_client(p.t[i], &hs[i]); });
  join_all_clients();
  NoFaults nf;
  // the final content, judged as one more operation after all others
  std::vector<R1> h; for (auto& x : hs) for (auto& e : x) h.push_back(e);
  R1 fin = {3, 0, -1, -1, -1, seq(), 0, {}, 0}; Iter it; it.stop = 0; hashmap_foreach(w.m, h_iter, &it); fin.ret = seq(); fin.seen = it.seen; h.push_back(fin);
  SIM_CHECK(hashmap_size(w.m) == it.seen.size(), "size", "hashmap_size is %zu, %zu entries were visited", hashmap_size(w.m), it.seen.size());
  std::vector<LinOp> ops; for (size_t i = 0; i < h.size(); i++) ops.push_back({h[i].inv, h[i].ret, (int)i});
  std::string why;
  bool ok = ops.size() > 58 || linearizable(ops, 32 * 2, [](std::string& s) { s.assign(64, (char)-1); }, [&](std::string& s, int id) {
    R1& e = h[(size_t)id]; int16_t& c = st(s)[e.key];
    switch (e.kind) {
      case 0: if (e.out == -2) return c == -1; if (e.out != c) return false; c = (int16_t)e.vid; return true;
      case 1: return e.out == c;
      case 2: if (e.out != c) return false; c = -1; return true;
      case 3: { size_t n = 0; for (int i = 0; i < 32; i++) if (st(s)[i] >= 0) n++; size_t want = e.stop > 0 ? std::min<size_t>(n, (size_t)e.stop) : n; if (e.seen.size() != want) return false; for (auto& x : e.seen) if (st(s)[x.first & 31] != x.second) return false; return true; }
      default: for (int i = 0; i < 32; i++) st(s)[i] = -1; return true;
    }
  });
  if (!ok) { std::string d; for (auto& e : h) { char b[96]; snprintf(b, sizeof b, "[%llu-%llu] %s k%d v%d -> %d (%zu seen); ", (unsigned long long)e.inv, (unsigned long long)e.ret, e.kind == 0 ? "put" : e.kind == 1 ? "get" : e.kind == 2 ? "remove" : e.kind == 3 ? "foreach" : "clear", e.key, e.vid, e.out, e.seen.size()); if (d.size() < 900) d += b; } violation("linearizability", "no order of the calls explains the results: %s", d.c_str()); }
  // free: once for everything the map took over, never for what it did not
  std::vector<char> ink(w.keys.size(), 0); for (int k : it.kids) ink[(size_t)k] = 1;
  for (auto& k : w.keys) if (ink[(size_t)k->id]) SIM_CHECK(!k->freed, "free", "a key still in the map was freed");
  hashmap_free(w.m);
  if (w.lockmode) SIM_CHECK(w.acq == w.rel && w.holder < 0, "lock", "the lock was acquired %ld times and released %ld times", w.acq, w.rel); else SIM_CHECK(w.acq == 0, "lock", "a lock nobody gave was used");
  for (auto& e : h) if (e.kind == 0) {
    bool took_key = e.out == -1, took_val = e.out != -2;
    SIM_CHECK(w.keys[(size_t)e.kid]->freed == (w.kfrees && took_key), "free", "a key that was %s is freed %d times", took_key ? "inserted" : "not taken over", w.keys[(size_t)e.kid]->freed);
    SIM_CHECK(w.vals[(size_t)e.vid]->freed == (w.vfrees && took_val), "free", "a value that was %s is freed %d times", took_val ? "stored" : "not stored", w.vals[(size_t)e.vid]->freed);
  }
  check_no_leaks("at the end");
  hashmap_free(nullptr); SIM_CHECK(!hashmap_put(nullptr, &w, &w) && !hashmap_get(nullptr, &w) && !hashmap_remove(nullptr, &w), "null", "a call with a NULL map returned something");
  sim_pthread_mutex_destroy(w.mu);
}
// ================================================================== D02
typedef std::vector<std::pair<std::string, std::string>> PV;
std::string* pget(PV& m, const std::string& k) { for (auto& x : m) if (x.first == k) return &x.second; return nullptr; }
void pput(PV& m, const std::string& k, const std::string& v) { if (auto* x = pget(m, k)) *x = v; else m.push_back({k, v}); }
char* hs(const std::string& s) { char* b = (char*)halloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); return b; }
const char* kDelim[] = {";", "|", nullptr, "&amp", ","};
std::string pkey(int64_t i) { static const char* k[] = {"a", "b", "key", "key2", "A", "another_key_of_some_length", "x y", "\xe4\xbd\xa0"}; i = i < 0 ? 0 : i; if (i < 8) return k[i]; return "k" + std::to_string(i); }
std::string pval(int64_t i) {
  static const char* v[] = {"", "1", "value", "0x10", "017", "-5", "1.5", "a=b", "==", "2147483647", "-2147483648", "9223372036854775807", "12x", " 7", "7 ", "1e3", "nan", "text with spaces"};
  i = i < 0 ? 0 : i; if (i < 18) return v[i]; Rng r((uint64_t)i); std::string s; for (int64_t n = r.logrange(1, 300); n > 0; n--) s += (char)('a' + r.below(26)); return s;
}
PV parse_params(const std::string& t, char d) {
  PV m; size_t i = 0;
  while (i <= t.size()) { size_t e = t.find(d, i); if (e == std::string::npos) e = t.size(); std::string x = t.substr(i, e - i); i = e + 1; if (x.empty()) continue; size_t q = x.find('='); if (q == 0) continue; if (q == std::string::npos) pput(m, x, ""); else pput(m, x.substr(0, q), x.substr(q + 1)); }
  return m;
}
bool same_pairs(PV a, PV b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
void holds(str_params_ptr sp, PV& m, int64_t nk, const char* when) {
  NoFaults nf;
  for (int64_t i = 0; i < nk; i++) {
    std::string k = pkey(i); std::string* v = pget(m, k); char* ck = hs(k);
    SIM_CHECK(str_params_has_key(sp, ck) == (v != nullptr), "content", "%s: key %s is %s", when, k.c_str(), v ? "missing" : "present");
    size_t n = v ? v->size() + 1 : 8; char* b = (char*)halloc(n); memset(b, 0x55, n); int rc = str_params_get_str(sp, ck, b, n);
    if (!v) SIM_CHECK(rc == -ENOENT && b[0] == 0x55, "content", "%s: getting a missing key returned %d", when, rc);
    else SIM_CHECK(rc >= 0 && !strcmp(b, v->c_str()), "content", "%s: %s is '%s' (%d), it should be '%s'", when, k.c_str(), std::string(b, strnlen(b, n)).c_str(), rc, v->c_str());
    hfree(b); hfree(ck);
  }
}
// ops: 0 add_str, 1 add_long/int, 2 add_double/float, 3 del, 4 typed gets, 5 short buffer, 6 to_str, 7 dump
void d2_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 1000000;
  int nc = r.chance(1, 6) ? 2 : 1; int64_t nk = r.chance(1, 3) ? r.range(14, 60) : r.range(1, 8);
  p.p = {(int64_t)r.below(1u << 30), r.range(0, 4), nk, r.chance(2, 3) ? r.chance(1, 4) ? r.range(10, 60) : r.range(0, 10) : -1}; p.t.resize((size_t)nc);
  static const int w[] = {0, 0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 6, 7};
  for (auto& t : p.t) { int n = (int)r.range(1, r.chance(1, 3) ? 45 : 14); for (int i = 0; i < n; i++) t.push_back({w[r.below(r.chance(1, 20) ? 13 : 12)], r.range(0, nk - 1), (int64_t)r.below(r.chance(1, 4) ? 1000 : 18), r.chance(1, 4) ? r.range(1, 5) : 0}); }
  draw_fault(r, p, F_MALLOC, 60, 1, 1);
}
void d2_client(const Plan& p, size_t ti, bool alone) {
  Rng r((uint64_t)(P(p, 0) + (int64_t)ti)); const char* dl = kDelim[(size_t)(P(p, 1) < 0 ? 0 : P(p, 1)) % 5]; char d = dl ? dl[0] : ';'; int64_t nk = std::min<int64_t>(std::max<int64_t>(P(p, 2), 1), 64);
  PV m; str_params_ptr sp = nullptr; uint64_t g0 = fault_fired(F_MALLOC); uint64_t b0 = live_blocks();
  if (P(p, 3) >= 0) {
    std::string t; for (int64_t n = std::min<int64_t>(P(p, 3), 64); n > 0; n--) { switch (r.below(8)) { case 0: t += pkey(r.range(0, nk - 1)); break; case 1: t += pkey(r.range(0, nk - 1)) + "="; break; case 2: t += "=lost"; break; case 3: break; default: t += pkey(r.range(0, nk - 1)) + "=" + pval((int64_t)r.below(r.chance(1, 5) ? 1000 : 18)); } if (n > 1 || r.chance(1, 3)) t += d; }
    char* ct = hs(t); sp = str_params_create_str(dl, ct); SIM_CHECK(t == ct, "input", "the parsed text was changed"); hfree(ct);
    if (sp) m = parse_params(t, d);
  } else sp = str_params_create(dl);
  if (!sp) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed although memory was available"); if (alone) SIM_CHECK(live_blocks() == b0, "leak", "a failed create leaks: %s", leak_report().c_str()); return; }
  holds(sp, m, nk, "after creation");
  for (auto& o : p.t[ti]) {
    std::string k = pkey(o.a % 64); char* ck = hs(k); uint64_t f0 = fault_fired(F_MALLOC);
    fail_alloc_at(o.c > 0 && o.c < 10 ? o.c - 1 : -1);
    auto faulted = [&] { return fail_alloc_fired() || fault_fired(F_MALLOC) != f0; };
    auto added = [&](int rc, const std::string& v) { bool f = faulted(); fail_alloc_at(-1); SIM_CHECK(rc <= 0, "add", "add returned %d", rc); if (rc == 0) pput(m, k, v); else SIM_CHECK(f, "add", "adding %s failed (%d) although memory was available", k.c_str(), rc); };
    switch (o.k) {
      case 0: { std::string v = pval(o.b); char* cv = hs(v); errno = r.chance(1, 2) ? ENOMEM : 0; int e0 = errno; int rc = str_params_add_str(sp, ck, cv); SIM_CHECK(errno == e0, "errno", "adding changed errno from %d to %d", e0, errno); added(rc, v); hfree(cv); break; }
      case 1: { static const long v[] = {0, 1, -1, 42, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, 1L << 40}; long x = v[(size_t)o.b % 9]; if (x == (int)x && o.b % 2) added(str_params_add_int(sp, ck, (int)x), std::to_string(x)); else added(str_params_add_long(sp, ck, x), std::to_string(x)); break; }
      case 2: {
        static const double v[] = {0, 1.5, -2.25, 3.1415926535, 1e10, -1e22, 1e30, 1e300, -1e308, 0.0001, 123456789.123456789, 1e21, 5e20, 1e19}; double x = v[(size_t)o.b % 14]; bool fl = o.b % 3 == 0 && fabs(x) < 1e38; if (fl) x = (float)x;
        int rc = fl ? str_params_add_float(sp, ck, (float)x) : str_params_add_double(sp, ck, x); bool f = faulted(); fail_alloc_at(-1);
        if (rc == 0) { double y = 77; NoFaults nf; int rg = str_params_get_double(sp, ck, &y); SIM_CHECK(rg == 0 && fabs(x - y) <= 1e-9 + 1e-9 * fabs(x), "double", "%.17g was added and %.17g (%d) is read", x, y, rg); char* b = (char*)halloc(600); SIM_CHECK(str_params_get_str(sp, ck, b, 600) >= 0, "double", "the text of a double cannot be read"); pput(m, k, b); hfree(b); float z; SIM_CHECK(str_params_get_float(sp, ck, &z) == 0 && z == (float)y, "double", "get_float gives %g, get_double %g", z, y); }
        else SIM_CHECK(f, "add", "adding %g failed (%d) although memory was available", x, rc);
        break;
      }
      case 3: str_params_del(sp, ck); { PV q; for (auto& x : m) if (x.first != k) q.push_back(x); m = q; } break;
      case 4: {
        std::string* v = pget(m, k); long l = 77; int i = 77; double db = 77; char* e;
        int rl = str_params_get_long(sp, ck, &l), ri = str_params_get_int(sp, ck, &i), rd = str_params_get_double(sp, ck, &db);
        if (!v) { SIM_CHECK(rl == -ENOENT && ri == -ENOENT && rd == -ENOENT, "get", "typed gets of a missing key return %d %d %d", rl, ri, rd); SIM_CHECK(l == 77 && i == 77 && db == 77, "get", "a failed get changed its output"); break; }
        errno = 0; long wl = strtol(v->c_str(), &e, 0); bool good = !v->empty() && !*e; bool fits = good && errno == 0;
        if (!good) SIM_CHECK(rl < 0 && ri < 0, "get", "get_long of '%s' returned %d", v->c_str(), rl);
        else if (fits) { SIM_CHECK(rl == 0 && l == wl, "get", "get_long of '%s' gives %ld (%d)", v->c_str(), l, rl); if (wl == (int)wl) SIM_CHECK(ri == 0 && i == wl, "get", "get_int of '%s' gives %d (%d)", v->c_str(), i, ri); }
        double wd = strtod(v->c_str(), &e); good = !v->empty() && !*e;
        if (!good) SIM_CHECK(rd < 0, "get", "get_double of '%s' returned %d", v->c_str(), rd); else SIM_CHECK(rd == 0 && (db == wd || (std::isnan(db) && std::isnan(wd))), "get", "get_double of '%s' gives %g (%d)", v->c_str(), db, rd);
        break;
      }
      case 5: { std::string* v = pget(m, k); if (!v) break; size_t n = v->empty() ? 0 : (size_t)o.b % (v->size() + 1); char* b = (char*)halloc(n + 1); int rc = str_params_get_str(sp, ck, b, n); SIM_CHECK(rc < 0, "get", "a value of %zu characters was put into %zu bytes (%d)", v->size(), n, rc); hfree(b); break; }
      case 6: {
        char* t = str_params_to_str(sp); bool f = faulted(); fail_alloc_at(-1);
        if (!t) { SIM_CHECK(f, "to_str", "to_str failed although memory was available"); break; }
        SIM_CHECK(same_pairs(parse_params(t, d), m), "to_str", "the text holds other pairs than the object: '%.200s'%s", t, f ? " (an allocation had failed)" : "");
        { NoFaults nf; str_params_ptr q = str_params_create_str(dl, t); SIM_CHECK(q, "to_str", "the text cannot be parsed"); holds(q, m, nk, "after parsing the text of to_str"); str_params_destroy(q); }
        lib_free(t); break;
      }
      default: str_params_dump(sp);
    }
    fail_alloc_at(-1); hfree(ck);
    if (o.k <= 3 || o.k == 6) holds(sp, m, nk, o.k == 3 ? "after a delete" : o.k == 6 ? "after to_str" : "after an add");
  }
  str_params_destroy(sp);
}
void d2_run(const Plan& p) {
  str_params_destroy(nullptr); bool alone = p.t.size() == 1;
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { d2_client(p, i, alone); });
  join_all_clients();
  check_no_leaks("at the end");
}
// ================================================================== D03
struct Fx { uint64_t f0; Fx(const Op& o) { f0 = fault_fired(F_MALLOC); fail_alloc_at(o.c > 0 && o.c < 6 ? o.c - 1 : -1); } bool done() { bool f = fail_alloc_fired() || fault_fired(F_MALLOC) != f0; fail_alloc_at(-1); return f; } };
// ops: 0 char, 1 str, 2 nstr, 3 fmt, 4 clear, 5 invalid
void sb_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 800000; int nc = r.chance(1, 6) ? 2 : 1; p.p = {r.pick({0, 0, 1, 2, 3, 7, 16, 100, 128})}; p.t.resize((size_t)nc);
  static const int w[] = {0, 0, 1, 1, 1, 2, 2, 3, 3, 3, 4, 5};
  for (auto& t : p.t) { int n = (int)r.range(1, 30); for (int i = 0; i < n; i++) t.push_back({w[r.below(12)], r.chance(1, 3) ? r.logrange(1, 600) : r.range(0, 20), (int64_t)r.below(1000), r.chance(1, 4) ? r.range(1, 2) : 0}); }
  draw_fault(r, p, F_MALLOC, 14, 1, 1);
}
void sb_client(const Plan& p, const std::vector<Op>& ops) {
  uint64_t g0 = fault_fired(F_MALLOC); stringbuilder_t* sb = stringbuilder_create((size_t)std::min<int64_t>(std::max<int64_t>(P(p, 0), 0), 4096)); std::string m;
  if (!sb) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed although memory was available"); return; }
  auto ok = [&](const char* when) { SIM_CHECK(stringbuilder_len(sb) == m.size(), "content", "%s: the length is %zu, it should be %zu", when, stringbuilder_len(sb), m.size()); const char* s = stringbuilder_to_string(sb); check_mem(s, m.size() + 1, false, "string"); SIM_CHECK(!memcmp(s, m.c_str(), m.size() + 1), "content", "%s: the text differs", when); };
  ok("after creation");
  for (auto& o : ops) {
    size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(o.a, 0), 2000); std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + pat((uint64_t)o.b, i) % 26);
    char* cs = hs(s); Fx fx(o); std::string add; int rc = 0; bool expect_ok = true;
    switch (o.k) {
      case 0: { char ch = o.b % 50 == 0 ? '\n' : (char)(1 + (uint64_t)o.b % 255); add = std::string(1, ch); rc = stringbuilder_appendchar(sb, ch); break; }
      case 1: add = s; rc = stringbuilder_appendstr(sb, cs); break;
      case 2: { size_t l = (size_t)(o.b % 3 == 0 ? n + (size_t)o.b % 40 + 1 : o.b % 3 == 1 ? n : (n ? (size_t)o.b % n + 1 : 1)); add = s.substr(0, l); rc = stringbuilder_appendnstr(sb, cs, l); break; }
      case 3:
        switch (o.b % 6) {
          case 0: add = s + "|"; rc = stringbuilder_appendf(sb, "%s|", cs); break;
          case 1: { char b[64]; snprintf(b, sizeof b, "%d %s %08llx", (int)o.b, "x", 0x123456789ull * (unsigned)o.b); add = b; rc = stringbuilder_appendf(sb, "%d %s %08llx", (int)o.b, "x", 0x123456789ull * (unsigned)o.b); break; }
          case 2: add = std::string(n, ' ') + "%"; { char b[2100]; snprintf(b, sizeof b, "%*s%%", (int)n, ""); add = b; } rc = stringbuilder_appendf(sb, "%*s%%", (int)n, ""); break;
          case 3: add = s; rc = stringbuilder_appendf(sb, "%s", cs); break;
          case 4: expect_ok = false; rc = stringbuilder_appendf(sb, "%s%lc", cs, (wint_t)0x7fffffff); SIM_CHECK(rc != 0, "append", "appending an impossible character succeeded"); break;
          default: add = "plain"; rc = stringbuilder_appendf(sb, "plain"); break;
        }
        break;
      case 4: rc = stringbuilder_clear(sb); SIM_CHECK(rc == 0, "clear", "clear returned %d", rc); m.clear(); break;
      default:
        expect_ok = false;
        SIM_CHECK(stringbuilder_appendstr(sb, nullptr) && stringbuilder_appendstr(nullptr, cs) && stringbuilder_appendchar(nullptr, 'x') && stringbuilder_appendf(nullptr, "x") && stringbuilder_clear(nullptr) && stringbuilder_appendnstr(sb, nullptr, 4), "invalid", "an invalid call succeeded");
    }
    bool f = fx.done();
    if (expect_ok) { if (rc == 0) m += add; else SIM_CHECK(f || add.empty(), "append", "appending %zu bytes failed (%d) although memory was available", add.size(), rc); }
    ok(rc ? "after a refused append" : "after an append"); hfree(cs);
  }
  stringbuilder_destroy(&sb); SIM_CHECK(!sb, "destroy", "the pointer was not cleared"); stringbuilder_destroy(&sb); stringbuilder_destroy(nullptr);
}
void sb_run(const Plan& p) { for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { sb_client(p, p.t[i]); }); join_all_clients(); check_no_leaks("at the end"); }
// ops: 0 append ptr, 1 append value
void ar_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 800000; int nc = r.chance(1, 6) ? 2 : 1; p.p = {r.pick({1, 2, 3, 4, 8, 12, 40, 256}), r.pick({-1, 0, 1, 3, 4, 5, 7, 16, 33})}; p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.logrange(1, 90); for (int i = 0; i < n; i++) t.push_back({r.pick({0, 0, 1}), 0, (int64_t)r.below(1u << 30), r.chance(1, 6) ? 1 : 0}); }
  draw_fault(r, p, F_MALLOC, 8, 1, 1);
}
void ar_client(const Plan& p, const std::vector<Op>& ops) {
  size_t es = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 0, 1), 1), 1024); uint64_t g0 = fault_fired(F_MALLOC);
  array_t* a = P(p, 1) < 0 ? array_new(es) : array_new_with_init_capacity(es, (size_t)P(p, 1)); std::vector<std::string> m;
  if (!a) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed although memory was available"); return; }
  for (auto& o : ops) {
    std::string e(es, 0); for (size_t i = 0; i < es; i++) e[i] = (char)pat((uint64_t)o.b, i); Fx fx(o); bool rc;
    if (o.k == 1 && es <= 4) { uint32_t v = 0; memcpy(&v, e.data(), es); rc = array_append_value(a, es < 4 ? v | (uint32_t)(0xEEu << 24) : v); }
    else { char* d = (char*)halloc(es); memcpy(d, e.data(), es); rc = array_append_ptr(a, d); memset(d, 0, es); hfree(d); }
    bool f = fx.done(); if (rc) m.push_back(e); else SIM_CHECK(f, "append", "an append failed although memory was available");
    SIM_CHECK(array_length(a) == m.size(), "length", "the length is %zu, it should be %zu", array_length(a), m.size());
    for (size_t i = 0; i < m.size(); i++) { void* q = array_at(a, i); check_mem(q, es, true, "element"); SIM_CHECK(!memcmp(q, m[i].data(), es), "content", "element %zu of %zu changed", i, m.size()); SIM_CHECK(q == (char*)array_ptr(a) + i * es, "content", "element %zu is not at its place", i); }
  }
  array_free(a); array_free(nullptr);
}
// containers of impossible size: the creation is refused, or the container works as asked
void imp_gen(Rng& r, Plan& p, RunCfg& c) { c.reuse = r.chance(1, 2); p.p = {r.range(0, 5), r.range(0, 63), r.range(-3, 3), r.pick({1, 2, 3, 4, 8, 12, 16, 40, 256, 1024}), r.range(1, 40)}; }
void imp_run(const Plan& p) {
  uint64_t es = (uint64_t)std::min<int64_t>(std::max<int64_t>(P(p, 3, 1), 1), 1024), n;
  switch (P(p, 0) % 6) {
    case 0: n = ~0ull / es + (uint64_t)P(p, 2) + 1; break;                      // the product wraps to about nothing
    case 1: n = (~0ull - 40) / es + (uint64_t)P(p, 2); break;                   // the sum with the header wraps
    case 2: n = (1ull << (40 + P(p, 1) % 24)) + (uint64_t)P(p, 2); break;
    case 3: n = ~0ull - (uint64_t)(P(p, 2) & 3); break;
    case 4: n = (1ull << 63) / es + (uint64_t)P(p, 2); break;
    default: n = (1ull << (P(p, 1) & 63)) * 3 / es; break;
  }
  if (n < 5000 || n > 1ull << 36) {
    array_t* a = array_new_with_init_capacity((size_t)es, (size_t)n);
    if (a) {
      char* d = (char*)halloc(es); size_t k = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 4, 1), 1), 64);
      for (size_t i = 0; i < k; i++) { memset(d, (int)(i + 1), es); SIM_CHECK(array_append_ptr(a, d), "append", "an append failed although memory was available"); }
      for (size_t i = 0; i < k; i++) { memset(d, (int)(i + 1), es); void* q = array_at(a, i); check_mem(q, es, true, "element"); SIM_CHECK(!memcmp(q, d, es), "content", "element %zu of %zu changed", i, k); }
      hfree(d); array_free(a);
    }
    stringbuilder_t* sb = stringbuilder_create((size_t)n);
    if (sb) {
      std::string s((size_t)P(p, 4, 1) & 63, 'x'); s += "y"; char* cs = hs(s); SIM_CHECK(stringbuilder_appendstr(sb, cs) == 0 && stringbuilder_len(sb) == s.size() && !strcmp(stringbuilder_to_string(sb), cs), "content", "the text differs"); check_mem(stringbuilder_to_string(sb), s.size() + 1, false, "string");
      hfree(cs); stringbuilder_destroy(&sb);
    }
  }
  check_no_leaks("at the end");
}
void ar_run(const Plan& p) { for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { ar_client(p, p.t[i]); }); join_all_clients(); check_no_leaks("at the end"); }
// list
struct It { int id; int freed; };
struct LW { list_t* l; std::vector<It*> m; std::vector<It*> all; };
thread_local int dummy;
void l_free(void* d) { It* x = (It*)d; x->freed++; yield(); }
struct LF { LW* w; size_t i; int stop; int drop; int addn; };
bool l_iter(void* d, void* c) {
  LF* f = (LF*)c; SIM_CHECK(f->i < f->w->m.size(), "foreach", "more elements are visited than the list has"); SIM_CHECK(d == f->w->m[f->i], "foreach", "element %zu is visited out of order", f->i);
  f->i++;
  if (f->drop >= 0 && (int)f->i == f->drop) { It* x = f->w->m[f->i - 1]; size_t cnt = (size_t)std::count(f->w->m.begin(), f->w->m.end(), x); if (cnt == 1 && f->stop != (int)f->i) { SIM_CHECK(list_remove(f->w->l, x), "remove", "an element cannot be removed while it is visited"); f->w->m.erase(f->w->m.begin() + (long)f->i - 1); f->i--; f->drop = -1; } }
  return (int)f->i != f->stop || f->stop <= 0;
}
// ops: 0 append, 1 prepend, 2 insert_after, 3 remove, 4 clear, 5 foreach, 6 queries, 7 append an element again
void li_gen(Rng& r, Plan& p, RunCfg& c) {
  c.reuse = r.chance(1, 2); c.max_steps = 800000; int nc = r.chance(1, 6) ? 2 : 1; p.p = {r.chance(1, 2)}; p.t.resize((size_t)nc);
  static const int w[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 5, 5, 6, 7, 4};
  for (auto& t : p.t) { int n = (int)r.range(1, 30); for (int i = 0; i < n; i++) t.push_back({w[r.below(r.chance(1, 3) ? 15 : 14)], r.range(0, 12), r.range(0, 5), r.chance(1, 5) ? 1 : 0}); }
  draw_fault(r, p, F_MALLOC, 20, 1, 1);
}
void li_ok(LW& w, const char* when) {
  SIM_CHECK(list_length(w.l) == w.m.size() && list_is_empty(w.l) == w.m.empty(), "length", "%s: the length is %zu, it should be %zu", when, list_length(w.l), w.m.size());
  size_t i = 0; for (list_node_t* n = list_begin(w.l); n != list_end(w.l); n = list_next(n), i++) { SIM_CHECK(i < w.m.size(), "content", "%s: the list has more elements than its length", when); SIM_CHECK(list_node(n) == w.m[i], "content", "%s: element %zu is wrong", when, i); }
  SIM_CHECK(i == w.m.size(), "content", "%s: the list ends after %zu of %zu elements", when, i, w.m.size());
  SIM_CHECK(list_front(w.l) == (w.m.empty() ? nullptr : w.m.front()) && list_back(w.l) == (w.m.empty() ? nullptr : w.m.back()), "content", "%s: front or back is wrong", when);
  if (!w.m.empty()) SIM_CHECK(list_node(list_back_node(w.l)) == w.m.back(), "content", "%s: the back node is wrong", when); else SIM_CHECK(!list_back_node(w.l), "content", "%s: an empty list has a back node", when);
}
void li_client(const Plan& p, const std::vector<Op>& ops) {
  LW w; bool fr = P(p, 0); uint64_t g0 = fault_fired(F_MALLOC); w.l = list_new(fr ? l_free : nullptr); std::vector<int> gone;
  if (!w.l) { SIM_CHECK(fault_fired(F_MALLOC) != g0, "create", "create failed although memory was available"); return; }
  auto fresh = [&] { It* x = (It*)halloc(sizeof(It)); *x = {(int)w.all.size(), 0}; w.all.push_back(x); gone.push_back(0); return x; };
  auto drop = [&](It* x) { gone[(size_t)x->id]++; };
  for (auto& o : ops) {
    Fx fx(o); size_t at = w.m.empty() ? 0 : (size_t)(o.a < 0 ? 0 : o.a) % w.m.size();
    switch (o.k) {
      case 0: case 1: case 2: case 7: {
        if (o.k == 2 && w.m.empty()) break;
        It* x = o.k == 7 && !w.m.empty() ? w.m[at] : fresh(); bool rc; size_t pos;
        if (o.k == 1) { rc = list_prepend(w.l, x); pos = 0; }
        else if (o.k == 2) { list_node_t* n = list_begin(w.l); for (size_t i = 0; i < at; i++) n = list_next(n); rc = list_insert_after(w.l, n, x); pos = at + 1; }
        else { rc = list_append(w.l, x); pos = w.m.size(); }
        bool f = fx.done(); if (rc) w.m.insert(w.m.begin() + (long)pos, x); else SIM_CHECK(f, "insert", "an insertion failed although memory was available");
        SIM_CHECK(x->freed == gone[(size_t)x->id] * fr, "free", "an insertion freed its element");
        break;
      }
      case 3: {
        if (o.b == 0 || w.m.empty()) { It* x = fresh(); SIM_CHECK(!list_remove(w.l, x), "remove", "an element that is not in the list was removed"); break; }
        It* x = w.m[at]; SIM_CHECK(list_remove(w.l, x), "remove", "a present element was not removed"); w.m.erase(std::find(w.m.begin(), w.m.end(), x)); drop(x); break;
      }
      case 4: list_clear(w.l); for (It* x : w.m) drop(x); w.m.clear(); break;
      case 5: {
        LF f = {&w, 0, (int)(o.b == 0 ? 0 : o.a + 1), o.b >= 3 ? (int)at + 1 : -1, 0}; std::vector<It*> before = w.m; list_node_t* n = list_foreach(w.l, l_iter, &f);
        for (It* x : before) if (std::count(before.begin(), before.end(), x) != std::count(w.m.begin(), w.m.end(), x)) { drop(x); break; }
        if (f.stop > 0 && f.i == (size_t)f.stop && f.drop == -1 && before.size() == w.m.size()) { SIM_CHECK(n && list_node(n) == w.m[f.i - 1], "foreach", "foreach does not return the element it stopped at"); }
        else if (f.stop <= 0) SIM_CHECK(!n && f.i == w.m.size(), "foreach", "a full iteration visited %zu of %zu elements", f.i, w.m.size());
        break;
      }
      default: {
        It* x = (It*)halloc(sizeof(It)); SIM_CHECK(!list_contains(w.l, x), "contains", "an element that is not in the list is found"); hfree(x); for (It* y : w.m) SIM_CHECK(list_contains(w.l, y), "contains", "an element of the list is not found");
        SIM_CHECK(!list_append(w.l, nullptr) && !list_prepend(w.l, nullptr) && !list_insert_after(w.l, nullptr, &w) && !list_remove(w.l, nullptr) && !list_append(nullptr, &w) && !list_remove(nullptr, &w) && !list_foreach(nullptr, l_iter, nullptr) && !list_front(nullptr) && list_length(nullptr) == 0, "invalid", "an invalid call succeeded");
      }
    }
    fx.done();
    li_ok(w, o.k == 5 ? "after an iteration" : o.k == 3 ? "after a remove" : "after an operation");
    for (It* x : w.all) SIM_CHECK(x->freed == (fr ? gone[(size_t)x->id] : 0), "free", "an element removed %d times was freed %d times", gone[(size_t)x->id], x->freed);
  }
  for (It* x : w.m) drop(x);
  list_free(w.l); list_free(nullptr);
  for (It* x : w.all) SIM_CHECK(x->freed == (fr ? gone[(size_t)x->id] : 0), "free", "after list_free an element removed %d times was freed %d times", gone[(size_t)x->id], x->freed);
}
void li_run(const Plan& p) { for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { li_client(p, p.t[i]); }); join_all_clients(); check_no_leaks("at the end"); }
// ================================================================== scale: more entries than any narrow counter holds
// p: entries, hash, who frees, capacity, seed
void d1b_gen(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 80000000; int64_t n = r.chance(1, 4) ? r.range(65530, 66500) : r.range(250, 3000);
  p.p = {n, n > 4000 ? r.pick({0, 3}) : r.pick({0, 2, 3, 0}), r.range(0, 3), r.pick({0, 1, 16, 300, 70000}), (int64_t)r.below(1u << 30)};
  if (p.p[1] == 2) p.p[0] = r.range(250, 700);
}
bool b_eq(const void* a, const void* b) { const K *x = (const K*)a, *y = (const K*)b; SIM_CHECK(!x->freed && !y->freed, "freed-key", "a freed key was compared"); return x->k == y->k; }
struct BIter { std::vector<uint8_t> seen; size_t n = 0; int64_t stop = 0; const std::vector<int>* cur; };
bool b_iter(void* k, void* v, void* c) {
  BIter* it = (BIter*)c; K* x = (K*)k; Vl* y = (Vl*)v; SIM_CHECK(!x->freed && !y->freed, "freed-entry", "the iteration visits a freed entry");
  SIM_CHECK(!it->seen[(size_t)x->k], "foreach", "key %d was visited twice", x->k); it->seen[(size_t)x->k] = 1; it->n++;
  SIM_CHECK((*it->cur)[(size_t)x->k] == y->id, "foreach", "key %d is visited with value %d, it has %d", x->k, y->id, (*it->cur)[(size_t)x->k]);
  return !(it->stop > 0 && (int64_t)it->n >= it->stop);
}
void d1b_run(const Plan& p) {
  World1 w; W = &w; w.hashmode = (int)P(p, 1); w.kfrees = P(p, 2) & 1; w.vfrees = P(p, 2) & 2; size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 0), 1), 80000); Rng r((uint64_t)P(p, 4)); if (n > 1000 && w.hashmode != 0 && w.hashmode != 3) w.hashmode = 0;
  w.m = hashmap_create((size_t)std::min<int64_t>(std::max<int64_t>(P(p, 3), 0), 100000), h_hash, w.kfrees ? h_kfree : nullptr, w.vfrees ? h_vfree : nullptr, b_eq, nullptr);
  SIM_CHECK(w.m, "create", "create failed although memory was available");
  std::vector<int> cur(n, -1), kid(n, -1); size_t live = 0; K probe = {0, 0, -1};
  auto look = [&](const char* when) {
    SIM_CHECK(hashmap_size(w.m) == live, "size", "%s: hashmap_size is %zu, it should be %zu", when, hashmap_size(w.m), live);
    BIter it; it.seen.resize(n); it.cur = &cur; hashmap_foreach(w.m, b_iter, &it); SIM_CHECK(it.n == live, "foreach", "%s: %zu of %zu entries were visited", when, it.n, live);
    if (live) { BIter i2; i2.seen.resize(n); i2.cur = &cur; i2.stop = r.range(1, (int64_t)live); hashmap_foreach(w.m, b_iter, &i2); SIM_CHECK((int64_t)i2.n == i2.stop, "foreach", "%s: %zu entries were visited, the callback asked to stop at %lld", when, i2.n, (long long)i2.stop); }
    for (size_t i = 0; i < n; i++) { probe.k = (int)i; Vl* v = (Vl*)hashmap_get(w.m, &probe); SIM_CHECK(v ? v->id == cur[i] : cur[i] < 0, "get", "%s: key %zu gives %d, it should be %d", when, i, v ? v->id : -1, cur[i]); }
  };
  for (int round = 0; round < 2; round++) {
    for (size_t i = 0; i < n; i++) { K* k = newk((int)i); Vl* v = newv(); int old = cur[i]; void* q = hashmap_put(w.m, k, v); SIM_CHECK(q ? ((Vl*)q)->id == old : old < 0, "put", "putting key %zu returned %d, it should return %d", i, q ? ((Vl*)q)->id : -1, old); if (old < 0) { live++; kid[i] = k->id; } cur[i] = v->id; }
    look(round ? "after filling it again" : "after filling it");
    for (size_t i = 0; i < n; i++) if (r.chance(1, 2)) { probe.k = (int)i; Vl* v = (Vl*)hashmap_remove(w.m, &probe); SIM_CHECK(v && v->id == cur[i], "remove", "removing key %zu returned %d, it should return %d", i, v ? v->id : -1, cur[i]); cur[i] = kid[i] = -1; live--; }
    look("after removing half of it");
    if (round == 0 && r.chance(1, 2)) { hashmap_clear(w.m); std::fill(cur.begin(), cur.end(), -1); std::fill(kid.begin(), kid.end(), -1); live = 0; look("after clearing it"); }
  }
  for (size_t i = 0; i < n; i++) if (cur[i] >= 0) SIM_CHECK(!w.keys[(size_t)kid[i]]->freed && !w.vals[(size_t)cur[i]]->freed, "free", "an entry still in the map was freed");
  hashmap_free(w.m);
  for (auto& v : w.vals) SIM_CHECK(v->freed == w.vfrees, "free", "a stored value is freed %d times", v->freed);
  check_no_leaks("at the end");
}
// p: pairs, length of the values, delimiter, seed
void d2b_gen(Rng& r, Plan& p, RunCfg& c) { c.max_steps = 8000000; bool wide = r.chance(1, 3); p.p = {wide ? r.range(1, 4) : r.chance(1, 4) ? r.range(1000, 1400) : r.range(250, 700), wide ? r.range(65520, 70000) : r.range(0, 60), r.range(0, 4), (int64_t)r.below(1u << 30)}; }
void d2b_run(const Plan& p) {
  const char* dl = kDelim[(size_t)(P(p, 2) < 0 ? 0 : P(p, 2)) % 5]; char d = dl ? dl[0] : ';'; int64_t n = std::min<int64_t>(std::max<int64_t>(P(p, 0), 1), 1500); size_t vl = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 1), 0), n > 10 ? 100 : 80000); Rng r((uint64_t)P(p, 3));
  PV m; auto val = [&](int64_t i) { std::string v = std::to_string(i); while (v.size() < vl) v += (char)('a' + (v.size() + (size_t)i) % 26); return v; };
  str_params_ptr sp = str_params_create(dl); SIM_CHECK(sp, "create", "create failed although memory was available");
  for (int64_t i = 0; i < n; i++) { std::string k = pkey(i), v = val(i); int rc = str_params_add_str(sp, k.c_str(), v.c_str()); SIM_CHECK(rc == 0, "add", "adding a value of %zu characters failed (%d)", v.size(), rc); m.push_back({k, v}); }
  holds(sp, m, n, "after many adds");
  for (int64_t i = n / 3; i > 0; i--) { size_t at = r.below((uint32_t)m.size()); if (r.chance(1, 2) && m.size() > 1) { str_params_del(sp, m[at].first.c_str()); m.erase(m.begin() + (long)at); } else { m[at].second = val(i + 5); SIM_CHECK(str_params_add_str(sp, m[at].first.c_str(), m[at].second.c_str()) == 0, "add", "replacing a value failed"); } }
  holds(sp, m, n, "after changes");
  char* t = str_params_to_str(sp); SIM_CHECK(t, "to_str", "to_str failed although memory was available"); SIM_CHECK(same_pairs(parse_params(t, d), m), "to_str", "the text holds other pairs than the object");
  str_params_ptr q = str_params_create_str(dl, t); SIM_CHECK(q, "to_str", "the text cannot be parsed"); holds(q, m, n, "after parsing the text of to_str");
  str_params_destroy(q); lib_free(t); str_params_destroy(sp); check_no_leaks("at the end");
}
// p: what (0 text, 1 array, 2 list), size, element size or piece, seed
void d3b_gen(Rng& r, Plan& p, RunCfg& c) { c.max_steps = 8000000; p.p = {r.range(0, 2), r.chance(1, 2) ? r.chance(1, 2) ? 90000 : r.range(65530, 66500) : r.range(300, 20000), r.range(0, 5), (int64_t)r.below(1u << 30)}; }
void d3b_run(const Plan& p) {
  size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 1), 1), 140000); Rng r((uint64_t)P(p, 3));
  if (P(p, 0) == 0) {
    stringbuilder_t* sb = stringbuilder_create(P(p, 2) & 1 ? 2 : 0); std::string m, big(70000, 'b'); for (size_t i = 0; i < big.size(); i++) big[i] = (char)('a' + i % 23);
    auto ok = [&] { SIM_CHECK(stringbuilder_len(sb) == m.size() && !memcmp(stringbuilder_to_string(sb), m.c_str(), m.size() + 1), "content", "after %zu bytes the length is %zu or the text differs", m.size(), stringbuilder_len(sb)); };
    for (int round = 0; round < 2; round++) {
      while (m.size() < n) {
        int rc; char b[40];
        switch (r.below(P(p, 2) > 3 ? 6 : 4)) { case 0: m += 'c'; rc = stringbuilder_appendchar(sb, 'c'); break; case 1: { size_t l = r.below(r.chance(1, 6) ? 20000 : 300) + 1; m.append(big, 0, l); rc = stringbuilder_appendnstr(sb, big.c_str(), l); break; } case 2: { snprintf(b, sizeof b, "<%zu>", m.size()); m += b; rc = stringbuilder_appendstr(sb, b); break; } case 3: { snprintf(b, sizeof b, "[%zu]", m.size()); rc = stringbuilder_appendf(sb, "[%zu]", m.size()); m += b; break; }
          case 4: rc = stringbuilder_appendf(sb, "%s!", big.c_str()); m += big + "!"; break; default: rc = stringbuilder_appendstr(sb, big.c_str()); m += big; }
        SIM_CHECK(rc == 0, "append", "an append at %zu bytes failed (%d)", m.size(), rc);
      }
      ok(); if (!round) { stringbuilder_clear(sb); m.clear(); ok(); }
    }
    stringbuilder_destroy(&sb);
  } else if (P(p, 0) == 1) {
    size_t es = (size_t)std::vector<int>{1, 2, 3, 4, 70000, 40}[(size_t)(P(p, 2) < 0 ? 0 : P(p, 2)) % 6]; if (es > 40) n = n % 60 + 1; array_t* a = array_new(es); std::string m;
    for (size_t i = 0; i < n; i++) { std::string eb(es, 0); char* e = &eb[0]; for (size_t j = 0; j < es; j++) e[j] = (char)pat(i * 7 + 1, j); SIM_CHECK(array_append_ptr(a, e), "append", "append number %zu failed although memory was available", i); m.append(e, es); SIM_CHECK(array_length(a) == i + 1, "length", "the length is %zu, it should be %zu", array_length(a), i + 1); }
    SIM_CHECK(!memcmp(array_ptr(a), m.data(), m.size()), "content", "the elements differ");
    for (size_t i = 0; i < n; i++) SIM_CHECK(array_at(a, i) == (char*)array_ptr(a) + i * es, "content", "element %zu is not at its place", i);
    array_free(a);
  } else {
    std::vector<It> it(n); list_t* l = list_new(l_free); std::vector<size_t> m; n = std::min<size_t>(n, 70000);
    for (size_t i = 0; i < n; i++) SIM_CHECK(list_append(l, &it[i]), "insert", "an insertion failed although memory was available");
    SIM_CHECK(list_length(l) == n, "length", "the length is %zu, it should be %zu", list_length(l), n);
    size_t gone = r.below((uint32_t)n / 2 + 1) % 2000; for (size_t i = 0; i < gone; i++) SIM_CHECK(list_remove(l, &it[i]), "remove", "a present element was not removed");
    SIM_CHECK(list_contains(l, &it[n - 1]) == (gone < n) && list_length(l) == n - gone, "length", "the length is %zu, it should be %zu", list_length(l), n - gone);
    size_t i = gone; for (list_node_t* x = list_begin(l); x != list_end(l); x = list_next(x), i++) SIM_CHECK(i < n && list_node(x) == &it[i], "content", "element %zu is wrong", i);
    SIM_CHECK(i == n && (gone == n || list_back(l) == &it[n - 1]), "content", "the list ends after %zu of %zu elements", i - gone, n - gone);
    bool clear = P(p, 2) & 1; if (clear) { list_clear(l); SIM_CHECK(list_length(l) == 0 && list_is_empty(l), "clear", "a cleared list has %zu elements", list_length(l)); SIM_CHECK(list_append(l, &it[0]) && list_length(l) == 1, "insert", "appending to a cleared list failed"); }
    list_free(l); for (size_t j = 0; j < n; j++) SIM_CHECK(it[j].freed == 1 + (clear && j == 0), "free", "element %zu was freed %d times", j, it[j].freed);
  }
  check_no_leaks("at the end");
}
const char* kStub = "memory and its failures are simulated; callers run as simulator threads; the lock given to the hashmap is a simulated mutex";
Reg r1({"D01", {{"map", d1_gen, d1_run}, {"scale", d1b_gen, d1b_run, 64}}, "src/data/hashmap.c (real, instrumented)", kStub});
Reg r2({"D02", {{"params", d2_gen, d2_run}, {"scale", d2b_gen, d2b_run, 32}}, "src/mem/str_params.c, src/data/hashmap.c, src/mem/strings.c, src/log/xlog.c (real, instrumented)", kStub});
Reg r3({"D03", {{"stringbuilder", sb_gen, sb_run}, {"array", ar_gen, ar_run}, {"list", li_gen, li_run}, {"impossible", imp_gen, imp_run, 16}, {"scale", d3b_gen, d3b_run, 32}}, "src/mem/stringbuilder.c, src/data/array.c, src/data/list.c, src/mem/allocator.c (real, instrumented)", kStub});
}  // namespace
