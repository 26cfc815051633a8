// G04: objects are independent of each other. Every client owns a few objects and uses
// them in turn, among them several of one kind; each object is compared with a reference
// model of its own. State that objects share without saying so shows as wrong results.
#include "common.h"
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <ctime>
extern "C" {
#include "lcu.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "thread/thpool.h"
#include "thread/portable_thread.h"
#include "data/hashmap.h"
#include "data/list.h"
#include "data/array.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "mem/strings.h"
#include "mem/mplite.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "log/file_logger.h"
#include "time/time_util.h"
}
namespace {
typedef unsigned long long ull;
struct R8 { uint64_t s; uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; } uint64_t below(uint64_t n) { return next() % n; } };
struct Obj { int id = 0; virtual ~Obj() {} virtual void step(R8& r) = 0; virtual void fin() = 0; };
std::string text(R8& r, size_t max, char from = 'a') { std::string s; size_t n = 1 + r.below(max); for (size_t i = 0; i < n; i++) s += (char)(from + r.below(26)); return s; }

struct Bytes : Obj {             // byte rings: both kinds
  bool two; ring_buffer_handle h = nullptr; ring_handle h2 = nullptr; std::deque<uint8_t> q; size_t cap; uint64_t n = 0;
  Bytes(bool t, R8& r) : two(t) {
    size_t sz = 5 + r.below(60);
    if (two) { h2 = ring_buf_create(sz); SIM_CHECK(h2, "create", "ring_buf_create failed"); cap = ring_buf_available_write(h2); }
    else { h = RingBuffer_create((uint32_t)sz); SIM_CHECK(h, "create", "RingBuffer_create failed"); cap = RingBuffer_real_capacity(h); }
    SIM_CHECK(cap >= sz - 1, "capacity", "a ring of %zu bytes holds %zu", sz, cap);
  }
  void step(R8& r) override {
    uint8_t b[80]; size_t len = 1 + r.below(40), got, want; int k = (int)r.below(5);
    if (k < 2) {
      for (size_t i = 0; i < len; i++) b[i] = pat((uint64_t)id, n + i);
      want = two ? (len <= cap - q.size() ? len : 0) : std::min(len, cap - q.size());
      got = two ? ring_buf_write(h2, b, len) : RingBuffer_write(h, b, (uint32_t)len);
      SIM_CHECK(got == want, "write", "object %d: a write of %zu took %zu of %zu", id, len, got, want);
      for (size_t i = 0; i < got; i++) q.push_back(pat((uint64_t)id, n++));
      return;
    }
    want = two ? (len <= q.size() ? len : 0) : std::min(len, q.size());
    if (k == 4) got = two ? ring_buf_peek(h2, b, len) : RingBuffer_peek(h, b, (uint32_t)len); else got = two ? ring_buf_read(h2, b, len) : RingBuffer_read(h, b, (uint32_t)len);
    SIM_CHECK(got == want, "read", "object %d: a read of %zu gave %zu of %zu", id, len, got, want);
    for (size_t i = 0; i < got; i++) SIM_CHECK(b[i] == q[i], "data", "object %d: byte %zu of a read is %02x instead of %02x", id, i, b[i], q[i]);
    if (k != 4) q.erase(q.begin(), q.begin() + (long)got);
    got = two ? ring_buf_available_read(h2) : RingBuffer_available_read(h);
    SIM_CHECK(got == q.size(), "stored", "object %d: %zu bytes stored, %zu reported", id, q.size(), got);
  }
  void fin() override { if (two) ring_buf_destroy(&h2); else RingBuffer_destroy(&h); SIM_CHECK(!h && !h2, "destroy", "the handle was left"); }
};
struct Cover : Obj {
  auto_cover_buf_handle h; std::deque<uint8_t> q; uint64_t n = 0; size_t cap;
  explicit Cover(R8& r) { cap = 16u << r.below(3); h = auto_cover_buf_create((uint32_t)cap, nullptr); SIM_CHECK(h, "create", "auto_cover_buf_create failed"); }
  void step(R8& r) override {
    uint8_t b[80];
    if (q.empty() || r.below(2)) {
      size_t len = 1 + r.below(std::min<size_t>(cap, 60));
      for (size_t i = 0; i < len; i++) { b[i] = pat((uint64_t)id, n); q.push_back(pat((uint64_t)id, n++)); if (q.size() > cap) q.pop_front(); }
      SIM_CHECK(auto_cover_buf_write(h, b, (uint32_t)len) == (int)len, "write", "object %d: the write was not taken", id);
    } else {
      size_t back = 1 + r.below(q.size()), len = 1 + r.below(back), want = std::min<size_t>(len, 60);
      int got = auto_cover_buf_read(h, (uint32_t)(n - back), b, (uint32_t)want);
      SIM_CHECK(got == (int)want, "read", "object %d: a read of %zu gave %d", id, want, got);
      size_t at = q.size() - back;
      for (size_t i = 0; i < want; i++) SIM_CHECK(b[i] == q[at + i], "data", "object %d: byte %zu of a read is wrong", id, i);
      q.erase(q.begin(), q.begin() + (long)(at + want));
    }
  }
  void fin() override { auto_cover_buf_destroy(&h); }
};
struct Queue : Obj {
  bool fixed; msg_queue h = nullptr; fixed_msg_queue f = nullptr; size_t one = 0; std::deque<std::string> q;
  Queue(bool fx, R8& r) : fixed(fx) {
    if (fixed) { one = 1 + r.below(30); f = fixed_msg_queue_create((uint32_t)one, (uint32_t)(2 + r.below(6))); } else h = msg_queue_create((uint32_t)(160 + r.below(100)));   // the ring takes the power of two below that
    SIM_CHECK(f || h, "create", "the queue was not created");
  }
  void step(R8& r) override {
    char b[200]; bool was = q.empty(), ok;
    if (r.below(2)) {
      std::string s = fixed ? "" : text(r, 40); while (s.size() < one) s += (char)('a' + r.below(26));
      ok = fixed ? fixed_msg_queue_push(f, s.data()) : msg_queue_push(h, s.data(), (uint32_t)s.size()) == MSG_Q_CODE_SUCCESS;
      SIM_CHECK(ok || !was, "push", "object %d: a message was refused by an empty queue", id);
      if (ok) q.push_back(s);
    } else {
      uint32_t n = sizeof b; if (fixed) n = (uint32_t)one;
      ok = fixed ? fixed_msg_queue_pop(f, b) : msg_queue_pop(h, b, &n) == MSG_Q_CODE_SUCCESS;
      SIM_CHECK(ok == !was, "pop", "object %d: pop %s, %zu messages stored", id, ok ? "succeeded" : "failed", q.size());
      if (ok) { SIM_CHECK(q.front() == std::string(b, n), "data", "object %d: popped %s instead of %s", id, hex(std::string(b, n)).c_str(), hex(q.front()).c_str()); q.pop_front(); }
    }
  }
  void fin() override { if (fixed) fixed_msg_queue_destroy(&f); else msg_queue_destroy(&h); }
};
struct Handler : Obj {
  bool fixed; msg_queue_handler h = nullptr; fixed_msg_queue_handler f = nullptr; std::deque<std::string> q; int thread = -1, ready = 0, stop = 0; size_t handled = 0, pushed = 0;
  static void take(Handler* x, const std::string& s, int what) {
    SIM_CHECK(x->ready == 1 && x->stop == 0, "status", "object %d: a message outside of the handler's life", x->id);
    if (x->thread < 0) x->thread = self();
    SIM_CHECK(self() == x->thread, "thread", "object %d: handled on two threads", x->id);
    SIM_CHECK(!x->q.empty() && x->q.front() == s && what == (int)x->handled, "data", "object %d: handled %d %s, pushed was %zu %s", x->id, what, hex(s).c_str(), x->handled, x->q.empty() ? "nothing" : hex(x->q.front()).c_str());
    x->q.pop_front(); x->handled++;
  }
  static int on(queue_msg_t* m, void* u) { take((Handler*)u, std::string(m->obj, (size_t)m->obj_len), m->what); return 0; }
  static int onf(fixed_msg_t* m, void* u) { take((Handler*)u, std::string(m->obj.data, (size_t)m->obj.data_len), m->what); return 0; }
  static void status(msg_q_handler_status_e s, void* u) { Handler* x = (Handler*)u; if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) x->ready++; else x->stop++; }
  explicit Handler(bool fx) : fixed(fx) {
    msg_queue_handler_init_param_t p = {this, on, status}; fixed_msg_queue_handler_init_param_t pf = {this, onf, status};
    if (fixed) f = fixed_msg_queue_handler_create(4, &pf); else h = msg_queue_handler_create(9000, &p);
    SIM_CHECK(f || h, "create", "the handler was not created");
  }
  void step(R8& r) override {
    std::string s = text(r, r.below(12) == 0 && !fixed ? 4600 : 24); if (fixed && s.size() > MSG_OBJ_MAX_CAPACITY) s.resize(MSG_OBJ_MAX_CAPACITY);
    msg_q_code_e c;
    q.push_back(s);              // it may be handled before the push returns
    if (fixed) { fixed_msg_t m; memset(&m, 0, sizeof m); m.what = (int)pushed; m.obj.data_len = (int)s.size(); memcpy(m.obj.data, s.data(), s.size()); c = fixed_msg_queue_handler_push(f, &m); }
    else { std::vector<char> v(sizeof(queue_msg_t) + s.size()); queue_msg_t* m = (queue_msg_t*)v.data(); m->what = (int)pushed; m->arg1 = m->arg2 = 0; m->obj_len = (int)s.size(); memcpy(m->obj, s.data(), s.size()); c = msg_queue_handler_push(h, m); }
    if (c == MSG_Q_CODE_SUCCESS) pushed++; else { SIM_CHECK(handled < pushed || q.size() == 1, "refused", "object %d: refused with code %d", id, (int)c); q.pop_back(); }
  }
  void fin() override {
    SIM_CHECK(wait_until([this] { return handled == pushed; }, 300000), "stuck", "object %d: %zu of %zu messages handled", id, handled, pushed);
    if (fixed) fixed_msg_queue_handler_destroy(&f); else msg_queue_handler_destroy(&h);
    SIM_CHECK(ready == 1 && stop == 1, "status", "object %d: READY %d times, ABOUT_TO_STOP %d times", id, ready, stop);
  }
};
struct Pool : Obj {
  threadpool h; int n, at = 0, added = 0, done = 0; struct Job { Pool* p; int no; int runs; }; std::deque<Job> jobs;
  explicit Pool(R8& r) { n = 1 + (int)r.below(3); h = thpool_init(n); SIM_CHECK(h, "create", "thpool_init failed"); }
  static void job(void* a) {
    Job* j = (Job*)a; Pool* p = j->p;
    SIM_CHECK(j->runs++ == 0, "twice", "object %d: job %d ran twice", p->id, j->no);
    SIM_CHECK(++p->at <= p->n, "workers", "object %d: more jobs at once than workers", p->id);
    if (p->n == 1) SIM_CHECK(j->no == p->done, "order", "object %d: job %d ran, %d was next", p->id, j->no, p->done);
    yield(); p->at--; p->done++;
  }
  void step(R8& r) override {
    if (r.below(4) == 0) { thpool_wait(h); SIM_CHECK(done == added, "wait", "object %d: %d of %d jobs are done after the wait", id, done, added); return; }
    jobs.push_back({this, added++, 0}); SIM_CHECK(thpool_add_work(h, job, &jobs.back()) == 0, "add", "a job was refused");
  }
  void fin() override { thpool_wait(h); SIM_CHECK(done == added, "wait", "object %d: %d of %d jobs are done after the wait", id, done, added); thpool_destroy(h); }
};
struct Thread : Obj {
  static void* fn(void* a) { return (char*)a + 1; }
  portable_sem_t sem; portable_mutex_t mx; portable_rwlock_t rw; int v;
  explicit Thread(R8& r) { v = (int)r.below(3); SIM_CHECK(portable_sem_init(&sem, 0, (unsigned)v) == 0 && portable_mutex_init(&mx, nullptr) == 0 && portable_rwlock_init(&rw, nullptr) == 0, "create", "init failed"); }
  void step(R8& r) override {
    switch (r.below(4)) {
      case 0: { portable_thread_t t; void* ret = nullptr; SIM_CHECK(portable_thread_create(&t, nullptr, fn, this) == 0 && portable_thread_join(t, &ret) == 0 && ret == (char*)this + 1, "thread", "object %d: wrong result of a thread", id); break; }
      case 1: SIM_CHECK(portable_sem_post(&sem) == 0, "sem", "post failed"); v++; break;
      case 2: if (v > 0) { SIM_CHECK(portable_sem_wait(&sem) == 0, "sem", "wait failed"); v--; } break;
      default: SIM_CHECK(portable_mutex_lock(&mx) == 0 && portable_rwlock_wrlock(&rw) == 0, "lock", "object %d: lock failed", id); yield(); SIM_CHECK(portable_rwlock_unlock(&rw) == 0 && portable_mutex_unlock(&mx) == 0, "lock", "object %d: unlock failed", id);
    }
  }
  void fin() override { while (v > 0) { portable_sem_wait(&sem); v--; } SIM_CHECK(portable_sem_destroy(&sem) == 0 && portable_mutex_destroy(&mx) == 0 && portable_rwlock_destroy(&rw) == 0, "destroy", "destroy failed"); }
};
struct Map : Obj {
  hashmap_t* h; std::map<intptr_t, intptr_t> m;
  static int hash(const void* k) { return (int)(intptr_t)k; }
  static bool eq(const void* a, const void* b) { return a == b; }
  static bool each(void* k, void* v, void* c) { (*(std::map<intptr_t, intptr_t>*)c)[(intptr_t)k] = (intptr_t)v; return true; }
  explicit Map(R8& r) { h = hashmap_create(r.below(8), hash, nullptr, nullptr, eq, nullptr); SIM_CHECK(h, "create", "hashmap_create failed"); }
  void step(R8& r) override {
    intptr_t k = (intptr_t)r.below(40) + 1, v = (intptr_t)r.below(1000) + 1; auto i = m.find(k);
    switch (r.below(6)) {
      case 0: { intptr_t g = (intptr_t)hashmap_remove(h, (void*)k); SIM_CHECK(g == (i == m.end() ? 0 : i->second), "remove", "object %d: removed %ld", id, (long)g); m.erase(k); break; }
      case 1: { std::map<intptr_t, intptr_t> g; hashmap_foreach(h, each, &g); SIM_CHECK(g == m, "content", "object %d: wrong content", id); break; }
      case 2: { intptr_t g = (intptr_t)hashmap_get(h, (void*)k); SIM_CHECK(g == (i == m.end() ? 0 : i->second), "get", "object %d: got %ld", id, (long)g); break; }
      default: { intptr_t g = (intptr_t)hashmap_put(h, (void*)k, (void*)v); SIM_CHECK(g == (i == m.end() ? 0 : i->second), "put", "object %d: put gave %ld", id, (long)g); m[k] = v; }
    }
    SIM_CHECK(hashmap_size(h) == m.size(), "size", "object %d: wrong size", id);
  }
  void fin() override { hashmap_free(h); }
};
struct Seq : Obj {               // list and array
  list_t* l = nullptr; array_t* a = nullptr; std::deque<intptr_t> q;
  static bool each(void* d, void* c) { ((std::deque<intptr_t>*)c)->push_back((intptr_t)d); return true; }
  Seq(bool list) { if (list) l = list_new(nullptr); else a = array_new(sizeof(uint32_t)); SIM_CHECK(l || a, "create", "creation failed"); }
  void step(R8& r) override {
    intptr_t v = (intptr_t)r.below(100000) + 1;
    if (a) {
      SIM_CHECK(array_append_value(a, (uint32_t)v), "append", "append failed"); q.push_back(v);
      size_t i = r.below(q.size()); SIM_CHECK(array_length(a) == q.size() && *(uint32_t*)array_at(a, i) == (uint32_t)q[i], "content", "object %d: element %zu of %zu is wrong", id, i, q.size());
      return;
    }
    switch (r.below(4)) {
      case 0: SIM_CHECK(list_prepend(l, (void*)v), "prepend", "prepend failed"); q.push_front(v); break;
      case 1: if (!q.empty()) { v = q[r.below(q.size())]; SIM_CHECK(list_remove(l, (void*)v), "remove", "object %d: remove failed", id); q.erase(std::find(q.begin(), q.end(), v)); break; }
              // fall through
      default: SIM_CHECK(list_append(l, (void*)v), "append", "append failed"); q.push_back(v);
    }
    std::deque<intptr_t> g; list_foreach(l, each, &g);
    SIM_CHECK(g == q && list_length(l) == q.size(), "content", "object %d: wrong content", id);
  }
  void fin() override { if (l) list_free(l); else array_free(a); }
};
struct Builder : Obj {
  stringbuilder_t* h; std::string s;
  explicit Builder(R8& r) { h = stringbuilder_create(1 + r.below(30)); SIM_CHECK(h, "create", "stringbuilder_create failed"); }
  void step(R8& r) override {
    std::string t = text(r, 30); int rc = 0, v = (int)r.below(100000);
    switch (r.below(5)) {
      case 0: rc = stringbuilder_appendchar(h, t[0]); s += t[0]; break;
      case 1: rc = stringbuilder_appendf(h, "<%d|%s>", v, t.c_str()); s += "<" + std::to_string(v) + "|" + t + ">"; break;
      case 2: rc = stringbuilder_appendnstr(h, t.c_str(), (t.size() + 1) / 2); s += t.substr(0, (t.size() + 1) / 2); break;
      case 3: if (s.size() > 150) { rc = stringbuilder_clear(h); s.clear(); break; }
              // fall through
      default: rc = stringbuilder_appendstr(h, t.c_str()); s += t;
    }
    SIM_CHECK(rc >= 0 && s == stringbuilder_to_string(h) && stringbuilder_len(h) == s.size(), "content", "object %d: \"%s\" instead of \"%s\" (%d)", id, stringbuilder_to_string(h), s.c_str(), rc);
  }
  void fin() override { stringbuilder_destroy(&h); }
};
struct Params : Obj {
  str_params_ptr h; std::map<std::string, std::string> m;
  Params() { h = str_params_create(";"); SIM_CHECK(h, "create", "str_params_create failed"); }
  void check(str_params_ptr x) { for (auto& e : m) { char b[64]; int rc = str_params_get_str(x, e.first.c_str(), b, sizeof b); SIM_CHECK(rc >= 0 && e.second == b, "content", "object %d: %s is \"%s\" instead of \"%s\" (%d)", id, e.first.c_str(), rc >= 0 ? b : "?", e.second.c_str(), rc); } }
  void step(R8& r) override {
    std::string k = "k" + std::to_string(r.below(12)), v = text(r, 20);
    switch (r.below(5)) {
      case 4: {
        int n = (int)r.below(2000000) - 1000000, g = 0; float x = (float)n / 4, y = 0; bool f = r.below(2); char b[32];
        SIM_CHECK((f ? str_params_add_float(h, k.c_str(), x) : str_params_add_int(h, k.c_str(), n)) >= 0, "add", "add failed");
        if (f) SIM_CHECK(str_params_get_float(h, k.c_str(), &y) >= 0 && x == y, "content", "object %d: %s is %f instead of %f", id, k.c_str(), y, x);
        else SIM_CHECK(str_params_get_int(h, k.c_str(), &g) >= 0 && g == n, "content", "object %d: %s is %d instead of %d", id, k.c_str(), g, n);
        if (f) { str_params_del(h, k.c_str()); m.erase(k); } else { snprintf(b, sizeof b, "%d", n); m[k] = b; }
        break;
      }
      case 0: str_params_del(h, k.c_str()); m.erase(k); break;
      case 1: { char* t = str_params_to_str(h); SIM_CHECK(t, "text", "no text"); str_params_ptr x = str_params_create_str(";", t); if (!m.empty()) { SIM_CHECK(x, "parse", "object %d: \"%s\" was not parsed", id, t); check(x); } if (x) str_params_destroy(x); lib_free(t); break; }
      default: SIM_CHECK(str_params_add_str(h, k.c_str(), v.c_str()) >= 0, "add", "add failed"); m[k] = v;
    }
    SIM_CHECK(str_params_has_key(h, k.c_str()) == (m.count(k) != 0), "has", "object %d: has_key(%s) is wrong", id, k.c_str());
    check(h);
  }
  void fin() override { str_params_destroy(h); }
};
struct Ini : Obj {
  typedef std::map<std::string, std::string> M; ini_parser_handle h; M m;
  static int each(const char* s, const char* k, const char* v, const void* u) { (*(M*)u)[std::string(s) + "." + k] = v; return 0; }
  static int every(void* u, const char* s, const char* k, const char* v) { (*(M*)u)[std::string(s) + "." + k] = v; return 1; }
  Ini() { h = ini_parser_create(); SIM_CHECK(h, "create", "ini_parser_create failed"); }
  void step(R8& r) override {
    std::string s = "s" + std::to_string(r.below(4)), k = "k" + std::to_string(r.below(6)), f = s + "." + k; char b[64];
    switch (r.below(8)) {
      case 0: { ini_parser_code_e c = ini_parser_delete_by_section_key(h, s.c_str(), k.c_str()); SIM_CHECK((c == INI_PARSER_CODE_SUCCEED) == (m.erase(f) == 1), "delete", "object %d: delete of %s gave %d", id, f.c_str(), (int)c); break; }
      case 1: { ini_parser_code_e c = ini_parser_get_string(h, s.c_str(), k.c_str(), b, sizeof b); SIM_CHECK((c == INI_PARSER_CODE_SUCCEED) == (m.count(f) == 1), "get", "object %d: get of %s gave %d", id, f.c_str(), (int)c); if (c == INI_PARSER_CODE_SUCCEED) SIM_CHECK(m[f] == b, "content", "object %d: %s is \"%s\" instead of \"%s\"", id, f.c_str(), b, m[f].c_str()); break; }
      case 2: { M g; char* t = ini_parser_dump(h); if (!t) { SIM_CHECK(m.empty(), "dump", "no text"); break; } int rc = ini_reader_parse_string(t, every, &g); SIM_CHECK(rc == 0 && g == m, "dump", "object %d: the dump \"%s\" reads differently (%d)", id, t, rc); lib_free(t); break; }
      case 3: if (!m.empty()) { std::string p = "/tmp/twin" + std::to_string(id) + ".ini"; SIM_CHECK(ini_parser_save(h, p.c_str()) == INI_PARSER_CODE_SUCCEED, "save", "save failed"); ini_parser_handle x = ini_parser_parse_file(p.c_str()); SIM_CHECK(x, "load", "load failed"); M g; ini_parser_foreach(x, each, &g); SIM_CHECK(g == m, "save", "object %d: the saved file reads differently", id); ini_parser_destroy(&x); break; }
              // fall through
      default: { std::string v = text(r, 20); SIM_CHECK(ini_parser_put_string(h, s.c_str(), k.c_str(), v.c_str()) == INI_PARSER_CODE_SUCCEED, "put", "put failed"); m[f] = v; }
    }
    M g; ini_parser_foreach(h, each, &g); SIM_CHECK(g == m, "content", "object %d: wrong content, %zu entries instead of %zu", id, g.size(), m.size());
  }
  void fin() override { ini_parser_destroy(&h); }
};
struct Memory : Obj {
  mplite_t h; uint8_t* pool; struct B { uint8_t* p; int n; uint64_t tag; }; std::vector<B> v; uint64_t tag = 0;
  explicit Memory(R8& r) { int n = 1024 << r.below(2); pool = (uint8_t*)halloc((size_t)n); SIM_CHECK(mplite_init(&h, pool, n, 16, nullptr) == 0, "create", "mplite_init failed"); }
  void check(const B& b) { for (int i = 0; i < b.n; i++) SIM_CHECK(b.p[i] == pat(b.tag, (uint64_t)i), "content", "object %d: byte %d of a block changed", id, i); }
  void step(R8& r) override {
    if (!v.empty() && r.below(2)) { size_t i = r.below(v.size()); check(v[i]); mplite_free(&h, v[i].p); v.erase(v.begin() + (long)i); return; }
    int n = 1 + (int)r.below(100); B b = {(uint8_t*)mplite_malloc(&h, n), n, (uint64_t)id * 100000 + tag++}; if (!b.p) { SIM_CHECK(!v.empty(), "refused", "object %d: an empty pool refused %d bytes", id, n); return; }
    for (int i = 0; i < n; i++) b.p[i] = pat(b.tag, (uint64_t)i);
    v.push_back(b);
  }
  void fin() override { for (auto& b : v) { check(b); mplite_free(&h, b.p); } hfree(pool); }
};
struct Files : Obj {
  std::string dir; std::map<std::string, std::string> m; int made = 0;
  struct Seen { std::map<std::string, size_t> n; std::string dir; };
  static int each(file_info_t* f, void* u) {
    Seen* s = (Seen*)u; SIM_CHECK(f->type == FILE_ITERATOR_TYPE_FILE && s->dir == f->dir, "iterate", "%s of %s was reported as type %d of %s", f->name, s->dir.c_str(), f->type, f->dir);
    SIM_CHECK(s->n.emplace(f->name, (size_t)f->p_stat->st_size).second, "iterate", "%s was reported twice", f->name); return 0;
  }
  struct Lines { std::string s; int n = 0; int id; };
  static int line(int no, char* t, void* u) { Lines* l = (Lines*)u; SIM_CHECK(no == l->n, "line", "object %d: line %d came as number %d", l->id, l->n, no); l->n++; l->s += t; l->s += '\n'; return 0; }
  void step(R8& r) override {
    if (dir.empty()) { dir = "/tmp/own" + std::to_string(id) + "/a/b"; SIM_CHECK(file_util_mkdirs((dir + "/").c_str()) == 0 && fs::is_dir(dir), "mkdirs", "mkdirs failed"); }
    std::string n = "f" + std::to_string(r.below(5)), p = dir + "/" + n;
    switch (r.below(4)) {
      case 0: { std::string s; int k = (int)r.below(6); for (int i = 0; i <= k; i++) s += text(r, 30) + "\n"; fs::put(p, s); m[n] = s; break; }
      case 1: if (m.count(n)) { char* d = nullptr; int len = -1; SIM_CHECK(file_util_read_all(p.c_str(), &d, &len) == 0 && d && std::string(d, (size_t)len) == m[n], "read", "object %d: %s was read wrongly", id, n.c_str()); lib_free(d); } break;
      case 2: if (m.count(n)) { Lines l; l.id = id; file_util_read_txt(p.c_str(), line, &l); SIM_CHECK(l.s == m[n], "read", "object %d: the lines of %s were read wrongly", id, n.c_str()); } break;
      default: { Seen s; s.dir = dir; std::vector<char> d(dir.begin(), dir.end()); d.push_back(0); file_iterator_foreach(d.data(), each, &s); std::map<std::string, size_t> w; for (auto& e : m) w[e.first] = e.second.size(); SIM_CHECK(s.n == w, "iterate", "object %d: %zu entries reported, %zu are there", id, s.n.size(), w.size()); }
    }
  }
  void fin() override {}
};
struct Logger : Obj {
  file_logger_handle h; std::string dir; std::vector<std::string> m; int no = 0;
  Logger(int i, R8& r) {
    dir = "/tmp/log" + std::to_string(i) + "/"; file_logger_cfg c; memset(&c, 0, sizeof c);
    snprintf(c.log_folder_path, sizeof c.log_folder_path, "%s", dir.c_str()); snprintf(c.log_file_name_prefix, sizeof c.log_file_name_prefix, "p%d_", i);
    c.one_piece_file_max_len = r.below(3) ? 100 : 0; c.log_queue_size = 16;
    h = file_logger_init(&c); SIM_CHECK(h, "create", "file_logger_init failed");
  }
  void step(R8& r) override { std::string s = std::to_string(id) + ":" + std::to_string(no++) + ":" + text(r, 60); if (file_logger_log(h, (void*)s.data(), s.size()) == 0) m.push_back(s); else SIM_CHECK(no > 7, "refused", "object %d: a message was refused", id); }
  void fin() override {
    settle(3000000000ull); SIM_CHECK(file_logger_deinit(&h) == 0, "deinit", "deinit failed");
    std::string all, want; for (auto& s : m) want += s + "\n";
    if (fs::is_dir(dir.substr(0, dir.size() - 1))) for (auto& n : fs::list(dir)) { std::string d; fs::get(dir + n, d); SIM_CHECK(n.compare(0, 1, "p") == 0, "name", "object %d: unexpected file %s", id, n.c_str()); all += d; }
    SIM_CHECK(want.compare(0, all.size(), all) == 0, "content", "object %d: the log holds \"%s\", logged was \"%s\"", id, all.c_str(), want.c_str());
    SIM_CHECK(all == want, "content", "object %d: only %zu of %zu bytes were stored", id, all.size(), want.size());
  }
};
struct Text : Obj {              // functions on strings of the caller's own
  void step(R8& r) override {
    std::vector<std::string> w; std::string s; int n = 1 + (int)r.below(5); for (int i = 0; i < n; i++) { w.push_back(text(r, 8)); s += (i ? "," : "") + w.back(); }
    std::vector<char> b(s.begin(), s.end()); b.push_back(0);
    switch (r.below(3)) {
      case 0: { char* part[8]; size_t k = 8; strsplit(part, &k, b.data(), ","); SIM_CHECK(k == w.size(), "split", "object %d: \"%s\" split into %zu parts", id, s.c_str(), k); for (size_t i = 0; i < k; i++) SIM_CHECK(w[i] == part[i], "split", "object %d: part %zu is \"%s\" instead of \"%s\"", id, i, part[i], w[i].c_str()); break; }
      case 1: { char* t = strreplace(s.c_str(), ",", "<->"); std::string x; for (auto& y : w) x += (x.empty() ? "" : "<->") + y; SIM_CHECK(t && x == t, "replace", "object %d: \"%s\" became \"%s\"", id, s.c_str(), t ? t : "nothing"); lib_free(t); break; }
      default: { std::string x = ", ," + s + ",  "; std::vector<char> c(x.begin(), x.end()); c.push_back(0); strtrim(c.data(), " ,"); SIM_CHECK(s == c.data(), "trim", "object %d: \"%s\" trimmed to \"%s\"", id, x.c_str(), c.data()); }
    }
  }
  void fin() override {}
};
struct Clock : Obj {
  int zone = -99999;
  void step(R8& r) override {
    int z = time_util_zone_offset_seconds_to_utc(); SIM_CHECK(zone == -99999 || z == zone, "zone", "object %d: the zone changed from %d to %d", id, zone, z); zone = z;
    time_t t = (time_t)(r.next() + (r.below(2) << 31)); struct tm a, b; int hz = (int)r.below(24); time_t u = t + hz * 3600; gmtime_r(&u, &b);
    memset(&a, 0, sizeof a); time_util_fast_second2date(&t, &a, hz);
    SIM_CHECK(a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year, "date", "object %d: wrong date for %lld", id, (long long)t);
    struct timeval tv = {t, (suseconds_t)r.below(1000000)}; char s[TIME_STR_SIZE], w[96]; int n = time_util_get_time_str(&tv, s, hz);
    strftime(w, sizeof w, "%m-%d %H:%M:%S", &b); snprintf(w + strlen(w), 8, ".%03d", (int)(tv.tv_usec / 1000));
    SIM_CHECK(n == (int)strlen(s) && strstr(s, w), "text", "object %d: \"%s\" for %s", id, s, w);
  }
  void fin() override {}
};
enum { NK = 23 };
Obj* make(int kind, int id, R8& r) {
  switch (kind % NK) {
    case 0: case 1: return new Bytes(kind & 1, r);
    case 2: return new Cover(r);
    case 3: case 4: return new Queue(kind & 1, r);
    case 5: case 6: return new Handler(kind & 1);
    case 7: return new Pool(r);
    case 8: return new Thread(r);
    case 9: return new Map(r);
    case 10: case 11: return new Seq(kind & 1);
    case 12: return new Builder(r);
    case 13: return new Params();
    case 14: case 15: return new Ini();
    case 16: return new Memory(r);
    case 17: case 18: return new Files();
    case 19: return new Logger(id, r);
    case 20: return new Text();
    default: return new Clock();
  }
}
void gen(Rng& r, Plan& p, RunCfg& c) {
  int nc = (int)r.range(1, 4); int64_t k0 = r.range(0, NK - 1);
  p.p = {r.range(0, 1)};
  p.t.resize((size_t)nc);
  for (auto& t : p.t) {
    int slots = (int)r.range(nc == 1 ? 2 : 1, 3); int64_t k1 = r.chance(2, 3) ? k0 : r.range(0, NK - 1);
    for (int s = 0; s < slots; s++) t.push_back({0, r.chance(3, 4) ? k1 : r.range(0, NK - 1), (int64_t)r.next()});
    int n = (int)r.range(2, 24);
    for (int i = 0; i < n; i++) { if (r.chance(1, 10)) t.push_back({2, r.range(0, slots - 1), (int64_t)r.next()}); else t.push_back({1, r.range(0, slots - 1), (int64_t)r.next()}); }
  }
  c.max_steps = 3000000;
}
void client(int ci, const std::vector<Op>& ops) {
  std::vector<std::unique_ptr<Obj>> v; std::vector<int> kind; int born = 0;
  auto birth = [&](int k, uint64_t seed) { R8 r{seed}; int id = ci * 1000 + born++; Obj* o = make(k, id, r); o->id = id; note("object %d kind %d", id, k); return o; };
  for (auto& o : ops) {
    if (o.k == 0) { if (v.size() < 4) { int k = (int)(((o.a % NK) + NK) % NK); kind.push_back(k); v.emplace_back(birth(k, (uint64_t)o.b)); } continue; }
    if (v.empty() || o.a < 0) continue;
    size_t s = (size_t)o.a % v.size();
    if (o.k == 2) { if (born > 12) continue; v[s]->fin(); v[s].reset(birth(kind[s], (uint64_t)o.b)); continue; }   // its place is taken by a new one
    R8 r{(uint64_t)o.b}; v[s]->step(r);
  }
  for (auto& x : v) x->fin();
}
void run(const Plan& p) {
  if (P(p, 0)) lcu_global_init();
  for (size_t i = 0; i < p.t.size(); i++) { const auto* ops = &p.t[i]; int ci = (int)i; spawn("owner", [=] { client(ci, *ops); }); }
  join_all_clients();
  if (P(p, 0)) lcu_global_cleanup();
  // the threads of a destroyed pool are detached and may have a few steps left
  SIM_CHECK(wait_until([] { return live_threads() == 0; }, 2000), "thread-leak", "%d threads are left", live_threads());
  SIM_CHECK(fs::open_streams() == 0 && fs::open_dirs() == 0, "stream-leak", "streams are left open");
  check_no_leaks("all objects are gone");
}
Reg r({"G04", {{"twins", gen, run}}, "src/ring, src/thread, src/data, src/mem, src/file, src/log/file_logger.c, src/time (unmodified)", "scheduler, pthread primitives, heap, files, clocks (simulated)"});
}  // namespace
