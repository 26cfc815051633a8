// Simulated libc / pthread surface seen by the library (symbols sim_<name>).
#include "core.h"
#include <algorithm>
#include <memory>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <cstdlib>
using namespace sim;
static int g_tid_base = 4000;
#define PC ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------ memory / strings
static void chk(const void* p, size_t n, bool w, const char* what) { if (g.active) access_check((uintptr_t)p, n, w, 0, what); }
extern "C" {
void* sim_memcpy(void* d, const void* s, size_t n) {
  if (!g.active) return memcpy(d, s, n);
  point(s, false, PC); point(d, true, PC);
  chk(s, n, false, "memcpy source"); chk(d, n, true, "memcpy target");
  if (n <= 8) return memmove(d, s, n);
  size_t h = n / 2;
  memmove(d, s, h);
  point((char*)d + h, true, PC);
  chk((char*)s + h, n - h, false, "memcpy source"); chk((char*)d + h, n - h, true, "memcpy target");
  memmove((char*)d + h, (const char*)s + h, n - h);
  return d;
}
void* sim_memmove(void* d, const void* s, size_t n) {
  point(s, false, PC); point(d, true, PC);
  chk(s, n, false, "memmove source"); chk(d, n, true, "memmove target");
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) { point(d, true, PC); chk(d, n, true, "memset"); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { point(a, false, PC); chk(a, n, false, "memcmp"); chk(b, n, false, "memcmp"); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { point(a, false, PC); return (void*)memchr(a, c, n); }
static size_t safe_strlen(const char* s, const char* what) {
  if (!g.active) return strlen(s);
  if ((uintptr_t)s < 4096) violation("null-deref", "null string (%s)", what);
  uintptr_t a = (uintptr_t)s;
  if (a >= kArenaBase && a < kArenaBase + kArenaSize) {
    size_t n = 0;
    for (;; n++) { access_check(a + n, 1, false, 0, what); if (!s[n]) return n; }
  }
  return strlen(s);
}
size_t sim_strlen(const char* s) { point(s, false, PC); return safe_strlen(s, "strlen"); }
size_t sim_strnlen(const char* s, size_t m) { point(s, false, PC); size_t n = strnlen(s, m); chk(s, n < m ? n + 1 : n, false, "strnlen"); return n; }
char* sim_strcpy(char* d, const char* s) { point(d, true, PC); size_t n = safe_strlen(s, "strcpy"); chk(d, n + 1, true, "strcpy"); return (char*)memmove(d, s, n + 1); }
char* sim_strncpy(char* d, const char* s, size_t m) { point(d, true, PC); chk(d, m, true, "strncpy"); chk(s, strnlen(s, m), false, "strncpy"); return strncpy(d, s, m); }
char* sim_strcat(char* d, const char* s) { point(d, true, PC); size_t a = safe_strlen(d, "strcat"), n = safe_strlen(s, "strcat"); chk(d + a, n + 1, true, "strcat"); return strcat(d, s); }
char* sim_strncat(char* d, const char* s, size_t m) { point(d, true, PC); size_t a = safe_strlen(d, "strncat"), n = strnlen(s, m); chk(d + a, n + 1, true, "strncat"); return strncat(d, s, m); }
size_t sim_strlcpy(char* d, const char* s, size_t m) {
  point(d, true, PC);
  size_t n = safe_strlen(s, "strlcpy");
  if (m) { size_t c = n < m - 1 ? n : m - 1; chk(d, c + 1, true, "strlcpy"); memmove(d, s, c); d[c] = 0; }
  return n;
}
size_t sim_strlcat(char* d, const char* s, size_t m) {
  point(d, true, PC);
  size_t n = safe_strlen(s, "strlcat"), l = strnlen(d, m);
  if (l == m) return m + n;
  size_t c = n < m - l - 1 ? n : m - l - 1;
  chk(d + l, c + 1, true, "strlcat"); memmove(d + l, s, c); d[l + c] = 0;
  return l + n;
}
int sim_strcmp(const char* a, const char* b) { point(a, false, PC); safe_strlen(a, "strcmp"); safe_strlen(b, "strcmp"); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { point(a, false, PC); chk(a, strnlen(a, n), false, "strncmp"); chk(b, strnlen(b, n), false, "strncmp"); return strncmp(a, b, n); }
int sim_strcasecmp(const char* a, const char* b) { point(a, false, PC); safe_strlen(a, "strcasecmp"); safe_strlen(b, "strcasecmp"); return strcasecmp(a, b); }
int sim_strncasecmp(const char* a, const char* b, size_t n) { point(a, false, PC); return strncasecmp(a, b, n); }
char* sim_strchr(const char* s, int c) { point(s, false, PC); safe_strlen(s, "strchr"); return (char*)strchr(s, c); }
char* sim_strrchr(const char* s, int c) { point(s, false, PC); safe_strlen(s, "strrchr"); return (char*)strrchr(s, c); }
char* sim_strstr(const char* a, const char* b) { point(a, false, PC); size_t n = safe_strlen(b, "strstr");
  uintptr_t p = (uintptr_t)a; if (!g.active || p < kArenaBase || p >= kArenaBase + kArenaSize || !n) { safe_strlen(a, "strstr"); return (char*)strstr(a, b); }
  for (size_t i = 0;; i++) { access_check(p + i, 1, false, 0, "strstr"); if (!a[i]) return nullptr; if (i + 1 >= n && a[i] == b[n - 1] && !memcmp(a + i + 1 - n, b, n)) return (char*)a + i + 1 - n; }   // reads no further than the match
}
char* sim_strpbrk(const char* a, const char* b) { point(a, false, PC); safe_strlen(a, "strpbrk"); return (char*)strpbrk(a, b); }
char* sim_strtok_r(char* s, const char* d, char** sp) { point(s ? s : *sp, true, PC); if (s) safe_strlen(s, "strtok_r"); return strtok_r(s, d, sp); }
long sim_strtol(const char* s, char** e, int b) { point(s, false, PC); safe_strlen(s, "strtol"); return strtol(s, e, b); }
unsigned long sim_strtoul(const char* s, char** e, int b) { point(s, false, PC); safe_strlen(s, "strtoul"); return strtoul(s, e, b); }
long long sim_strtoll(const char* s, char** e, int b) { point(s, false, PC); safe_strlen(s, "strtoll"); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char* s, char** e, int b) { point(s, false, PC); safe_strlen(s, "strtoull"); return strtoull(s, e, b); }
long sim___isoc23_strtol(const char* s, char** e, int b) { return sim_strtol(s, e, b); }
long long sim___isoc23_strtoll(const char* s, char** e, int b) { return sim_strtoll(s, e, b); }
unsigned long sim___isoc23_strtoul(const char* s, char** e, int b) { return sim_strtoul(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char* s, char** e, int b) { return sim_strtoull(s, e, b); }
double sim_strtod(const char* s, char** e) { point(s, false, PC); safe_strlen(s, "strtod"); return strtod(s, e); }
float sim_strtof(const char* s, char** e) { point(s, false, PC); safe_strlen(s, "strtof"); return strtof(s, e); }
int sim_atoi(const char* s) { point(s, false, PC); safe_strlen(s, "atoi"); return atoi(s); }
long sim_atol(const char* s) { point(s, false, PC); safe_strlen(s, "atol"); return atol(s); }

double sim_atof(const char* s) { point(s, false, PC); safe_strlen(s, "atof"); return atof(s); }
long long sim_atoll(const char* s) { point(s, false, PC); safe_strlen(s, "atoll"); return atoll(s); }
char* sim_strtok(char* s, const char* d) { static char* ctx; point(s, true, PC); race_static(0); return sim_strtok_r(s, d, &ctx); }
struct tm* sim_localtime(const time_t* t) { point(t, false, PC); race_static(1); struct tm* r = localtime(t); point(nullptr, false, PC); return r; }
struct tm* sim_gmtime(const time_t* t) { point(t, false, PC); race_static(1); struct tm* r = gmtime(t); point(nullptr, false, PC); return r; }
char* sim_ctime(const time_t* t) { point(t, false, PC); race_static(2); return ctime(t); }
char* sim_asctime(const struct tm* t) { point(t, false, PC); race_static(2); return asctime(t); }
char* sim_strerror(int e) { point(nullptr, false, PC); race_static(3); return strerror(e); }
size_t sim_strspn(const char* s, const char* a) { point(s, false, PC); safe_strlen(s, "strspn"); return strspn(s, a); }
size_t sim_strcspn(const char* s, const char* a) { point(s, false, PC); safe_strlen(s, "strcspn"); return strcspn(s, a); }
char* sim_strcasestr(const char* a, const char* b) { point(a, false, PC); safe_strlen(a, "strcasestr"); return (char*)strcasestr(a, b); }
char* sim_stpcpy(char* d, const char* s) { point(d, true, PC); size_t n = safe_strlen(s, "stpcpy"); chk(d, n + 1, true, "stpcpy"); return stpcpy(d, s); }
void* sim_mempcpy(void* d, const void* s, size_t n) { return (char*)sim_memcpy(d, s, n) + n; }
void* sim_memmem(const void* a, size_t n, const void* b, size_t m) { point(a, false, PC); chk(a, n, false, "memmem"); return memmem(a, n, b, m); }
void* sim_memrchr(const void* a, int c, size_t n) { point(a, false, PC); chk(a, n, false, "memrchr"); return (void*)memrchr(a, c, n); }
void sim_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
void sim_explicit_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
void sim_bcopy(const void* s, void* d, size_t n) { sim_memmove(d, s, n); }
void* sim_malloc(size_t);
void* sim_calloc(size_t, size_t);
void sim_free(void*);
void* sim_realloc(void*, size_t);
void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** p, size_t, size_t n) { *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
size_t sim_malloc_usable_size(void* p) { return block_size(p); }
char* sim_strdup(const char* s) {
  size_t n = safe_strlen(s, "strdup") + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char* sim_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  chk(s, n, false, "strndup");
  char* p = (char*)sim_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
int sim_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  point(b, true, PC);
  int r = vsnprintf(b, n, f, ap);
  if (b && n && r >= 0) chk(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, "snprintf");
  return r;
}
int sim_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char* b, const char* f, va_list ap) {
  char t[16384]; int r = vsnprintf(t, sizeof t, f, ap);
  chk(b, (size_t)r + 1, true, "sprintf"); memcpy(b, t, (size_t)r + 1); return r;
}
int sim_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vsprintf(b, f, ap); va_end(ap); return r; }
int sim_vasprintf(char** o, const char* f, va_list ap) {
  va_list c; va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  char* p = n >= 0 ? (char*)sim_malloc((size_t)n + 1) : nullptr;
  if (!p) { *o = nullptr; return -1; }
  vsnprintf(p, (size_t)n + 1, f, ap);
  *o = p;
  return n;
}
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
size_t sim_strftime(char* b, size_t n, const char* f, const struct tm* t) { point(b, true, PC); size_t r = strftime(b, n, f, t); if (r) chk(b, r + 1, true, "strftime"); return r; }

static bool g_expect_abort;
[[noreturn]] void sim_abort() { if (g_expect_abort) finish_ok(); violation("abort", "the library called abort()"); }
[[noreturn]] void sim_exit(int c) { violation("exit", "the library called exit(%d)", c); }
[[noreturn]] void sim__exit(int c) { violation("exit", "the library called _exit(%d)", c); }
[[noreturn]] void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (g_expect_abort) finish_ok();
  const char* s = strrchr(f, '/');
  violation("assert", "assertion '%s' failed at %s:%u (%s)", e, s ? s + 1 : f, l, fn ? fn : "?");
}
[[noreturn]] void sim___stack_chk_fail() { violation("stack-smash", "stack buffer overflow detected on function return"); }
}

// ------------------------------------------------------------------ synchronisation objects
namespace sim {
struct Sync {
  Clock vc;            // what its releases made visible
  char kind = 0;       // m r s c
  bool init = false, dead = false;
  int type = 0;        // mutex type
  Fiber* owner = nullptr; int count = 0;
  std::map<int, int> readers;
  unsigned value = 0;
  std::vector<Fiber*> waiters;  // condition
  uint64_t gen = 0;
};
static std::unordered_map<uintptr_t, std::unique_ptr<Sync>> g_sync;
static std::map<void*, int> g_once;
void sync_init() {}
void sync_reset() { g_sync.clear(); g_once.clear(); }
void sync_forget(uintptr_t lo, uintptr_t hi) {
  if (g_sync.empty()) return;
  if (hi - lo > 4 * g_sync.size()) {
    for (auto it = g_sync.begin(); it != g_sync.end();) { if (it->first >= lo && it->first < hi) it = g_sync.erase(it); else ++it; }
    return;
  }
  for (uintptr_t a = lo; a < hi; a += 4) { auto it = g_sync.find(a); if (it != g_sync.end()) g_sync.erase(it); }
}
static bool all_zero(const void* p, size_t n) { for (size_t i = 0; i < n; i++) if (((const char*)p)[i]) return false; return true; }
static Sync* get(const void* p, char kind, size_t sz, bool creating, const char* fn) {
  g_race_off++; access_check((uintptr_t)p, sz, true, 0, fn); g_race_off--;
  auto& s = g_sync[(uintptr_t)p];
  if (creating) {
    if (s && s->init && !s->dead && (s->owner || !s->readers.empty() || !s->waiters.empty()))
      violation("sync-misuse", "%s re-initialises an object in use", fn);
    s.reset(new Sync); s->kind = kind; s->init = true; return s.get();
  }
  if (!s) {
    if (kind == 's' || !all_zero(p, sz)) {
      // static recursive/errorcheck initialisers are not used by the library
      g_sync.erase((uintptr_t)p);
      violation("sync-misuse", "%s on an object that was never initialised", fn);
    }
    s.reset(new Sync); s->kind = kind; s->init = true;
  }
  if (s->kind != kind) violation("sync-misuse", "%s on an object of another kind", fn);
  if (s->dead) violation("sync-misuse", "%s on a destroyed object", fn);
  return s.get();
}
static int mlock(Sync* s, const void* key, bool interrupt_ok, uint64_t deadline) {
  (void)interrupt_ok;
  for (;;) {
    if (!s->owner) { s->owner = g.cur; s->count = 1; hb_acquire(s->vc); return 0; }
    if (s->owner == g.cur) {
      if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
      if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    uintptr_t k = (uintptr_t)key;
    Wake w = block(key, deadline, "mutex lock");
    auto it = g_sync.find(k);
    if (it == g_sync.end() || it->second->dead) violation("use-after-free", "mutex destroyed while a thread waited for it");
    s = it->second.get();
    if (w == WK_TIMEOUT && s->owner) return ETIMEDOUT;
  }
}
static int munlock(Sync* s, const void* key) {
  if (!s->owner) {
    if (s->type == PTHREAD_MUTEX_ERRORCHECK || s->type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    violation("sync-misuse", "unlock of a mutex that is not locked");
  }
  if (s->owner != g.cur) {
    if (s->type != PTHREAD_MUTEX_NORMAL) return EPERM;
    violation("sync-misuse", "unlock of a mutex held by another thread");
  }
  if (--s->count == 0) { hb_release(s->vc); s->owner = nullptr; wake_all(key); }
  return 0;
}
}  // namespace sim

struct Attr { int type; };
extern "C" {
int sim_pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  point(m, true, PC);
  if (fault(F_SYNCINIT)) return ENOMEM;
  Sync* s = get(m, 'm', sizeof *m, true, "pthread_mutex_init");
  s->type = a ? *(const int*)a : PTHREAD_MUTEX_NORMAL;
  memset(m, 0x11, sizeof *m);
  return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) { point(m, true, PC); mix(g.hash, 1); return mlock(get(m, 'm', sizeof *m, false, "pthread_mutex_lock"), m, false, kNever); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
  point(m, true, PC);
  Sync* s = get(m, 'm', sizeof *m, false, "pthread_mutex_trylock");
  if (!s->owner) { s->owner = g.cur; s->count = 1; hb_acquire(s->vc); return 0; }
  if (s->owner == g.cur && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
  return EBUSY;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
  point(m, true, PC);
  int r = munlock(get(m, 'm', sizeof *m, false, "pthread_mutex_unlock"), m);
  point(nullptr, true, PC);
  return r;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
  point(m, true, PC);
  Sync* s = get(m, 'm', sizeof *m, false, "pthread_mutex_destroy");
  if (s->owner) return EBUSY;
  s->dead = true;
  return 0;
}
static int64_t ts_ns(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
static uint64_t abs_deadline(const struct timespec* t) { int64_t d = ts_ns(t) - wall_ns(); return g.now + (d > 0 ? (uint64_t)d : 0); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { point(m, true, PC); return mlock(get(m, 'm', sizeof *m, false, "pthread_mutex_timedlock"), m, false, abs_deadline(t)); }

int sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) { point(m, true, PC); return mlock(get(m, 'm', sizeof *m, false, "pthread_mutex_clocklock"), m, false, k == CLOCK_REALTIME ? abs_deadline(t) : (uint64_t)std::max<int64_t>(ts_ns(t), 0)); }
int sim_pthread_spin_init(pthread_spinlock_t* l, int) { point((void*)l, true, PC); *(int*)l = 0; Sync* s = get((void*)l, 'm', sizeof *l, true, "pthread_spin_init"); s->type = PTHREAD_MUTEX_NORMAL; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* l) { point((void*)l, true, PC); return mlock(get((void*)l, 'm', sizeof *l, false, "pthread_spin_lock"), (void*)l, false, kNever); }
int sim_pthread_spin_trylock(pthread_spinlock_t* l) { point((void*)l, true, PC); Sync* s = get((void*)l, 'm', sizeof *l, false, "pthread_spin_trylock"); if (s->owner) return EBUSY; s->owner = g.cur; s->count = 1; hb_acquire(s->vc); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* l) { point((void*)l, true, PC); int r = munlock(get((void*)l, 'm', sizeof *l, false, "pthread_spin_unlock"), (void*)l); point(nullptr, true, PC); return r; }
int sim_pthread_spin_destroy(pthread_spinlock_t* l) { point((void*)l, true, PC); get((void*)l, 'm', sizeof *l, false, "pthread_spin_destroy")->dead = true; return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  point(c, true, PC);
  if (fault(F_SYNCINIT)) return ENOMEM;
  get(c, 'c', sizeof *c, true, "pthread_cond_init");
  memset(c, 0x11, sizeof *c);
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) {
  point(c, true, PC);
  Sync* s = get(c, 'c', sizeof *c, false, "pthread_cond_destroy");
  if (!s->waiters.empty()) violation("sync-misuse", "condition variable destroyed while threads wait on it");
  s->dead = true;
  return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  point(c, true, PC);
  Sync* s = get(c, 'c', sizeof *c, false, "pthread_cond_wait");
  Sync* ms = get(m, 'm', sizeof *m, false, "pthread_cond_wait");
  if (ms->owner != g.cur) violation("sync-misuse", "pthread_cond_wait without holding the mutex");
  int cnt = ms->count;
  ms->count = 1;
  Fiber* me = g.cur;
  s->waiters.push_back(me);
  munlock(ms, m);
  int rc = 0;
  bool spur = fault(F_SPURIOUS);
  static char tag[1];
  while (true) {
    uint64_t dl = spur ? g.now + 1000 : deadline;
    Wake w = block(tag, dl, "condition wait");
    auto it = g_sync.find((uintptr_t)c);
    if (it == g_sync.end() || it->second->dead) violation("use-after-free", "condition variable destroyed while a thread waited on it");
    s = it->second.get();
    bool still = std::find(s->waiters.begin(), s->waiters.end(), me) != s->waiters.end();
    if (!still) break;               // signalled
    if (w == WK_TIMEOUT) { s->waiters.erase(std::find(s->waiters.begin(), s->waiters.end(), me)); rc = spur ? 0 : ETIMEDOUT; break; }
    // signal handler ran: keep waiting (allowed: spurious)
  }
  ms = get(m, 'm', sizeof *m, false, "pthread_cond_wait");
  mlock(ms, m, false, kNever);
  get(m, 'm', sizeof *m, false, "pthread_cond_wait")->count = cnt;
  return rc;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, kNever); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cwait(c, m, abs_deadline(t)); }
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (k == CLOCK_REALTIME) return cwait(c, m, abs_deadline(t));
  return cwait(c, m, (uint64_t)ts_ns(t));
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
  point(c, true, PC);
  Sync* s = get(c, 'c', sizeof *c, false, "pthread_cond_signal");
  if (!s->waiters.empty()) {
    size_t i = pick((uint32_t)s->waiters.size());
    Fiber* f = s->waiters[i];
    s->waiters.erase(s->waiters.begin() + i);
    wake_fiber(f, WK_OK);
  }
  point(nullptr, true, PC);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
  point(c, true, PC);
  Sync* s = get(c, 'c', sizeof *c, false, "pthread_cond_broadcast");
  auto w = s->waiters; s->waiters.clear();
  for (Fiber* f : w) wake_fiber(f, WK_OK);
  point(nullptr, true, PC);
  return 0;
}
int sim_pthread_condattr_init(pthread_condattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t*, clockid_t) { return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; }

int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) {
  point(l, true, PC);
  if (fault(F_SYNCINIT)) return ENOMEM;
  Sync* s = get(l, 'r', sizeof *l, true, "pthread_rwlock_init");
  if (a) pthread_rwlockattr_getkind_np(a, &s->type);
  memset(l, 0x11, sizeof *l);
  return 0;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) {
  point(l, true, PC);
  Sync* s = get(l, 'r', sizeof *l, false, "pthread_rwlock_destroy");
  if (s->owner || !s->readers.empty()) return EBUSY;
  s->dead = true;
  return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  point(l, true, PC);
  Sync* s = get(l, 'r', sizeof *l, false, "pthread_rwlock_rdlock");
  while (s->owner || (s->type == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP && s->count)) { if (s->owner == g.cur) return EDEADLK; block(l, kNever, "rwlock read lock"); s = get(l, 'r', sizeof *l, false, "pthread_rwlock_rdlock"); }
  s->readers[g.cur->id]++;
  hb_acquire(s->vc);
  return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { point(l, true, PC); Sync* s = get(l, 'r', sizeof *l, false, "tryrdlock"); if (s->owner) return EBUSY; s->readers[g.cur->id]++; hb_acquire(s->vc); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  point(l, true, PC);
  Sync* s = get(l, 'r', sizeof *l, false, "pthread_rwlock_wrlock");
  while (s->owner || !s->readers.empty()) {
    if (s->owner == g.cur) return EDEADLK;
    s->count++;          // writers waiting
    block(l, kNever, "rwlock write lock"); s = get(l, 'r', sizeof *l, false, "pthread_rwlock_wrlock");
    s->count--;
  }
  s->owner = g.cur;
  hb_acquire(s->vc);
  return 0;
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { point(l, true, PC); Sync* s = get(l, 'r', sizeof *l, false, "trywrlock"); if (s->owner || !s->readers.empty()) return EBUSY; s->owner = g.cur; hb_acquire(s->vc); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  point(l, true, PC);
  Sync* s = get(l, 'r', sizeof *l, false, "pthread_rwlock_unlock");
  hb_release(s->vc);
  if (s->owner == g.cur) s->owner = nullptr;
  else {
    auto it = s->readers.find(g.cur->id);
    if (it == s->readers.end()) violation("sync-misuse", "rwlock unlocked by a thread that does not hold it");
    if (--it->second == 0) s->readers.erase(it);
  }
  wake_all(l);
  point(nullptr, true, PC);
  return 0;
}

int sim_sem_init(sem_t* m, int, unsigned v) {
  point(m, true, PC);
  if (fault(F_SYNCINIT)) { errno = ENOSPC; return -1; }
  if (v > 0x7fffffffu) { errno = EINVAL; return -1; }
  get(m, 's', sizeof *m, true, "sem_init")->value = v;
  memset(m, 0x11, sizeof *m);
  return 0;
}
int sim_sem_destroy(sem_t* m) { point(m, true, PC); Sync* s = get(m, 's', sizeof *m, false, "sem_destroy"); s->dead = true; return 0; }
static int swait(sem_t* m, uint64_t dl) {
  point(m, true, PC);
  if (fault(F_EINTR)) { errno = EINTR; return -1; }
  Sync* s = get(m, 's', sizeof *m, false, "sem_wait");
  while (s->value == 0) {
    Wake w = block(m, dl, "semaphore wait");
    s = get(m, 's', sizeof *m, false, "sem_wait");
    if (w == WK_SIGNAL) { errno = EINTR; return -1; }
    if (w == WK_TIMEOUT && s->value == 0) { errno = ETIMEDOUT; return -1; }
  }
  s->value--;
  hb_acquire(s->vc);
  return 0;
}
int sim_sem_wait(sem_t* m) { return swait(m, kNever); }
int sim_sem_timedwait(sem_t* m, const struct timespec* t) { return swait(m, abs_deadline(t)); }
int sim_sem_clockwait(sem_t* m, clockid_t k, const struct timespec* t) { return swait(m, k == CLOCK_REALTIME ? abs_deadline(t) : (uint64_t)std::max<int64_t>(ts_ns(t), 0)); }
int sim_sem_trywait(sem_t* m) { point(m, true, PC); Sync* s = get(m, 's', sizeof *m, false, "sem_trywait"); if (!s->value) { errno = EAGAIN; return -1; } s->value--; hb_acquire(s->vc); return 0; }
int sim_sem_post(sem_t* m) { point(m, true, PC); Sync* s = get(m, 's', sizeof *m, false, "sem_post"); if (s->value == 0x7fffffffu) { errno = EOVERFLOW; return -1; } s->value++; hb_release(s->vc); wake_all(m); point(nullptr, true, PC); return 0; }
int sim_sem_getvalue(sem_t* m, int* v) { point(m, false, PC); *v = (int)get(m, 's', sizeof *m, false, "sem_getvalue")->value; return 0; }

// ------------------------------------------------------------------ threads
constexpr uint64_t kTid = 0x7A0000;
static Fiber* thr(pthread_t t, const char* fn) {
  uint64_t i = (uint64_t)t - kTid;
  if (i >= g.fib.size() || !g.fib[i]->libthread) { if (i < g.fib.size()) return g.fib[i]; violation("sync-misuse", "%s on an invalid thread handle", fn); }
  if (g.fib[i]->joined || (g.fib[i]->detached && g.fib[i]->st == FS_DONE)) violation("use-after-free", "%s on a thread whose handle is no longer valid (%s)", fn, g.fib[i]->joined ? "joined before" : "detached and ended");
  return g.fib[i];
}
int sim_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  point(t, true, PC);
  chk(t, sizeof *t, true, "pthread_create");
  if (fault(F_THREAD) || g.fib.size() >= (size_t)kMaxFibers) return EAGAIN;   // the machine's thread limit
  Fiber* f = new_fiber("thread", nullptr);
  f->libthread = true; f->start = fn; f->arg = arg;
  if (g.cur) memcpy(f->tname, g.cur->tname, sizeof f->tname);
  if (at) { int d; if (!pthread_attr_getdetachstate(at, &d) && d == PTHREAD_CREATE_DETACHED) f->detached = true; }
  f->fn = [f] { f->retval = f->start(f->arg); };
  g.created++;
  *t = (pthread_t)(kTid + f->id);
  mix(g.hash, 0x7C + f->id);
  point(nullptr, true, PC);
  return 0;
}
int sim_pthread_join(pthread_t t, void** r) {
  point(nullptr, true, PC);
  Fiber* f = thr(t, "pthread_join");
  if (f->detached) return EINVAL;
  if (f->joined) violation("sync-misuse", "thread joined twice");
  if (f == g.cur) return EDEADLK;
  while (f->st != FS_DONE) block(f, kNever, "thread join");
  f->joined = true;
  hb_acquire(f->vc);
  if (r) *r = f->retval;
  return 0;
}
int sim_pthread_tryjoin_np(pthread_t t, void** r) { point(nullptr, true, PC); Fiber* f = thr(t, "pthread_tryjoin_np"); if (f->detached) return EINVAL; return f->st != FS_DONE ? EBUSY : sim_pthread_join(t, r); }
int sim_pthread_timedjoin_np(pthread_t t, void** r, const struct timespec* a) {
  point(nullptr, true, PC);
  Fiber* f = thr(t, "pthread_timedjoin_np");
  if (f->detached) return EINVAL;
  uint64_t d = abs_deadline(a);
  while (f->st != FS_DONE) { if (block(f, d, "thread join") == WK_TIMEOUT && f->st != FS_DONE) return ETIMEDOUT; }
  return sim_pthread_join(t, r);
}
int sim_pthread_detach(pthread_t t) { point(nullptr, true, PC); Fiber* f = thr(t, "pthread_detach"); if (f->detached || f->joined) return EINVAL; f->detached = true; return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(kTid + (g.cur ? g.cur->id : 0)); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_kill(pthread_t t, int sig) {
  point(nullptr, true, PC);
  Fiber* f = thr(t, "pthread_kill");
  if (f->st == FS_DONE) return ESRCH;
  if (sig) { signal_fiber(f, sig); if (f == g.cur) deliver_signals(); else point(nullptr, true, PC); }
  return 0;
}
int sim_raise(int sig) { signal_fiber(g.cur, sig); deliver_signals(); return 0; }
[[noreturn]] void sim_pthread_exit(void* v) {
  Fiber* f = g.cur;
  f->retval = v; f->st = FS_DONE;
  mix(g.hash, 0xD0E + f->id);
  wake_all(f);
  block(&g, kNever, "exited"); abort();
}
int sim_pthread_setname_np(pthread_t t, const char* s) {
  point(nullptr, true, PC);
  size_t n = strlen(s); chk(s, n + 1, false, "pthread_setname_np");
  if (n > 15) return ERANGE;
  memcpy(thr(t, "pthread_setname_np")->tname, s, n + 1);
  return 0;
}
int sim_pthread_getname_np(pthread_t t, char* b, size_t n) {
  point(nullptr, false, PC);
  if (n < 16) return ERANGE;
  chk(b, n, true, "pthread_getname_np"); strcpy(b, thr(t, "pthread_getname_np")->tname);
  return 0;
}
int sim_pthread_once(pthread_once_t* o, void (*fn)()) { point(o, true, PC); int& s = g_once[o]; if (s == 0) { s = 1; fn(); g_once[o] = 2; hb_atomic(o, __ATOMIC_RELEASE, false, true); wake_all(o); return 0; } while (g_once[o] != 2) block(o, kNever, "once"); hb_atomic(o, __ATOMIC_ACQUIRE, true, false); return 0; }
static unsigned g_keys = 0;
int sim_pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = g_keys++; return 0; }
int sim_pthread_key_delete(pthread_key_t) { return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { return g.cur->tsd[k]; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { g.cur->tsd[k] = (void*)v; return 0; }
int sim_sched_yield() { forced_yield(); return 0; }
int sim_pthread_yield() { forced_yield(); return 0; }
int sim_prctl(int op, ...) {
  point(nullptr, true, PC);
  va_list ap; va_start(ap, op); char* s = va_arg(ap, char*); va_end(ap);
  if (op == PR_SET_NAME) { snprintf(g.cur->tname, 16, "%s", s); chk(s, strnlen(g.cur->tname, 16) + (strlen(s) < 16), false, "prctl"); }
  else if (op == PR_GET_NAME) { chk(s, 16, true, "prctl"); memcpy(s, g.cur->tname, 16); }
  return 0;
}
pid_t sim_gettid();
long sim_syscall(long n, ...) { point(nullptr, false, PC); (void)n; return sim_gettid(); }
pid_t sim_gettid() { return g_tid_base + (g.cur ? g.cur->id : 0); }
pid_t sim_getpid() { return 4000; }
int sim_sigemptyset(sigset_t* s) { return sigemptyset(s); }
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  point(nullptr, true, PC);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = g.sighandlers.count(sig) ? g.sighandlers[sig] : nullptr; }
  if (a) { g.sighandlers[sig] = a->sa_handler; g.sigflags[sig] = a->sa_flags; }
  return 0;
}
typedef void (*sh)(int);
sh sim_signal(int sig, sh h) { sh o = g.sighandlers.count(sig) ? g.sighandlers[sig] : nullptr; g.sighandlers[sig] = h; return o; }
int sim_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) {
  if (o) { sigemptyset(o); for (int i = 1; i < 63; i++) if (g.cur->sigmask >> i & 1) sigaddset(o, i); }
  if (s) { uint64_t m = 0; for (int i = 1; i < 63; i++) if (sigismember(s, i)) m |= 1ull << i;
    if (how == SIG_BLOCK) g.cur->sigmask |= m; else if (how == SIG_UNBLOCK) g.cur->sigmask &= ~m; else g.cur->sigmask = m; }
  deliver_signals();
  return 0;
}

int sim_sigprocmask(int how, const sigset_t* s, sigset_t* o) { return sim_pthread_sigmask(how, s, o); }
// ------------------------------------------------------------------ time
static int sleep_ns(uint64_t ns, uint64_t* left) {
  point(nullptr, false, PC);
  uint64_t d = g.now + ns;
  bool first = true;
  while (g.now < d || first) {
    first = false;
    Wake w = block(&g, d, "sleep");
    if (w == WK_SIGNAL) { if (left) *left = d > g.now ? d - g.now : 0; return -1; }
  }
  return 0;
}
int sim_usleep(unsigned us) { if (sleep_ns((uint64_t)us * 1000, nullptr)) { errno = EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { uint64_t l = 0; if (sleep_ns((uint64_t)s * 1000000000ull, &l)) return (unsigned)((l + 999999999ull) / 1000000000ull); return 0; }
int sim_nanosleep(const struct timespec* t, struct timespec* r) {
  uint64_t l = 0;
  if (sleep_ns((uint64_t)ts_ns(t), &l)) { if (r) { r->tv_sec = (time_t)(l / 1000000000ull); r->tv_nsec = (long)(l % 1000000000ull); } errno = EINTR; return -1; }
  return 0;
}
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) { uint64_t n = (uint64_t)ts_ns(t); if (fl) n = n > g.now ? n - g.now : 0; return sleep_ns(n, nullptr) ? EINTR : 0; }
}
static int64_t wall_read() { int64_t w = wall_ns(); if (g.cur && g.cur->creads.size() < 100000) g.cur->creads.push_back(w); return w; }
namespace sim { std::vector<int64_t>& clock_reads() { return g.cur->creads; } }
extern "C" {
static void clock_faults() {
  if (fault(F_CLOCK)) {
    static const int64_t j[] = {-1000000, -1000000000ll, -3600000000000ll, 1000000, 1000000000ll, 86400000000000ll, -86400000000000ll * 30, 500000000ll};
    wall_jump(j[pick(8)]); g.ffire[F_CLOCK]--;
  }
}
int sim_gettimeofday(struct timeval* tv, void*) {
  point(nullptr, false, PC); clock_faults();
  int64_t w = wall_read();
  tv->tv_sec = w / 1000000000ll; tv->tv_usec = (w % 1000000000ll) / 1000;
  if (tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
  return 0;
}
time_t sim_time(time_t* t) { point(nullptr, false, PC); clock_faults(); int64_t w = wall_read(); time_t v = w >= 0 ? w / 1000000000ll : -((-w + 999999999ll) / 1000000000ll); if (t) *t = v; return v; }
int sim_clock_gettime(clockid_t c, struct timespec* ts) {
  point(nullptr, false, PC);
  int64_t w = (int64_t)g.now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { clock_faults(); w = wall_read(); }
  ts->tv_sec = w / 1000000000ll; ts->tv_nsec = w % 1000000000ll;
  return 0;
}
int sim_timespec_get(struct timespec* ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
clock_t sim_clock() { return (clock_t)(g.now / 1000); }
}

// ------------------------------------------------------------------ file system
namespace sim { namespace fs {
struct Node { bool dir = false; std::string link; std::string data; uint64_t cseq = 0; int id = 0; int64_t hole = 0; int64_t size() const { return (int64_t)data.size() + hole; } };
typedef std::shared_ptr<Node> NodeP;
static std::map<std::string, NodeP> g_fs;
static int64_t g_cap = -1;
static uint64_t g_cseq = 0;
static std::vector<Session> g_sess;
static int g_open_streams = 0, g_open_dirs = 0, g_open_fds = 0;

static std::string norm(const std::string& p0) {
  std::string p = p0.empty() || p0[0] != '/' ? "/cwd/" + p0 : p0;
  std::vector<std::string> c; std::string cur;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i == p.size() || p[i] == '/') { if (cur == "..") { if (!c.empty()) c.pop_back(); } else if (!cur.empty() && cur != ".") c.push_back(cur); cur.clear(); }
    else cur += p[i];
  }
  std::string r; for (auto& s : c) r += "/" + s;
  return r.empty() ? "/" : r;
}
static std::string parent(const std::string& n) { size_t i = n.rfind('/'); return i == 0 ? "/" : n.substr(0, i); }
static NodeP find_raw(const std::string& n) { auto it = g_fs.find(n); return it == g_fs.end() ? nullptr : it->second; }
static bool g_links = false;
// follow the symbolic links of a normalised path (the last one too unless keep_last); "" when there are too many
static std::string resolve(std::string n, bool keep_last = false) {
  if (!g_links) return n;
  for (int hops = 0; hops < 16; hops++) {
    bool again = false;
    for (size_t i = 1; i <= n.size() && !again; i++) if (i == n.size() || n[i] == '/') {
      NodeP x = find_raw(n.substr(0, i));
      if (!x || x->link.empty() || (i == n.size() && keep_last)) continue;
      n = norm((x->link[0] == '/' ? x->link : n.substr(0, n.rfind('/', i - 1)) + "/" + x->link) + n.substr(i)); again = true;
    }
    if (!again) return n;
  }
  return "";
}
static NodeP find(const std::string& n) { return g_links ? find_raw(resolve(n)) : find_raw(n); }
static NodeP mk(const std::string& n, bool dir) { NodeP x(new Node); x->dir = dir; x->cseq = ++g_cseq; g_fs[n] = x; return x; }
void mkdir_p(const std::string& p) { std::string n = norm(p); std::string cur; for (size_t i = 1; i <= n.size(); i++) if (i == n.size() || n[i] == '/') { cur = n.substr(0, i); if (!find(cur)) mk(cur, true); } }
void put(const std::string& p, const std::string& d) { std::string n = norm(p); mkdir_p(parent(n)); NodeP x = find(n); if (!x) x = mk(n, false); x->data = d; }
void put_sparse(const std::string& p, const std::string& d, int64_t size) { put(p, d); find(norm(p))->hole = size - (int64_t)d.size(); }
void symlink(const std::string& p, const std::string& target) { std::string n = norm(p); mkdir_p(parent(n)); mk(n, false)->link = target; g_links = true; }
bool exists_raw(const std::string& p) { return find_raw(resolve(norm(p), true)) != nullptr; }
bool exists(const std::string& p) { return find(norm(p)) != nullptr; }
bool is_dir(const std::string& p) { NodeP x = find(norm(p)); return x && x->dir; }
bool get(const std::string& p, std::string& o) { NodeP x = find(norm(p)); if (!x || x->dir) return false; o = x->data; return true; }
bool remove(const std::string& p) { return g_fs.erase(norm(p)) != 0; }
static bool child_of(const std::string& n, const std::string& d) { std::string pre = d == "/" ? "/" : d + "/"; return n.size() > pre.size() && n.compare(0, pre.size(), pre) == 0 && n.find('/', pre.size()) == std::string::npos; }
std::vector<std::string> list(const std::string& d0) {
  std::string d = resolve(norm(d0));
  std::vector<std::pair<uint64_t, std::string>> v;
  for (auto& kv : g_fs) if (child_of(kv.first, d)) v.push_back({kv.second->cseq, kv.first.substr(kv.first.rfind('/') + 1)});
  std::sort(v.begin(), v.end());
  std::vector<std::string> r; for (auto& x : v) r.push_back(x.second);
  return r;
}
std::vector<std::string> all_paths() { std::vector<std::string> r; for (auto& kv : g_fs) r.push_back(kv.first); return r; }
uint64_t ctime_seq(const std::string& p) { NodeP x = find(norm(p)); return x ? x->cseq : 0; }
int open_streams() { return g_open_streams; }
int open_dirs() { return g_open_dirs; }
int open_fds() { return g_open_fds; }
void set_capacity(int64_t b) { g_cap = b; }
int64_t used() { int64_t n = 0; for (auto& kv : g_fs) n += (int64_t)kv.second->data.size(); return n; }
const std::vector<Session>& sessions() { return g_sess; }

struct Stream {
  NodeP node; std::string path; size_t pos = 0; bool rd = false, wr = false, app = false; int sess = -1; bool open = true;
  FILE* fp = nullptr; bool std = false; std::string* sink = nullptr; char* buf = nullptr; bool failed = false;
};
static std::map<FILE*, Stream*> g_streams;
static std::string g_out, g_err, g_trash;

// write up to n bytes into the node; returns number written, sets err
static size_t raw_write(Stream* s, const char* b, size_t n, int* err) {
  *err = 0;
  if (s->sink) { s->sink->append(b, n); return n; }
  size_t allow = n;
  if (fault(F_WRITE)) { allow = pick((uint32_t)std::min<size_t>(n, 4000) + 1); if (allow >= n) allow = n / 2; *err = pick(2) ? EIO : ENOSPC; s->failed = true; }
  if (g_cap >= 0) { int64_t left = g_cap - used(); if (left < 0) left = 0; if ((int64_t)allow > left) { allow = (size_t)left; *err = ENOSPC; g.ffire[F_DISKFULL]++; s->failed = true; } }
  if (s->app) s->pos = s->node->data.size();
  if (s->node->data.size() < s->pos) s->node->data.resize(s->pos, '\0');
  s->node->data.replace(s->pos, std::min(allow, s->node->data.size() - s->pos), b, allow);
  s->pos += allow;
  if (s->sess >= 0) { g_sess[s->sess].bytes += allow; if (*err) g_sess[s->sess].lost += n - allow; }
  mix(g.hash, allow); mix(g.hash, n);
  return allow;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  Stream* s = (Stream*)c;
  int e;
  size_t r = raw_write(s, b, n, &e);
  if (e) { errno = e; return (ssize_t)(r ? (ssize_t)r : 0); }
  return (ssize_t)r;
}
static ssize_t ck_read(void* c, char* b, size_t n) {
  Stream* s = (Stream*)c;
  if (!s->node) return 0;
  if (s->node->dir) { errno = EISDIR; return -1; }
  if (fault(F_READ)) { s->failed = true; errno = EIO; return -1; }
  size_t left = (size_t)s->node->size() > s->pos ? (size_t)s->node->size() - s->pos : 0;
  size_t m = std::min(n, left), real = s->node->data.size() > s->pos ? s->node->data.size() - s->pos : 0;
  if (m > 1 && fault(F_SHORTREAD)) m = 1 + pick((uint32_t)(m - 1));
  if (m > real) memset(b, 0, m);
  memcpy(b, s->node->data.data() + std::min(s->pos, s->node->data.size()), std::min(m, real));
  s->pos += m;
  return (ssize_t)m;
}
static int ck_seek(void* c, off64_t* o, int wh) {
  Stream* s = (Stream*)c;
  if (!s->node) { errno = ESPIPE; return -1; }
  if (fault(F_SEEK)) { errno = EIO; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)s->pos : s->node->dir ? INT64_MAX : s->node->size();   // as Linux does for folders
  if (base + *o < 0) { errno = EINVAL; return -1; }
  s->pos = (size_t)(base + *o);
  *o = (off64_t)s->pos;
  return 0;
}
static int ck_close(void*) { return 0; }
static FILE* mkfile(Stream* s, const char* mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(s, mode, io);
  if (!f) violation("sim-limit", "fopencookie");
  size_t n = (size_t)g.cfg.stdiobuf;
  s->buf = (char*)malloc(n + 64);
  setvbuf(f, s->buf, _IOFBF, n);
  s->fp = f;
  g_streams[f] = s;
  return f;
}
static bool parse_mode(const char* m, bool& rd, bool& wr, bool& app, bool& trunc, bool& excl) {
  rd = wr = app = trunc = excl = false;
  bool plus = strchr(m, '+') != nullptr; excl = strchr(m, 'x') != nullptr;
  switch (m[0]) { case 'r': rd = true; wr = plus; return true; case 'w': wr = trunc = true; rd = plus; return true; case 'a': wr = app = true; rd = plus; return true; }
  return false;
}
static NodeP open_node(const char* path, bool wr, bool creat, bool trunc, bool excl, bool* created, std::string* np) {
  std::string n = resolve(norm(path)); if (n.empty()) { errno = ELOOP; return nullptr; } *np = n; *created = false;
  size_t len = strlen(path);
  if (len == 0) { errno = ENOENT; return nullptr; }
  NodeP x = find(n);
  if (x && excl && creat) { errno = EEXIST; return nullptr; }
  if (x && x->dir) { if (wr) { errno = EISDIR; return nullptr; } return x; }
  if (!x) {
    if (!creat) { errno = ENOENT; return nullptr; }
    NodeP d = find(parent(n));
    if (!d) { errno = ENOENT; return nullptr; }
    if (!d->dir) { errno = ENOTDIR; return nullptr; }
    if (path[len - 1] == '/') { errno = EISDIR; return nullptr; }
    x = mk(n, false); *created = true;
  }
  return x;
}
static FILE* do_open(const char* path, const char* mode, Stream* reuse) {
  bool rd, wr, app, trunc, excl;
  if (!path || !mode || !parse_mode(mode, rd, wr, app, trunc, excl)) { errno = EINVAL; return nullptr; }
  if (fault(F_FOPEN)) { errno = pick(2) ? EACCES : EMFILE; return nullptr; }
  bool created; std::string np;
  NodeP x = open_node(path, wr, wr, trunc, excl, &created, &np);
  if (!x) return nullptr;
  uint64_t destroyed = 0;
  if (trunc && !created) { destroyed = x->data.size(); x->data.clear(); }
  Stream* s = reuse ? reuse : new Stream;
  s->node = x; s->path = np; s->pos = 0; s->rd = rd; s->wr = wr; s->app = app; s->open = true; s->sink = nullptr; s->failed = false;
  if (wr) { s->sess = (int)g_sess.size(); g_sess.push_back({np, 0, false, g.evseq, created, destroyed > 0, 0}); }
  if (!reuse) { mkfile(s, mode); g_open_streams++; }
  uint64_t h = 5; for (char ch : np) mix(h, (uint8_t)ch); mix(g.hash, h);
  return s->fp;
}
static Stream* st(FILE* f, const char* fn) {
  auto it = g_streams.find(f);
  if (it == g_streams.end()) { if (!f) violation("null-deref", "%s(NULL stream)", fn); violation("invalid-stream", "%s on an unknown stream", fn); }
  if (!it->second->open) violation("use-after-close", "%s on a closed stream", fn);
  return it->second;
}

// descriptors
struct Fd { FILE* of = nullptr; bool open = false; bool pipe = false; std::string in, outd; size_t pos = 0; NodeP node; bool rd = true, wr = true, app = false, err = false; int eno = EIO; };
static std::vector<Fd> g_fds;
int pipe_fd(const std::string& d) { Fd f; f.open = true; f.pipe = true; f.in = d; g_fds.push_back(f); return 1000 + (int)g_fds.size() - 1; }
std::string fd_written(int fd) { return g_fds[fd - 1000].outd; }
size_t fd_consumed(int fd) { return g_fds[fd - 1000].pos; }
bool fd_error_hit(int fd) { return g_fds[fd - 1000].err; }
static Fd* fdp(int fd) { if (fd < 1000 || fd - 1000 >= (int)g_fds.size() || !g_fds[fd - 1000].open) return nullptr; return &g_fds[fd - 1000]; }
struct Dir { bool unknown = false; std::vector<std::string> names; size_t i = 0; struct dirent ent; std::string path; bool open = true; };
static std::set<Dir*> g_dirs;
}}  // namespace sim::fs
using namespace sim::fs;

namespace sim {
void fs_init() {
  for (const char* d : {"/", "/cwd", "/tmp", "/dev"}) if (!fs::find(d)) fs::mk(d, true);
}
void fs_reset() {
  for (auto& kv : g_streams) if (!kv.second->std) kv.second->open = false;
  for (Dir* d : g_dirs) d->open = false;
  for (Fd& f : g_fds) f.open = false;
  g_open_streams = g_open_dirs = g_open_fds = 0;
}
std::string out();
}
extern "C" { FILE* sim_stdout; FILE* sim_stderr; FILE* sim_stdin; }
namespace sim {
static Stream *g_so, *g_se;
static void std_init() {
  if (sim_stdout) return;
  auto mk1 = [](std::string* sink, FILE** slot) { Stream* s = new Stream; s->std = true; s->wr = true; s->sink = sink; *slot = mkfile(s, "w"); return s; };
  g_so = mk1(&g_out, &sim_stdout); g_se = mk1(&g_err, &sim_stderr);
  Stream* i = new Stream; i->std = true; i->rd = true; i->node.reset(new Node); sim_stdin = mkfile(i, "r");
}
std::string out() { fflush(sim_stdout); return g_out; }
std::string out_sunk() { return g_out; }
void expect_abort(bool on) { g_expect_abort = on; }
void tid_base(int b) { g_tid_base = b; }
std::string err() { fflush(sim_stderr); return g_err; }
void out_clear() { fflush(sim_stdout); g_out.clear(); }
struct StdInit { StdInit() { std_init(); } } g_stdinit;
}

extern "C" {
FILE* sim_fopen(const char* p, const char* m) { point(nullptr, true, PC); mix(g.hash, 0xF0); FILE* f = do_open(p, m, nullptr); point(nullptr, true, PC); return f; }
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* sim_freopen(const char* p, const char* m, FILE* f) {
  point(nullptr, true, PC);
  Stream* s = st(f, "freopen");
  fflush(f);
  if (s->sess >= 0) { g_sess[s->sess].closed = true; s->sess = -1; }
  if (p && (!strcmp(p, "/dev/tty") || !strcmp(p, "/dev/stdout") || !strcmp(p, "CON"))) {
    if (fault(F_FOPEN)) { errno = ENXIO; s->sink = &g_trash; s->node = nullptr; return nullptr; }   // no controlling terminal
    s->sink = &g_out; s->node = nullptr; return f;
  }
  // a failed freopen leaves the stream closed
  if (!do_open(p, m, s)) { if (!s->std) { s->open = false; g_open_streams--; } else { s->sink = &g_trash; s->node = nullptr; } return nullptr; }
  return f;
}
int sim_fclose(FILE* f) {
  point(nullptr, true, PC);
  Stream* s = st(f, "fclose");
  mix(g.hash, 0xF1);
  int r = fflush(f);
  int e = errno;
  // as in glibc, a closed standard stream can be written to (everything is lost) and reopened
  if (s->std) { s->sink = &g_trash; s->node = nullptr; }
  else { s->open = false; g_open_streams--; }
  if (s->sess >= 0) { g_sess[s->sess].closed = true; if (r) g_sess[s->sess].lost++; }
  if (r == 0 && s->wr && fault(F_CLOSE)) { r = EOF; e = EIO; }
  if (r) errno = e;
  point(nullptr, true, PC);
  return r;
}
int sim_fflush(FILE* f) { point(nullptr, true, PC); if (!f) { for (auto& kv : g_streams) if (kv.second->open && kv.second->wr) fflush(kv.first); return 0; } st(f, "fflush"); return fflush(f); }
size_t sim_fwrite(const void* b, size_t s, size_t n, FILE* f) { point(nullptr, true, PC); st(f, "fwrite"); chk(b, s * n, false, "fwrite"); size_t r = fwrite(b, s, n, f); point(nullptr, true, PC); return r; }
size_t sim_fread(void* b, size_t s, size_t n, FILE* f) { point(nullptr, true, PC); st(f, "fread"); chk(b, s * n, true, "fread"); return fread(b, s, n, f); }
char* sim_fgets(char* b, int n, FILE* f) { point(nullptr, true, PC); st(f, "fgets"); chk(b, (size_t)n, true, "fgets"); return fgets(b, n, f); }
int sim_fgetc(FILE* f) { point(nullptr, true, PC); st(f, "fgetc"); return fgetc(f); }
int sim_getc(FILE* f) { return sim_fgetc(f); }
int sim_fputs(const char* s, FILE* f) { point(nullptr, true, PC); st(f, "fputs"); safe_strlen(s, "fputs"); return fputs(s, f); }
int sim_fputc(int c, FILE* f) { point(nullptr, true, PC); st(f, "fputc"); return fputc(c, f); }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_vfprintf(FILE* f, const char* fm, va_list ap) { point(nullptr, true, PC); st(f, "fprintf"); int r = vfprintf(f, fm, ap); point(nullptr, true, PC); return r; }
int sim_fprintf(FILE* f, const char* fm, ...) { va_list ap; va_start(ap, fm); int r = sim_vfprintf(f, fm, ap); va_end(ap); return r; }
int sim_vprintf(const char* fm, va_list ap) { return sim_vfprintf(sim_stdout, fm, ap); }
int sim_printf(const char* fm, ...) { va_list ap; va_start(ap, fm); int r = sim_vfprintf(sim_stdout, fm, ap); va_end(ap); return r; }
int sim_puts(const char* s) { point(nullptr, true, PC); safe_strlen(s, "puts"); int r = fprintf(sim_stdout, "%s\n", s); point(nullptr, true, PC); return r; }
int sim_putchar(int c) { point(nullptr, true, PC); return fputc(c, sim_stdout); }
void sim_perror(const char*) {}
int sim_fseek(FILE* f, long o, int w) { point(nullptr, true, PC); st(f, "fseek"); return fseek(f, o, w); }
int sim_fseeko(FILE* f, off_t o, int w) { return sim_fseek(f, (long)o, w); }
long sim_ftell(FILE* f) { point(nullptr, true, PC); st(f, "ftell"); if (fault(F_SEEK)) { errno = EIO; return -1; } return ftell(f); }
off_t sim_ftello(FILE* f) { return sim_ftell(f); }
void sim_rewind(FILE* f) { st(f, "rewind"); rewind(f); }
int sim_feof(FILE* f) { st(f, "feof"); return feof(f); }
int sim_ferror(FILE* f) { st(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE* f) { st(f, "clearerr"); clearerr(f); }
int sim_setvbuf(FILE* f, char*, int, size_t) { st(f, "setvbuf"); return 0; }
void sim_setbuf(FILE* f, char*) { st(f, "setbuf"); }
int sim_fileno(FILE* f) {
  Stream* s = st(f, "fileno");
  if (f == sim_stdin || f == sim_stdout || f == sim_stderr) return f == sim_stdin ? 0 : f == sim_stdout ? 1 : 2;
  for (size_t i = 0; i < g_fds.size(); i++) if (g_fds[i].of == f && g_fds[i].node == s->node) { g_fds[i].open = true; return 1000 + (int)i; }
  Fd d; d.open = true; d.of = f; d.node = s->node; d.app = s->app; d.rd = s->rd; d.wr = s->wr; g_fds.push_back(d); return 1000 + (int)g_fds.size() - 1;
}
int sim_fsync(int) { point(nullptr, true, PC); return 0; }
int sim_fdatasync(int) { point(nullptr, true, PC); return 0; }
void sim_sync() {}
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_fcntl(int fd, int, ...) { if (fd > 2 && !fdp(fd)) { errno = EBADF; return -1; } return 0; }
ssize_t sim_getline(char** l, size_t* n, FILE* f) {
  st(f, "getline");
  char* t = nullptr; size_t tn = 0; ssize_t r = getline(&t, &tn, f);
  if (r < 0) { free(t); return r; }
  if (!*l || *n < (size_t)r + 1) { char* q = (char*)sim_realloc(*l, (size_t)r + 1); if (!q) { free(t); return -1; } *l = q; *n = (size_t)r + 1; }
  memcpy(*l, t, (size_t)r + 1); free(t);
  return r;
}

// file system calls
// a trailing slash names a folder only
static NodeP look(const char* p) {
  size_t n = strlen(p);
  if (n >= 4096) { errno = ENAMETOOLONG; return nullptr; }
  NodeP x = n ? fs::find(norm(p)) : nullptr;
  if (!x) { errno = ENOENT; return nullptr; }
  if (!x->dir && p[n - 1] == '/') { errno = ENOTDIR; return nullptr; }
  return x;
}
int sim_access(const char* p, int mode) {
  point(nullptr, true, PC); safe_strlen(p, "access"); if (fault(F_STAT)) { errno = EACCES; return -1; }
  if (mode & ~(R_OK | W_OK | X_OK)) { errno = EINVAL; return -1; }
  if (!look(p)) return -1;
  if ((mode & X_OK) && !fs::is_dir(p)) { errno = EACCES; return -1; }   // files can be read and written, not executed
  return 0;
}
static int do_mkdir(const char* p) {
  safe_strlen(p, "mkdir");
  std::string n = norm(p);
  mix(g.hash, 0xF3);
  if (fs::find(n)) { errno = EEXIST; return -1; }
  if (fault(F_MKDIR)) { errno = pick(2) ? EACCES : ENOSPC; return -1; }
  NodeP d = fs::find(parent(n));
  if (!d) { errno = ENOENT; return -1; }
  if (!d->dir) { errno = ENOTDIR; return -1; }
  fs::mk(n, true);
  return 0;
}
int sim_mkdir(const char* p, mode_t) { point(nullptr, true, PC); int r = do_mkdir(p); int e = errno; point(nullptr, true, PC); errno = e; return r; }
int sim_stat(const char* p, struct stat* b) {
  point(nullptr, true, PC);
  safe_strlen(p, "stat");
  if (fault(F_STAT)) { errno = EACCES; return -1; }
  NodeP x = look(p);
  if (!x) return -1;
  memset(b, 0, sizeof *b);
  b->st_mode = x->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  b->st_size = (off_t)x->size();
  b->st_mtime = wall_ns() / 1000000000ll;
  return 0;
}
int sim_lstat(const char* p, struct stat* b) {
  NodeP x = fs::find_raw(resolve(norm(p), true));
  if (!x || x->link.empty()) return sim_stat(p, b);
  point(nullptr, true, PC);
  if (fault(F_STAT)) { errno = EACCES; return -1; }
  memset(b, 0, sizeof *b); b->st_mode = S_IFLNK | 0777; b->st_size = (off_t)x->link.size();
  return 0;
}
int sim_stat64(const char* p, struct stat* b) { return sim_stat(p, b); }
int sim_lstat64(const char* p, struct stat* b) { return sim_lstat(p, b); }
int sim_fstatat(int dfd, const char* p, struct stat* b, int fl) {
  if (dfd != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; }
  return fl & AT_SYMLINK_NOFOLLOW ? sim_lstat(p, b) : sim_stat(p, b);
}
int sim_faccessat(int, const char* p, int m, int) { return sim_access(p, m); }
int sim_eaccess(const char* p, int m) { return sim_access(p, m); }
int sim_euidaccess(const char* p, int m) { return sim_access(p, m); }
int sim_mkdirat(int, const char* p, mode_t m) { return sim_mkdir(p, m); }
int sim_unlink(const char* p) { point(nullptr, true, PC); std::string n = norm(p); NodeP x = fs::find(n); if (!x) { errno = ENOENT; return -1; } if (x->dir) { errno = EISDIR; return -1; } g_fs.erase(n); return 0; }
int sim_rmdir(const char* p) { point(nullptr, true, PC); std::string n = norm(p); NodeP x = fs::find(n); if (!x || !x->dir) { errno = ENOENT; return -1; } if (!fs::list(p).empty()) { errno = ENOTEMPTY; return -1; } g_fs.erase(n); return 0; }
int sim_remove(const char* p) { return fs::is_dir(p) ? sim_rmdir(p) : sim_unlink(p); }
int sim_rename(const char* a, const char* b) {
  point(nullptr, true, PC);
  std::string x = norm(a), y = norm(b);
  NodeP n = fs::find(x);
  if (!n) { errno = ENOENT; return -1; }
  if (!fs::find(parent(y))) { errno = ENOENT; return -1; }
  if (n->dir) { errno = EISDIR; return -1; }
  g_fs.erase(x); g_fs[y] = n;
  return 0;
}
DIR* sim_opendir(const char* p) {
  point(nullptr, true, PC);
  if (fault(F_OPENDIR)) { errno = EMFILE; return nullptr; }
  NodeP x = fs::find(norm(p));
  if (!x) { errno = ENOENT; return nullptr; }
  if (!x->dir) { errno = ENOTDIR; return nullptr; }
  Dir* d = new Dir; d->path = p;
  d->names.push_back("."); d->names.push_back("..");
  for (auto& s : fs::list(p)) d->names.push_back(s);
  // directory order is arbitrary: rotate and maybe reverse
  size_t r = pick((uint32_t)d->names.size());
  std::rotate(d->names.begin(), d->names.begin() + r, d->names.end());
  if (pick(2)) std::reverse(d->names.begin(), d->names.end());
  d->unknown = pick(4) == 1;   // a file system that does not tell the types
  g_dirs.insert(d); g_open_dirs++;
  return (DIR*)d;
}
struct dirent* sim_readdir(DIR* dd) {
  point(nullptr, true, PC);
  Dir* d = (Dir*)dd;
  if (!g_dirs.count(d) || !d->open) violation("use-after-close", "readdir on a closed directory stream");
  if (d->i >= d->names.size()) return nullptr;
  memset(&d->ent, 0, sizeof d->ent);
  const std::string& n = d->names[d->i++];
  snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", n.c_str());
  NodeP raw = fs::find_raw(resolve(norm(d->path + "/" + n), true));
  d->ent.d_type = d->unknown ? DT_UNKNOWN : raw && !raw->link.empty() ? DT_LNK : (n == "." || n == ".." || (raw && raw->dir)) ? DT_DIR : DT_REG;
  d->ent.d_ino = d->i;
  return &d->ent;
}
struct dirent* sim_readdir64(DIR* dd) { return sim_readdir(dd); }
void sim_rewinddir(DIR* dd) {
  point(nullptr, true, PC);
  Dir* d = (Dir*)dd;
  if (!g_dirs.count(d) || !d->open) violation("use-after-close", "rewinddir on a closed directory stream");
  d->i = 0;
}
int sim_closedir(DIR* dd) {
  point(nullptr, true, PC);
  Dir* d = (Dir*)dd;
  if (!g_dirs.count(d) || !d->open) violation("use-after-close", "closedir on a closed directory stream");
  d->open = false; g_open_dirs--;
  memset((void*)&d->ent, 0xDD, sizeof d->ent);
  return 0;
}
int sim_open(const char* p, int fl, ...) {
  point(nullptr, true, PC);
  if (fault(F_FOPEN)) { errno = EMFILE; return -1; }
  bool wr = (fl & O_ACCMODE) != O_RDONLY, created; std::string np;
  NodeP x = open_node(p, wr, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL, &created, &np);
  if (!x) return -1;
  if ((fl & O_TRUNC) && wr) x->data.clear();
  Fd f; f.open = true; f.node = x; f.wr = wr; f.rd = (fl & O_ACCMODE) != O_WRONLY; f.app = fl & O_APPEND;
  g_fds.push_back(f); g_open_fds++;
  return 1000 + (int)g_fds.size() - 1;
}
int sim_close(int fd) { point(nullptr, true, PC); Fd* f = fdp(fd); if (!f) { errno = EBADF; return -1; } f->open = false; if (!f->pipe) g_open_fds--; return 0; }
ssize_t sim_read(int fd, void* b, size_t n) {
  point(nullptr, true, PC);
  Fd* f = fdp(fd);
  if (!f) { errno = EBADF; return -1; }
  chk(b, n, true, "read");
  if (fault(F_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_READ)) { if (!f->err) f->eno = pick(3) ? EIO : EAGAIN; f->err = true; errno = f->eno; return -1; }
  std::string& d = f->pipe ? f->in : f->node->data;
  size_t left = d.size() > f->pos ? d.size() - f->pos : 0, m = std::min(n, left);
  if (m > 1 && fault(F_SHORTREAD)) m = 1 + pick((uint32_t)(m - 1));
  memcpy(b, d.data() + f->pos, m); f->pos += m;
  mix(g.hash, m);
  return (ssize_t)m;
}
ssize_t sim_write(int fd, const void* b, size_t n) {
  point(nullptr, true, PC);
  if (fd == 1) { g_out.append((const char*)b, n); return (ssize_t)n; }
  if (fd == 2) { g_err.append((const char*)b, n); return (ssize_t)n; }
  Fd* f = fdp(fd);
  if (!f) { errno = EBADF; return -1; }
  chk(b, n, false, "write");
  if (fault(F_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_WRITE)) { if (!f->err) { uint32_t k = pick(3); f->eno = k == 0 ? EIO : k == 1 ? ENOSPC : EAGAIN; } f->err = true; errno = f->eno; return -1; }
  size_t m = n;
  if (m > 1 && fault(F_SHORTWRITE)) m = 1 + pick((uint32_t)(m - 1));
  if (f->pipe) f->outd.append((const char*)b, m);
  else { if (f->app) f->pos = f->node->data.size(); if (f->node->data.size() < f->pos + m) f->node->data.resize(f->pos + m); f->node->data.replace(f->pos, m, (const char*)b, m); f->pos += m; }
  mix(g.hash, m);
  return (ssize_t)m;
}
int sim_open64(const char* p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_openat(int, const char* p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_creat(const char* p, mode_t) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { Fd* f = fdp(fd); if (!f || f->pipe) { errno = ESPIPE; return -1; } size_t k = f->pos; f->pos = (size_t)o; ssize_t r = sim_read(fd, b, n); fdp(fd)->pos = k; return r; }
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t o) { Fd* f = fdp(fd); if (!f || f->pipe) { errno = ESPIPE; return -1; } size_t k = f->pos; f->pos = (size_t)o; ssize_t r = sim_write(fd, b, n); fdp(fd)->pos = k; return r; }
ssize_t sim_readv(int fd, const struct iovec* v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec* v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_vdprintf(int fd, const char* fm, va_list ap) { char* t = nullptr; int n = vasprintf(&t, fm, ap); if (n < 0) return n; ssize_t r = sim_write(fd, t, (size_t)n); free(t); return (int)r; }
int sim_dprintf(int fd, const char* fm, ...) { va_list ap; va_start(ap, fm); int r = sim_vdprintf(fd, fm, ap); va_end(ap); return r; }
int sim_ftruncate(int fd, off_t n) { point(nullptr, true, PC); Fd* f = fdp(fd); if (!f || f->pipe) { errno = EINVAL; return -1; } if (fault(F_WRITE)) { errno = EIO; return -1; } f->node->data.resize((size_t)n, '\0'); return 0; }
int sim_truncate(const char* p, off_t n) { point(nullptr, true, PC); NodeP x = look(p); if (!x) return -1; if (x->dir) { errno = EISDIR; return -1; } x->data.resize((size_t)n, '\0'); return 0; }
FILE* sim_fdopen(int fd, const char* m) {
  point(nullptr, true, PC);
  Fd* f = fdp(fd); bool rd, wr, app, trunc, excl;
  if (!f || f->pipe || !parse_mode(m, rd, wr, app, trunc, excl)) { errno = EBADF; return nullptr; }
  Stream* s = new Stream; s->node = f->node; s->pos = f->pos; s->rd = rd; s->wr = wr; s->app = app; s->open = true;
  if (wr) { s->sess = (int)g_sess.size(); g_sess.push_back({"fd", 0, false, g.evseq, false, false, 0}); }
  g_open_fds--; g_open_streams++;
  FILE* o = mkfile(s, m); f->of = o; return o;
}
off_t sim_lseek64(int fd, off_t o, int w);
off_t sim_lseek(int fd, off_t o, int w) { Fd* f = fdp(fd); if (!f || f->pipe) { errno = ESPIPE; return -1; } int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->node->data.size(); f->pos = (size_t)(base + o); return (off_t)f->pos; }
int sim_fstat(int fd, struct stat* b) { Fd* f = fdp(fd); if (!f) { errno = EBADF; return -1; } memset(b, 0, sizeof *b); b->st_mode = f->pipe ? S_IFIFO | 0600 : f->node && f->node->dir ? S_IFDIR | 0755 : S_IFREG | 0644; b->st_size = f->node ? (off_t)f->node->size() : 0; return 0; }
int sim_fstat64(int fd, struct stat* b) { return sim_fstat(fd, b); }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
}
