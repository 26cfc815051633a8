#include "common.h"
#include <pthread.h>
extern "C" {
#include "thread/portable_thread.h"
}
#undef GETTID
#undef THREAD_SETNAME_FOR_CURRENT

namespace {
enum { O_LOCK, O_RD, O_WR, O_WAIT, O_POST, O_SLEEP, O_YIELD };
struct World {
  portable_mutex_t m = nullptr; portable_rwlock_t rw = nullptr; portable_sem_t s = nullptr;
  int in_m = 0, readers = 0, writers = 0;
  int64_t sem_init = 0, posts_inv = 0, posts_ret = 0, passed = 0, waiting = 0;
  uint64_t counter = 0, locked_ops = 0, wcounter = 0, wops = 0;
};
World* W;
struct Arg { int id; const std::vector<Op>* ops; bool started = false, ended = false; void* ret; int delay = 0; };

void hold(int n) { for (int i = 0; i < n; i++) yield(); }

void do_ops(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case O_LOCK: {
      int r = portable_mutex_lock(&W->m);
      SIM_CHECK(r == 0, "mutex-result", "portable_mutex_lock returned %d", r);
      W->in_m++;
      SIM_CHECK(W->in_m == 1, "mutex-exclusion", "%d threads hold the mutex", W->in_m);
      uint64_t v = W->counter; hold((int)o.a); W->counter = v + 1; W->locked_ops++;
      SIM_CHECK(W->in_m == 1, "mutex-exclusion", "%d threads hold the mutex", W->in_m);
      W->in_m--;
      r = portable_mutex_unlock(&W->m);
      SIM_CHECK(r == 0, "mutex-result", "portable_mutex_unlock returned %d", r);
      break;
    }
    case O_RD: {
      int r = portable_rwlock_rdlock(&W->rw);
      SIM_CHECK(r == 0, "rwlock-result", "portable_rwlock_rdlock returned %d", r);
      W->readers++;
      SIM_CHECK(W->writers == 0, "rwlock-exclusion", "a reader was admitted beside a writer");
      uint64_t v = W->wcounter; hold((int)o.a);
      SIM_CHECK(W->writers == 0 && v == W->wcounter, "rwlock-exclusion", "a writer was admitted beside a reader");
      W->readers--;
      r = portable_rwlock_unlock(&W->rw);
      SIM_CHECK(r == 0, "rwlock-result", "portable_rwlock_unlock returned %d", r);
      break;
    }
    case O_WR: {
      int r = portable_rwlock_wrlock(&W->rw);
      SIM_CHECK(r == 0, "rwlock-result", "portable_rwlock_wrlock returned %d", r);
      W->writers++;
      SIM_CHECK(W->writers == 1 && W->readers == 0, "rwlock-exclusion", "writer admitted beside %d writers, %d readers", W->writers - 1, W->readers);
      uint64_t v = W->wcounter; hold((int)o.a); W->wcounter = v + 1; W->wops++;
      SIM_CHECK(W->writers == 1 && W->readers == 0, "rwlock-exclusion", "writer held beside %d writers, %d readers", W->writers - 1, W->readers);
      W->writers--;
      r = portable_rwlock_unlock(&W->rw);
      SIM_CHECK(r == 0, "rwlock-result", "portable_rwlock_unlock returned %d", r);
      break;
    }
    case O_WAIT: {
      for (int tries = 0;; tries++) {
        uint64_t f0 = fault_fired(F_EINTR);
        int r = portable_sem_wait(&W->s);
        if (r == 0) break;
        SIM_CHECK(fault_fired(F_EINTR) > f0, "sem-result", "portable_sem_wait returned %d although nothing interrupted it", r);
      }
      W->passed++;
      SIM_CHECK(W->passed <= W->sem_init + W->posts_inv, "sem-count", "%lld waits were let through on initial value %lld with %lld posts",
                (long long)W->passed, (long long)W->sem_init, (long long)W->posts_inv);
      hold((int)o.a);
      break;
    }
    case O_POST: {
      W->posts_inv++;
      int r = portable_sem_post(&W->s);
      SIM_CHECK(r == 0, "sem-result", "portable_sem_post returned %d", r);
      W->posts_ret++;
      break;
    }
    case O_SLEEP: usleep_sim((uint64_t)o.a * 50); break;
    case O_YIELD: hold((int)o.a); break;
  }
}
void* thread_main(void* p) {
  Arg* a = (Arg*)p;
  SIM_CHECK(!a->started, "thread-argument", "thread body %d was started twice", a->id);
  a->started = true;
  do_ops(*a->ops);
  hold(a->delay);
  a->ended = true;
  return a->ret;
}
void gen_base(Rng& r, Plan& p) {
  if (r.chance(1, 2)) p.f[F_EINTR].rate = (uint32_t)r.pick({3000, 20000});
}
void sync_gen(Rng& r, Plan& p, RunCfg&) {
  int mode = (int)r.below(4), n = (int)r.range(2, 5);
  int64_t init = r.range(0, 3);
  p.t.resize(n);
  for (auto& t : p.t) {
    int k = (int)r.range(1, 6);
    for (int i = 0; i < k; i++) {
      Op o; o.a = r.range(0, 6);
      int x = mode == 3 ? (int)r.below(3) : mode;
      if (x == 0) o.k = O_LOCK;
      else if (x == 1) o.k = r.chance(2, 3) ? O_RD : O_WR;
      else { o.k = r.chance(1, 2) ? O_WAIT : O_POST; }
      if (r.chance(1, 6)) o.k = O_SLEEP, o.a = r.range(1, 9);
      t.push_back(o);
    }
  }
  p.p = {init, r.range(0, 3)};
  for (size_t i = 0; i < p.t.size(); i++) p.p.push_back(r.range(0, 12));
  gen_base(r, p);
}
void sync_run(const Plan& p) {
  World w; W = &w;
  w.sem_init = P(p, 0);
  SIM_CHECK(portable_mutex_init(&w.m, nullptr) == 0 && w.m, "init-result", "portable_mutex_init failed");
  SIM_CHECK(portable_rwlock_init(&w.rw, nullptr) == 0 && w.rw, "init-result", "portable_rwlock_init failed");
  SIM_CHECK(portable_sem_init(&w.s, 0, (unsigned)w.sem_init) == 0 && w.s, "init-result", "portable_sem_init failed");
  int v = -1;
  SIM_CHECK(portable_sem_getvalue(&w.s, &v) == 0 && v == w.sem_init, "sem-value", "semaphore made with %lld reports %d", (long long)w.sem_init, v);
  std::vector<portable_thread_t> th(p.t.size(), nullptr);
  std::vector<std::unique_ptr<Arg>> args;
  int64_t waits = 0;
  for (auto& t : p.t) for (auto& o : t) if (o.k == O_WAIT) waits++;
  for (size_t i = 0; i < p.t.size(); i++) {
    args.emplace_back(new Arg{(int)i, &p.t[i], false, false, (void*)(uintptr_t)(0x1000 + i * 8), (int)P(p, 2 + i)});
    portable_thread_attr_t at; memset(&at, 0, sizeof at);
    strcpy(at.name, "worker");
    int r = portable_thread_create(&th[i], i % 2 ? &at : nullptr, thread_main, args[i].get());
    SIM_CHECK(r == 0 && th[i], "create-result", "portable_thread_create returned %d", r);
  }
  settle(5000000);
  int64_t top = waits - w.passed;       // release every thread that is, or may get, stuck waiting
  for (int64_t i = 0; i < top; i++) { w.posts_inv++; SIM_CHECK(portable_sem_post(&w.s) == 0, "sem-result", "portable_sem_post failed"); }
  for (size_t k = 0; k < th.size(); k++) {
    size_t i = P(p, 1) == 1 ? th.size() - 1 - k : k;
    void* ret = (void*)1;
    if (P(p, 1) == 2 && k == 0) {
      int r = portable_thread_join(th[i], nullptr);
      SIM_CHECK(r == 0 && args[i]->ended, "join-early", "portable_thread_join returned %d, thread ended: %d", r, args[i]->ended);
      continue;
    }
    int r = portable_thread_join(th[i], &ret);
    SIM_CHECK(r == 0, "join-result", "portable_thread_join returned %d", r);
    SIM_CHECK(args[i]->ended, "join-early", "portable_thread_join returned before the thread ended");
    SIM_CHECK(ret == args[i]->ret, "join-value", "portable_thread_join delivered %p instead of %p", ret, args[i]->ret);
  }
  SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "join-early", "threads remain after joining all");
  SIM_CHECK(w.counter == w.locked_ops && w.wcounter == w.wops, "mutex-exclusion", "updates made under the lock were lost");
  int64_t expect = w.sem_init + w.posts_ret + top - w.passed;
  SIM_CHECK(portable_sem_getvalue(&w.s, &v) == 0 && v == expect, "sem-value", "semaphore value is %d, expected %lld", v, (long long)expect);
  SIM_CHECK(portable_mutex_destroy(&w.m) == 0, "destroy-result", "portable_mutex_destroy failed");
  SIM_CHECK(portable_rwlock_destroy(&w.rw) == 0, "destroy-result", "portable_rwlock_destroy failed");
  SIM_CHECK(portable_sem_destroy(&w.s) == 0, "destroy-result", "portable_sem_destroy failed");
  check_no_leaks("after destroying everything");
}
// names and thread numbers: p: threads, pairs (name length in the attribute, name length set by the thread itself; 0 none)
extern "C" int sim_pthread_getname_np(pthread_t, char*, size_t);
extern "C" pthread_t sim_pthread_self();
struct Named { int id; std::string want, mine; std::string seen_a, seen_b; unsigned long tid = 0, tid2 = 0; bool go = false, gone = false; int ret = 0, ret_null = 0, ret_empty = 0; };
std::string own_name() { char b[16] = "?"; sim_pthread_getname_np(sim_pthread_self(), b, sizeof b); return b; }
std::string mkname(int id, int64_t n) { std::string s = "n" + std::to_string(id) + "-abcdefghijklmnop"; return s.substr(0, (size_t)std::min<int64_t>(n < 1 ? 0 : n + 2, 15)); }
void* named_main(void* a) {
  Named* n = (Named*)a; n->tid = portable_thread_gettid();
  while (!n->go) yield();
  n->seen_a = own_name();
  n->ret_null = portable_thread_set_current_name(nullptr); n->ret_empty = portable_thread_set_current_name("");
  SIM_CHECK(own_name() == n->seen_a, "name", "setting no name changed the name");
  if (!n->mine.empty()) { char* b = (char*)halloc(n->mine.size() + 1); memcpy(b, n->mine.c_str(), n->mine.size() + 1); n->ret = portable_thread_set_current_name(b); hfree(b); }
  yield(); n->seen_b = own_name(); n->tid2 = portable_thread_gettid();
  return nullptr;
}
void names_gen(Rng& r, Plan& p, RunCfg&) { int n = (int)r.range(1, 4); p.p = {n}; for (int i = 0; i < n; i++) { p.p.push_back(r.pick({0, 1, 5, 13})); p.p.push_back(r.pick({0, 1, 6, 13})); } }
void names_run(const Plan& p) {
  int n = (int)std::min<int64_t>(std::max<int64_t>(P(p, 0), 1), 6); std::vector<std::unique_ptr<Named>> a; std::vector<portable_thread_t> th((size_t)n); std::string base = own_name();
  for (int i = 0; i < n; i++) {
    a.emplace_back(new Named{i, mkname(i, P(p, 1 + 2 * (size_t)i)), mkname(10 + i, P(p, 2 + 2 * (size_t)i)), "", ""});
    portable_thread_attr_t at; memset(&at, 0, sizeof at); strcpy(at.name, a.back()->want.c_str());
    SIM_CHECK(portable_thread_create(&th[(size_t)i], &at, named_main, a.back().get()) == 0, "create-result", "portable_thread_create failed");
    a.back()->go = true;
  }
  for (int i = 0; i < n; i++) SIM_CHECK(portable_thread_join(th[(size_t)i], nullptr) == 0, "join-result", "portable_thread_join failed");
  for (int i = 0; i < n; i++) {
    Named& x = *a[(size_t)i]; std::string w = x.want.empty() ? base : x.want, w2 = x.mine.empty() ? w : x.mine;
    SIM_CHECK(x.seen_a == w, "name", "a thread created with the name \"%s\" is called \"%s\"", x.want.c_str(), x.seen_a.c_str());
    SIM_CHECK(x.seen_b == w2 && x.ret == 0, "name", "a thread that named itself \"%s\" (%d) is called \"%s\"", x.mine.c_str(), x.ret, x.seen_b.c_str());
    SIM_CHECK(x.ret_null != 0 && x.ret_empty != 0, "name", "an empty or missing name was accepted");
    SIM_CHECK(x.tid == x.tid2 && x.tid != portable_thread_gettid(), "tid", "the number of a thread changed or is that of another");
    for (int k = 0; k < i; k++) SIM_CHECK(a[(size_t)k]->tid != x.tid, "tid", "two threads have the number %lu", x.tid);
  }
  SIM_CHECK(own_name() == base, "name", "the name of the creating thread changed to \"%s\"", own_name().c_str());
  check_no_leaks("after joining");
}
// readers must be able to hold the lock together
void readers_gen(Rng& r, Plan& p, RunCfg&) { p.p = {r.range(2, 5), r.range(0, 8)}; }
void readers_run(const Plan& p) {
  World w; W = &w;
  int n = (int)P(p, 0), in = 0;
  SIM_CHECK(portable_rwlock_init(&w.rw, nullptr) == 0, "init-result", "portable_rwlock_init failed");
  for (int i = 0; i < n; i++) spawn("reader", [&] {
    hold((int)P(p, 1));
    SIM_CHECK(portable_rwlock_rdlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_rdlock failed");
    in++;
    SIM_CHECK(wait_until([&] { return in == n; }, 20000), "rwlock-shared", "only %d of %d readers got in together", in, n);
    SIM_CHECK(portable_rwlock_unlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_unlock failed");
  });
  join_all_clients();
  SIM_CHECK(portable_rwlock_wrlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_wrlock failed");
  SIM_CHECK(portable_rwlock_unlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_unlock failed");
  SIM_CHECK(portable_rwlock_destroy(&w.rw) == 0, "destroy-result", "portable_rwlock_destroy failed");
  check_no_leaks("after destroying the rwlock");
}
// many threads after one another and together, large semaphore values
// p: threads one after another, readers together, initial value, posts
void many_gen(Rng& r, Plan& p, RunCfg& c) { c.max_steps = 4000000; p.p = {r.range(1, 400), r.range(1, 200), r.pick({0, 1, 255, 65535, 65536, 0x7ffffff0}) + r.range(0, 3), r.chance(1, 3) ? 66000 : r.range(1, 600)}; if (p.p[2] > 0x70000000) p.p[3] = 5; }
void* echo_main(void* p) { yield(); return p; }
void many_run(const Plan& p) {
  World w; W = &w; int64_t init = std::min<int64_t>(std::max<int64_t>(P(p, 2), 0), 0x7ffffff8), posts = std::min<int64_t>(std::max<int64_t>(P(p, 3), 1), 70000), waits = std::min<int64_t>(init + posts, posts * 2); if (init > 0x70000000) posts = std::min<int64_t>(posts, 5); int v;
  SIM_CHECK(portable_sem_init(&w.s, 0, (unsigned)init) == 0 && portable_sem_getvalue(&w.s, &v) == 0 && v == init, "sem-value", "semaphore made with %lld", (long long)init);
  for (int64_t i = 1; i <= posts; i++) { SIM_CHECK(portable_sem_post(&w.s) == 0, "sem-result", "post %lld failed", (long long)i); if (i % 97 == 0 || i == posts) SIM_CHECK(portable_sem_getvalue(&w.s, &v) == 0 && v == init + i, "sem-value", "the value is %d after %lld posts on %lld", v, (long long)i, (long long)init); }
  waits = std::min<int64_t>(init + posts, posts * 2);
  for (int64_t i = 0; i < waits; i++) SIM_CHECK(portable_sem_wait(&w.s) == 0, "sem-result", "wait %lld failed", (long long)i);
  SIM_CHECK(portable_sem_getvalue(&w.s, &v) == 0 && v == init + posts - waits, "sem-value", "the value is %d, expected %lld", v, (long long)(init + posts - waits));
  SIM_CHECK(portable_sem_destroy(&w.s) == 0, "destroy-result", "portable_sem_destroy failed");
  for (int64_t i = 0; i < P(p, 0) && i < 500; i++) { portable_thread_t t = nullptr; void* ret = nullptr; SIM_CHECK(portable_thread_create(&t, nullptr, echo_main, (void*)(uintptr_t)(i + 5)) == 0 && t, "create-result", "creating thread %lld failed", (long long)i); SIM_CHECK(portable_thread_join(t, &ret) == 0 && ret == (void*)(uintptr_t)(i + 5), "join-value", "thread %lld delivered %p", (long long)i, ret); }
  check_no_leaks("after many threads");
}
// failures and bad handles
void* quick(void* p) { return p; }
void fault_gen(Rng& r, Plan& p, RunCfg&) {
  p.t.resize(1);
  int n = (int)r.range(3, 14);
  for (int i = 0; i < n; i++) p.t[0].push_back({r.range(0, 5), r.range(0, 5), r.range(0, 4)});
  draw_fault(r, p, F_MALLOC, 8); draw_fault(r, p, F_SYNCINIT, 8); draw_fault(r, p, F_THREAD, 4);
}
void fault_run(const Plan& p) {
  for (auto& o : p.t[0]) {
    uint64_t f0 = fault_fired(F_MALLOC) + fault_fired(F_SYNCINIT) + fault_fired(F_THREAD);
    auto failed = [&] { return fault_fired(F_MALLOC) + fault_fired(F_SYNCINIT) + fault_fired(F_THREAD) > f0; };
    auto chk = [&](const char* what, int r, void* h) {
      note("%s -> %d", what, r);
      if (failed()) SIM_CHECK(r != 0 && !h, "failure-hidden", "%s reported %d (handle %s) although it failed inside", what, r, h ? "set" : "NULL");
      else SIM_CHECK(r == 0 && h, "spurious-failure", "%s reported %d although nothing failed", what, r);
    };
    switch (o.k) {
      case 0: {
        portable_mutex_t m = (void*)0x10; int r = portable_mutex_init(&m, nullptr); chk("portable_mutex_init", r, m);
        bool ok = r == 0;
        r = portable_mutex_lock(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "lock gave %d on %s mutex", r, ok ? "a valid" : "an uninitialised");
        r = portable_mutex_unlock(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "unlock gave %d on %s mutex", r, ok ? "a valid" : "an uninitialised");
        r = portable_mutex_destroy(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "destroy gave %d on %s mutex", r, ok ? "a valid" : "an uninitialised");
        if (ok) {
          SIM_CHECK(portable_mutex_lock(&m) != 0 && portable_mutex_unlock(&m) != 0 && portable_mutex_destroy(&m) != 0, "bad-handle", "a destroyed mutex was accepted");
        }
        break;
      }
      case 1: {
        portable_rwlock_t m = (void*)0x10; int r = portable_rwlock_init(&m, nullptr); chk("portable_rwlock_init", r, m);
        bool ok = r == 0;
        for (int w = 0; w < 2; w++) {
          r = w ? portable_rwlock_wrlock(&m) : portable_rwlock_rdlock(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "rwlock lock gave %d, valid %d", r, ok);
          r = portable_rwlock_unlock(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "rwlock unlock gave %d, valid %d", r, ok);
        }
        r = portable_rwlock_destroy(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "rwlock destroy gave %d, valid %d", r, ok);
        if (ok) SIM_CHECK(portable_rwlock_rdlock(&m) != 0 && portable_rwlock_wrlock(&m) != 0 && portable_rwlock_unlock(&m) != 0 && portable_rwlock_destroy(&m) != 0, "bad-handle", "a destroyed rwlock was accepted");
        break;
      }
      case 2: {
        portable_sem_t m = (void*)0x10; int r = portable_sem_init(&m, 0, (unsigned)o.a); chk("portable_sem_init", r, m);
        bool ok = r == 0; int v = -7;
        r = portable_sem_post(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "sem post gave %d, valid %d", r, ok);
        r = portable_sem_getvalue(&m, &v); SIM_CHECK((r == 0) == ok && (!ok || v == o.a + 1), "bad-handle", "sem getvalue gave %d value %d, valid %d", r, v, ok);
        r = portable_sem_wait(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "sem wait gave %d, valid %d", r, ok);
        r = portable_sem_destroy(&m); SIM_CHECK((r == 0) == ok, "bad-handle", "sem destroy gave %d, valid %d", r, ok);
        if (ok) SIM_CHECK(portable_sem_post(&m) != 0 && portable_sem_wait(&m) != 0 && portable_sem_getvalue(&m, &v) != 0 && portable_sem_destroy(&m) != 0, "bad-handle", "a destroyed semaphore was accepted");
        break;
      }
      case 3: {
        portable_thread_t t = (void*)0x10; portable_thread_attr_t at; memset(&at, 0, sizeof at); strcpy(at.name, "n");
        int r = portable_thread_create(&t, o.a & 1 ? &at : nullptr, quick, (void*)&o); chk("portable_thread_create", r, t);
        void* ret = nullptr; bool ok = r == 0;
        r = portable_thread_join(t, &ret);
        SIM_CHECK((r == 0) == ok && (!ok || ret == (void*)&o), "bad-handle", "join gave %d value %p, valid %d", r, ret, ok);
        break;
      }
      case 4: {
        int v; void* ret;
        SIM_CHECK(portable_mutex_init(nullptr, nullptr) && portable_mutex_lock(nullptr) && portable_mutex_unlock(nullptr) && portable_mutex_destroy(nullptr), "bad-handle", "NULL mutex accepted");
        SIM_CHECK(portable_rwlock_init(nullptr, nullptr) && portable_rwlock_rdlock(nullptr) && portable_rwlock_wrlock(nullptr) && portable_rwlock_unlock(nullptr) && portable_rwlock_destroy(nullptr), "bad-handle", "NULL rwlock accepted");
        SIM_CHECK(portable_sem_init(nullptr, 0, 1) && portable_sem_wait(nullptr) && portable_sem_post(nullptr) && portable_sem_getvalue(nullptr, &v) && portable_sem_destroy(nullptr), "bad-handle", "NULL semaphore accepted");
        portable_thread_t t = nullptr;
        SIM_CHECK(portable_thread_create(nullptr, nullptr, quick, nullptr) && portable_thread_create(&t, nullptr, nullptr, nullptr) && portable_thread_join(nullptr, &ret), "bad-handle", "NULL thread arguments accepted");
        break;
      }
      default: yield();
    }
    check_no_leaks("after a create/destroy round");
  }
  settle(1000000);
  SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "thread-left", "threads left behind");
}
// attributes handed to the creating calls: p: kind of mutex (0 recursive, 1 error checking, 2 none), depth, holders, detached
struct Held { portable_sem_t s = nullptr; bool done = false; };
void* until_posted(void* a) { Held* h = (Held*)a; SIM_CHECK(portable_sem_wait(&h->s) == 0, "sem-result", "portable_sem_wait failed"); h->done = true; return a; }
void attr_gen(Rng& r, Plan& p, RunCfg&) { p.p = {r.range(0, 2), r.range(1, 4), r.range(1, 4), r.range(0, 1), r.range(0, 4)}; }
void attr_run(const Plan& p) {
  World w; W = &w; int kind = (int)((P(p, 0) % 3 + 3) % 3), depth = (int)std::min<int64_t>(std::max<int64_t>(P(p, 1), 1), 8), n = (int)std::min<int64_t>(std::max<int64_t>(P(p, 2), 1), 8);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); if (kind < 2) pthread_mutexattr_settype(&ma, kind ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_RECURSIVE);
  SIM_CHECK(portable_mutex_init(&w.m, &ma) == 0, "init-result", "portable_mutex_init with attributes failed"); pthread_mutexattr_destroy(&ma);
  for (int i = 0; i < n; i++) spawn("holder", [&] {
    int d = kind == 0 ? depth : 1;
    if (kind == 1) SIM_CHECK(w.in_m || portable_mutex_unlock(&w.m) != 0, "attr", "an error checking mutex was unlocked by a thread that does not hold it");
    for (int k = 0; k < d; k++) { SIM_CHECK(portable_mutex_lock(&w.m) == 0, "attr", "lock %d of a recursive mutex failed", k + 1); if (k == 0) w.in_m++; SIM_CHECK(w.in_m == 1, "mutex-exclusion", "%d threads hold the mutex", w.in_m); hold((int)P(p, 4)); }
    if (kind == 1) SIM_CHECK(portable_mutex_lock(&w.m) != 0, "attr", "an error checking mutex was locked twice by one thread");
    for (int k = d; k--;) { hold((int)P(p, 4)); SIM_CHECK(w.in_m == 1, "mutex-exclusion", "%d threads hold the mutex after %d of %d unlocks", w.in_m, d - k - 1, d); if (k == 0) w.in_m--; SIM_CHECK(portable_mutex_unlock(&w.m) == 0, "attr", "unlock %d of %d failed", d - k, d); }
    if (kind == 1) SIM_CHECK(w.in_m || portable_mutex_unlock(&w.m) != 0, "attr", "an error checking mutex was unlocked twice");
  });
  join_all_clients();
  SIM_CHECK(portable_mutex_destroy(&w.m) == 0, "destroy-result", "portable_mutex_destroy failed");
  // a lock that prefers writers lets a waiting writer go before any new reader
  pthread_rwlockattr_t ra; pthread_rwlockattr_init(&ra); pthread_rwlockattr_setkind_np(&ra, PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP);
  SIM_CHECK(portable_rwlock_init(&w.rw, &ra) == 0, "init-result", "portable_rwlock_init with attributes failed"); pthread_rwlockattr_destroy(&ra);
  bool wrote = false, asked = false; SIM_CHECK(portable_rwlock_rdlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_rdlock failed");
  spawn("writer", [&] { asked = true; SIM_CHECK(portable_rwlock_wrlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_wrlock failed"); wrote = true; SIM_CHECK(portable_rwlock_unlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_unlock failed"); });
  SIM_CHECK(wait_until([&] { return asked; }, 20000), "lost-thread", "the writer never ran"); settle(1000000000);
  for (int i = 0; i < n; i++) spawn("reader", [&] { SIM_CHECK(portable_rwlock_rdlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_rdlock failed"); SIM_CHECK(wrote, "attr", "a reader went before a waiting writer although the lock prefers writers"); hold((int)P(p, 4)); SIM_CHECK(portable_rwlock_unlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_unlock failed"); });
  hold((int)P(p, 4)); SIM_CHECK(!wrote && portable_rwlock_unlock(&w.rw) == 0, "rwlock-result", "portable_rwlock_unlock failed");
  join_all_clients(); SIM_CHECK(portable_rwlock_destroy(&w.rw) == 0, "destroy-result", "portable_rwlock_destroy failed");
  // a detached thread cannot be joined: the call returns at once, and releases the handle
  bool detached = P(p, 3) & 1; pthread_attr_t pa; pthread_attr_init(&pa); pthread_attr_setdetachstate(&pa, detached ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE);
  portable_thread_attr_t at; memset(&at, 0, sizeof at); at.platform_attr = &pa; if (depth & 1) strcpy(at.name, "attr");
  Held h; SIM_CHECK(portable_sem_init(&h.s, 0, detached ? 0 : 1) == 0, "init-result", "portable_sem_init failed"); portable_thread_t t = nullptr; void* ret = nullptr;
  SIM_CHECK(portable_thread_create(&t, &at, until_posted, &h) == 0 && t, "create-result", "portable_thread_create with attributes failed");
  int j = portable_thread_join(t, &ret);
  if (detached) { SIM_CHECK(j != 0 && !h.done, "attr", "a detached thread was joined (%d)", j); SIM_CHECK(portable_sem_post(&h.s) == 0, "sem-result", "portable_sem_post failed"); SIM_CHECK(wait_until([&] { return h.done; }, 20000), "lost-thread", "the detached thread never ran"); settle(1000000); }
  else SIM_CHECK(j == 0 && ret == &h && h.done, "join-value", "join gave %d and %p", j, ret);
  pthread_attr_destroy(&pa);
  SIM_CHECK(portable_sem_destroy(&h.s) == 0, "destroy-result", "portable_sem_destroy failed");
  SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "thread-left", "threads left behind");
  check_no_leaks("after using attributes");
}
Reg r1({"S01", {{"sync", sync_gen, sync_run}, {"readers", readers_gen, readers_run}, {"faults", fault_gen, fault_run}, {"names", names_gen, names_run}, {"attributes", attr_gen, attr_run}, {"scale", many_gen, many_run, 32}},
  "src/thread/portable_thread_posix.c (real, instrumented)",
  "pthread mutex/rwlock/create/join, semaphores, malloc/free (simulated)"});
}
