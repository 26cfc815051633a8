#include "common.h"
extern "C" {
#include "thread/thpool.h"
}

namespace {
void no_residue() { check_no_leaks("after thpool_destroy"); SIM_CHECK(unjoined_threads() == 0, "thread-left", "%d finished workers keep their resources, neither joined nor detached", unjoined_threads()); }
struct Job {
  int id = 0, dur = 0, nest = 0, client = 0;
  uint64_t inv = 0, ret = 0, start = 0, end = 0; int runs = 0; bool accepted = false, refused = false;
};
struct World {
  threadpool pool = nullptr;
  std::vector<std::unique_ptr<Job>> jobs;
  int nthreads = 0, running = 0, maxrun = 0;
  uint64_t progress = 0;
  bool destroyed = false;
  bool check_refused = true;
  int done_gate = 0; bool gate = false;
};
World* W;
int add_job(int client, int dur, int nest);

void job_fn(void* arg) {
  Job* j = (Job*)arg;
  bool known = false;
  for (auto& x : W->jobs) if (x.get() == j) known = true;
  SIM_CHECK(known, "job-argument", "a job ran with an argument that was never added");
  SIM_CHECK(!W->destroyed, "job-after-destroy", "job %d started after thpool_destroy returned", j->id);
  SIM_CHECK(!j->refused, "refused-job-ran", "job %d ran although thpool_add_work reported failure", j->id);
  j->runs++;
  SIM_CHECK(j->runs == 1, "job-twice", "job %d was run %d times", j->id, j->runs);
  j->start = seq();
  W->running++;
  if (W->running > W->maxrun) W->maxrun = W->running;
  SIM_CHECK(W->running <= W->nthreads, "too-many-running", "%d jobs run at once on a pool of %d threads", W->running, W->nthreads);
  note("start job %d", j->id);
  for (int i = 0; i < j->nest; i++) add_job(j->client + 100, 1, 0);
  int d = j->dur;
  if (d < 20) for (int i = 0; i < d; i++) { yield(); W->progress++; }
  else usleep_sim((uint64_t)d * 100);
  W->progress++;
  int w = thpool_num_threads_working(W->pool);
  SIM_CHECK(w >= 1 && w <= W->nthreads, "working-count", "thpool_num_threads_working is %d while a job runs on a pool of %d", w, W->nthreads);
  W->running--;
  j->end = seq();
  note("end job %d", j->id);
}

int add_job(int client, int dur, int nest) {
  W->jobs.emplace_back(new Job);
  Job* j = W->jobs.back().get();
  j->id = (int)W->jobs.size() - 1; j->dur = dur; j->nest = nest; j->client = client;
  j->inv = seq();
  int r = thpool_add_work(W->pool, job_fn, j);
  j->ret = seq();
  if (r == 0) j->accepted = true;
  else { j->refused = true; SIM_CHECK(j->runs == 0, "refused-job-ran", "job %d ran although thpool_add_work reported failure", j->id); }
  note("add job %d by %d -> %d", j->id, client, r);
  return r;
}
void do_wait() {
  uint64_t inv = seq();
  note("wait");
  thpool_wait(W->pool);
  note("waited");
  for (auto& j : W->jobs)
    if (j->accepted && j->ret && j->ret < inv)
      SIM_CHECK(j->end != 0, "wait-early", "thpool_wait returned while job %d, accepted before the call, was %s", j->id, j->start ? "still running" : "not started");
}
void check_working() {
  int w = thpool_num_threads_working(W->pool);
  SIM_CHECK(w >= 0 && w <= W->nthreads, "working-count", "thpool_num_threads_working returned %d on a pool of %d threads", w, W->nthreads);
}
void final_checks(bool all_ran) {
  for (auto& j : W->jobs) {
    if (all_ran && j->accepted) SIM_CHECK(j->runs == 1 && j->end, "job-lost", "accepted job %d was run %d times", j->id, j->runs);
    if (j->refused) SIM_CHECK(j->runs == 0, "refused-job-ran", "refused job %d was run", j->id);
  }
  if (W->nthreads == 1)
    for (auto& x : W->jobs) for (auto& y : W->jobs)
      if (x->accepted && y->accepted && x->start && y->start && x->ret < y->inv)
        SIM_CHECK(x->start < y->start, "order", "job %d was added before job %d but started after it", x->id, y->id);
}
void client_ops(int c, const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 0: add_job(c, (int)o.a, (int)o.b); break;
    case 1: do_wait(); break;
    case 2: check_working(); break;
    case 3: for (int i = 0; i < o.a; i++) yield(); break;
    case 4: usleep_sim((uint64_t)o.a * 100); break;
  }
}
void gen_ops(Rng& r, Plan& p, int clients, int maxops, bool waits) {
  p.t.resize(clients);
  for (auto& t : p.t) {
    int n = (int)r.range(1, maxops);
    for (int i = 0; i < n; i++) {
      Op o;
      int k = (int)r.below(12);
      if (k < 8) { o.k = 0; o.a = r.pick({0, 0, 1, 2, 5, 12, 25}); o.b = r.chance(1, 5) ? r.range(1, 2) : 0; }
      else if (k == 8 && waits) o.k = 1;
      else if (k == 9) o.k = 2;
      else if (k == 10) { o.k = 4; o.a = r.range(1, 40); }
      else { o.k = 3; o.a = r.range(1, 8); }
      t.push_back(o);
    }
  }
}
void base_faults(Rng& r, Plan& p) {
  if (r.chance(1, 3)) p.f[F_SPURIOUS].rate = (uint32_t)r.pick({2000, 10000});
  if (r.chance(1, 4)) p.f[F_CLOCK].rate = (uint32_t)r.pick({500, 8000});
}
void make_pool(int n) {
  W->nthreads = n;
  W->pool = thpool_init(n);
  SIM_CHECK(W->pool, "init-failed", "thpool_init(%d) returned NULL without any failure", n);
  note("pool of %d", n);
}

// ---- T01
void t01_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(1, 4), r.range(0, 2)};
  gen_ops(r, p, (int)r.range(1, 3), 7, true);
  base_faults(r, p);
}
void t01_run(const Plan& p) {
  World w; W = &w;
  make_pool((int)P(p, 0));
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { client_ops((int)i, p.t[i]); });
  join_all_clients();
  do_wait();
  final_checks(true);
  check_working();
  thpool_destroy(w.pool);
  w.destroyed = true;
  final_checks(true);
  no_residue();
}

// ---- T02
void t02w_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(1, 4), r.range(2, 5)};
  gen_ops(r, p, (int)r.range(1, 2), 5, false);
  base_faults(r, p);
}
void t02w_run(const Plan& p) {       // several waiters at once
  World w; W = &w;
  make_pool((int)P(p, 0));
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { client_ops((int)i, p.t[i]); });
  for (int i = 0; i < P(p, 1); i++) spawn("waiter", [&] { do_wait(); });
  join_all_clients();
  do_wait();
  final_checks(true);
  thpool_destroy(w.pool);
  w.destroyed = true;
  no_residue();
}
void t02d_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(0, 4), r.range(0, 60), r.range(1, 3)};
  gen_ops(r, p, 1, 8, false);
  for (auto& o : p.t[0]) if (o.k == 0 && r.chance(1, 3)) o.a = r.range(20, 40000);
  base_faults(r, p);
}
void t02d_run(const Plan& p) {       // destroy with jobs queued, running, or idle
  World w; W = &w;
  for (int round = 0; round < P(p, 2); round++) {
    w.destroyed = false;
    w.jobs.clear();
    make_pool((int)P(p, 0));
    client_ops(0, p.t[0]);
    for (int i = 0; i < P(p, 1); i++) yield();
    note("destroy");
    thpool_destroy(w.pool);
    w.destroyed = true;
    note("destroyed");
    for (auto& j : w.jobs)
      SIM_CHECK(!j->start || j->end, "destroy-early", "thpool_destroy returned while job %d was still running", j->id);
    final_checks(false);
    no_residue();
    if (P(p, 1) & 1) { settle(3000000000ull); SIM_CHECK(live_threads() == 0, "worker-left", "%d worker threads remain after thpool_destroy", live_threads()); }
  }
  settle(3000000000ull);
  SIM_CHECK(live_threads() == 0, "worker-left", "%d worker threads remain after thpool_destroy", live_threads());
}

// ---- T03
void t03_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(1, 3), 0};
  gen_ops(r, p, (int)r.range(1, 2), 5, false);
  for (auto& t : p.t) for (auto& o : t) if (o.k == 0 && r.chance(1, 3)) o.a = r.range(20, 20000);
  std::vector<Op> ctl;
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; i++) {
    ctl.push_back({3, r.range(0, 40)});
    ctl.push_back({10, r.pick({0, 0, 1, 2, 3}), r.range(0, 3), r.range(0, 30)});
  }
  p.t.push_back(ctl);
}
void dummy_job(void*) {}
void t03_run(const Plan& p) {
  World w; W = &w;
  make_pool((int)P(p, 0));
  size_t nc = p.t.size() - 1;
  for (size_t i = 0; i < nc; i++) spawn("client", [&, i] { client_ops((int)i, p.t[i]); });
  for (auto& o : p.t[nc]) {
    if (o.k == 3) { for (int i = 0; i < o.a; i++) yield(); continue; }
    if (o.k != 10) continue;
    note("pause");
    thpool_pause(w.pool);
    if (o.a == 1) thpool_pause(w.pool);
    if (o.a == 2) { for (int i = 0; i < o.c; i++) yield(); }      // resume very soon: no quiet check
    else {
      for (int i = 0; i < o.b; i++) add_job(50, 3, 0);           // adding work must not block
      settle(200000000ull);
      uint64_t before = w.progress; int run0 = 0;
      for (auto& j : w.jobs) run0 += j->runs;
      if (o.a == 3) {
        threadpool q = thpool_init(1);
        SIM_CHECK(q, "init-failed", "thpool_init(1) failed");
        thpool_add_work(q, dummy_job, nullptr);
        thpool_wait(q);
        thpool_destroy(q);
      }
      usleep_sim(2500000);
      int run1 = 0;
      for (auto& j : w.jobs) run1 += j->runs;
      SIM_CHECK(w.progress == before && run0 == run1, "ran-while-paused", "workers made progress on jobs while the pool was paused (%llu -> %llu steps, %d -> %d starts)",
                (unsigned long long)before, (unsigned long long)w.progress, run0, run1);
    }
    note("resume");
    thpool_resume(w.pool);
  }
  join_all_clients();
  do_wait();
  final_checks(true);
  thpool_destroy(w.pool);
  w.destroyed = true;
  no_residue();
}

// ---- T04
void t04_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(1, 5), r.range(0, 6)};
  gen_ops(r, p, (int)r.range(1, 2), 5, true);
  int m = (int)r.below(4);
  if (m == 0) draw_fault(r, p, F_MALLOC, 8, 0, 1);
  else if (m == 1) draw_fault(r, p, F_THREAD, 4, 0, 1);
  else if (m == 2) { draw_fault(r, p, F_MALLOC, 8, 0, 1); draw_fault(r, p, F_THREAD, 4, 0, 1); }
  else p.f[F_MALLOC].rate = 1000;
}
void t04_run(const Plan& p) {
  World w; W = &w;
  int n = (int)P(p, 0);
  w.nthreads = n;
  for (int attempt = 0; attempt < 3 && !w.pool; attempt++) {
    if (attempt == 2) faults(false);
    uint64_t f0 = fault_fired(F_MALLOC) + fault_fired(F_THREAD);
    int c0 = created_threads();
    w.pool = thpool_init(n);
    uint64_t f1 = fault_fired(F_MALLOC) + fault_fired(F_THREAD);
    note("thpool_init(%d) -> %s, %d faults", n, w.pool ? "pool" : "NULL", (int)(f1 - f0));
    if (!w.pool) {
      SIM_CHECK(f1 > f0, "init-failed", "thpool_init returned NULL although nothing failed");
      check_no_leaks("after thpool_init returned NULL");
      settle(3000000000ull);
      SIM_CHECK(live_threads() == 0, "worker-left", "%d worker threads left behind by a failed thpool_init", live_threads());
      continue;
    }
    SIM_CHECK(f1 == f0, "partial-pool", "thpool_init returned a pool although an allocation or thread creation failed");
    SIM_CHECK(created_threads() - c0 == n, "partial-pool", "pool of %d threads created %d threads", n, created_threads() - c0);
  }
  for (size_t i = 0; i < p.t.size(); i++) spawn("client", [&, i] { client_ops((int)i, p.t[i]); });
  join_all_clients();
  SIM_CHECK(thpool_add_work(w.pool, nullptr, &w) != 0, "no-function", "thpool_add_work accepted a job without a function");
  do_wait();
  final_checks(true);
  thpool_destroy(w.pool);
  w.destroyed = true;
  no_residue();
}

// ---- scale: many workers, long queues (counters that are too narrow, growth that is never reached by short runs)
struct Big { threadpool pool; std::vector<uint8_t> ran; int64_t gates = 0, started = 0, last = -1, in = 0; int n = 0; bool open = false, over = false, order = true; };
Big* BG;
void big_job(void* a) {
  int64_t id = (uint8_t*)a - BG->ran.data();
  SIM_CHECK(id >= 0 && id < (int64_t)BG->ran.size(), "job-argument", "a job ran with an argument that was never added");
  SIM_CHECK(!BG->over, "job-after-destroy", "job %lld started after thpool_destroy returned", (long long)id);
  SIM_CHECK(!*(uint8_t*)a, "job-twice", "job %lld was run again", (long long)id);
  *(uint8_t*)a = 1; BG->in++;
  SIM_CHECK(BG->in <= BG->n, "too-many-running", "%lld jobs run at once on a pool of %d threads", (long long)BG->in, BG->n);
  if (BG->n == 1) { SIM_CHECK(id == BG->last + 1, "order", "job %lld started after job %lld", (long long)id, (long long)BG->last); BG->last = id; }
  if (id < BG->gates) { BG->started++; while (!BG->open) usleep_sim(700000); }
  int w = thpool_num_threads_working(BG->pool);
  SIM_CHECK(w >= 1 && w <= BG->n, "working-count", "thpool_num_threads_working is %d while a job runs on a pool of %d", w, BG->n);
  BG->in--;
}
// p: threads, jobs, mode (0 add at once, 1 while all workers are busy, 2 destroy with everything queued), waiters
void big_gen(Rng& r, Plan& p, RunCfg& c) {
  int64_t t = r.chance(1, 2) ? r.range(1, 3) : r.range(100, 300), j = r.chance(1, 4) ? r.range(65536, 68000) : r.chance(1, 2) ? r.range(33000, 34000) : r.range(200, 700);
  if (t > 3) j = r.range(257, 700);
  p.p = {t, j, r.range(0, 2), r.chance(1, 3) ? r.range(129, 300) : r.range(0, 2)};
  if (j > 1000) p.p[3] = r.range(0, 2);
  c.max_steps = j > 1000 ? 30000000 : 6000000;
}
void big_run(const Plan& p) {
  Big b; BG = &b; b.n = (int)P(p, 0); int64_t m = P(p, 1), mode = P(p, 2);
  if (b.n < 1) b.n = 1;
  if (m < b.n) m = b.n;
  b.ran.assign((size_t)m, 0);
  b.pool = thpool_init(b.n);
  SIM_CHECK(b.pool, "init-failed", "thpool_init(%d) returned NULL without any failure", b.n);
  b.gates = mode ? b.n : 0;
  int w = thpool_num_threads_working(b.pool);
  SIM_CHECK(w == 0, "working-count", "%d threads work in a pool without jobs", w);
  for (int64_t i = 0; i < m; i++) SIM_CHECK(thpool_add_work(b.pool, big_job, &b.ran[(size_t)i]) == 0, "add", "adding job %lld failed without any failure", (long long)i);
  if (mode) {
    for (int i = 0; i < 100 && b.started < b.n; i++) usleep_sim(500000);
    SIM_CHECK(b.started == b.n, "stuck", "%lld of %d workers took a job although %lld are queued", (long long)b.started, b.n, (long long)m);
    w = thpool_num_threads_working(b.pool);
    SIM_CHECK(w == b.n, "working-count", "thpool_num_threads_working is %d while %d jobs run", w, b.n);
  }
  if (mode == 2) {
    spawn("opener", [&] { usleep_sim(3000000); b.open = true; });
    thpool_destroy(b.pool); b.over = true;
    SIM_CHECK(b.open && b.in == 0, "destroy-early", "thpool_destroy returned while jobs were running");
    join_all_clients();
    no_residue();
    return;
  }
  int done = 0;
  auto waiter = [&] { thpool_wait(b.pool); done++; for (auto x : b.ran) SIM_CHECK(x, "wait-early", "thpool_wait returned before every accepted job had run"); SIM_CHECK(b.in == 0, "wait-early", "thpool_wait returned while %lld jobs were running", (long long)b.in); };
  for (int64_t i = 0; i < P(p, 3); i++) spawn("waiter", waiter);
  for (int i = 0; i < 50; i++) yield();
  if (mode) { SIM_CHECK(done == 0, "wait-early", "thpool_wait returned while jobs were queued"); b.open = true; }
  waiter(); join_all_clients();
  w = thpool_num_threads_working(b.pool);
  SIM_CHECK(w >= 0 && w <= b.n, "working-count", "thpool_num_threads_working is %d on a pool of %d threads", w, b.n);
  thpool_destroy(b.pool); b.over = true;
  no_residue();
}
// many pauses in a row, and many pools
void cycles_gen(Rng& r, Plan& p, RunCfg& c) { c.max_steps = 20000000; p.p = {r.range(1, 3), r.chance(1, 2) ? r.range(257, 300) : r.range(120, 140), r.range(0, 1)}; }
void cycles_run(const Plan& p) {
  Big b; BG = &b; b.n = (int)P(p, 0); if (b.n < 1) b.n = 1;
  int64_t m = P(p, 1);
  b.ran.assign((size_t)m, 0);
  b.pool = thpool_init(b.n);
  SIM_CHECK(b.pool, "init-failed", "thpool_init(%d) returned NULL without any failure", b.n);
  for (int64_t i = 0; i < m; i++) { thpool_pause(b.pool); if (P(p, 2)) thpool_pause(b.pool); thpool_add_work(b.pool, big_job, &b.ran[(size_t)i]); thpool_resume(b.pool); if (i % 16 == 0) yield(); }
  thpool_wait(b.pool);
  for (auto x : b.ran) SIM_CHECK(x, "wait-early", "thpool_wait returned before every accepted job had run");
  thpool_pause(b.pool); usleep_sim(2500000);
  std::vector<uint8_t> before = b.ran; b.ran.assign((size_t)m, 0); b.last = -1;
  for (int64_t i = 0; i < m; i++) thpool_add_work(b.pool, big_job, &b.ran[(size_t)i]);
  usleep_sim(2500000);
  uint8_t any = 0; for (auto x : b.ran) any |= x;
  SIM_CHECK(!any, "ran-while-paused", "a job ran while the pool was paused for the %lldth time", (long long)m + 1);
  thpool_resume(b.pool);
  thpool_wait(b.pool);
  for (auto x : b.ran) SIM_CHECK(x, "wait-early", "thpool_wait returned before every accepted job had run");
  thpool_destroy(b.pool); b.over = true;
  no_residue();
}
const char* kReal = "src/thread/thpool.c (real, instrumented)";
const char* kStub = "pthread mutex/cond/create/detach/kill, signals, sleep/usleep/time, malloc/free, stderr (simulated)";
Reg r1({"T01", {{"mixed", t01_gen, t01_run}, {"scale", big_gen, big_run, 24}}, kReal, kStub});
Reg r2({"T02", {{"waiters", t02w_gen, t02w_run}, {"destroy", t02d_gen, t02d_run}, {"scale", big_gen, big_run, 24}}, kReal, kStub});
Reg r3({"T03", {{"pause", t03_gen, t03_run}, {"cycles", cycles_gen, cycles_run, 20}}, kReal, kStub});
Reg r4({"T04", {{"faults", t04_gen, t04_run}}, kReal, kStub});
}
