#include "common.h"
extern "C" {
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
}
namespace {
typedef unsigned long long ull;
struct Rec { int64_t len; uint64_t inv = 0, ret = 0, start = 0, end = 0; int state = 0; int runs = 0; };  // state 0 pushing, 1 accepted, 2 refused
struct Clear { uint64_t inv, ret; int64_t cur; bool incb; };
struct World {
  bool fixed = false;
  msg_queue_handler h = nullptr; fixed_msg_queue_handler fh = nullptr;
  std::vector<Rec> m;             // in push order
  std::vector<Clear> clears;
  int64_t last = -1;              // index of the last message handed to the callback
  bool lock = false; bool incb = false;
  int thread = -1, ready = 0, stop = 0;
  uint64_t stop_seq = 0, ask_stop_seq = 0;
  bool gone = false, going = false;   // destroy returned / was called
  int64_t stop_at = -1, cbwork = 0, cbpush = 0, handled = 0;
  bool cleared = false; uint64_t last_clear = 0;
  char tag = 0; uint32_t size = 0;
};
World* W;
uint8_t mb(uint64_t id, uint64_t i) { return pat(300 + id, i); }
void take() { SIM_CHECK(wait_until([] { return !W->lock; }, 300000), "stuck", "a push never returned"); W->lock = true; }
void drop() { W->lock = false; }
uint32_t avail_push() { return W->fixed ? fixed_msg_queue_handler_available_push_amount(W->fh) : msg_queue_handler_available_push_bytes(W->h); }
uint32_t avail_pop() { return W->fixed ? fixed_msg_queue_handler_available_pop_amount(W->fh) : msg_queue_handler_available_pop_bytes(W->h); }

bool push(int64_t len, bool locked = true) {
  if (locked) take();
  size_t id = W->m.size();
  W->m.push_back({len});
  bool roomy = avail_push() >= (W->fixed ? 1u : (uint32_t)(sizeof(queue_msg_t) + len + 16));
  uint64_t inv = seq();
  W->m[id].inv = inv;
  bool held = W->incb; int64_t hd = W->handled;
  msg_q_code_e r;
  if (W->fixed) {
    fixed_msg_t* x = (fixed_msg_t*)halloc(sizeof *x);
    if (len > MSG_OBJ_MAX_CAPACITY) len = MSG_OBJ_MAX_CAPACITY;
    memset(x, 0, sizeof *x);
    x->what = (int)id; x->arg1 = (int)(id * 7 + 1); x->arg2 = -(int)id; x->obj.data_len = (int)len;
    for (int64_t i = 0; i < len; i++) x->obj.data[i] = (char)mb(id, i);
    W->m[id].len = len;
    r = fixed_msg_queue_handler_push(W->fh, x);
    memset(x, 0x11, sizeof *x);
    hfree(x);
  } else {
    queue_msg_t* x = (queue_msg_t*)halloc(sizeof *x + (size_t)len);
    x->what = (int)id; x->arg1 = (int)(id * 7 + 1); x->arg2 = -(int)id; x->obj_len = (int)len;
    for (int64_t i = 0; i < len; i++) x->obj[i] = (char)mb(id, i);
    r = msg_queue_handler_push(W->h, x);
    memset(x, 0x11, sizeof *x + (size_t)len);
    hfree(x);
  }
  note("push %d len %d -> %d", (int)id, (int)len, (int)r);
  if (r == MSG_Q_CODE_SUCCESS && held && W->incb && W->handled == hd) {   // the worker is still busy with an earlier message
    bool none = W->fixed ? fixed_msg_queue_handler_is_empty(W->fh) : avail_pop() == 0;
    SIM_CHECK(!none || !(W->incb && W->handled == hd), "lost", "message %d was accepted but the queue says it is empty", (int)id);
  }
  Rec& e = W->m[id];
  e.ret = seq();
  if (r == MSG_Q_CODE_SUCCESS) {
    e.state = 1;
    SIM_CHECK(!W->stop_seq || inv < W->stop_seq, "accepted-after-stop", "a push made after the handler reported ABOUT_TO_STOP was accepted");
  } else {
    e.state = 2;
    SIM_CHECK(e.runs == 0, "refused-handled", "message %d was handled although its push was refused", (int)id);
    if (r == MSG_Q_CODE_FULL) SIM_CHECK(!roomy, "spurious-full", "push of %d bytes refused as full although there was room", (int)len);
    else SIM_CHECK(W->ask_stop_seq || W->stop || W->going || fault_fired(F_MALLOC), "push-code", "push failed with code %d while the handler was running", (int)r);
  }
  if (locked) drop();
  return r == MSG_Q_CODE_SUCCESS;
}
int on_msg(int what, int arg1, int arg2, int64_t len, const char* data, void* ud) {
  SIM_CHECK(ud == &W->tag, "user-data", "callback called with wrong user data");
  SIM_CHECK(!W->gone, "after-destroy", "a message was handled after destroy returned");
  SIM_CHECK(W->ready == 1, "status", "a message was handled before READY was reported");
  SIM_CHECK(W->stop == 0, "status", "a message was handled after ABOUT_TO_STOP was reported");
  SIM_CHECK(!W->ask_stop_seq, "handled-after-stop", "a message was handled after the callback asked to stop");
  SIM_CHECK(!W->incb, "nested", "two messages are handled at the same time");
  if (W->thread < 0) W->thread = self();      // no status callback given
  SIM_CHECK(self() == W->thread, "thread", "messages are handled on different threads");
  W->incb = true;
  SIM_CHECK(what >= 0 && (size_t)what < W->m.size(), "phantom", "handled a message nobody pushed (what=%d)", what);
  {
    Rec& e = W->m[what];
    SIM_CHECK(e.state != 2, "refused-handled", "message %d was handled although its push was refused", what);
    SIM_CHECK(++e.runs == 1, "twice", "message %d was handled %d times", what, e.runs);
    SIM_CHECK(what > W->last, "order", "message %d was handled after message %lld", what, (long long)W->last);
    if (!W->cleared) for (int64_t i = W->last + 1; i < what; i++) SIM_CHECK(W->m[i].state == 2, "lost", "message %d was handled although accepted message %lld before it was not", what, (long long)i);
    W->last = what;
    SIM_CHECK(arg1 == what * 7 + 1 && arg2 == -what && len == e.len, "wrong-data", "message %d arrived with arg1=%d arg2=%d len=%lld (pushed len %lld)", what, arg1, arg2, (long long)len, (long long)e.len);
    for (int64_t i = 0; i < len; i++) SIM_CHECK((uint8_t)data[i] == mb(what, i), "wrong-data", "byte %lld of message %d is %02x, pushed %02x", (long long)i, what, (uint8_t)data[i], mb(what, i));
    e.start = seq();
  }
  note("handle %d", what);
  for (int64_t i = 0; i < W->cbwork; i++) yield();
  if (W->cbpush > 0 && what % 3 == 0) { W->cbpush--; push(what % 5); }
  W->handled++;
  W->m[what].end = seq();
  W->incb = false;
  if (W->stop_at >= 0 && W->handled > W->stop_at) { W->ask_stop_seq = seq(); return (int)(W->handled % 2 ? 1 : -3); }
  return 0;
}
int on_q(queue_msg_t* m, void* ud) { return on_msg(m->what, m->arg1, m->arg2, m->obj_len, m->obj, ud); }
int on_f(fixed_msg_t* m, void* ud) { return on_msg(m->what, m->arg1, m->arg2, m->obj.data_len, m->obj.data, ud); }
void on_status(msg_q_handler_status_e s, void* ud) {
  SIM_CHECK(ud == &W->tag, "user-data", "status callback called with wrong user data");
  SIM_CHECK(!W->gone, "after-destroy", "status callback called after destroy returned");
  if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { W->ready++; SIM_CHECK(W->ready == 1 && !W->stop, "status", "READY reported %d times (stop %d)", W->ready, W->stop); W->thread = self(); }
  else {
    SIM_CHECK(s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP, "status", "unknown status %d", (int)s);
    W->stop++; SIM_CHECK(W->stop == 1 && W->ready == 1, "status", "ABOUT_TO_STOP reported %d times (ready %d)", W->stop, W->ready); W->stop_seq = seq();
    SIM_CHECK(!W->incb && self() == W->thread, "status", "ABOUT_TO_STOP reported during a message or on another thread");
  }
  note("status %d", (int)s);
  yield();
}
bool create(int64_t size, bool status_cb) {
  if (!status_cb) W->ready = 1;
  W->size = (uint32_t)size;
  if (W->fixed) {
    fixed_msg_queue_handler_init_param_t ip = {&W->tag, on_f, status_cb ? on_status : nullptr};
    W->fh = fixed_msg_queue_handler_create((uint32_t)size, &ip);
    memset((void*)&ip, 0, sizeof ip);
    return W->fh;
  }
  msg_queue_handler_init_param_t ip = {&W->tag, on_q, status_cb ? on_status : nullptr};
  W->h = msg_queue_handler_create((uint32_t)size, &ip);
  memset((void*)&ip, 0, sizeof ip);
  return W->h;
}
void destroy(bool status_cb) {
  note("destroy"); W->going = true;
  if (W->fixed) fixed_msg_queue_handler_destroy(&W->fh); else msg_queue_handler_destroy(&W->h);
  note("destroyed");
  SIM_CHECK(!W->h && !W->fh, "destroy", "handle not cleared by destroy");
  SIM_CHECK(!W->incb, "destroy-early", "destroy returned while a message was being handled");
  SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "destroy-early", "the handler thread remains after destroy");
  if (status_cb) SIM_CHECK(W->ready == 1 && W->stop == 1, "status", "READY reported %d times, ABOUT_TO_STOP %d times", W->ready, W->stop);
  W->gone = true;
}
void client(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 0: push(o.a); break;
    case 1: { take(); bool roomy = W->fixed ? !fixed_msg_queue_handler_is_full(W->fh) : avail_push() >= sizeof(queue_msg_t) + 24; if (roomy) { bool ok = push(1, false); SIM_CHECK(ok || W->ask_stop_seq || W->stop || fault_fired(F_MALLOC), "spurious-full", "room was reported but the push was refused"); } drop(); break; }
    case 2: usleep_sim((uint64_t)o.a * 100); break;
    case 6: for (int64_t i = 0, tries = 0; i < o.a; i++) if (!push(o.b)) { if (W->stop) break; usleep_sim(200); if (++tries < o.a) i--; } break;     // many messages
    case 7:          // many clears
      for (int64_t i = 0; i < o.a; i++) {
        if (i % 3 == 0 || i + 3 > o.a) push(i % 3);
        if (o.b) take();
        W->cleared = true; fixed_msg_queue_handler_clear(W->fh); W->last_clear = seq();
        if (o.b) drop();
        if (i % 5 == 0) push(1);
      }
      break;
    case 3: {      // clear
      if (o.b) take();
      Clear c; c.inv = seq();
      W->cleared = true;
      fixed_msg_queue_handler_clear(W->fh);
      c.ret = seq(); c.incb = W->incb; c.cur = W->last;
      W->clears.push_back(c); W->last_clear = c.ret;
      note("clear");
      if (o.b) drop();
      break;
    }
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
void idle_check() {    // everything accepted has been handled
  settle(400000000ull);
  for (size_t i = 0; i < W->m.size(); i++) {
    Rec& e = W->m[i];
    if (e.state != 1) continue;
    bool must = true;
    if (e.inv < W->last_clear) must = false;
    if (must) SIM_CHECK(e.runs == 1 && e.end, "lost", "accepted message %zu was handled %d times after everything became idle", i, e.runs);
  }
  SIM_CHECK(avail_pop() == 0, "lost", "data remains in the queue after everything became idle");
  if (W->fixed) SIM_CHECK(fixed_msg_queue_handler_is_empty(W->fh) && !fixed_msg_queue_handler_is_full(W->fh) && avail_push() >= W->size, "occupancy", "an idle handler for %u messages says empty=%d full=%d room=%u",
                          W->size, fixed_msg_queue_handler_is_empty(W->fh), fixed_msg_queue_handler_is_full(W->fh), avail_push());
}
void clear_check() {
  for (auto& c : W->clears) {
    int late = 0; size_t which = 0;
    for (size_t i = 0; i < W->m.size(); i++) {
      Rec& e = W->m[i];
      if (e.state == 1 && e.ret < c.inv && e.start > c.ret) { late++; which = i; }
    }
    // the worker may have had one message in its hands, unless it was inside the callback of an earlier one
    bool busy = c.incb && c.cur >= 0 && W->m[c.cur].start < c.inv;
    SIM_CHECK(late <= (busy ? 0 : 1), "not-cleared", "%d messages accepted before a clear were handled after it returned (last: %zu)", late, which);
  }
}
int64_t draw_len(Rng& r, int64_t cap) {
  switch (r.below(7)) { case 0: return 0; case 1: return r.range(0, cap); case 2: return cap > 30 ? cap - r.range(16, 30) : 0; default: return r.range(0, 12); }
}
void gen_ops(Rng& r, Plan& p, int clients, int maxops, int64_t cap, bool clears) {
  p.t.resize(clients);
  for (auto& t : p.t) {
    int n = (int)r.range(1, maxops);
    for (int i = 0; i < n; i++) {
      int k = (int)r.below(14);
      if (clears && k < 3) t.push_back({3, 0, r.below(2) ? 1 : 0});
      else if (k < 9) t.push_back({0, draw_len(r, cap)});
      else if (k == 9) t.push_back({1});
      else if (k == 10) t.push_back({2, r.range(1, 30)});
      else t.push_back({5, r.range(1, 25)});
    }
  }
}
int64_t qsize(Rng& r) { return r.chance(2, 3) ? r.range(80, 400) : r.chance(1, 2) ? r.range(400, 3000) : r.range(4000, 40000); }
void eintr(Rng& r, Plan& p) { if (r.chance(1, 2)) p.f[F_EINTR].rate = (uint32_t)r.pick({3000, 20000}); }

// p = {size, status callback?, callback work, callback pushes, stop_at, pre-destroy yields, settle first?}
void deliver_gen(Rng& r, Plan& p, bool fixed) {
  int64_t size = fixed ? r.range(2, 6) : qsize(r);
  p.p = {size, r.range(0, 3), r.range(0, 12), r.chance(1, 4) ? r.range(1, 4) : 0};
  gen_ops(r, p, (int)r.range(1, 3), 9, fixed ? 1024 : size, false);
  eintr(r, p);
}
// sizes and counts that do not fit 8 or 16 bits
void h01_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 60000000;
  bool many = r.chance(1, 6);
  p.p = {many ? r.range(80, 3000) : r.pick({400, 70000, 131000, 300000}), r.range(0, 1), r.range(0, 2), 0};
  p.t.resize((size_t)r.range(1, 2));
  for (auto& t : p.t) for (int i = 0; i < (many ? 1 : 4); i++) { int k = (int)r.below(3); t.push_back(many ? Op{6, 66000, r.range(0, 3)} : k == 0 ? Op{6, r.range(257, 600), r.range(0, 9)} : k == 1 ? Op{6, r.range(1, 5), r.pick({65500, 65536, 65537, 70000, 140000})} : Op{0, r.logrange(100, 200000)}); }
  if (many) p.t.resize(1);
}
void h03_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 60000000;
  bool many = r.chance(1, 6);
  p.p = {many && r.chance(1, 2) ? 66000 : r.pick({2, 4, 100, 256, 300, 700}), r.range(0, 1), r.range(0, 2), 0};
  p.t.resize(1);
  for (int i = 0; i < (many ? 1 : 3); i++) p.t[0].push_back({6, many ? 66500 : r.range(257, 800), r.range(0, 3)});
}
void h04_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 60000000;
  p.p = {r.pick({2, 4, 8, 300}), 1, r.range(0, 3)};
  p.t.resize(1);
  if (r.chance(1, 6)) { p.t[0].push_back({6, r.range(65200, 65600), 1}); p.t[0].push_back({7, 300, r.range(0, 1)}); p.t[0].push_back({6, 600, 1}); if (r.chance(1, 2)) p.t[0].push_back({7, 100, 0}); else return; }
  else if (r.chance(1, 6)) { p.t[0].push_back({7, 65540, r.range(0, 1)}); p.t[0].push_back({6, r.range(1, 300), 1}); if (r.chance(1, 2)) return; }
  else for (int i = 0; i < 3; i++) p.t[0].push_back(r.chance(1, 2) ? Op{7, r.range(125, 300), r.range(0, 1)} : Op{6, r.range(10, 300), 1});
  for (int i = 0; i < 3; i++) p.t[0].push_back({r.chance(1, 2) ? 0 : 3, r.range(0, 5)});
}
void deliver_run(const Plan& p, bool fixed) {
  World w; W = &w; w.fixed = fixed;
  w.cbwork = P(p, 2); w.cbpush = P(p, 3);
  bool st = P(p, 1) != 0;
  SIM_CHECK(create(P(p, 0), st), "create", "creating a handler of size %lld failed", (long long)P(p, 0));
  for (size_t i = 0; i < p.t.size(); i++) spawn("producer", [&, i] { client(p.t[i]); });
  join_all_clients();
  idle_check();
  SIM_CHECK(w.ready == 1 && w.stop == 0, "status", "the handler stopped by itself");
  destroy(st);
  check_no_leaks("after destroying the handler");
}
void stop_gen(Rng& r, Plan& p, bool fixed) {
  int64_t size = fixed ? r.range(2, 6) : qsize(r);
  p.p = {size, r.range(0, 3), r.range(0, 20), r.chance(1, 4) ? 2 : 0, r.chance(1, 2) ? r.range(0, 4) : -1, r.chance(1, 2) ? r.range(0, 80) : 0, r.below(2) ? 1 : 0};
  gen_ops(r, p, (int)r.range(1, 2), 8, fixed ? 1024 : size, false);
  eintr(r, p);
  int m = (int)r.below(5);
  if (m == 1) draw_fault(r, p, F_MALLOC, 12, 0, 1);
  if (m == 2) draw_fault(r, p, F_THREAD, 1, 0, 1);
  if (m == 3) draw_fault(r, p, F_SYNCINIT, 2, 0, 1);
}
void stop_run(const Plan& p, bool fixed) {
  for (int round = 0; round < 2; round++) {
    World w; W = &w; w.fixed = fixed;
    w.cbwork = P(p, 2); w.cbpush = P(p, 3); w.stop_at = P(p, 4, -1);
    bool st = true;
    auto fires = [] { return fault_fired(F_MALLOC) + fault_fired(F_THREAD) + fault_fired(F_SYNCINIT); };
    uint64_t f0 = fires();
    if (!create(P(p, 0), st)) {
      SIM_CHECK(fires() > f0, "create", "create failed although nothing went wrong");
      w.gone = true;
      settle(50000000);
      SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "thread-left", "a thread remains after a failed create");
      check_no_leaks("after a failed create");
      continue;
    }
    SIM_CHECK(fault_fired(F_THREAD) + fault_fired(F_SYNCINIT) == 0 || round, "create", "create succeeded although a thread or semaphore could not be made");
    for (size_t i = 0; i < p.t.size(); i++) spawn("producer", [&, i] { client(p.t[i]); });
    join_all_clients();
    if (P(p, 6)) {
      settle(400000000ull);
      uint64_t acc = 0, got = 0;
      for (auto& e : w.m) { if (e.state == 1) acc++; got += e.runs; }
      if (w.ask_stop_seq || fault_fired(F_MALLOC)) { if (w.ask_stop_seq) SIM_CHECK(w.stop == 1, "status", "the callback asked to stop but ABOUT_TO_STOP was not reported"); }
      else SIM_CHECK(acc == got && w.stop == 0, "lost", "%llu messages accepted, %llu handled, stop %d", (ull)acc, (ull)got, w.stop);
      if (w.stop) for (int i = 0; i < 3; i++) SIM_CHECK(!push(1), "accepted-after-stop", "a push was accepted after the handler had stopped");
    }
    for (int64_t i = 0; i < P(p, 5); i++) yield();
    destroy(st);
    check_no_leaks("after destroying the handler");
    settle(100000000);
  }
}
void create_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(80, 300), r.range(2, 6), r.range(0, 5), r.range(0, 9)};
  p.f[F_MALLOC].nth = r.range(0, 7);
  if (r.chance(1, 3)) { p.f[F_MALLOC].nth = -1; p.f[(r.chance(1, 2) ? F_THREAD : F_SYNCINIT)].nth = 0; }
}
void create_run(const Plan& p, bool fixed) {
  World w; W = &w; w.fixed = fixed;
  {   // calls that ask for nothing sensible are refused and leave nothing behind
    NoFaults nf;
    queue_msg_t qm; memset(&qm, 0, sizeof qm);
    fixed_msg_t* fm = (fixed_msg_t*)halloc(sizeof *fm); memset((void*)fm, 0, sizeof *fm);
    if (fixed) {
      fixed_msg_queue_handler_init_param_t ip = {&w.tag, on_f, on_status};
      SIM_CHECK(!fixed_msg_queue_handler_create((uint32_t)P(p, 1), nullptr), "bad-arg", "created without parameters");
      ip.fn_handle_msg = nullptr;
      SIM_CHECK(!fixed_msg_queue_handler_create((uint32_t)P(p, 1), &ip), "bad-arg", "created without a message callback");
      ip.fn_handle_msg = on_f;
      SIM_CHECK(!fixed_msg_queue_handler_create(0, &ip), "bad-arg", "created with room for no message");
      SIM_CHECK(fixed_msg_queue_handler_push(nullptr, fm) != MSG_Q_CODE_SUCCESS, "bad-arg", "push to no handler succeeded");
      fixed_msg_queue_handler_destroy(nullptr);
      fixed_msg_queue_handler z = nullptr; fixed_msg_queue_handler_destroy(&z);
    } else {
      msg_queue_handler_init_param_t ip = {&w.tag, on_q, on_status};
      SIM_CHECK(!msg_queue_handler_create((uint32_t)P(p, 0), nullptr), "bad-arg", "created without parameters");
      ip.fn_handle_msg = nullptr;
      SIM_CHECK(!msg_queue_handler_create((uint32_t)P(p, 0), &ip), "bad-arg", "created without a message callback");
      ip.fn_handle_msg = on_q;
      SIM_CHECK(!msg_queue_handler_create((uint32_t)(P(p, 3) % 4), &ip), "bad-arg", "created with a queue of less than 4 bytes");
      SIM_CHECK(msg_queue_handler_push(nullptr, &qm) != MSG_Q_CODE_SUCCESS, "bad-arg", "push to no handler succeeded");
      msg_queue_handler_destroy(nullptr);
      msg_queue_handler z = nullptr; msg_queue_handler_destroy(&z);
    }
    hfree(fm);
    SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0 && w.ready == 0, "thread-left", "a refused create started a thread");
    check_no_leaks("after refused calls");
  }
  uint64_t before = fault_fired(F_MALLOC) + fault_fired(F_THREAD) + fault_fired(F_SYNCINIT);
  int vis = (int)alloc_calls();
  bool ok = create(fixed ? P(p, 1) : P(p, 0), true);
  bool fired = fault_fired(F_MALLOC) + fault_fired(F_THREAD) + fault_fired(F_SYNCINIT) > before;
  (void)vis;
  if (!ok) {
    SIM_CHECK(fired, "create", "create failed although nothing went wrong");
    w.gone = true;
    settle(50000000);
    SIM_CHECK(live_threads() == 0 && unjoined_threads() == 0, "thread-left", "a thread remains after a failed create");
    SIM_CHECK(w.ready == 0, "status", "READY reported by a handler whose creation failed");
    check_no_leaks("after a failed create");
    return;
  }
  for (int i = 0; i < (int)P(p, 2); i++) push(3);
  for (int i = 0; i < (int)P(p, 3); i++) yield();
  destroy(true);
  check_no_leaks("after destroying the handler");
}
void h04_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.range(2, 8), 1, r.range(0, 15)};
  gen_ops(r, p, (int)r.range(1, 3), 10, 8, true);
  // clears are serialised by the caller: all under the push lock, or all made by one thread
  bool locked = r.chance(1, 2);
  for (size_t i = 0; i < p.t.size(); i++) for (auto& o : p.t[i]) if (o.k == 3) { o.b = locked; if (!locked && i) o.k = 1; }
  eintr(r, p);
}
void h04_run(const Plan& p) {
  World w; W = &w; w.fixed = true; w.cbwork = P(p, 2);
  SIM_CHECK(create(P(p, 0), true), "create", "creating a handler failed");
  for (size_t i = 0; i < p.t.size(); i++) spawn("producer", [&, i] { client(p.t[i]); });
  join_all_clients();
  idle_check();
  clear_check();
  // after everything: the queue still works
  push(4); idle_check();
  destroy(true);
  check_no_leaks("after destroying the handler");
}
void h01_gen(Rng& r, Plan& p, RunCfg&) { deliver_gen(r, p, false); }
void h01_run(const Plan& p) { deliver_run(p, false); }
void h02_gen(Rng& r, Plan& p, RunCfg&) { stop_gen(r, p, false); }
void h02_run(const Plan& p) { stop_run(p, false); }
void h02c_run(const Plan& p) { create_run(p, false); }
void h03_gen(Rng& r, Plan& p, RunCfg&) { deliver_gen(r, p, true); }
void h03_run(const Plan& p) { deliver_run(p, true); }
void h03s_gen(Rng& r, Plan& p, RunCfg&) { stop_gen(r, p, true); }
void h03s_run(const Plan& p) { stop_run(p, true); }
void h03c_run(const Plan& p) { create_run(p, true); }
const char* kQ = "src/ring/msg_queue_handler.c, msg_queue.c, ringbuffer.c, src/thread/portable_thread_posix.c (real, instrumented)";
const char* kF = "src/ring/fixed_msg_queue_handler.c, fixed_msg_queue.c, ringbuffer.c, src/thread/portable_thread_posix.c (real, instrumented)";
const char* kStub = "pthread create/join, semaphores, usleep, malloc/free, stdout of the console log (simulated)";
Reg r1({"H01", {{"deliver", h01_gen, h01_run}, {"scale", h01_big, h01_run, 32}}, kQ, kStub});
Reg r2({"H02", {{"stop", h02_gen, h02_run}, {"create", create_gen, h02c_run}}, kQ, kStub});
Reg r3({"H03", {{"deliver", h03_gen, h03_run}, {"scale", h03_big, h03_run, 32}, {"stop", h03s_gen, h03s_run}, {"create", create_gen, h03c_run}}, kF, kStub});
Reg r4({"H04", {{"clear", h04_gen, h04_run}, {"scale", h04_big, h04_run, 32}}, kF, kStub});
}
