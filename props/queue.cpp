#include "common.h"
extern "C" {
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
}
namespace {
typedef unsigned long long ull;
struct Msg { uint32_t len; bool done; uint64_t before; };       // done: the push returned success; before: bytes of all earlier messages
struct World {
  msg_queue q = nullptr; fixed_msg_queue f = nullptr;
  uint64_t cap = 0, hdr = 0; uint32_t one = 0;
  std::vector<Msg> in;            // pushes that were accepted or are being made (last one)
  uint64_t popped = 0, accepted = 0;
  uint64_t pops_begun = 0;
  bool pushing = false;
  uint64_t room(uint64_t used) const { return used > cap ? 0 : cap - used; }
  uint64_t bytes_done(size_t lo, size_t hi) const { if (hi <= lo) return 0; return in[hi - 1].before + in[hi - 1].len - in[lo].before + (hi - lo) * hdr; }
};
World* W;
uint8_t mb(uint64_t id, uint64_t i) { return pat(100 + id, i); }

bool q1_push(uint64_t len) {
  uint64_t id = W->accepted;
  uint8_t* s = (uint8_t*)halloc(len ? len : 1);
  for (uint64_t i = 0; i < len; i++) s[i] = mb(id, i);
  W->in.push_back({(uint32_t)len, false, W->in.empty() ? 0 : W->in.back().before + W->in.back().len});
  uint64_t popped_inv = W->popped;
  msg_q_code_e r = msg_queue_push(W->q, s, (uint32_t)len);
  // free space: what was free for sure at the call
  uint64_t freemin = W->room(W->bytes_done(popped_inv, id));
  uint64_t pb = W->pops_begun < id ? W->pops_begun : id;
  uint64_t freemax = W->room(W->bytes_done(pb, id));
  note("push %llu len %llu -> %d", (ull)id, (ull)len, r);
  hfree(s);
  if (r == MSG_Q_CODE_SUCCESS) {
    SIM_CHECK(len + W->hdr <= freemax, "over-accept", "message of %llu bytes accepted with %llu bytes free at most", (ull)len, (ull)freemax);
    W->in[id].done = true; W->accepted++;
    return true;
  }
  W->in.pop_back();
  SIM_CHECK(W->popped <= id, "refused-popped", "a message whose push was refused was popped");
  if (len) {
    SIM_CHECK(r == MSG_Q_CODE_FULL, "push-code", "push failed with code %d", r);
    SIM_CHECK(len + W->hdr > freemin, "under-accept", "message of %llu bytes refused although %llu bytes were free", (ull)len, (ull)freemin);
  }
  return false;
}
void q1_producer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 6: for (int64_t i = 0; i < o.a; i++) q1_push((uint64_t)(1 + i % (o.b + 1))); break;
    case 0: q1_push((uint64_t)o.a); break;
    case 1: {
      uint64_t popped_inv = W->popped;
      uint64_t n = msg_queue_available_push_bytes(W->q), least = W->room(W->bytes_done(popped_inv, W->accepted));
      SIM_CHECK(n >= least && n <= W->cap, "avail-push", "available push bytes %llu, but %llu were free (capacity %llu)", (ull)n, (ull)least, (ull)W->cap);
      if (n > W->hdr) SIM_CHECK(q1_push(n - W->hdr), "avail-push", "%llu push bytes promised but a message of %llu was refused", (ull)n, (ull)(n - W->hdr));
      break;
    }
    case 2: {
      char c = 1;
      SIM_CHECK(msg_queue_push(W->q, nullptr, 4) != MSG_Q_CODE_SUCCESS && msg_queue_push(W->q, &c, 0) != MSG_Q_CODE_SUCCESS && msg_queue_push(nullptr, &c, 1) != MSG_Q_CODE_SUCCESS, "bad-args", "a push without a message succeeded");
      break;
    }
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
bool q1_pop(uint64_t bufsize) {
  uint8_t* d = (uint8_t*)halloc(bufsize ? bufsize : 1); memset(d, 0x6B, bufsize ? bufsize : 1);
  uint32_t sz = (uint32_t)bufsize;
  uint64_t acc_inv = W->accepted, id = W->popped;
  W->pops_begun = id + 1;
  msg_q_code_e r = msg_queue_pop(W->q, d, &sz);
  note("pop buf %llu -> %d size %u", (ull)bufsize, r, sz);
  bool ok = false;
  if (r == MSG_Q_CODE_SUCCESS) {
    SIM_CHECK(id < W->in.size(), "phantom", "popped a message nobody pushed");
    SIM_CHECK(W->in[id].len <= bufsize, "overflow", "a %u byte message was popped into a %llu byte buffer", W->in[id].len, (ull)bufsize);
    SIM_CHECK(sz == W->in[id].len, "pop-size", "popped message %llu has %u bytes but %u were reported", (ull)id, W->in[id].len, sz);
    for (uint32_t i = 0; i < sz; i++) SIM_CHECK(d[i] == mb(id, i), "wrong-data", "byte %u of message %llu (len %u) is %02x, pushed %02x", i, (ull)id, sz, d[i], mb(id, i));
    for (uint64_t i = sz; i < bufsize; i++) SIM_CHECK(d[i] == 0x6B, "wrong-data", "the target was changed beyond the message");
    W->popped++;
    ok = true;
  } else {
    for (uint64_t i = 0; i < bufsize; i++) SIM_CHECK(d[i] == 0x6B || r == MSG_Q_CODE_BUF_NOT_ENOUGH, "wrong-data", "a refused pop changed the target");
    W->pops_begun = id;
    if (r == MSG_Q_CODE_BUF_NOT_ENOUGH) {
      SIM_CHECK(id < W->in.size() && W->in[id].len > bufsize && sz == W->in[id].len, "pop-size", "pop into %llu bytes asked for %u bytes, next message has %lld", (ull)bufsize, sz, id < W->in.size() ? (long long)W->in[id].len : -1ll);
    } else {
      SIM_CHECK(r == MSG_Q_CODE_EMPTY || r == MSG_Q_CODE_AGAIN, "pop-code", "pop failed with code %d", r);
      SIM_CHECK(acc_inv <= id, "pop-missed", "pop returned code %d although message %llu had been pushed before", r, (ull)id);
      if (r == MSG_Q_CODE_AGAIN) probe(1);
    }
  }
  hfree(d);
  return ok;
}
uint32_t q1_next() {
  uint64_t acc_inv = W->accepted, id = W->popped;
  uint32_t n = msg_queue_next_msg_size(W->q);
  if (n == 0) SIM_CHECK(acc_inv <= id, "next-size", "next message size 0 although message %llu had been pushed", (ull)id);
  else SIM_CHECK(id < W->in.size() && n == W->in[id].len, "next-size", "next message size %u is wrong", n);
  return n;
}
void q1_consumer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 6: for (int64_t i = 0; i < o.a; i++) q1_pop((uint64_t)(o.b + 1)); break;
    case 0: q1_pop((uint64_t)o.a); break;
    case 1: { uint32_t n = q1_next(); if (n) q1_pop(n); break; }
    case 2: {
      uint64_t acc_inv = W->accepted, id = W->popped;
      uint64_t n = msg_queue_available_pop_bytes(W->q), least = W->bytes_done(id, acc_inv > id ? acc_inv : id);
      SIM_CHECK(n >= least && n <= W->cap, "avail-pop", "available pop bytes %llu but %llu bytes of messages were pushed (capacity %llu)", (ull)n, (ull)least, (ull)W->cap);
      break;
    }
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
void q1_gen(Rng& r, Plan& p, RunCfg&) {
  int64_t buf = r.chance(3, 4) ? r.range(32, 120) : r.logrange(32, 5000);
  p.p = {buf, r.range(0, 5), r.range(0, 2)};
  int64_t m = buf - 24; if (m < 4) m = 4;
  auto len = [&] { switch (r.below(6)) { case 0: return (int64_t)1; case 1: return m; case 2: return m / 2; case 3: return r.range(0, 3); default: return r.range(1, m < 16 ? m : 16); } };
  p.t.resize(2);
  int n = (int)r.range(2, 14);
  for (int i = 0; i < n; i++) { int k = (int)r.below(12); p.t[0].push_back({k < 8 ? 0 : k < 10 ? 1 : k == 10 ? 2 : 5, k < 11 ? len() : r.range(1, 15)}); }
  n = (int)r.range(2, 18);
  for (int i = 0; i < n; i++) { int k = (int)r.below(12); p.t[1].push_back({k < 6 ? 0 : k < 9 ? 1 : k == 9 ? 2 : 5, k < 6 ? (r.chance(1, 3) ? len() : 5000) : r.range(1, 15)}); }
}
// buffers, messages and counts that do not fit 8 or 16 bits
void q1_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 30000000;
  int64_t many = r.chance(1, 6) ? r.range(65536, 66000) : r.range(257, 700), buf = r.chance(1, 2) ? 524288 : r.range(100000, 500000);
  p.p = {buf, r.range(0, 5), r.range(0, 1)};
  auto len = [&] { return r.chance(1, 3) ? r.range(65530, 65545) : r.chance(1, 2) ? r.range(200, 300) : r.range(1, buf / 2); };
  p.t.resize(2);
  for (int i = 0; i < 6; i++) if (r.chance(1, 3)) p.t[0].push_back({6, many, r.range(0, 2)}); else { int k = (int)r.below(4); p.t[0].push_back({k < 3 ? 0 : 1, len()}); }
  for (int i = 0; i < 6; i++) if (r.chance(1, 3)) p.t[1].push_back({6, many, r.pick({2, 2, 300, 70000})}); else { int k = (int)r.below(6); p.t[1].push_back({k < 3 ? 0 : k == 3 ? 1 : k == 4 ? 2 : 5, k < 3 ? r.pick({300000, 300000, 65536, 70000}) : r.range(1, 15)}); }
  for (auto& o : p.t[1]) if (o.k == 6 && o.b > 100) o.a = r.range(1, 10);
}
void q1_run(const Plan& p) {
  World w; W = &w;
  w.q = msg_queue_create((uint32_t)P(p, 0));
  SIM_CHECK(w.q, "create", "msg_queue_create(%lld) failed", (long long)P(p, 0));
  w.cap = msg_queue_available_push_bytes(w.q);
  SIM_CHECK(w.cap >= 4 && w.cap <= (uint64_t)P(p, 0) && w.cap * 2 + 64 > (uint64_t)P(p, 0), "create", "msg_queue_create(%lld) offers %llu bytes", (long long)P(p, 0), (ull)w.cap);
  SIM_CHECK(msg_queue_available_pop_bytes(w.q) == 0 && msg_queue_next_msg_size(w.q) == 0, "create", "a new queue is not empty");
  { char c = 5; w.hdr = 4; if (w.cap > 8) { msg_queue_push(w.q, &c, 1); w.hdr = w.cap - msg_queue_available_push_bytes(w.q) - 1; msg_queue_clear(w.q); SIM_CHECK(w.hdr <= 16, "create", "a 1 byte message takes %llu bytes", (ull)w.hdr + 1); } }
  for (int64_t i = 0; i < P(p, 1); i++) { q1_push(1 + i % 3); q1_pop(8); }
  for (int64_t round = 0; round <= P(p, 2); round++) {
    spawn("producer", [&] { q1_producer(p.t[0]); });
    spawn("consumer", [&] { q1_consumer(p.t[1]); });
    join_all_clients();
    uint64_t used = w.bytes_done(w.popped, w.accepted);
    SIM_CHECK(msg_queue_available_push_bytes(w.q) == w.cap - used && msg_queue_available_pop_bytes(w.q) == used, "occupancy", "at rest %llu bytes are used, push/pop bytes say %u/%u of %llu",
              (ull)used, msg_queue_available_push_bytes(w.q), msg_queue_available_pop_bytes(w.q), (ull)w.cap);
    if (round == 1) { msg_queue_clear(w.q); w.popped = w.pops_begun = w.accepted; SIM_CHECK(q1_next() == 0 && !q1_pop(64), "clear", "not empty after clear"); }
  }
  while (w.popped < w.accepted) {
    SIM_CHECK(q1_next() == w.in[w.popped].len, "lost", "message %llu cannot be seen", (ull)w.popped);
    SIM_CHECK(q1_pop(w.in[w.popped].len), "lost", "message %llu cannot be popped", (ull)w.popped);
  }
  SIM_CHECK(!q1_pop(64), "phantom", "an empty queue delivered a message");
  msg_queue_destroy(&w.q);
  SIM_CHECK(!w.q, "destroy", "handle not cleared by msg_queue_destroy");
  msg_queue_destroy(&w.q); msg_queue_destroy(nullptr);
  check_no_leaks("after msg_queue_destroy");
}

// ------------------------------------------------------------- fixed size messages
bool q2_push() {
  uint64_t id = W->accepted;
  uint8_t* s = (uint8_t*)halloc(W->one);
  for (uint32_t i = 0; i < W->one; i++) s[i] = mb(id, i);
  uint64_t popped_inv = W->popped;
  W->pushing = true;
  bool r = fixed_msg_queue_push(W->f, s);
  W->pushing = false;
  note("push %llu -> %d", (ull)id, r);
  hfree(s);
  if (r) {
    uint64_t pb = W->pops_begun < id ? W->pops_begun : id;
    SIM_CHECK(id - pb < W->cap, "over-accept", "message %llu accepted into a full queue of %llu", (ull)id, (ull)W->cap);
    W->accepted++;
    return true;
  }
  SIM_CHECK(W->popped <= id, "refused-popped", "a refused message was popped");
  SIM_CHECK(id - popped_inv >= W->cap, "under-accept", "push refused with %llu of %llu slots used", (ull)(id - popped_inv), (ull)W->cap);
  return false;
}
bool q2_pop() {
  uint8_t* d = (uint8_t*)halloc(W->one); memset(d, 0x6B, W->one);
  uint64_t acc_inv = W->accepted, id = W->popped;
  W->pops_begun = id + 1;
  bool r = fixed_msg_queue_pop(W->f, d);
  note("pop -> %d", r);
  if (r) {
    SIM_CHECK(id < W->accepted + (W->pushing ? 1 : 0), "phantom", "popped a message nobody pushed");
    for (uint32_t i = 0; i < W->one; i++) SIM_CHECK(d[i] == mb(id, i), "wrong-data", "byte %u of message %llu is %02x, pushed %02x", i, (ull)id, d[i], mb(id, i));
    W->popped++;
  } else {
    W->pops_begun = id;
    for (uint32_t i = 0; i < W->one; i++) SIM_CHECK(d[i] == 0x6B, "wrong-data", "an empty pop changed the target");
    SIM_CHECK(acc_inv <= id, "pop-missed", "pop found nothing although message %llu had been pushed", (ull)id);
  }
  hfree(d);
  return r;
}
void q2_producer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 6: for (int64_t i = 0; i < o.a; i++) q2_push(); break;
    case 0: q2_push(); break;
    case 1: {
      uint64_t popped_inv = W->popped, n = fixed_msg_queue_available_push_amount(W->f);
      SIM_CHECK(n >= W->room(W->accepted - popped_inv) && n <= W->cap, "avail-push", "available push amount %llu with %llu of %llu used", (ull)n, (ull)(W->accepted - popped_inv), (ull)W->cap);
      for (uint64_t i = 0; i < n && i < (W->cap > 128 ? 400u : 20u); i++) SIM_CHECK(q2_push(), "avail-push", "%llu pushes promised, number %llu refused", (ull)n, (ull)i + 1);
      break;
    }
    case 2: if (!fixed_msg_queue_is_full(W->f)) SIM_CHECK(q2_push(), "avail-push", "not full, but the push was refused"); break;
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
void q2_consumer(const std::vector<Op>& ops) {
  for (auto& o : ops) switch (o.k) {
    case 6: for (int64_t i = 0; i < o.a; i++) q2_pop(); break;
    case 0: q2_pop(); break;
    case 1: {
      uint64_t acc_inv = W->accepted, n = fixed_msg_queue_available_pop_amount(W->f);
      SIM_CHECK(n + W->popped >= acc_inv && n <= W->cap, "avail-pop", "available pop amount %llu with %llu messages stored", (ull)n, (ull)(acc_inv - W->popped));
      for (uint64_t i = 0; i < n && i < (W->cap > 128 ? 400u : 20u); i++) SIM_CHECK(q2_pop(), "avail-pop", "%llu pops promised, number %llu failed", (ull)n, (ull)i + 1);
      break;
    }
    case 2: if (!fixed_msg_queue_is_empty(W->f)) SIM_CHECK(q2_pop(), "avail-pop", "not empty, but the pop failed"); break;
    case 3: SIM_CHECK(!fixed_msg_queue_pop(W->f, nullptr), "bad-args", "pop without a target succeeded"); break;
    default: for (int i = 0; i < o.a; i++) yield();
  }
}
void q2_gen(Rng& r, Plan& p, RunCfg&) {
  p.p = {r.chance(1, 2) ? r.range(1, 12) : r.range(1, 200), r.range(1, 9), r.range(0, 5), r.range(0, 2)};
  p.t.resize(2);
  int n = (int)r.range(2, 16);
  for (int i = 0; i < n; i++) { int k = (int)r.below(10); p.t[0].push_back({k < 6 ? 0 : k < 8 ? 1 : k == 8 ? 2 : 5, r.range(1, 12)}); }
  n = (int)r.range(2, 16);
  for (int i = 0; i < n; i++) { int k = (int)r.below(11); p.t[1].push_back({k < 6 ? 0 : k < 8 ? 1 : k == 8 ? 2 : k == 9 ? 3 : 5, r.range(1, 12)}); }
}
void q2_big(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 30000000;
  bool wide = r.chance(1, 3);         // few large messages, or many small ones
  int64_t n = wide ? r.range(1, 4) : r.chance(1, 4) ? r.range(65536, 66000) : r.range(257, 700);
  p.p = {wide ? r.pick({65536, 70000, 131072, 65537, 300, 40000}) : r.range(1, 5), n, r.range(0, 5), r.range(0, 1)};
  if (n > 1000) p.p[0] = r.range(1, 2);
  p.t.resize(2);
  for (int i = 0; i < 5; i++) { int k = (int)r.below(5); p.t[0].push_back({k < 2 ? 6 : k == 2 ? 0 : k == 3 ? 1 : 2, r.range(1, n + n / 4)}); p.t[1].push_back({k < 2 ? 6 : k == 2 ? 0 : k == 3 ? 1 : 2, r.range(1, n + n / 4)}); }
}
void q2_run(const Plan& p) {
  World w; W = &w;
  w.one = (uint32_t)P(p, 0);
  w.f = fixed_msg_queue_create(w.one, (uint32_t)P(p, 1));
  SIM_CHECK(w.f, "create", "fixed_msg_queue_create(%u,%lld) failed", w.one, (long long)P(p, 1));
  w.cap = fixed_msg_queue_available_push_amount(w.f);
  SIM_CHECK(w.cap >= (uint64_t)P(p, 1), "create", "a queue made for %lld messages of %u bytes has room for %llu", (long long)P(p, 1), w.one, (ull)w.cap);
  SIM_CHECK(fixed_msg_queue_is_empty(w.f) && !fixed_msg_queue_is_full(w.f) && fixed_msg_queue_available_pop_amount(w.f) == 0, "create", "a new queue is not empty");
  for (int64_t i = 0; i < P(p, 2); i++) { q2_push(); q2_pop(); }
  for (int64_t round = 0; round <= P(p, 3); round++) {
    spawn("producer", [&] { q2_producer(p.t[0]); });
    spawn("consumer", [&] { q2_consumer(p.t[1]); });
    join_all_clients();
    uint64_t n = w.accepted - w.popped;
    // the capacity in messages need not be a divisor of the ring: the free amount may round down
    SIM_CHECK(fixed_msg_queue_available_pop_amount(w.f) == n && fixed_msg_queue_available_push_amount(w.f) == w.cap - n, "occupancy", "at rest %llu messages are stored, amounts say push %u pop %u of %llu",
              (ull)n, fixed_msg_queue_available_push_amount(w.f), fixed_msg_queue_available_pop_amount(w.f), (ull)w.cap);
    SIM_CHECK(fixed_msg_queue_is_empty(w.f) == (n == 0) && fixed_msg_queue_is_full(w.f) == (n == w.cap), "occupancy", "is_empty/is_full wrong at rest");
    if (round == 1) { fixed_msg_queue_clear(w.f); w.popped = w.pops_begun = w.accepted; SIM_CHECK(!q2_pop(), "clear", "not empty after clear"); }
  }
  while (w.popped < w.accepted) SIM_CHECK(q2_pop(), "lost", "message %llu cannot be popped", (ull)w.popped);
  SIM_CHECK(!q2_pop(), "phantom", "an empty queue delivered a message");
  fixed_msg_queue_destroy(&w.f);
  SIM_CHECK(!w.f, "destroy", "handle not cleared");
  check_no_leaks("after fixed_msg_queue_destroy");
}
void cfail_gen(Rng& r, Plan& p, RunCfg&) { p.p = {r.range(0, 3), r.range(40, 300), r.range(1, 9)}; }
template <class F> void create_fails(int64_t n, F mk, const char* what) {
  fail_alloc_at(n);
  bool got = mk();
  bool fired = fail_alloc_fired();
  fail_alloc_at(-1);
  SIM_CHECK(got == !fired, "create", "%s %s although memory %s", what, got ? "succeeded" : "failed", fired ? "ran out" : "was available");
  check_no_leaks(what);
}
void cf1(const Plan& p) {
  create_fails(P(p, 0), [&] { msg_queue h = msg_queue_create((uint32_t)P(p, 1)); bool g = h; msg_queue_destroy(&h); SIM_CHECK(!h, "destroy", "handle not cleared"); return g; }, "msg_queue_create");
  msg_queue_destroy(nullptr);
  msg_queue z = nullptr; msg_queue_destroy(&z);
  char b[8] = {1, 2, 3, 4}; uint32_t n = 8;
  SIM_CHECK(msg_queue_push(nullptr, b, 2) != MSG_Q_CODE_SUCCESS && msg_queue_pop(nullptr, b, &n) != MSG_Q_CODE_SUCCESS && msg_queue_next_msg_size(nullptr) == 0, "bad-arg", "a NULL queue is not refused");
  // any size: refused, or a queue that takes at least a message of one byte and never leaves its memory
  msg_queue h = msg_queue_create((uint32_t)(P(p, 1) % 64));
  if (h) {
    uint32_t room = msg_queue_available_push_bytes(h);
    SIM_CHECK(room > 0 && room <= (uint32_t)(P(p, 1) % 64), "create", "a queue of %lld bytes offers %u", (long long)(P(p, 1) % 64), room);
    SIM_CHECK(msg_queue_push(h, nullptr, 2) != MSG_Q_CODE_SUCCESS && msg_queue_push(h, b, 0) != MSG_Q_CODE_SUCCESS, "bad-arg", "a push of nothing is accepted");
    SIM_CHECK(msg_queue_available_push_bytes(h) == room && msg_queue_available_pop_bytes(h) == 0, "bad-arg", "a refused push left a trace");
    int64_t acc = 0;
    while (acc < 40 && msg_queue_push(h, b, 1 + acc % 3) == MSG_Q_CODE_SUCCESS) acc++;
    SIM_CHECK(msg_queue_pop(h, nullptr, &n) != MSG_Q_CODE_SUCCESS && msg_queue_pop(h, b, nullptr) != MSG_Q_CODE_SUCCESS, "bad-arg", "a pop to nowhere succeeded");
    for (int64_t i = 0; i < acc; i++) {
      n = 8; char d[8] = {};
      SIM_CHECK(msg_queue_pop(h, d, &n) == MSG_Q_CODE_SUCCESS && n == 1 + i % 3 && !memcmp(d, b, n), "lost", "message %lld of %lld did not come back whole", (long long)i, (long long)acc);
    }
    n = 8;
    SIM_CHECK(msg_queue_pop(h, b, &n) == MSG_Q_CODE_EMPTY, "phantom", "an empty queue delivered a message");
    msg_queue_destroy(&h);
  } else SIM_CHECK(P(p, 1) % 64 < 48, "create", "a queue of %lld bytes was refused", (long long)(P(p, 1) % 64));
  check_no_leaks("after msg_queue_destroy");
}
void cf2(const Plan& p) {
  create_fails(P(p, 0), [&] { fixed_msg_queue h = fixed_msg_queue_create((uint32_t)P(p, 1), (uint32_t)P(p, 2)); bool g = h; fixed_msg_queue_destroy(&h); SIM_CHECK(!h, "destroy", "handle not cleared"); return g; }, "fixed_msg_queue_create");
  fixed_msg_queue_destroy(nullptr);
  fixed_msg_queue z = nullptr; fixed_msg_queue_destroy(&z);
  SIM_CHECK(!fixed_msg_queue_create(0, (uint32_t)P(p, 2)) && !fixed_msg_queue_create((uint32_t)P(p, 2), 0), "bad-arg", "a queue for nothing was created");
  SIM_CHECK(!fixed_msg_queue_create(0x10000, 0x10000 + (uint32_t)P(p, 2)), "bad-arg", "a queue of more than 4 GB was created");
  uint32_t one = (uint32_t)(P(p, 1) % 9 + 1), cap = (uint32_t)P(p, 2);
  fixed_msg_queue h = fixed_msg_queue_create(one, cap);
  SIM_CHECK(h, "create", "fixed_msg_queue_create(%u, %u) failed", one, cap);
  SIM_CHECK(!fixed_msg_queue_pop(h, nullptr), "bad-arg", "pop to nowhere succeeded");
  uint8_t* b = (uint8_t*)halloc(one); uint32_t acc = 0;
  SIM_CHECK(!fixed_msg_queue_pop(h, b), "phantom", "an empty queue delivered a message");
  while (acc < 4096) { memset(b, (int)acc, one); if (!fixed_msg_queue_push(h, b)) break; acc++; }
  SIM_CHECK(acc >= cap && fixed_msg_queue_is_full(h) && fixed_msg_queue_available_pop_amount(h) == acc, "capacity", "a queue for %u messages took %u", cap, acc);
  SIM_CHECK(!fixed_msg_queue_pop(h, nullptr) && fixed_msg_queue_available_pop_amount(h) == acc, "bad-arg", "pop to nowhere consumed a message");
  for (uint32_t i = 0; i < acc; i++) {
    memset(b, 0xEE, one);
    SIM_CHECK(fixed_msg_queue_pop(h, b), "lost", "message %u of %u is gone", i, acc);
    for (uint32_t k = 0; k < one; k++) SIM_CHECK(b[k] == (uint8_t)i, "wrong-data", "message %u came back altered", i);
  }
  SIM_CHECK(fixed_msg_queue_is_empty(h) && !fixed_msg_queue_pop(h, b), "phantom", "an empty queue delivered a message");
  hfree(b);
  fixed_msg_queue_destroy(&h);
  check_no_leaks("after fixed_msg_queue_destroy");
}
const char* kStub = "threads are simulator fibers preempted at every memory access of the library; malloc/free are simulated";
Reg r1({"Q01", {{"spsc", q1_gen, q1_run}, {"scale", q1_big, q1_run, 24}, {"create", cfail_gen, cf1}}, "src/ring/msg_queue.c, src/ring/ringbuffer.c (real, instrumented)", kStub});
Reg r2({"Q02", {{"spsc", q2_gen, q2_run}, {"scale", q2_big, q2_run, 24}, {"create", cfail_gen, cf2}}, "src/ring/fixed_msg_queue.c, src/ring/ringbuffer.c (real, instrumented)", kStub});
}
