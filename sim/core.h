// Internal structures shared by the simulator's translation units.
#pragma once
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <set>
#include <unordered_map>
#include <sys/types.h>

namespace sim {

constexpr uint64_t kNever = ~0ull;
constexpr int kMaxFibers = 640;
constexpr size_t kStackSize = 256 * 1024;
constexpr size_t kStackSlot = 320 * 1024;
constexpr uintptr_t kStackBase = 0x220000000000ull;
constexpr uintptr_t kArenaBase = 0x200000000000ull;
constexpr size_t kArenaSize = 1ull << 31;
constexpr uintptr_t kShadowBase = 0x210000000000ull;

enum DecKind : int16_t { D_SWITCH = 1, D_ADVANCE = 2, D_PICK = 3 };
struct Dec { uint32_t step; int16_t kind; int16_t val; };
struct FaultRec { int32_t kind; int32_t idx; };

constexpr int kMaxTrace = 300000;
constexpr uint64_t kMaxBytes = 16ull << 30;   // memory traffic of one run (allocated, freed and copied)
constexpr int kMaxFault = 20000;
constexpr int kLogSize = 60000;

struct Result {
  volatile int32_t status;   // 0 unfinished, 1 ok, 2 violation
  char cls[64];
  char msg[6000];
  uint64_t hash, steps, simns, switches, schedsig, histsig;
  uint64_t fires[F_N], visits[F_N], probes[64];
  uint32_t npcs; uint64_t pcs[24];
  uint32_t ntrace, nfault, trace_overflow;
  Dec trace[kMaxTrace];
  FaultRec fault[kMaxFault];
  uint32_t loglen;
  char log[kLogSize];
};

enum FState { FS_RUN, FS_BLOCK, FS_DONE };
enum Wake { WK_OK, WK_TIMEOUT, WK_SIGNAL, WK_SPURIOUS };

// Happens-before, for the data-race check (on in the runs of the race property only)
typedef std::vector<uint32_t> Clock;
extern bool g_race;                                   // set by props/race.cpp
extern int g_race_off;                                // nested: accesses of the simulator itself
void hb_acquire(const Clock& c);
void hb_release(Clock& c);
void hb_atomic(const void* a, int order, bool load, bool store);
void hb_all();                                        // harness-level synchronisation with every other fiber
void race_static(int which);                           // the static result of a C library function that is not thread-safe
void race_access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc);

struct Fiber {
  int id = 0;
  Clock vc, vrel, vacq;           // its clock; what its last release fence covers; what its relaxed loads have seen
  void* sp = nullptr;
  FState st = FS_RUN;
  const void* waitobj = nullptr;
  const char* waitwhat = "";
  uint64_t deadline = kNever;
  Wake wake = WK_OK;
  int saved_errno = 0;
  uint32_t run_steps = 0;
  std::function<void()> fn;
  char name[24];
  char tname[16] = "sim";          // the name the system shows for the thread
  // library thread state
  bool libthread = false, detached = false, joined = false;
  void* retval = nullptr;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  uint64_t pending = 0, sigmask = 0;
  int prio = 0;
  uint64_t stalled_until = 0;
  int nofault = 0;
  int64_t fail_at = -1; bool fail_fired = false;
  std::vector<uintptr_t> cs;       // instrumented call stack
  std::map<unsigned, void*> tsd;
  uintptr_t lo = 0, hi = 0;
  std::string tls;
  std::vector<int64_t> creads;
};

struct Strat {
  int type = 0;            // 0 none, 1 random, 2 conflict, 3 pct, 4 site
  uint32_t p_base = 0, p_conf = 0, p_adv = 0;
  std::vector<uint64_t> change; size_t ci = 0;
  int lowest = 0;
  uint32_t site_sel = 0, site_mod = 1;
};

struct State {
  bool active = false, replay = false, main_done = false, faults_on = false;
  Result* res = nullptr;
  Rng sched{1}, frng{2};
  Strat strat;
  RunCfg cfg;
  FaultSpec fspec[F_N];
  uint64_t fvis[F_N] = {}, ffire[F_N] = {};
  std::set<std::pair<int, int>> rfaults;
  std::vector<Dec> rtrace; size_t rpos = 0;
  std::vector<Dec> trace; bool trace_ovf = false;
  std::vector<FaultRec> ftrace;
  std::vector<Fiber*> fib;
  Fiber* cur = nullptr;
  int prev = 0;
  uint64_t step = 0, now = 0, min_wake = kNever, switches = 0;
  uint64_t hash = 1469598103934665603ull, schedsig = 1, histsig = 1, evseq = 0;
  int64_t wall_off = 0; bool frozen = false; int64_t frozen_at = 0;
  uint64_t max_steps = 400000, bytes = 0;
  bool fair = false;
  uint64_t crash_step = 0; bool crashed = false; int controller = -1;
  void* root_sp = nullptr;
  uint64_t probes[64] = {};
  int created = 0;
  std::map<int, void (*)(int)> sighandlers; std::map<int, int> sigflags;
};
extern State g;

inline void mix(uint64_t& h, uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }

void point(const void* addr, bool write, uintptr_t pc);  // preemption point
void forced_yield();
Wake block(const void* obj, uint64_t deadline, const char* what);
void wake_all(const void* obj);
void wake_fiber(Fiber* f, Wake w);
bool fault(FaultKind k);
void access_check(uintptr_t a, size_t n, bool write, uintptr_t pc, const char* what);
void* arena_alloc(size_t n, bool lib, int fill);
void arena_free(void* p);
void sync_forget(uintptr_t lo, uintptr_t hi);
void finish_ok();
void init_process();
void start_run(const Scenario& sc, const Plan& plan, const RunCfg& cfg, Result* res,
               bool replay, uint64_t seed, const std::vector<Dec>* trace, const std::vector<FaultRec>* faults);
Fiber* new_fiber(const char* name, std::function<void()> fn);
void signal_fiber(Fiber* f, int sig);
void deliver_signals();
void fs_init();
void sync_init();
void sync_reset(); void fs_reset();      // a crashed process takes its locks and streams with it
}  // namespace sim
