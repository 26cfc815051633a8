// Deterministic simulator for libcutils: public interface used by scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s = 1;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  // log-uniform in [lo,hi]
  int64_t logrange(int64_t lo, int64_t hi);
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// -------------------------------------------------------------------- faults
enum FaultKind {
  F_MALLOC, F_THREAD, F_EINTR, F_SPURIOUS, F_FOPEN, F_WRITE, F_SHORTWRITE, F_READ, F_SHORTREAD,
  F_CLOSE, F_SEEK, F_MKDIR, F_STAT, F_OPENDIR, F_CLOCK, F_CRASH, F_STALL, F_SYNCINIT, F_SIGNAL, F_DISKFULL, F_N
};
extern const char* const kFaultName[F_N];

struct FaultSpec {          // how a fault kind is injected in a seeded run
  uint32_t rate = 0;        // probability per site visit, out of 65536
  int64_t nth = -1;         // additionally: fire at visits [nth, nth+len)
  int64_t len = 1;
  int64_t maxfires = 1000000;
};

// ---------------------------------------------------------------------- plan
struct Op {
  int64_t k = 0, a = 0, b = 0, c = 0;
};
struct Plan {
  std::vector<int64_t> p;              // scenario parameters
  std::vector<std::vector<Op>> t;      // one operation list per client
  FaultSpec f[F_N];                    // not used in replay
};

struct RunCfg {                        // environment knobs, drawn per run
  int64_t fill = 0xA5;                 // malloc fill byte
  int64_t reuse = 0;                   // allocator reuses addresses
  int64_t stdiobuf = 4096;             // buffer size of simulated streams
  int64_t max_steps = 400000;
};

struct Scenario {
  const char* name;
  // draw a plan
  void (*gen)(Rng&, Plan&, RunCfg&);
  // execute it under the simulator (main fiber)
  void (*run)(const Plan&);
  int every = 0;                       // expensive scenario: drawn for one run in `every` only
};
struct Property {
  const char* id;
  std::vector<Scenario> sc;
  const char* real_components;
  const char* stub_components;
};
std::vector<Property>& registry();
struct Reg { Reg(Property p) { registry().push_back(std::move(p)); } };

// ----------------------------------------------------------------- run time
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed)
uint64_t seq();                 // global event sequence number (strictly increasing)
uint64_t steps();
void probe(int i);              // "rare condition was reached" counters
int self();                     // current fiber id (0 = main)
int nfibers();
void handover();                // clients hand something over here, as under a lock of their own

int spawn(const char* name, std::function<void()> fn);
void join(int fiber);           // harness-level join
void join_all_clients();
void yield();                   // preemption point in harness code
void usleep_sim(uint64_t us);
uint64_t now_ns();              // simulated monotonic time
bool wait_until(const std::function<bool()>& cond, uint64_t max_steps); // poll, false on timeout
void settle(uint64_t ns);       // let everything else run until idle or ns pass
bool fiber_done(int id);
int live_threads();             // library threads (pthread_create) not yet finished
int created_threads();
int unjoined_threads();         // joinable threads finished or not, never joined nor detached

// wall clock
int64_t wall_ns();
void wall_set(int64_t ns);
void wall_jump(int64_t delta_ns);
std::vector<int64_t>& clock_reads();   // wall clock values the library read on this fiber (ns)
void clock_freeze(bool on);     // wall clock stands still (monotonic continues)

// faults
void faults(bool on);           // master switch (default on once the run starts)
struct NoFaults { bool old; NoFaults(); ~NoFaults(); };
uint64_t fault_fired(FaultKind k);
uint64_t fault_visits(FaultKind k);
void fail_alloc_at(int64_t n);  // fail the n-th (0-based) library allocation from now on this fiber (-1: off)
bool fail_alloc_fired();        // did it fire since armed
bool choose_fault(FaultKind k); // scenario-level fault point
uint32_t pick(uint32_t n);      // recorded nondeterministic choice, default 0

// heap
void* halloc(size_t n);         // harness block in the checked arena (never counted as leak)
void hfree(void* p);
void check_mem(const void* p, size_t n, bool write, const char* what);
size_t block_size(const void* p);      // usable size of a live library block, 0 if not live
uint64_t live_blocks();         // blocks allocated by library code and not freed
uint64_t live_bytes();
void check_no_leaks(const char* what);
void leak_checks(bool on);      // off: live_blocks() is 0 and check_no_leaks ignores memory (the tracking allocator holds its own)
std::string leak_report();
uint64_t alloc_calls();

// filesystem
namespace fs {
void mkdir_p(const std::string& path);
void put(const std::string& path, const std::string& data);
void put_sparse(const std::string& path, const std::string& data, int64_t size);   // reads as zeros after the data; not for writing
void symlink(const std::string& path, const std::string& target);
bool exists(const std::string& path);
bool exists_raw(const std::string& path);                       // does not follow a link in the last place
bool is_dir(const std::string& path);
bool get(const std::string& path, std::string& out);
bool remove(const std::string& path);
std::vector<std::string> list(const std::string& dir);           // names, creation order
std::vector<std::string> all_paths();
uint64_t ctime_seq(const std::string& path);                     // creation order
int open_streams();             // FILE* currently open by the library
int open_dirs();
int open_fds();
void set_capacity(int64_t bytes);   // -1: unlimited
int64_t used();
struct Session { std::string path; uint64_t bytes; bool closed; uint64_t seq; bool created; bool truncated; uint64_t lost; };
const std::vector<Session>& sessions();   // every write-mode open of a file
// a descriptor whose reads deliver `data` and whose writes are recorded
int pipe_fd(const std::string& data);
std::string fd_written(int fd);
size_t fd_consumed(int fd);
bool fd_error_hit(int fd);
}  // namespace fs

std::string out();              // what reached stdout so far (flushed)
std::string out_sunk();         // what reached stdout without flushing it now
void expect_abort(bool on);     // from now on abort() or a failed assert() ends the run well
void tid_base(int base);        // gettid() of fiber n is base + n
std::string err();
void out_clear();
void capture_stdout_buffered(bool buffered);

// crash support: run fn on a fresh fiber; returns true if the simulated process crashed
bool run_incarnation(std::function<void()> fn, uint64_t crash_step);

// history hashing: contributes to the run's event hash
void hash_event(uint64_t v);

// linearizability (small histories): generic Wing-Gong search
struct LinOp { uint64_t inv, ret; int id; };
bool linearizable(const std::vector<LinOp>& ops, size_t state_size,
                  const std::function<void(std::string&)>& init,
                  const std::function<bool(std::string& state, int id)>& apply);
}  // namespace sim
