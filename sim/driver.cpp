// Batch driver: seeded search, determinism audit, minimisation, replay files, evidence.
#include "core.h"
#include <algorithm>
#include <cinttypes>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace sim;

namespace {
double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
template <class T> T* shm(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
  return (T*)p;
}

struct Case {                    // everything that determines one execution
  int sc = 0;
  Plan plan; RunCfg cfg;
  bool replay = false;
  uint64_t seed = 0;
  std::vector<Dec> sched; std::vector<FaultRec> faults;
};

const Property* g_prop;
uint64_t g_seed = 1;
const char* g_self;

uint64_t mix2(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD1B54A32D192ED03ull); r.next(); return r.next(); }
uint64_t strhash(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

Case make_case(uint64_t index) {
  Case c;
  c.seed = mix2(mix2(g_seed, strhash(g_prop->id)), index);
  std::vector<int> common; c.sc = -1;
  for (size_t i = 0, k = 1; i < g_prop->sc.size(); i++) {
    int e = g_prop->sc[i].every;
    if (!e) common.push_back((int)i);
    else if (c.sc < 0 && index % (uint64_t)e == (uint64_t)e - k++) c.sc = (int)i;
  }
  if (c.sc < 0) c.sc = common[index % common.size()];
  Rng r(c.seed);
  c.cfg.fill = r.pick({0xA5, 0x00, 0xFF, 0x5A});
  c.cfg.reuse = (int64_t)r.below(2);
  c.cfg.stdiobuf = r.pick({64, 256, 1024, 4096, 4096});
  g_prop->sc[c.sc].gen(r, c.plan, c.cfg);
  return c;
}

// 0 ok, 1 violation, 2 error
int execute(const Case& c, Result* res) {
  res->status = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); return 2; }
  if (p == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    start_run(g_prop->sc[c.sc], c.plan, c.cfg, res, c.replay, c.seed, &c.sched, &c.faults);
    _exit(5);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) return 2;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && res->status == 1) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && res->status == 2) return strcmp(res->cls, "sim-limit") ? 1 : 2;
  if (WIFSIGNALED(st) && res->status == 0) {             // the run was killed before it could report (smashed beyond the crash handler)
    snprintf(res->cls, sizeof res->cls, "killed");
    snprintf(res->msg, sizeof res->msg, "the run was ended by signal %d", WTERMSIG(st));
    res->hash = 0x51c0 + WTERMSIG(st); res->steps = 0; res->ntrace = res->nfault = 0; res->trace_overflow = 1; res->npcs = 0; res->loglen = 0; res->log[0] = 0;
    return 1;
  }
  fprintf(stderr, "simulator error: child ended with status 0x%x, result %d\n", st, (int)res->status);
  return 2;
}

Case as_replay(const Case& c, const Result* r) {
  Case d = c;
  d.replay = true;
  d.sched.assign(r->trace, r->trace + r->ntrace);
  d.faults.assign(r->fault, r->fault + r->nfault);
  return d;
}

// ---------------------------------------------------------------- replay files
std::string symbolise(const Result* r) {
  std::string s;
  if (!r->npcs) return s;
  std::string cmd = std::string("addr2line -f -s -C -e ") + g_self;
  char b[64];
  for (uint32_t i = 0; i < r->npcs; i++) { snprintf(b, sizeof b, " 0x%llx", (unsigned long long)r->pcs[i] - 1); cmd += b; }
  cmd += " 2>/dev/null";
  FILE* f = popen(cmd.c_str(), "r");
  if (!f) return s;
  char l[512]; int k = 0; std::string fn;
  while (fgets(l, sizeof l, f)) {
    l[strcspn(l, "\n")] = 0;
    if (k++ % 2 == 0) fn = l; else s += "#   at " + fn + " (" + l + ")\n";
  }
  pclose(f);
  return s;
}

// whole: the recorded schedule is too long to store (or is not enough): the file names the seed and run number, from which
// plan, schedule and faults are drawn again
void write_replay(const std::string& path, const Case& c, const Result* r, bool whole = false, uint64_t index = 0) {
  std::ofstream o(path);
  o << "# libcutils deterministic simulation replay\n";
  o << "# violation: " << r->cls << ": ";
  for (const char* p = r->msg; *p; p++) { o << *p; if (*p == '\n') o << "# "; }
  o << "\n" << symbolise(r);
  o << "# re-run: ./check.sh --replay <this file>\n";
  o << "property " << g_prop->id << "\nscenario " << g_prop->sc[c.sc].name << "\nclass " << r->cls << "\n";
  char h[32]; snprintf(h, sizeof h, "%016" PRIx64, r->hash);
  o << "hash " << h << "\nseed " << c.seed << "\n";
  if (whole) { o << "fromseed " << g_seed << " " << index << "\nend\n"; return; }
  o << "cfg " << c.cfg.fill << " " << c.cfg.reuse << " " << c.cfg.stdiobuf << " " << c.cfg.max_steps << "\n";
  o << "params " << c.plan.p.size(); for (auto v : c.plan.p) o << " " << v; o << "\n";
  o << "clients " << c.plan.t.size() << "\n";
  for (auto& t : c.plan.t) { o << "ops " << t.size() << "\n"; for (auto& x : t) o << x.k << " " << x.a << " " << x.b << " " << x.c << "\n"; }
  o << "schedule " << c.sched.size() << "\n";
  for (auto& d : c.sched) o << d.step << " " << d.kind << " " << d.val << "\n";
  o << "faults " << c.faults.size() << "\n";
  for (auto& f : c.faults) o << f.kind << " " << f.idx << " " << kFaultName[f.kind] << "\n";
  o << "end\n";
  o << "# event log of the failing run\n";
  std::istringstream ls(r->log); std::string line; int n = 0;
  while (std::getline(ls, line) && n++ < 400) o << "# " << line << "\n";
}

bool read_replay(const std::string& path, Case& c, std::string& cls, uint64_t& hash) {
  std::ifstream f(path);
  if (!f) return false;
  std::string text, line;
  while (std::getline(f, line)) if (line.empty() || line[0] != '#') text += line + "\n";
  std::istringstream i(text);
  std::string k, v;
  c.replay = true;
  auto expect = [&](const char* w) { i >> k; return k == w; };
  if (!expect("property")) return false; i >> v;
  g_prop = nullptr;
  for (auto& p : registry()) if (v == p.id) g_prop = &p;
  if (!g_prop) { fprintf(stderr, "property %s is not in this binary\n", v.c_str()); return false; }
  if (!expect("scenario")) return false; i >> v;
  c.sc = -1;
  for (size_t s = 0; s < g_prop->sc.size(); s++) if (v == g_prop->sc[s].name) c.sc = (int)s;
  if (c.sc < 0) return false;
  if (!expect("class")) return false; i >> cls;
  if (!expect("hash")) return false; i >> v; hash = strtoull(v.c_str(), nullptr, 16);
  if (!expect("seed")) return false; i >> c.seed;
  i >> k;
  if (k == "fromseed") { uint64_t idx; i >> g_seed >> idx; if (!i) return false; c = make_case(idx); return true; }
  if (k != "cfg") return false;
  i >> c.cfg.fill >> c.cfg.reuse >> c.cfg.stdiobuf >> c.cfg.max_steps;
  size_t n;
  if (!expect("params")) return false; i >> n; c.plan.p.resize(n); for (auto& x : c.plan.p) i >> x;
  if (!expect("clients")) return false; i >> n; c.plan.t.resize(n);
  for (auto& t : c.plan.t) { if (!expect("ops")) return false; i >> n; t.resize(n); for (auto& x : t) i >> x.k >> x.a >> x.b >> x.c; }
  if (!expect("schedule")) return false; i >> n; c.sched.resize(n); for (auto& d : c.sched) i >> d.step >> d.kind >> d.val;
  if (!expect("faults")) return false; i >> n; c.faults.resize(n); for (auto& d : c.faults) i >> d.kind >> d.idx >> v;
  return (bool)i;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
  Result* r; std::string cls; double deadline; int runs = 0;
  Case best;
  bool fails(const Case& c) {
    if (now_s() > deadline) return false;
    runs++;
    return execute(c, r) == 1 && cls == r->cls;
  }
  // after an edit of plan/faults the old schedule's step numbers shift: keep it if it still fails
  template <class T> bool ddmin(std::vector<T> Case::*vec) {
    bool any = false;
    size_t n = 2;
    while ((best.*vec).size() >= 1) {
      size_t len = (best.*vec).size();
      if (n > len) n = len;
      size_t chunk = (len + n - 1) / n;
      bool red = false;
      for (size_t s = 0; s < len; s += chunk) {
        Case t = best;
        auto& v = t.*vec;
        v.erase(v.begin() + s, v.begin() + std::min(len, s + chunk));
        if (fails(t)) { best = t; red = any = true; break; }
        if (now_s() > deadline) return any;
      }
      if (red) { n = std::max<size_t>(n - 1, 2); if ((best.*vec).empty()) break; }
      else { if (chunk == 1) break; n = std::min(len, n * 2); }
    }
    return any;
  }
  bool ops() {
    bool any = false;
    for (size_t i = 0; i < best.plan.t.size(); i++) {
      for (size_t chunk = std::max<size_t>(1, best.plan.t[i].size() / 2);; chunk /= 2) {
        for (size_t s = 0; s + chunk <= best.plan.t[i].size();) {
          Case t = best;
          auto& v = t.plan.t[i];
          v.erase(v.begin() + s, v.begin() + s + chunk);
          if (fails(t)) { best = t; any = true; } else s += chunk;
          if (now_s() > deadline) return any;
        }
        if (chunk <= 1) break;
      }
    }
    return any;
  }
  bool args() {
    bool any = false;
    auto tryv = [&](std::function<int64_t&(Case&)> ref) {
      int64_t v = ref(best);
      for (int64_t w : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
        if (w >= v || w < 0) continue;
        Case t = best; ref(t) = w;
        if (fails(t)) { best = t; any = true; return; }
      }
    };
    for (size_t i = 0; i < best.plan.t.size(); i++)
      for (size_t j = 0; j < best.plan.t[i].size(); j++) {
        tryv([=](Case& c) -> int64_t& { return c.plan.t[i][j].a; });
        tryv([=](Case& c) -> int64_t& { return c.plan.t[i][j].b; });
        tryv([=](Case& c) -> int64_t& { return c.plan.t[i][j].c; });
      }
    return any;
  }
  void run() {
    for (int round = 0; round < 6 && now_s() < deadline; round++) {
      bool a = false;
      a |= ddmin<Dec>(&Case::sched);
      a |= ddmin<FaultRec>(&Case::faults);
      a |= ops();
      a |= args();
      if (!a) break;
    }
  }
};

// ---------------------------------------------------------------- batch
struct Rec { uint64_t sched, hist; uint32_t steps, switches; uint16_t fires, sc; uint32_t valid; };
struct WorkerStat {
  uint64_t runs, steps, simns, switches, fires[F_N], visits[F_N], probes[64], runs_with_fault, audits, audit_bad, known;
  volatile int viol; uint64_t viol_index, err_index; int error;
};
struct Known { std::string prop, scenario, cls, match, line; };
std::vector<Known> load_known(const char* path) {
  std::vector<Known> v;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("finding:", 0) != 0) continue;   // "fixed:" entries suppress nothing
    Known k; k.line = l.substr(8);
    std::istringstream i(k.line); std::string w;
    while (i >> w) {
      if (w.rfind("property=", 0) == 0) k.prop = w.substr(9);
      else if (w.rfind("scenario=", 0) == 0) k.scenario = w.substr(9);
      else if (w.rfind("class=", 0) == 0) k.cls = w.substr(6);
      else if (w.rfind("match=", 0) == 0) { k.match = w.substr(6); break; }
    }
    v.push_back(k);
  }
  return v;
}
bool is_known(const std::vector<Known>& v, const Case& c, const Result* r) {
  for (auto& k : v)
    if (k.prop == g_prop->id && !k.cls.empty() && k.cls == r->cls && k.scenario == g_prop->sc[c.sc].name && (k.match.empty() || strstr(r->msg, k.match.c_str()))) return true;
  return false;
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
std::string plan_text(const Case& c) {
  std::ostringstream o;
  o << "scenario=" << g_prop->sc[c.sc].name << " params=[";
  for (size_t i = 0; i < c.plan.p.size(); i++) o << (i ? "," : "") << c.plan.p[i];
  o << "] ops=[";
  for (size_t i = 0; i < c.plan.t.size(); i++) {
    o << (i ? " | " : "");
    for (size_t j = 0; j < c.plan.t[i].size() && j < 12; j++) { auto& x = c.plan.t[i][j]; o << (j ? ";" : "") << x.k << "," << x.a << "," << x.b << "," << x.c; }
    if (c.plan.t[i].size() > 12) o << ";...(" << c.plan.t[i].size() << ")";
  }
  o << "]";
  return o.str();
}

int check(const std::string& tier, double budget, uint64_t maxruns, int nworkers, const std::string& evidence, const std::string& repdir, const std::string& known_path, double min_budget) {
  double t0 = now_s();
  auto known = load_known(known_path.c_str());
  const uint64_t kRec = std::min<uint64_t>(maxruns, 6000000);
  Rec* rec = shm<Rec>(kRec);
  WorkerStat* ws = shm<WorkerStat>(nworkers);
  volatile int* stop = shm<int>();
  fflush(stdout);
  std::vector<pid_t> pids;
  for (int w = 0; w < nworkers; w++) {
    pid_t p = fork();
    if (p == 0) {
      Result* res = shm<Result>();
      WorkerStat& s = ws[w];
      for (uint64_t i = (uint64_t)w; i < maxruns && !*stop; i += (uint64_t)nworkers) {
        if (now_s() - t0 > budget) break;
        Case c = make_case(i);
        int rc = execute(c, res);
        s.runs++; s.steps += res->steps; s.simns += res->simns; s.switches += res->switches;
        uint64_t f = 0;
        for (int k = 0; k < F_N; k++) { s.fires[k] += res->fires[k]; s.visits[k] += res->visits[k]; f += res->fires[k]; }
        for (int k = 0; k < 64; k++) s.probes[k] += res->probes[k];
        if (f) s.runs_with_fault++;
        if (i < kRec) rec[i] = Rec{res->schedsig, res->histsig, (uint32_t)res->steps, (uint32_t)res->switches, (uint16_t)std::min<uint64_t>(f, 65535), (uint16_t)c.sc, 1};
        if (rc == 2) { s.error++; s.err_index = i; if (s.error > 20) { *stop = 1; break; } continue; }   // keep looking: a violation outranks an error
        if (rc == 1) {
          if (is_known(known, c, res)) { s.known++; continue; }
          s.viol_index = i; s.viol = 1; *stop = 1; break;
        }
        if (i % 97 == 13) {                              // determinism audit: same seed again
          uint64_t h = res->hash, st = res->steps;
          int rc2 = execute(c, res);
          s.audits++;
          if (rc2 != rc || res->hash != h || res->steps != st) { s.audit_bad++; s.err_index = i; *stop = 1; fprintf(stderr, "determinism audit failed at run %llu\n", (unsigned long long)i); break; }
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  bool werr = false;
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) werr = true; }
  (void)min_budget;

  WorkerStat T{};
  uint64_t ei = ~0ull; bool err = werr; std::vector<uint64_t> vis;
  for (int w = 0; w < nworkers; w++) {
    T.runs += ws[w].runs; T.steps += ws[w].steps; T.simns += ws[w].simns; T.switches += ws[w].switches; T.runs_with_fault += ws[w].runs_with_fault;
    T.audits += ws[w].audits; T.audit_bad += ws[w].audit_bad; T.known += ws[w].known;
    for (int k = 0; k < F_N; k++) { T.fires[k] += ws[w].fires[k]; T.visits[k] += ws[w].visits[k]; }
    for (int k = 0; k < 64; k++) T.probes[k] += ws[w].probes[k];
    if (ws[w].viol) vis.push_back(ws[w].viol_index);
    if (ws[w].error || ws[w].audit_bad) { err = true; ei = std::min(ei, ws[w].err_index); }
  }
  double search_s = now_s() - t0;

  int rcode = 0; int violations = 0; std::string vio_text, rep_path; int min_runs = 0;
  std::sort(vis.begin(), vis.end());
  for (uint64_t vi : vis) {
    if (violations) break;
    Result* r = shm<Result>();
    Case c = make_case(vi);
    int a = execute(c, r);
    uint64_t h1 = r->hash; std::string cls = r->cls; uint32_t ovf = r->trace_overflow;
    int b = a == 1 ? execute(c, r) : 0;
    auto finish = [&](const Case& fc, bool whole) {      // write the file, replay it in a fresh process, report
      mkdir(repdir.c_str(), 0777);
      char nm[4400]; snprintf(nm, sizeof nm, "%s/%s-%016" PRIx64 ".replay", repdir.c_str(), g_prop->id, c.seed);
      rep_path = nm;
      write_replay(nm, fc, r, whole, vi);
      vio_text = std::string(r->cls) + ": " + r->msg + "\n" + symbolise(r);
      fflush(stdout);
      auto fresh = [&](bool adopt) {
        pid_t p = fork();
        if (p == 0) { int dn = open("/dev/null", 1); dup2(dn, 1); execl(g_self, g_self, "replay", nm, adopt ? "--adopt" : (char*)nullptr, "1", (char*)nullptr); _exit(9); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        return st;
      };
      int st = fresh(false);
      // the broken code reads something that differs between this process and a new one (host addresses): the file records what a new process does
      if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { fresh(true); st = fresh(false); }
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "note: fresh-process replay of %s did not reproduce (0x%x)\n", nm, st); return false; }
      violations = 1; rcode = 1;
      if (whole) printf("violation found at run %llu, seed %llu (whole run, not minimised)\n%s", (unsigned long long)vi, (unsigned long long)c.seed, vio_text.c_str());
      else printf("violation found at run %llu, seed %llu; minimised with %d runs to %zu schedule decisions, %zu faults\n%s", (unsigned long long)vi,
                  (unsigned long long)c.seed, min_runs, fc.sched.size(), fc.faults.size(), vio_text.c_str());
      printf("VIOLATION property=%s replay=%s\n", g_prop->id, nm);
      return true;
    };
    if (a != 1 || b != 1 || r->hash != h1 || cls != r->cls) { fprintf(stderr, "ERROR: violation at run %llu did not repeat with the same seed\n", (unsigned long long)vi); err = true; }
    else {
      Case d = as_replay(c, r);
      bool done = false;
      if (!ovf && execute(d, r) == 1 && cls == r->cls) {
        Minimiser m; m.r = r; m.cls = cls; m.best = d; m.deadline = now_s() + (tier == "quick" ? 40 : 180);
        m.run();
        min_runs = m.runs;
        if (execute(m.best, r) == 1 && cls == r->cls) done = finish(m.best, false);
      }
      if (!done) {                                       // fall back to the whole run, drawn from its seed
        if (execute(c, r) == 1 && cls == r->cls && r->hash == h1) done = finish(c, true);
        if (!done) { fprintf(stderr, "ERROR: run %llu cannot be replayed\n", (unsigned long long)vi); err = true; }
      }
    }
  }
  // a reproducible violation outranks an audit mismatch elsewhere; otherwise an error is an error
  if (err && !violations) { fprintf(stderr, "check error (run %lld)\n", (long long)ei); rcode = 2; }

  std::unordered_set<uint64_t> ds, dh, dn; uint64_t nontriv = 0;
  for (uint64_t i = 0; i < kRec; i++) if (rec[i].valid) {
    ds.insert(rec[i].sched); dh.insert(rec[i].hist);
    if (rec[i].switches >= 2 || rec[i].fires) { nontriv++; dn.insert(mix2(rec[i].sched, rec[i].hist)); }
  }
  for (auto& k : known) if (k.prop == g_prop->id && T.known) printf("KNOWN-FINDING: property=%s %s\n", g_prop->id, k.line.c_str());
  double wall = now_s() - t0;
  std::ofstream e(evidence);
  e << "{\n \"property\": \"" << g_prop->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"exploration\",\n";
  e << " \"coverage\": {\n  \"evaluations\": " << T.runs << ",\n  \"distinct_nontrivial\": " << dn.size() << ",\n";
  e << "  \"rule\": \"one evaluation is one seeded simulated run (operation plan, schedule and faults all drawn from the seed); non-trivial: at least two thread switches or one injected fault; distinct: different (schedule signature, history signature) pairs\",\n";
  e << "  \"nontrivial_runs\": " << nontriv << ",\n  \"distinct_schedules\": " << ds.size() << ",\n  \"distinct_histories\": " << dh.size() << ",\n";
  e << "  \"interleaving_measure\": \"schedule signature = hash of the sequence of (thread switched to, code location) and of injected faults; history signature = hash of the recorded operation events\",\n";
  e << "  \"simulated_steps\": " << T.steps << ",\n  \"thread_switches\": " << T.switches << ",\n  \"simulated_seconds\": " << (double)T.simns / 1e9 << ",\n";
  e << "  \"runs_per_hour\": " << (uint64_t)((double)T.runs / search_s * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)((double)T.runs / search_s * 3600) << ",\n";
  e << "  \"runs_with_faults\": " << T.runs_with_fault << ",\n  \"determinism_audits\": " << T.audits << ",\n  \"known_finding_hits\": " << T.known << ",\n";
  e << "  \"faults_injected\": {"; bool first = true;
  for (int k = 0; k < F_N; k++) if (T.fires[k]) { e << (first ? "" : ", ") << "\"" << kFaultName[k] << "\": " << T.fires[k]; first = false; }
  e << "},\n  \"fault_sites_visited\": {"; first = true;
  for (int k = 0; k < F_N; k++) if (T.visits[k]) { e << (first ? "" : ", ") << "\"" << kFaultName[k] << "\": " << T.visits[k]; first = false; }
  e << "},\n  \"rare_condition_probes\": {"; first = true;
  for (int k = 0; k < 64; k++) if (T.probes[k]) { e << (first ? "" : ", ") << "\"p" << k << "\": " << T.probes[k]; first = false; }
  e << "},\n  \"scenarios\": {"; first = true;
  std::map<int, uint64_t> per; for (uint64_t i = 0; i < kRec; i++) if (rec[i].valid) per[rec[i].sc]++;
  for (auto& kv : per) { e << (first ? "" : ", ") << "\"" << g_prop->sc[kv.first].name << "\": " << kv.second; first = false; }
  e << "},\n  \"real_components\": \"" << jesc(g_prop->real_components) << "\",\n  \"stub_components\": \"" << jesc(g_prop->stub_components) << "\",\n";
  e << "  \"samples\": [";
  first = true;
  for (uint64_t i = 0, n = 0; i < kRec && n < 4; i++) if (rec[i].valid && (rec[i].switches >= 2 || rec[i].fires) && (n == 0 || rec[i].sc != rec[i - 1].sc)) {
    Case c = make_case(i); n++;
    e << (first ? "" : ",") << "\n   {\"run\": " << i << ", \"seed\": " << c.seed << ", \"plan\": \"" << jesc(plan_text(c)) << "\", \"steps\": " << rec[i].steps << ", \"switches\": " << rec[i].switches << ", \"faults_fired\": " << rec[i].fires << "}";
    first = false;
  }
  if (violations) { e << (first ? "" : ",") << "\n   {\"violation\": \"" << jesc(vio_text) << "\", \"replay\": \"" << jesc(rep_path) << "\"}"; }
  e << "]\n },\n \"assumptions\": [\"sequentially consistent memory (interleavings at memory-access granularity, no weak-memory reorderings)\", \"seeded sampling of schedules and faults, not exhaustive\", \"simulated libc/pthread surface behaves as POSIX allows\"],\n";
  e << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  e.close();
  printf("%s %s: %llu runs, %zu distinct, %.1f simulated s, %llu switches, %llu faults in %llu runs, %.1f s wall\n", g_prop->id, rcode == 0 ? "held" : rcode == 1 ? "VIOLATED" : "ERROR",
         (unsigned long long)T.runs, dn.size(), (double)T.simns / 1e9, (unsigned long long)T.switches,
         (unsigned long long)[&] { uint64_t f = 0; for (auto x : T.fires) f += x; return f; }(), (unsigned long long)T.runs_with_fault, wall);
  return rcode;
}
}  // namespace

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE) >= 0) {
      char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
      if (n > 0) { self[n] = 0; setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); execv(self, argv); }
    }
  }
  setenv("TZ", "UTC", 1); tzset();
  static char self[4096]; ssize_t sn = readlink("/proc/self/exe", self, sizeof self - 1); if (sn > 0) self[sn] = 0;
  g_self = self;
  setvbuf(stdout, nullptr, _IOLBF, 4096);
  init_process();
  std::map<std::string, std::string> opt; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i]; else pos.push_back(a); }
  auto get = [&](const char* k, const char* d) { auto it = opt.find(k); return it == opt.end() ? std::string(d) : it->second; };
  if (const char* s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10);
  if (opt.count("seed")) g_seed = strtoull(opt["seed"].c_str(), nullptr, 10);
  if (pos.empty()) { fprintf(stderr, "usage: check|replay|run|list\n"); return 2; }
  if (pos[0] == "list") { for (auto& p : registry()) { printf("%s", p.id); for (auto& s : p.sc) printf(" %s", s.name); printf("\n"); } return 0; }
  if (pos[0] == "replay") {
    Case c; std::string cls; uint64_t h;
    if (pos.size() < 2 || !read_replay(pos[1], c, cls, h)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    Result* r = shm<Result>();
    int rc = execute(c, r);
    if (rc == 1) {
      printf("%s: %s\n%s", r->cls, r->msg, symbolise(r).c_str());
      if (opt.count("log") || pos.size() > 2) printf("%s", r->log);
      if (cls == r->cls && h == r->hash) { printf("VIOLATION property=%s replay=%s\n", g_prop->id, pos[1].c_str()); return 1; }
      if (cls == r->cls && opt.count("adopt")) {
        std::ifstream in(pos[1]); std::string l, all; while (std::getline(in, l)) { char b[40]; snprintf(b, sizeof b, "hash %016" PRIx64, r->hash); all += (l.compare(0, 5, "hash ") == 0 ? b : l) + "\n"; }
        in.close(); std::ofstream(pos[1]) << all; return 1;
      }
      printf("a violation, but not the recorded one (%s hash %016" PRIx64 ")\n", cls.c_str(), r->hash); return 1 + 6;
    }
    printf(rc == 0 ? "no violation on replay\n" : "error on replay\n");
    return rc == 0 ? 0 : 2;
  }
  std::string id = pos.size() > 1 ? pos[1] : "";
  for (auto& p : registry()) if (id == p.id) g_prop = &p;
  if (!g_prop) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  if (pos[0] == "run") {
    uint64_t i = strtoull(pos.size() > 2 ? pos[2].c_str() : "0", nullptr, 10);
    Case c = make_case(i);
    Result* r = shm<Result>();
    int rc = execute(c, r);
    printf("%s\n", plan_text(c).c_str());
    printf("%s", r->log);
    printf("rc=%d class=%s msg=%s\n%shash=%016" PRIx64 " steps=%llu switches=%llu simns=%llu\n", rc, r->cls, r->msg, symbolise(r).c_str(), r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->simns);
    return rc;
  }
  if (pos[0] == "hashes") {           // for cross-process determinism comparison
    uint64_t a = strtoull(pos[2].c_str(), nullptr, 10), b = strtoull(pos[3].c_str(), nullptr, 10);
    Result* r = shm<Result>();
    for (uint64_t i = a; i < b; i++) { Case c = make_case(i); int rc = execute(c, r); printf("%llu %d %016" PRIx64 " %llu\n", (unsigned long long)i, rc, r->hash, (unsigned long long)r->steps); }
    return 0;
  }
  if (pos[0] == "check") {
    std::string tier = get("tier", getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick");
    const char* dflt = tier != "quick" ? "600" : g_prop->sc.size() > 16 ? "45" : "20";  // G02, G03 share it among all scenarios
    double budget = atof(get("budget", dflt).c_str());
    uint64_t maxr = strtoull(get("runs", tier == "quick" ? "200000" : "6000000").c_str(), nullptr, 10);
    int nw = atoi(get("workers", "8").c_str());
    return check(tier, budget, maxr, nw, get("evidence", "evidence.json"), get("replays", "replays"), get("known", "known_findings.txt"), 0);
  }
  return 2;
}
