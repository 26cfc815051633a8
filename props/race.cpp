// G03: no data race. The scenarios of all other properties run once more with the
// happens-before relation of the run tracked; a pair of unordered conflicting accesses
// by the library is a violation, whether or not anything went wrong in that run.
#include "common.h"
namespace sim { extern bool g_race; }
namespace {
struct Collect {
  Collect() {
    std::vector<Scenario> v;
    for (auto& p : registry()) for (auto& s : p.sc) {
      Scenario c = s; c.every *= 25;
      if (p.id[0] == 'D' || p.id[0] == 'I') c.every = std::max(c.every, 40);      // most of these have one thread
      c.name = strdup((std::string(p.id) + "-" + s.name).c_str()); v.push_back(c); }
    registry().clear();
    registry().push_back({"G03", v, "the library's sources (real, instrumented: every load, store, volatile and atomic access)", "scheduler, pthread primitives, heap, files, clocks (simulated), as in the properties the scenarios come from"});
    sim::g_race = true;
  }
} collect;
}  // namespace
