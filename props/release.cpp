// G02: the library built for release (optimised, NDEBUG, assertions off) keeps the
// same properties. This file is linked behind the scenario files of the other
// properties and hands all of their scenarios, oracles unchanged, to one property.
#include "common.h"
namespace {
struct Collect {
  Collect() {
    std::vector<Scenario> v;
    for (auto& p : registry()) for (auto& s : p.sc) { Scenario c = s; c.every *= 25; c.name = strdup((std::string(p.id) + "-" + s.name).c_str()); v.push_back(c); }
    registry().clear();
    registry().push_back({"G02", v, "every source of the library that builds on this platform, compiled with -O2 -DNDEBUG and without _DEBUG (real, instrumented)", "scheduler, pthread primitives, heap, files, clocks (simulated), as in the properties the scenarios come from"});
  }
} collect;
}  // namespace
