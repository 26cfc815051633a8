// M04: the library built with its memory checking feature behaves like the plain
// build. The scenarios of the other properties run again against the tracking
// build with the tracker switched on; their oracles are unchanged.
#include "common.h"
#include <algorithm>
#include <array>
#include <climits>
#include <cmath>
#include <ctime>
#include <set>
extern "C" {
#include <pthread.h>
#include "data/hashmap.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "data/array.h"
#include "data/list.h"
#include "common_macro.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/autocover_buffer.h"
#include "lcu.h"
#include "log/xlog.h"
#include "thread/portable_thread.h"
#include "log/file_logger.h"
#include "time/time_util.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
}
namespace {
struct Inner { const char* prop; Scenario sc; };
std::vector<Inner>& inners() { static std::vector<Inner> v; return v; }
struct MemReg { MemReg(Property p) { for (auto& s : p.sc) inners().push_back({p.id, s}); } };
size_t left_bytes;
void on_left(void*, size_t n, char* file, char* func, int line, void*) { left_bytes += n; note("left %zu by %s %s:%d", n, func, file, line); }
template <int I> void mrun(const Plan& p) {
  { NoFaults nf; allocation_tracker_init(); }
  leak_checks(false);
  inners()[I].sc.run(p);
  leak_checks(true);
  NoFaults nf; left_bytes = 0;
  size_t n = allocation_tracker_expect_no_allocations(on_left, nullptr);
  SIM_CHECK(n == 0 && left_bytes == 0, "tracked-leak", "%s/%s: %zu tracked bytes were never freed", inners()[I].prop, inners()[I].sc.name, n);
  allocation_tracker_uninit();
  check_no_leaks("after the tracker was shut down");
}
}  // namespace
#define Reg MemReg
namespace m_ini {
#include "ini.cpp"
}
namespace m_data {
#include "data.cpp"
}
namespace m_files {
#include "files.cpp"
}
namespace m_queue {
#include "queue.cpp"
}
namespace m_handler {
#include "handler.cpp"
}
namespace m_ring {
#include "ring.cpp"
}
namespace m_xlog {
#include "xlog.cpp"
}
namespace m_flog {
#include "flog.cpp"
}
#undef Reg
namespace {
// the scenarios whose components change in the tracking build
struct M4 {
  template <int I> static void add(std::vector<Scenario>& v, const std::vector<std::string>& want) {
    if ((size_t)I < inners().size()) {
      std::string n = std::string(inners()[I].prop) + "-" + inners()[I].sc.name;
      for (auto& w : want) if (w == n) { v.push_back({strdup(n.c_str()), inners()[I].sc.gen, mrun<I>}); }
    }
    if constexpr (I < 95) add<I + 1>(v, want);
  }
  M4() {
    std::vector<Scenario> v;
    add<0>(v, {"I01-save", "I02-ops", "I03-read", "D02-params", "F01-transfer", "F02-files", "F03-mkdirs", "F04-iterate", "Q01-spsc", "Q01-create", "Q02-spsc", "Q02-create",
               "H01-deliver", "H02-stop", "H02-create", "H03-deliver", "H03-stop", "H03-create", "H04-clear", "R03-locked", "R03-create", "L01-records", "L02-settings", "L03-pieces", "L04-faults"});
    registry().push_back({"M04", v, "src/mem/allocator.c, src/mem/allocation_tracker.c, src/data/hashmap.c and every component that includes mem_debug.h: ini_parser, str_params, file_util, file_iterator, xlog, file_logger, queues, handlers, autocover_buffer (real, instrumented, built with _LCU_MEM_CHECK_FEATURE_ENABLE)",
                          "scheduler, heap, files, clock and pthread primitives (simulated)"});
  }
} m4;
}  // namespace
