#include "common.h"
#include <unistd.h>
extern "C" {
#include "common_macro.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
}
#include <set>
extern "C" { FILE* sim_fopen(const char*, const char*); int sim_fclose(FILE*); int sim_fgetc(FILE*); int sim_fseek(FILE*, long, int); }
namespace {
void* lib_fopen(const char* a, const char* b) { return sim_fopen(a, b); }
int lib_fclose(void* f) { return sim_fclose((FILE*)f); }
int lib_fgetc(void* f) { return sim_fgetc((FILE*)f); }
int lib_fseek(void* f, long o) { return sim_fseek((FILE*)f, o, SEEK_SET); }
}
namespace {
// ------------------------------------------------------------------ F01 descriptors
// ops: 0 read a bytes, 1 write a bytes
void f1_gen(Rng& r, Plan& p, RunCfg& c) {
  p.p = {r.chance(1, 6) ? r.logrange(1, 20000) : r.range(0, 300), r.range(0, 1000)};
  int nc = (int)r.range(1, 2); p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) t.push_back({r.range(0, 1), r.chance(1, 8) ? r.logrange(100, 20000) : r.chance(1, 10) ? 0 : r.range(1, 120)}); }
  p.f[F_SHORTREAD].rate = (uint32_t)r.pick({0, 6000, 30000, 65535}); p.f[F_SHORTWRITE].rate = (uint32_t)r.pick({0, 6000, 30000, 65535});
  draw_fault(r, p, F_EINTR, 12, 1, 2);
  if (p.f[F_EINTR].len > 5) p.f[F_EINTR].len = 5;
  draw_fault(r, p, F_READ, 12, 2, 1); draw_fault(r, p, F_WRITE, 12, 2, 1);
  for (FaultKind k : {F_READ, F_WRITE}) if (p.f[k].len == 1000) p.f[k].len = 1000000;   // broken for good: to try again for ever is a hang
}
void f1_run(const Plan& p) {
  for (size_t ti = 0; ti < p.t.size(); ti++) spawn("client", [&, ti] {
    std::string in; int64_t n = P(p, 0); for (int64_t i = 0; i < n; i++) in += (char)pat((uint64_t)P(p, 1) + ti, (uint64_t)i);
    int fd = fs::pipe_fd(in); std::string written; size_t got = 0;
    for (auto& o : p.t[ti]) {
      size_t m = (size_t)(o.a < 0 ? 0 : o.a > 300000 ? 300000 : o.a);
      char* b = (char*)halloc(m);
      bool had = fs::fd_error_hit(fd); uint64_t e0 = fault_fired(F_READ) + fault_fired(F_WRITE);
      if (o.k == 0) {
        memset(b, 0x5c, m);
        int rc = file_util_read(fd, b, m);
        size_t took = fs::fd_consumed(fd) - got;
        SIM_CHECK(rc >= 0 && (size_t)rc == took, "count", "file_util_read returned %d but took %zu bytes from the descriptor", rc, took);
        SIM_CHECK(!memcmp(b, in.data() + got, took), "bytes", "the %zu bytes read differ from those delivered", took);
        for (size_t i = took; i < m; i++) SIM_CHECK(b[i] == 0x5c, "bytes", "byte %zu of the buffer, beyond the %zu read, was changed", i, took);
        size_t want = std::min(m, in.size() - got);
        if (fs::fd_error_hit(fd) == had && !had) SIM_CHECK(took == want, "short", "only %zu of %zu available bytes were read without an error", took, want);
        got += took;
      } else {
        for (size_t i = 0; i < m; i++) b[i] = (char)pat(77 + ti, written.size() + i);
        std::string s(b, m);
        int rc = file_util_write(fd, b, m);
        std::string w = fs::fd_written(fd); size_t put = w.size() - written.size();
        SIM_CHECK(rc >= 0 && (size_t)rc == put, "count", "file_util_write returned %d but the descriptor took %zu bytes", rc, put);
        SIM_CHECK(put <= m && w == written + s.substr(0, put), "bytes", "the descriptor received other bytes than were given");
        if (fs::fd_error_hit(fd) == had && !had) SIM_CHECK(put == m, "short", "only %zu of %zu bytes were written without an error", put, m);
        written = w;
      }
      SIM_CHECK(fault_fired(F_READ) + fault_fired(F_WRITE) - e0 < 20000, "endless", "a descriptor that keeps failing was tried over and over instead of returning");
      hfree(b);
    }
  });
  join_all_clients();
  check_no_leaks("at the end");
}
// beyond 2^16 bytes in one call, which a descriptor hands over in parts
void f1b_gen(Rng& r, Plan& p, RunCfg& c) {
  p.p = {r.range(60000, 280000), r.range(0, 1000)}; p.t.resize(1);
  for (int n = (int)r.range(1, 3); n > 0; n--) p.t[0].push_back({r.range(0, 1), r.chance(1, 3) ? r.range(65530, 65542) : r.range(60000, 200000)});
  p.f[F_SHORTREAD].rate = (uint32_t)r.pick({0, 3000, 30000}); p.f[F_SHORTWRITE].rate = (uint32_t)r.pick({0, 3000, 30000});
  draw_fault(r, p, F_EINTR, 4, 1, 2); if (p.f[F_EINTR].len > 5) p.f[F_EINTR].len = 5;
  draw_fault(r, p, F_READ, 4, 4, 1); draw_fault(r, p, F_WRITE, 4, 4, 1);
}
// ------------------------------------------------------------------ F02 whole files
std::string content(Rng& r, int64_t kind, int64_t n) {
  std::string s;
  static const char* piece[] = {"\n", "\r\n", " ", "\t", "a", "key=value", "# c", "  lead", "tail  ", "\r", "\n\n", "\xe4\xbd\xa0", "x\ry", "0", " \r\n"};
  if (kind == 3) { for (int64_t i = 0; i < n; i++) { char b[32]; snprintf(b, sizeof b, i % 7 == 3 ? "\r\n" : i % 5 == 2 ? "  l%lld\r\n" : "l%lld\n", (long long)i); s += b; } }   // n lines
  else if (kind == 0) { while ((int64_t)s.size() < n) s += (char)r.below(256); s.resize((size_t)n); }
  else while ((int64_t)s.size() < n) { if (r.chance(1, 30)) s += std::string((size_t)r.range(1, 900), 'L'); s += piece[r.below(sizeof piece / sizeof *piece)]; }
  return s;
}
struct Line { int num; std::string txt; };
// lines of up to 1022 bytes, as fgets with the documented buffer sees them
bool lines_of(const std::string& s, std::vector<Line>& v) {
  int num = 0;
  for (size_t i = 0; i < s.size(); num++) {
    size_t e = s.find('\n', i); bool nl = e != std::string::npos; if (!nl) e = s.size();
    std::string t = s.substr(i, e - i); i = e + (nl ? 1 : 0);
    if (t.size() > 1021) return false;
    if (t.find('\0') != std::string::npos) return false;
    if (!t.empty() && t.back() == '\r') t.pop_back();
    size_t k = 0; while (k < t.size() && isspace((int)t[k])) k++;
    if (k < t.size()) v.push_back({num, t.substr(k)});
  }
  return true;
}
struct Txt { std::vector<Line> got; int stop = -1, code = 0; bool prefix_only = false; };
int on_line(int n, char* t, void* u) { Txt* x = (Txt*)u; x->got.push_back({n, t}); yield(); return (int)x->got.size() == x->stop ? x->code : 0; }
void faults_io(Rng& r, Plan& p) {
  draw_fault(r, p, F_FOPEN, 5, 4, 1); draw_fault(r, p, F_READ, 6, 3, 1); draw_fault(r, p, F_SEEK, 8, 3, 1); draw_fault(r, p, F_MALLOC, 5, 4, 1); draw_fault(r, p, F_CLOSE, 4, 6, 1); draw_fault(r, p, F_STAT, 4, 5, 1);
  if (r.chance(2, 3)) p.f[F_SHORTREAD].rate = (uint32_t)r.pick({6000, 30000, 65535});
}
// ops: 0 read_all, 1 read_txt, 2 size by path, 3 size by stream, 4 missing/invalid, 5 folder, 6 sizes of files beyond 2 GiB
void f2_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 100, 512, 4096}); c.max_steps = 1500000;
  p.p = {(int64_t)r.below(1u << 30), r.range(0, 2), r.chance(1, 8) ? r.logrange(500, 9000) : r.chance(1, 10) ? 0 : r.range(1, 300)};
  int nc = (int)r.range(1, 2); p.t.resize((size_t)nc);
  for (auto& t : p.t) { int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) t.push_back({r.pick({0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6}), r.range(1, 6), r.range(-3, 3)}); }
  if (r.chance(3, 4)) faults_io(r, p);
}
void f2_run(const Plan& p) {
  Rng r((uint64_t)P(p, 0)); std::string data = content(r, P(p, 1), std::min<int64_t>(std::max<int64_t>(P(p, 2), 0), P(p, 1) == 3 ? 100000 : 20000));
  fs::put("/tmp/f.txt", data); fs::mkdir_p("/tmp/dir");
  std::vector<Line> want; bool judged = lines_of(data, want);
  for (size_t ti = 0; ti < p.t.size(); ti++) spawn("client", [&, ti] {
    for (auto& o : p.t[ti]) {
      uint64_t f0 = 0, f1; auto fired = [&] { uint64_t n = 0; for (FaultKind k : {F_FOPEN, F_READ, F_SEEK, F_MALLOC, F_CLOSE, F_STAT}) n += fault_fired(k); return n; };
      f0 = fired();
      switch (o.k) {
        case 0: {
          char** pp = (char**)halloc(sizeof(char*)); int* len = (int*)halloc(sizeof(int)); *pp = (char*)1; *len = 12345;
          int rc = file_util_read_all("/tmp/f.txt", pp, len); f1 = fired();
          if (rc == 0) {
            SIM_CHECK(*pp && *len == (int)data.size(), "length", "read_all of a %zu byte file reports %d bytes", data.size(), *len);
            check_mem(*pp, data.size() + 1, false, "read_all buffer");
            SIM_CHECK(!memcmp(*pp, data.data(), data.size()) && (*pp)[data.size()] == 0, "content", "read_all returned other content than the file has, or no terminator");
            lib_free(*pp);
          } else {
            SIM_CHECK(*pp == nullptr, "buffer", "read_all failed (%d) but handed out a buffer", rc);
            SIM_CHECK(f1 != f0 || data.empty(), "failed", "read_all failed (%d) without any failure", rc);
          }
          hfree(pp); hfree(len); break;
        }
        case 1: {
          Txt x; if (o.b > 0) { x.stop = (int)o.a; x.code = (int)o.b; }
          int rc = file_util_read_txt("/tmp/f.txt", on_line, &x); f1 = fired();
          if (!judged) break;
          SIM_CHECK(x.got.size() <= want.size(), "lines", "%zu lines were passed, the file has %zu", x.got.size(), want.size());
          for (size_t i = 0; i < x.got.size(); i++) {
            SIM_CHECK(x.got[i].num == want[i].num, "line-number", "line %d was passed as line %d", want[i].num, x.got[i].num);
            SIM_CHECK(x.got[i].txt == want[i].txt, "line", "line %d was passed as %s, it is %s", want[i].num, hex(x.got[i].txt).c_str(), hex(want[i].txt).c_str());
          }
          bool stopped = x.stop > 0 && (int)x.got.size() >= x.stop;
          if (stopped) { SIM_CHECK((int)x.got.size() == x.stop, "stop", "%zu lines were passed after the callback stopped at %d", x.got.size(), x.stop); SIM_CHECK(rc == x.code, "stop", "the callback's result %d was returned as %d", x.code, rc); }
          else if (f1 == f0) { SIM_CHECK(rc == 0, "failed", "read_txt failed (%d) without any failure", rc); SIM_CHECK(x.got.size() == want.size(), "lines", "only %zu of %zu lines were passed", x.got.size(), want.size()); }
          break;
        }
        case 2: { long n = file_util_get_size_by_path("/tmp/f.txt"); f1 = fired(); SIM_CHECK(n == (long)data.size() || (n < 0 && f1 != f0), "size", "the size of a %zu byte file is reported as %ld", data.size(), n); break; }
        case 3: {
          SIM_CHECK(file_util_get_size_by_fs(nullptr) < 0, "size", "the size of no stream is not an error");
          void* f = lib_fopen("/tmp/f.txt", "rb"); if (!f) break;
          { NoFaults nf; if (o.a < (int64_t)data.size()) lib_fseek(f, (long)o.a); }
          f0 = fired(); long n = file_util_get_size_by_fs((FILE*)f); f1 = fired();
          SIM_CHECK(n == (long)data.size() || (n < 0 && f1 != f0), "size", "the size of a %zu byte stream is reported as %ld", data.size(), n);
          if (n >= 0 && !data.empty() && f1 == f0) { NoFaults nf; int ch = lib_fgetc(f); SIM_CHECK(ch == (uint8_t)data[0], "position", "after the size query the stream is not at its start"); }
          lib_fclose(f);
          break;
        }
        case 4: {
          char* q = (char*)1; int len = 0; Txt x;
          SIM_CHECK(file_util_read_all("/tmp/none", &q, &len) != 0 && !q && len == -1, "missing", "read_all of a missing file did not fail cleanly");
          q = (char*)1; len = 5; SIM_CHECK(file_util_read_all(nullptr, &q, &len) != 0 && !q && len == -1, "missing", "read_all of no path did not fail cleanly");
          q = (char*)1; SIM_CHECK(file_util_read_all("", &q, &len) != 0 && !q && file_util_read_all("/tmp/f.txt", nullptr, &len) != 0, "missing", "read_all with invalid arguments did not fail cleanly");
          q = (char*)1; SIM_CHECK(file_util_read_all("/tmp/f.txt", &q, nullptr) != 0 && !q, "missing", "read_all with invalid arguments did not fail cleanly");
          SIM_CHECK(file_util_read_txt("/tmp/none", on_line, &x) != 0 && x.got.empty(), "missing", "read_txt of a missing file did not fail");
          SIM_CHECK(file_util_get_size_by_path("/tmp/none") < 0, "missing", "a missing file has a size");
          break;
        }
        case 6: {
          long size = (long)((o.a & 1 ? 1ll << 31 : o.a & 2 ? 1ll << 32 : 1ll << 40) + o.b); fs::put_sparse("/tmp/big" + std::to_string(ti), "start", size); std::string path = "/tmp/big" + std::to_string(ti);
          long n = file_util_get_size_by_path(path.c_str()); f1 = fired(); SIM_CHECK(n == size || (n < 0 && f1 != f0), "size", "the size of a %ld byte file is reported as %ld", size, n);
          void* f = lib_fopen(path.c_str(), "rb"); if (!f) break;
          f0 = fired(); n = file_util_get_size_by_fs((FILE*)f); f1 = fired(); SIM_CHECK(n == size || (n < 0 && f1 != f0), "size", "the size of a %ld byte stream is reported as %ld", size, n);
          if (n >= 0 && f1 == f0) { NoFaults nf; SIM_CHECK(lib_fgetc(f) == 's', "position", "after the size query the stream is not at its start"); }
          lib_fclose(f); break;
        }
        default: { char* q = (char*)1; int len; SIM_CHECK(file_util_read_all("/tmp/dir", &q, &len) != 0 && !q, "folder", "read_all of a folder did not fail cleanly"); Txt x; file_util_read_txt("/tmp/dir", on_line, &x); SIM_CHECK(x.got.empty(), "folder", "read_txt of a folder passed lines"); }
      }
    }
  });
  join_all_clients();
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams());
  check_no_leaks("at the end");
}
// more than 2^16 lines
void f2b_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({512, 4096, 4096}); c.max_steps = 6000000;
  p.p = {(int64_t)r.below(1u << 30), 3, r.chance(1, 2) ? r.range(65500, 66500) : r.range(300, 90000)}; p.t.resize(1);
  for (int n = (int)r.range(1, 2); n > 0; n--) p.t[0].push_back({r.pick({0, 1, 1, 1, 2}), r.range(1, 60000), r.chance(1, 3) ? r.range(-3, 3) : 0});
  if (r.chance(1, 4)) faults_io(r, p);
  if (p.f[F_SHORTREAD].rate > 6000) p.f[F_SHORTREAD].rate = 6000;
}
// the file grows or shrinks while it is read
void f2c_gen(Rng& r, Plan& p, RunCfg& c) {
  c.stdiobuf = r.pick({16, 100, 512}); p.p = {(int64_t)r.below(1u << 30), r.range(20, 600), r.range(0, 2), r.range(1, 200)}; p.t.resize(2);
  for (int i = (int)r.range(1, 3); i > 0; i--) p.t[0].push_back({r.range(0, 1)});
  for (int i = (int)r.range(1, 5); i > 0; i--) p.t[1].push_back({r.range(1, 200)});
  if (r.chance(1, 2)) p.f[F_SHORTREAD].rate = 20000;
}
void f2c_run(const Plan& p) {
  std::string full; for (int64_t i = 0; i < 3000; i++) full += (char)('a' + pat((uint64_t)P(p, 0), (uint64_t)i) % 20);
  for (size_t i = 37; i < full.size(); i += 41) full[i] = '\n';
  size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(P(p, 1), 1), 2000); bool shrink = P(p, 2) == 2; size_t lo = n;
  fs::put("/tmp/g", full.substr(0, n));
  spawn("reader", [&] {
    for (auto& o : p.t[0]) {
      if (o.k == 0) {
        char* q = nullptr; int len = -7; size_t least = lo; int rc = file_util_read_all("/tmp/g", &q, &len);
        if (rc) { SIM_CHECK(!q, "buffer", "a failed read_all handed out a buffer"); SIM_CHECK(shrink, "failed", "read_all of a growing file failed (%d)", rc); continue; }
        SIM_CHECK(q && len >= 0 && (size_t)len <= full.size() && !memcmp(q, full.data(), (size_t)len) && q[len] == 0, "content", "read_all of a changing file returned %d bytes it never had", len);
        if (!shrink) SIM_CHECK((size_t)len >= least, "content", "read_all returned %d bytes of a file with at least %zu", len, least);
        lib_free(q);
      } else {
        Txt x; file_util_read_txt("/tmp/g", on_line, &x); std::vector<Line> w; lines_of(full, w);
        for (size_t i = 0; i < x.got.size(); i++) { bool last = i + 1 == x.got.size(); SIM_CHECK(i < w.size() && x.got[i].num == w[i].num && (last ? w[i].txt.compare(0, x.got[i].txt.size(), x.got[i].txt) == 0 : w[i].txt == x.got[i].txt), "line", "a line that never was in the file was passed"); }
      }
    }
  });
  spawn("writer", [&] { for (auto& o : p.t[1]) { for (int i = 0; i < 5 + o.a % 40; i++) yield(); size_t d = (size_t)(o.a < 0 ? 0 : o.a); if (shrink) n = n > d ? n - d : 0; else n = std::min<size_t>(n + d, full.size()); fs::put("/tmp/g", full.substr(0, n)); if (!shrink) lo = n; } });
  join_all_clients();
  SIM_CHECK(fs::open_streams() == 0, "stream-leak", "%d streams stay open", fs::open_streams());
  check_no_leaks("at the end");
}
// ------------------------------------------------------------------ F03 mkdirs
std::string mkpath(int64_t seed, int64_t len, int64_t comps) {
  Rng r((uint64_t)seed);
  if (comps > 0) { std::string s = "/tmp/"; for (int64_t i = 0; i < comps && i < 140; i++) { s += (char)('a' + r.below(2)); s += '/'; } return s; }   // as deep as a path can be
  std::string s = r.chance(2, 3) ? "/tmp/" : r.chance(1, 2) ? "rel/" : "/";
  static const char* c[] = {"a", "b", "a", "cc", "d e", "x.y", "."};
  int n = (int)r.range(0, 5);
  for (int i = 0; i < n; i++) { s += c[r.below(7)]; if (i + 1 < n || r.chance(4, 5)) s += r.chance(1, 8) ? "//" : "/"; }
  while ((int64_t)s.size() < len) { s += s.empty() || s.back() == '/' ? "" : ""; int k = (int)r.range(1, 30); while (k-- > 0 && (int64_t)s.size() < len - 1) s += 'z'; s += '/'; }
  return s;
}
void f3_gen(Rng& r, Plan& p, RunCfg& c) {
  p.p = {r.range(0, 3)};
  int nc = (int)r.range(1, 4); p.t.resize((size_t)nc); int64_t base = (int64_t)r.below(1u << 20);
  for (auto& t : p.t) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) t.push_back({0, base + r.range(0, 3), r.chance(1, 10) ? r.chance(1, 6) ? 65536 + r.range(0, 200) : r.range(240, 270) : 0, r.chance(1, 30) ? r.pick({30, 64, 65, 100, 124, 125, 126}) : 0}); }
  if (r.chance(1, 2)) { draw_fault(r, p, F_MKDIR, 6, 0, 1); if (r.chance(1, 3)) draw_fault(r, p, F_STAT, 10, 0, 1); }
}
void f3_run(const Plan& p) {
  if (P(p, 0) == 0) { NoFaults nf; fs::put("/tmp/a/b", "file in the way"); }
  if (P(p, 0) == 1) fs::mkdir_p("/tmp/a");
  std::set<std::string> before; for (auto& s : fs::all_paths()) before.insert(s);
  std::vector<std::string> req; bool huge = false;
  for (size_t ti = 0; ti < p.t.size(); ti++) spawn("client", [&, ti] {
    for (auto& o : p.t[ti]) {
      std::string s = mkpath(o.a, std::min<int64_t>(o.b, 70000), o.c); char* b = (char*)halloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1);
      if (s.size() <= 400) req.push_back(s); else huge = true;
      uint64_t f0 = fault_fired(F_MKDIR) + fault_fired(F_STAT);
      int rc = file_util_mkdirs(b);
      uint64_t f1 = fault_fired(F_MKDIR) + fault_fired(F_STAT);
      SIM_CHECK(!memcmp(b, s.c_str(), s.size() + 1), "path", "mkdirs changed the path it was given");
      hfree(b);
      bool blocked = false;
      if (s.size() > 400) { SIM_CHECK(rc != 0 || fs::is_dir(s), "missing", "mkdirs of a path of %zu characters returned 0 but it is no folder", s.size()); continue; }
      for (size_t i = 1; i < s.size(); i++) if (s[i] == '/') {
        std::string pre = s.substr(0, i);
        if (rc == 0) SIM_CHECK(fs::is_dir(pre), "missing", "mkdirs of %s returned 0 but %s is no folder", s.c_str(), pre.c_str());
        if (fs::exists(pre) && !fs::is_dir(pre)) blocked = true;
      }
      if (rc != 0) SIM_CHECK(f1 != f0 || blocked || s.size() > 255, "failed", "mkdirs of %s failed (%d) although nothing went wrong", s.c_str(), rc);
    }
  });
  join_all_clients();
  std::set<std::string> allowed = before;
  auto comps = [](const std::string& s0) { std::string s = s0[0] == '/' ? s0 : "/cwd/" + s0; std::vector<std::string> v; std::string cur; std::string part; for (char ch : s) { if (ch == '/') { if (!part.empty() && part != ".") { cur += "/" + part; v.push_back(cur); } part.clear(); } else part += ch; } return v; };
  for (auto& s : req) for (auto& c : comps(s)) allowed.insert(c);
  if (!huge) for (auto& s : fs::all_paths()) SIM_CHECK(allowed.count(s), "extra", "mkdirs created %s, which nobody asked for", s.c_str());
  for (auto& s : before) SIM_CHECK(fs::exists(s), "removed", "%s vanished", s.c_str());
  faults(false);
  for (auto& s : req) {      // repeating succeeds once the fault is gone
    bool blocked = s.size() > 255; for (auto& c : comps(s)) if (fs::exists(c) && !fs::is_dir(c)) blocked = true;
    int rc = file_util_mkdirs(s.c_str());
    if (!blocked) { SIM_CHECK(rc == 0, "repeat", "mkdirs of %s fails (%d) although nothing is in the way", s.c_str(), rc); for (auto& c : comps(s)) SIM_CHECK(fs::is_dir(c), "missing", "%s is missing after mkdirs", c.c_str()); }
    else if (s.size() <= 255) SIM_CHECK(rc != 0, "blocked", "mkdirs of %s returned 0 although a file is in the way", s.c_str());
  }
  SIM_CHECK(file_util_mkdirs(nullptr) != 0, "null", "mkdirs(NULL) returned 0");
  check_no_leaks("at the end");
}
// the folder path is made ready first: a separator is appended inside the buffer given, then the folders are created
void f3s_gen(Rng& r, Plan& p, RunCfg& c) {
  p.t.resize((size_t)r.range(1, 3));
  for (auto& t : p.t) for (int i = (int)r.range(1, 6); i > 0; i--) t.push_back({r.range(0, 11), (int64_t)r.below(1u << 20), r.pick({0, 0, 1, 2, 3, 9, 40}), r.range(0, 3)});
  if (r.chance(1, 3)) draw_fault(r, p, F_MKDIR, 6, 0, 1);
}
void f3s_run(const Plan& p) {
  for (size_t ti = 0; ti < p.t.size(); ti++) spawn("client", [&, ti] {
    for (auto& o : p.t[ti]) {
      Rng r((uint64_t)o.a); std::string s;
      if (o.k >= 3) { s = r.chance(1, 2) ? "/tmp/q" : "q"; for (int n = (int)r.range(0, 4); n > 0; n--) { s += r.chance(1, 4) ? "/" : ""; s += (char)('a' + r.below(4)); } if (r.chance(1, 3)) s += '/'; }
      if (o.k == 11) { s = "/tmp/"; for (int64_t n = r.chance(1, 4) ? 65530 + (int64_t)r.below(10) : r.range(200, 400); n > 0; n--) s += (char)('a' + n % 26); }   // longer than any folder: made ready all the same
      else if (o.k == 2) s = r.chance(1, 2) ? "C:\\x\\y" : "C:\\x\\";
      else if (o.k == 1) s = "";
      size_t trimmed = s.size(); if (o.k != 1) s += std::string((size_t)(o.c & 3) * (o.k == 0 ? 1 : o.k & 1), ' ');
      size_t size = s.size() + 1 + (size_t)std::min<int64_t>(std::max<int64_t>(o.b, 0), 100);
      char* b = (char*)halloc(size); memset(b, 0x5d, size); memcpy(b, s.c_str(), s.size() + 1);
      int rc = file_util_append_slash_on_path_if_needed(b, size);
      bool valid = trimmed > 0 && size >= 3;
      SIM_CHECK((rc == 0) == valid, "slash", "making \"%s\" a folder path in %zu bytes returned %d", s.c_str(), size, rc);
      if (rc == 0) {
        char sep = s.find('\\') != std::string::npos ? '\\' : '/';
        SIM_CHECK(memchr(b, 0, size), "slash", "no terminator in the %zu bytes of the path", size);
        std::string want = s.substr(0, trimmed), got = b; if (want.back() != sep) want += sep;
        if (s[trimmed - 1] == sep) SIM_CHECK(got == s, "slash", "\"%s\" already ends with a separator and became \"%s\"", s.c_str(), got.c_str());
        else if (trimmed + 2 <= size) SIM_CHECK(got == want, "slash", "\"%s\" became \"%s\"", s.c_str(), got.c_str());
        else SIM_CHECK(got.size() < size && !got.empty() && got.back() == sep, "slash", "\"%s\" became \"%s\" in %zu bytes", s.c_str(), got.c_str(), size);
        if (o.k >= 3 && o.k != 11 && trimmed + 2 <= size) {
          uint64_t f0 = fault_fired(F_MKDIR); rc = file_util_mkdirs(b);
          if (rc == 0) SIM_CHECK(fs::is_dir(want.substr(0, want.size() - 1)) && file_util_access(want.substr(0, want.size() - 1).c_str(), 0) == 0, "missing", "%s is missing after mkdirs returned 0", want.c_str());
          else SIM_CHECK(fault_fired(F_MKDIR) != f0, "failed", "mkdirs of %s failed (%d) although nothing went wrong", b, rc);
        }
      } else SIM_CHECK(!memcmp(b, s.c_str(), s.size() + 1), "slash", "a refused path was changed");
      for (size_t i = s.size() + 2; i < size; i++) SIM_CHECK(b[i] == 0x5d, "slash", "byte %zu beyond the path was changed", i);
      hfree(b);
      SIM_CHECK(file_util_append_slash_on_path_if_needed(nullptr, 10) != 0, "slash", "no path became a folder path");
      SIM_CHECK(file_util_access("/tmp/none", 0) != 0, "access", "a missing file is accessible");
      fs::put("/tmp/some", "x"); uint64_t f0 = fault_fired(F_STAT);
      int there = file_util_access("/tmp/some", F_OK), rw = file_util_access("/tmp/some", R_OK | W_OK), run = file_util_access("/tmp/some", X_OK), in = file_util_access("/tmp", X_OK);
      if (fault_fired(F_STAT) == f0) SIM_CHECK(there == 0 && rw == 0 && run != 0 && in == 0, "access", "a file is found %d, readable and writable %d, executable %d; its folder can be entered %d", there, rw, run, in);
    }
  });
  join_all_clients();
  check_no_leaks("at the end");
}
// ------------------------------------------------------------------ F04 iteration
struct Entry { std::string name; bool dir; size_t size; int link; };   // link: 0 none, 1 to what it says, 2 to nothing
Entry entry(int64_t i) {
  static const char* n[] = {"a", "bb", "...", ".hidden", "..x", "dir1", "file with space", "z.txt", ".a", "longer_name_of_a_file.log", "c", "dd"};
  size_t k = (size_t)(i % 12); return {n[k], (i / 12) % 2 != 0, (size_t)(i % 37), (int)(i / 24 % 4 == 3 ? 1 : i / 24 % 4 == 2 && i % 3 == 0 ? 2 : 0)};
}
struct It { std::vector<std::string> names; int stop = -1; char* dir = nullptr; std::set<std::string>* ever = nullptr; const std::vector<Entry>* fixed = nullptr; };
int on_entry(file_info_t* f, void* u) {
  It* x = (It*)u; yield();
  SIM_CHECK(f->dir == x->dir, "dir", "the reported folder is not the one asked for");
  std::string n = f->name;
  for (auto& s : x->names) SIM_CHECK(s != n, "twice", "entry %s was reported twice", n.c_str());
  SIM_CHECK(x->ever->count(n), "unknown", "entry %s, which never existed, was reported", n.c_str());
  for (auto& e : *x->fixed) if (e.name == n) {
    SIM_CHECK(f->type == (e.dir ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE), "type", "%s %s was reported with type %d", e.dir ? "folder" : "file", n.c_str(), f->type);
    SIM_CHECK(f->p_stat && (!!S_ISDIR(f->p_stat->st_mode) == e.dir) && (e.dir || (size_t)f->p_stat->st_size == e.size), "stat", "the reported status of %s is not its own", n.c_str());
  }
  x->names.push_back(n);
  return (int)x->names.size() == x->stop ? 1 : 0;
}
// ops of clients: 0 iterate (a = stop after), 1 iterate something else (a: 0 missing, 1 a file, 2 subfolder); of the mutator: 2 remove, 3 create
void f4_gen(Rng& r, Plan& p, RunCfg& c) {
  // p[0]: the folder: plain, a symbolic link to it, one with a long path
  p.p = {r.pick({0, 0, 1, 2})}; std::set<int64_t> used; int n = (int)r.range(0, 9);
  for (int i = 0; i < n; i++) { int64_t e = r.range(0, 95); if (used.insert(e % 12).second) p.p.push_back(e); }
  int nc = (int)r.range(1, 2); p.t.resize((size_t)nc + 1);
  for (int t = 0; t < nc; t++) for (int i = (int)r.range(1, 2); i > 0; i--) { if (r.chance(4, 5)) p.t[(size_t)t].push_back({0, r.chance(1, 4) ? r.range(1, 5) : -1}); else p.t[(size_t)t].push_back({1, r.range(0, 2)}); }
  if (r.chance(1, 2)) for (int i = (int)r.range(1, 5); i > 0; i--) p.t.back().push_back({r.range(2, 3), r.range(0, 11), r.range(0, 25)});
  draw_fault(r, p, F_STAT, 12, 2, 1); draw_fault(r, p, F_OPENDIR, 3, 4, 1);
}
void f4_run(const Plan& p) {
  NoFaults* nf = new NoFaults;
  std::string w = "/tmp/w", named = w; int64_t where = P(p, 0, 0);
  if (where == 2) { for (int i = 0; i < 5; i++) w += "/" + std::string(50 + (size_t)i, (char)('k' + i)); named = w; }
  if (where == 1) { fs::symlink("/tmp/link", "w"); named = "/tmp/link"; }
  fs::mkdir_p(w); fs::mkdir_p("/tmp/target/sub"); 
  std::vector<Entry> fixed; std::set<std::string> ever, gone;
  for (size_t k = 1; k < p.p.size(); k++) {
    Entry e = entry(p.p[k] < 0 ? 0 : p.p[k]); if (ever.count(e.name)) continue;
    if (e.link == 2) { fs::symlink(w + "/" + e.name, "/tmp/nothing"); continue; }   // cannot be examined: skipped
    if (e.link == 1 && e.dir) fs::symlink(w + "/" + e.name, "/tmp/target/sub");
    else if (e.link == 1) { fs::put("/tmp/target/f" + std::to_string(k), std::string(e.size, 'q')); fs::symlink(w + "/" + e.name, "/tmp/target/f" + std::to_string(k)); }
    else if (e.dir) fs::mkdir_p(w + "/" + e.name);
    else fs::put(w + "/" + e.name, std::string(e.size, 'q'));
    ever.insert(e.name); fixed.push_back(e);
  }
  fs::put("/tmp/afile", "x"); fs::mkdir_p("/tmp/w2/..inner");
  delete nf;
  size_t nc = p.t.size() ? p.t.size() - 1 : 0;
  for (size_t ti = 0; ti < nc; ti++) spawn("client", [&, ti] {
    for (auto& o : p.t[ti]) {
      const char* d = o.k == 0 ? named.c_str() : o.a == 0 ? "/tmp/none" : o.a == 1 ? "/tmp/afile" : "/tmp/w2";
      char* dir = (char*)halloc(strlen(d) + 1); memcpy(dir, d, strlen(d) + 1);
      It x; x.dir = dir; x.ever = &ever; x.fixed = &fixed; std::set<std::string> inner = {"..inner"}; std::vector<Entry> none; if (o.k && o.a == 2) { x.ever = &inner; x.fixed = &none; }
      if (o.k == 0) x.stop = (int)o.a;
      std::set<std::string> gone0 = gone; std::vector<Entry> fx = fixed;
      uint64_t s0 = fault_fired(F_STAT), d0 = fault_fired(F_OPENDIR);
      int rc = file_iterator_foreach(dir, on_entry, &x);
      uint64_t s1 = fault_fired(F_STAT), d1 = fault_fired(F_OPENDIR);
      if (rc) { SIM_CHECK(x.names.empty(), "error", "an error was returned after %zu callbacks", x.names.size()); if (o.k == 0 || o.a == 2) SIM_CHECK(s1 != s0 || d1 != d0, "failed", "iterating %s failed (%d) although nothing went wrong", d, rc); }
      else {
        SIM_CHECK(o.k == 0 || o.a == 2, "no-folder", "iterating %s returned no error", d);
        if (x.stop > 0) SIM_CHECK((int)x.names.size() <= x.stop, "stop", "%zu callbacks, the callback asked to stop at %d", x.names.size(), x.stop);
        if (x.stop <= 0 || (int)x.names.size() < x.stop) {
          uint64_t missing = 0; std::string m;
          auto have = [&](const std::string& n) { for (auto& s : x.names) if (s == n) return true; return false; };
          if (o.k == 0) { for (auto& e : fx) if (!gone.count(e.name) && !have(e.name)) { missing++; m = e.name; } }
          else if (!have("..inner")) { missing++; m = "..inner"; }
          SIM_CHECK(missing <= s1 - s0, "missing", "entry %s, present all the time, was not reported", m.c_str());
        }
      }
      hfree(dir);
    }
  });
  if (!p.t.empty()) spawn("mutator", [&] {
    for (auto& o : p.t.back()) {
      for (int64_t i = 0; i < o.b; i++) yield();
      std::string n = entry(o.a < 0 ? 0 : o.a).name;
      if (o.k == 2) { gone.insert(n); for (size_t i = 0; i < fixed.size(); i++) if (fixed[i].name == n) { fixed.erase(fixed.begin() + (long)i); break; } fs::remove(w + "/" + n); }
      else if (!ever.count(n) && !fs::exists_raw(w + "/" + n)) { ever.insert(n); fs::put(w + "/" + n, "new"); }
    }
  });
  join_all_clients();
  SIM_CHECK(fs::open_dirs() == 0, "dir-leak", "%d folder streams stay open", fs::open_dirs());
  check_no_leaks("at the end");
}
// a folder with many entries
void f4b_gen(Rng& r, Plan& p, RunCfg& c) {
  c.max_steps = 4000000; p.p = {r.chance(1, 3) ? r.range(65530, 66500) : r.range(250, 4000), r.range(0, 9)}; p.t.resize(1);
  p.t[0].push_back({0, r.chance(1, 3) ? r.range(1, P(p, 0)) : -1});
  draw_fault(r, p, F_STAT, 3000, 3, 1);
}
struct Crowd { std::vector<uint8_t> seen; size_t n = 0; int64_t stop = -1; int64_t salt = 0; };
int on_crowd(file_info_t* f, void* u) {
  Crowd* x = (Crowd*)u; char* e = nullptr; long k = f->name[0] == 'e' ? strtol(f->name + 1, &e, 10) : -1;
  SIM_CHECK(k >= 0 && k < (long)x->seen.size() && e && !*e, "unknown", "entry %s, which never existed, was reported", f->name);
  SIM_CHECK(!x->seen[(size_t)k], "twice", "entry %s was reported twice", f->name);
  bool dir = (k + x->salt) % 10 == 3; SIM_CHECK(f->type == (dir ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE) && f->p_stat && !!S_ISDIR(f->p_stat->st_mode) == dir && (dir || f->p_stat->st_size == k % 11), "type", "%s %s was reported with type %d or the status of another", dir ? "folder" : "file", f->name, f->type);
  x->seen[(size_t)k] = 1; x->n++;
  return (int64_t)x->n == x->stop;
}
void f4b_run(const Plan& p) {
  Crowd x; x.seen.resize((size_t)std::min<int64_t>(std::max<int64_t>(P(p, 0), 0), 80000)); x.salt = P(p, 1) & 15; fs::mkdir_p("/tmp/w");
  for (size_t k = 0; k < x.seen.size(); k++) { std::string n = "/tmp/w/e" + std::to_string(k); if (((int64_t)k + x.salt) % 10 == 3) fs::mkdir_p(n); else fs::put(n, std::string(k % 11, 'q')); }
  for (auto& o : p.t.empty() ? std::vector<Op>() : p.t[0]) {
    std::fill(x.seen.begin(), x.seen.end(), 0); x.n = 0; x.stop = o.a; char dir[] = "/tmp/w";
    uint64_t s0 = fault_fired(F_STAT); int rc = file_iterator_foreach(dir, on_crowd, &x); uint64_t s1 = fault_fired(F_STAT);
    if (rc) { SIM_CHECK(x.n == 0 && s1 != s0, "failed", "iterating failed (%d) although nothing went wrong, or after %zu callbacks", rc, x.n); continue; }
    if (x.stop > 0) SIM_CHECK((int64_t)x.n <= x.stop, "stop", "%zu callbacks, the callback asked to stop at %lld", x.n, (long long)x.stop);
    if (x.stop <= 0 || (int64_t)x.n < x.stop) SIM_CHECK(x.n + (s1 - s0) >= x.seen.size(), "missing", "only %zu of %zu entries were reported", x.n, x.seen.size());
  }
  SIM_CHECK(fs::open_dirs() == 0, "dir-leak", "%d folder streams stay open", fs::open_dirs());
  check_no_leaks("at the end");
}
const char* kStub = "descriptors, streams, folders and their failures are a simulated file system; threads are scheduled by the simulator";
Reg r1({"F01", {{"transfer", f1_gen, f1_run}, {"scale", f1b_gen, f1_run, 24}}, "src/file/file_util.c (real, instrumented)", kStub});
Reg r2({"F02", {{"files", f2_gen, f2_run}, {"scale", f2b_gen, f2_run, 32}, {"changing", f2c_gen, f2c_run}}, "src/file/file_util.c (real, instrumented)", kStub});
Reg r3({"F03", {{"mkdirs", f3_gen, f3_run}, {"prepare", f3s_gen, f3s_run}}, "src/file/file_util.c (real, instrumented)", kStub});
Reg r4({"F04", {{"iterate", f4_gen, f4_run}, {"scale", f4b_gen, f4b_run, 48}}, "src/file/file_iterator.c, src/log/slog.c (real, instrumented)", kStub});
}  // namespace
