#!/usr/bin/env python3
"""Builds simulator binaries from /repo's working tree. Objects are cached by the
hash of everything that goes into them, so a stale object is never used."""
import hashlib, os, re, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD") or os.path.join(V, "build")
# scenario file -> (properties, library variant)
GROUPS = {
    "thpool": (["T01", "T02", "T03", "T04"], "std"),
    "pthr": (["S01"], "std"),
    "ring": (["R01", "R02", "R03"], "std"),
    "queue": (["Q01", "Q02"], "std"),
    "handler": (["H01", "H02", "H03", "H04"], "std"),
    "xlog": (["L01", "L02"], "std"),
    "flog": (["L03", "L04"], "std"),
    "redirect": (["L05"], "std"),
    "facade": (["L06"], "std"),
    "timeutil": (["C01"], "std"),
    "tracker": (["M01", "M02"], "mem"),
    "mplite": (["M03"], "std"),
    "files": (["F01", "F02", "F03", "F04"], "std"),
    "ini": (["I01", "I02", "I03"], "std"),
    "data": (["D01", "D02", "D03"], "std"),
    "stateless": (["D04"], "std"),
    "global": (["G01"], "std"),
    "twins": (["G04"], "std"),
    "memcheck": (["M04"], "mem"),
    "race": (["G03"], "vol"),         # the scenarios of all groups once more, under the data-race check
    "release": (["G02"], "rel"),      # the scenarios of all groups, linked with a release build of the library
}
# C programs that use the library through its headers; built like the library and linked with it
CLIENTS = {"facade": [("client_log.c", "-DCLIENT=%d" % i) for i in range(7)], "stateless": [("client_util.c", "-DCLIENT=0")], "tracker": [("client_mem.c", "-DCLIENT=0")],
           "ini": [("client_ini.c", "-DCLIENT=%d" % i) for i in range(6)]}
SIM = ["core.cpp", "libc.cpp", "driver.cpp"]
LIB_FLAGS = ("-D_GNU_SOURCE -D_PLATFORM=linux -D_PLATFORM_ABI=x64 -D_DEBUG -w -O0 -g -std=gnu11 -fno-pie "
             "-fsanitize=thread -fstack-protector-strong -fno-builtin -fno-common").split()
MEM = ["-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"]
COLLECT = {g: [h for h in GROUPS if h not in ("release", "race", "memcheck")] for g in ("release", "race")}   # groups whose scenarios another group takes over
REL_FLAGS = {"-D_DEBUG": "-DNDEBUG", "-O0": "-O2", "-w": "-w -U_FORTIFY_SOURCE"}
CXX_FLAGS = "-std=gnu++17 -O1 -g -fno-pie -Wall -Wno-unused-parameter -Wno-format-truncation -Wno-dangling-reference".split()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: " + " ".join(cmd)[:400] + "\n" + r.stderr[-6000:] + "\n")
        raise SystemExit(2)
    return r.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def put(path, cmd_of):
    """run cmd_of(tmp) then move into place atomically"""
    if os.path.exists(path): return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d.tmp" % os.getpid()
    cmd_of(tmp)
    os.replace(tmp, path)
    return path

def gen_includes():
    g = os.path.join(B, "gen"); c = os.path.join(g, "config"); os.makedirs(c, exist_ok=True)
    ver = {"_LCU_MAJOR": "1", "_LCU_MINOR": "8", "_LCU_PATCH": "0", "_LCU_REVISION": "sim", "_LCU_BRANCH": "sim"}
    for t in glob.glob(os.path.join(REPO, "inc", "config", "*.h.in")):
        s = rd(t).decode()
        s = re.sub(r"^\s*#cmakedefine\s+(\w+).*$", r"/* #undef \1 */", s, flags=re.M)
        s = re.sub(r"[@]([A-Za-z0-9_]+)[@]|\$\{([A-Za-z0-9_]+)\}", lambda m: ver.get(m.group(1) or m.group(2), "1.8.0"), s)
        dst = os.path.join(c, os.path.basename(t)[:-3])
        if not os.path.exists(dst) or rd(dst).decode() != s:
            tmp = dst + ".%d" % os.getpid()
            open(tmp, "w").write(s); os.replace(tmp, dst)
    return g

def repo_sources():
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        if "pthread_win" in root: continue
        for f in sorted(fs):
            if f.endswith(".c") and "windows" not in f: out.append(os.path.join(root, f))
    return sorted(out)

def header_hash():
    m = []
    for base in ("inc", "src"):
        for root, _, fs in os.walk(os.path.join(REPO, base)):
            for f in sorted(fs):
                if not f.endswith(".c"): m.append((os.path.join(root, f)[len(REPO):], rd(os.path.join(root, f))))
    return h(*[x for kv in sorted(m) for x in kv])

def build(group, variant=None, pool=None):
    props, var = GROUPS[group]
    variant = variant or var
    gen = gen_includes()
    inc = ["-I" + os.path.join(REPO, "inc"), "-I" + gen]
    hh = header_hash()
    simh = h(*[rd(os.path.join(V, "sim", f)) for f in ("sim.h", "core.h")], *[rd(x) for x in sorted(glob.glob(os.path.join(V, "props", "*.h")))])
    vflags = MEM if variant == "mem" else []
    lib_flags = " ".join(REL_FLAGS.get(f, f) for f in LIB_FLAGS).split() if variant == "rel" else LIB_FLAGS
    if variant == "vol": lib_flags = lib_flags + ["--param=tsan-distinguish-volatile=1"]
    parts = COLLECT.get(group, []) + [group]
    def cc(src):
        flags = lib_flags + vflags
        key = h(src[len(REPO):], rd(src), hh, " ".join(flags))
        return put(os.path.join(B, "obj", key + ".o"), lambda t: sh(["gcc"] + flags + inc + ["-c", src, "-o", t]))
    def client(g, src, define):
        flags = lib_flags + (MEM if GROUPS[g][1] == "mem" else []) + [define]
        text = rd(os.path.join(V, "props", src))
        own = [rd(os.path.join(REPO, "inc", f.decode())) for f in re.findall(rb'#include "(\.\./src/[^"]+)"', text)]   # a source of the library compiled again
        key = h(src, text, *own, simh, hh, "client", " ".join(flags))
        def make(t):
            sh(["gcc"] + flags + inc + ["-I" + os.path.join(V, "props"), "-c", os.path.join(V, "props", src), "-o", t])
            if own: sh(["objcopy", "-w", "--keep-global-symbol=client_*", t])
        return put(os.path.join(B, "obj", key + ".o"), make)
    def cxx(src, extra):
        flags = CXX_FLAGS + extra
        key = h(os.path.basename(src), rd(src), simh, *([rd(x) for x in sorted(glob.glob(os.path.join(V, "props", "*.cpp")))] if "memcheck" in src else []), hh if "props" in src else "", " ".join(flags))
        return put(os.path.join(B, "obj", key + ".o"), lambda t: sh(["g++"] + flags + ["-I" + os.path.join(V, "sim")] + inc + ["-c", src, "-o", t]))
    with ThreadPoolExecutor(8) as ex:
        sims = [ex.submit(cxx, os.path.join(V, "sim", f), []) for f in SIM]
        pf = [ex.submit(cxx, os.path.join(V, "props", g + ".cpp"), MEM if GROUPS[g][1] == "mem" else []) for g in parts]   # release.cpp last: it collects what the others registered
        libs = [ex.submit(cc, s) for s in repo_sources()] + [ex.submit(client, g, *c) for g in parts for c in CLIENTS.get(g, [])]
        sims = [f.result() for f in sims]; pf = [f.result() for f in pf]; libs = [f.result() for f in libs]
    key = h(group, variant, *sims, *pf, *libs)
    exe = os.path.join(B, "bin", "%s-%s-%s" % (group, variant, key))
    def link(tmp):
        d = tempfile.mkdtemp(dir=os.path.join(B))
        try:
            merged = os.path.join(d, "lib.o")
            sh(["ld", "-r", "-o", merged] + libs)
            und = set(l.split()[-1] for l in sh(["nm", "-u", merged]).splitlines() if l.strip())
            have = set()
            for s in sims:
                for l in sh(["nm", "--defined-only", s]).splitlines():
                    w = l.split()
                    if len(w) == 3 and w[1] in "TBDRVW" and w[2].startswith("sim_"): have.add(w[2][4:])
            ren = os.path.join(d, "ren"); n = 0
            with open(ren, "w") as f:
                for s in sorted(und):
                    if s in have: f.write("%s sim_%s\n" % (s, s))
            # statics of one translation unit stay distinct; only imports are renamed
            red = os.path.join(d, "lib2.o")
            sh(["objcopy", "--redefine-syms=" + ren, merged, red])
            # markers around the library's globals: a simulated crash resets them
            mk = []
            for x in "ab":
                c = os.path.join(d, x + ".c")
                open(c, "w").write("char sim_lib_data_%s[64] __attribute__((aligned(64))) = {1}; char sim_lib_bss_%s[64] __attribute__((aligned(64)));" % (x, x))
                sh(["gcc", "-fno-pie", "-fno-common", "-c", c, "-o", c[:-2] + ".o"]); mk.append(c[:-2] + ".o")
            sh(["g++", "-no-pie", "-g", "-o", tmp] + sims + pf + [mk[0], red, mk[1], "-lm"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    put(exe, link)
    return exe

def group_of(prop):
    for g, (ps, _) in GROUPS.items():
        if prop in ps: return g
    raise SystemExit("unknown property " + prop)

if __name__ == "__main__":
    for a in sys.argv[1:] or [g for g in GROUPS if os.path.exists(os.path.join(V, "props", g + ".cpp"))]:
        print(a, build(a))
