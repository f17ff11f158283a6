"""Front end: build the resolved program (LLVM IR + debug types) of /repo's
current working tree, entirely outside /repo.  Nothing of /repo is executed."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
PREFIX_RE = re.compile(r"^rcpr_u[0-9a-f]{8}_(?:[0-9a-f]{4}_){3}[0-9a-f]{12}_V\d+_\d+_")


class AnalysisBroken(Exception):
    """the analysis itself could not be carried out (never a verdict)"""


class ObjectBroken(AnalysisBroken):
    """every path through a constructor was followed and none hands out a
    usable object: a verdict about that constructor"""

    def __init__(self, P, func, msg):
        AnalysisBroken.__init__(self, "%s %s" % (func, msg))
        F = P.func(func)
        self.func, self.msg = func, msg
        self.loc = "%s:%d" % (F.file, F.line)


def short(name):
    return PREFIX_RE.sub("", name)


def build_irdump():
    out = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-O1"] + flags + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build irdump: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def gen_config(dst, poll, guard=False):
    """config.h as the project's cmake would generate it on this platform"""
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"PROJECT\(\s*rcpr\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm, re.I)
    if not m:
        raise AnalysisBroken("no project version in CMakeLists.txt")
    txt = open(os.path.join(REPO, "config.h.cmake")).read()
    on = {"RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC", "RCPR_VTABLE_CHECK_ASSERT"}
    if guard:       # run-time vtable checks that report an error instead of asserting
        on = {"RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC", "RCPR_VTABLE_RUNTIME_ENFORCEMENT"}
    txt = re.sub(r"#cmakedefine (\w+)", lambda k: ("#define %s" % k.group(1)) if k.group(1) in on
                 else "/* #undef %s */" % k.group(1), txt)
    for n, v in zip(("MAJOR", "MINOR", "REL"), m.groups()):
        txt = txt.replace("@RCPR_VERSION_%s@" % n, v)
    os.makedirs(os.path.join(dst, "rcpr"), exist_ok=True)
    open(os.path.join(dst, "rcpr", "config.h"), "w").write(txt)


def sources(config):
    res = []
    other = {"poll": ("kqueue", "epoll")}.get(config, ("kqueue", "poll"))
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, REPO)
        parts = rel.split(os.sep)
        if any(o in parts for o in other):
            continue
        for f in sorted(files):
            if f.endswith(".c"):
                res.append(os.path.join(root, f))
    return sorted(res)


FLAGS = ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-fPIC", "-emit-llvm", "-c",
         "-fno-discard-value-names", "-w", "-fno-inline", "-fwrapv-pointer"]
FLAGS = [f for f in FLAGS if f != "-fwrapv-pointer"]


def build_ir(config="epoll"):
    """returns (json dict, units) for one configuration"""
    tool = build_irdump()
    tmp = tempfile.mkdtemp(prefix="rcpr-sa-")
    try:
        inc = os.path.join(tmp, "include")
        gen_config(inc, config == "poll", config == "guard")
        srcs = sources(config)
        if len(srcs) < 150:
            raise AnalysisBroken("only %d source files found" % len(srcs))

        def one(a):
            i, s = a
            o = os.path.join(tmp, "%d.bc" % i)
            r = subprocess.run([CLANG] + FLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + inc,
                                                  "-I" + os.path.join(REPO, "src/fiber/platform/sysv/x86_64"),
                                                  s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("clang failed on %s:\n%s" % (s, r.stderr[-1500:]))
            return o
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bcs = list(ex.map(one, enumerate(srcs)))
        allbc = os.path.join(tmp, "all.bc")
        r = subprocess.run([LINK, "-o", allbc] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("llvm-link: " + r.stderr[-1500:])
        mbc = os.path.join(tmp, "m.bc")
        r = subprocess.run([OPT, "-passes=mem2reg", allbc, "-o", mbc], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("opt: " + r.stderr[-1500:])
        out = subprocess.run([tool, mbc], capture_output=True)
        if out.returncode:
            raise AnalysisBroken("irdump: " + out.stderr.decode()[-1500:])
        return json.loads(out.stdout), srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


STATUS_CACHE = None


def status_codes():
    """name -> (value, header) of every status / error code macro, evaluated by
    the compiler's constant folder"""
    global STATUS_CACHE
    if STATUS_CACHE is not None:
        return STATUS_CACHE
    tool = build_irdump()
    tmp = tempfile.mkdtemp(prefix="rcpr-st-")
    try:
        inc = os.path.join(tmp, "include")
        gen_config(inc, False)
        hdrs = sorted(f for f in os.listdir(os.path.join(REPO, "include/rcpr/status")) if f.endswith(".h"))
        names = []
        for h in ["status.h"] + ["status/" + x for x in hdrs]:
            txt = open(os.path.join(REPO, "include/rcpr", h)).read()
            for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+((?:ERROR|STATUS)_\w+)[ \t]*(?![(\w])", txt, re.M):
                if m.group(1) not in ("STATUS_CODE",):
                    names.append((m.group(1), h))
        names = [(n, h) for n, h in names if n != "STATUS_CODE"]
        c = os.path.join(tmp, "s.c")
        with open(c, "w") as f:
            f.write("#include <rcpr/status.h>\n")
            for x in hdrs:
                f.write("#include <rcpr/status/%s>\n" % x)
            for i, (n, h) in enumerate(names):
                f.write("const status SC_%d = %s;\n" % (i, n))
        o = os.path.join(tmp, "s.bc")
        r = subprocess.run([CLANG] + FLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + inc, c, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("status codes do not compile: " + r.stderr[-800:])
        out = subprocess.run([tool, o], capture_output=True)
        js = json.loads(out.stdout)
        res = {}
        for i, (n, h) in enumerate(names):
            g = js["globals"].get("@SC_%d" % i) or js["globals"].get("SC_%d" % i)
            v = 0
            for off, sz, val in g.get("init", ()):
                if val[0] == "i":
                    v = val[1] & 0xffffffff
            res.setdefault(n, (v, h))
        STATUS_CACHE = res
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ENUM_CACHE = None


def enums():
    """value of every enumerator of the public headers, evaluated by the
    compiler's constant folder"""
    global ENUM_CACHE
    if ENUM_CACHE is not None:
        return ENUM_CACHE
    tool = build_irdump()
    tmp = tempfile.mkdtemp(prefix="rcpr-en-")
    try:
        inc = os.path.join(tmp, "include")
        gen_config(inc, False)
        names, hdrs = [], []
        root = os.path.join(REPO, "include")
        for d, _, fs in sorted(os.walk(os.path.join(root, "rcpr"))):
            for h in sorted(fs):
                txt = open(os.path.join(d, h)).read() if h.endswith(".h") else ""
                txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", txt, flags=re.S)
                for m in re.finditer(r"\benum\b[^{;]*\{([^};]*)\}", txt):
                    new = re.findall(r"(?:^|,)\s*([A-Z]\w+)\s*(?==|,|$)", m.group(1).strip())
                    names += [n for n in new if n not in names]
                    p = os.path.relpath(os.path.join(d, h), root)
                    if new and p not in hdrs:
                        hdrs.append(p)
        c = os.path.join(tmp, "e.c")
        with open(c, "w") as g:
            g.writelines("#include <%s>\n" % h for h in hdrs)
            g.writelines("const long EN_%d = (long)%s;\n" % x for x in enumerate(names))
        o = os.path.join(tmp, "e.bc")
        r = subprocess.run([CLANG] + FLAGS + ["-I" + root, "-I" + inc, c, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("enumerators do not compile: " + r.stderr[-800:])
        js = json.loads(subprocess.run([tool, o], capture_output=True).stdout)
        res = {}
        for i, n in enumerate(names):
            g = js["globals"].get("@EN_%d" % i) or js["globals"].get("EN_%d" % i)
            res[n] = next((val[1] for off, sz, val in g.get("init", ()) if val[0] == "i"), 0)
        ENUM_CACHE = res
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    if sys.argv[1:] == ["--setup"]:
        build_irdump()
        sys.exit(0)
    t = time.time()
    j, s = build_ir(sys.argv[1] if len(sys.argv) > 1 else "epoll")
    print(len(s), "units", len(j["functions"]), "functions", sum(1 for f in j["functions"].values() if "blocks" in f), "defined", time.time() - t)
    json.dump(j, open("/tmp/ir.json", "w"))
