"""What the public headers promise: import wrappers that forward, codes that identify."""
import os
import re
import shutil
import subprocess
import tempfile

import frontend
from framework import check, AnalysisBroken
from frontend import short

ROOT = "include/rcpr"


def headers():
    res = []
    root = os.path.join(frontend.REPO, "include")
    for d, _, fs in sorted(os.walk(os.path.join(root, "rcpr"))):
        for f in sorted(fs):
            if f.endswith(".h"):
                p = os.path.join(d, f)
                res.append((os.path.relpath(p, root), open(p).read()))
    return res


class Stub:
    """all public headers in one unit, every import once prefixed and once bare"""

    def __init__(self):
        self.hdrs = headers()
        self.imports = []
        for h, t in self.hdrs:
            self.imports += [(h, m) for m in re.findall(r"^[ \t]*#[ \t]*define[ \t]+RCPR_IMPORT_(\w+)_as\(", t, re.M)]
        bare = {m for _, t in self.hdrs for m in re.findall(r"^[ \t]*#[ \t]*define[ \t]+RCPR_IMPORT_(\w+)(?=\s)", t, re.M)}
        self.missing = [m for _, m in self.imports if m not in bare]
        self.tops = hs = sorted({h for h, _ in self.imports})
        self.text = "".join("#include <%s>\n" % h for h in hs)
        self.pre = len(hs)
        self.text += "".join("RCPR_IMPORT_%s_as(t);\n" % m for _, m in self.imports)
        self.text += "".join("RCPR_IMPORT_%s;\n" % m for _, m in self.imports if m in bare)

    def run(self):
        tmp = tempfile.mkdtemp(prefix="rcpr-im-")
        try:
            inc = os.path.join(tmp, "include")
            frontend.gen_config(inc, False)
            I = ["-I" + os.path.join(frontend.REPO, "include"), "-I" + inc]
            c = os.path.join(tmp, "s.c")
            open(c, "w").write(self.text)
            ll, o = os.path.join(tmp, "s.ll"), os.path.join(tmp, "o.ll")
            r = subprocess.run([frontend.CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-femit-all-decls", "-fno-discard-value-names", "-w",
                                "-DNDEBUG", "-S", "-emit-llvm", c, "-o", ll] + I, capture_output=True, text=True)
            self.cerr = r.stderr
            self.ir = None
            if r.returncode == 0:
                r = subprocess.run([frontend.OPT, "-passes=mem2reg,instcombine,simplifycfg,early-cse,dce", "-S", ll, "-o", o], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken("opt: " + r.stderr[-800:])
                self.ir = open(o).read()
            e = subprocess.run([frontend.CLANG, "-E", "-P", c] + I, capture_output=True, text=True)
            self.cpp = e.stdout
            # types: a prefixed name stands for the type of the same name
            self.types = []
            for m in re.finditer(r"\btypedef\b[^;{}]*?\b(t_\w+)\s*;", self.cpp):
                n = m.group(1)[2:]
                k = re.search(r"\b(rcpr_u[0-9a-f_]+?_V\d+_\d+_%s)\b" % n, self.cpp)
                self.types.append((n, k.group(1) if k else None))
            t = os.path.join(tmp, "t.c")
            open(t, "w").write(self.text + "".join(
                "_Static_assert(__builtin_types_compatible_p(t_%s, %s) && __builtin_types_compatible_p(%s, t_%s), \"type %s\");\n" % (n, k, n, n, n)
                for n, k in self.types if k))
            r = subprocess.run([frontend.CLANG, "-fsyntax-only", "-w", "-ferror-limit=0", t] + I, capture_output=True, text=True)
            self.terr = re.findall(r"static assertion failed.*?type (\w+)", r.stderr)
            self.tother = [l for l in r.stderr.split("\n") if "error:" in l and "static assertion" not in l]
            p = os.path.join(tmp, "s.cpp")
            open(p, "w").write(self.text)
            r = subprocess.run(["clang++-18", "-fsyntax-only", "-w", p] + I, capture_output=True, text=True)
            self.cxx = [l for l in r.stderr.split("\n") if "error:" in l]
            # each header stands on its own
            self.alone = []
            for h in self.tops:
                q = os.path.join(tmp, "h.c")
                open(q, "w").write("#include <%s>\n" % h)
                r = subprocess.run([frontend.CLANG, "-fsyntax-only", "-w", q] + I, capture_output=True, text=True)
                if r.returncode:
                    self.alone.append((h, next((l for l in r.stderr.split("\n") if "error:" in l), "")))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return self


FN = re.compile(r"^define [^\n]*?@([\w.]+)\(([^\n]*?)\)[^\n]*?\{\n(.*?)^\}", re.M | re.S)
NAMES = re.compile(r"%([\w.]+)(?=,|$)")
CALL = re.compile(r"(?:(%[\w.]+) = )?(?:tail |musttail |notail )?call [^\n]*?(?<!\w)@?(%?[\w.]+)\((.*?)\)(?: #\d+)?$")


def wrappers(ir):
    for m in FN.finditer(ir):
        name, params, body = m.groups()
        if short(name) != name or name.startswith(("rcpr_", "__")):
            continue
        ins = [re.sub(r", ![\w.]+( ![\w.]+| !\d+)*.*$", "", l.strip()) for l in body.split("\n")]
        ins = [l for l in ins if l and not l.startswith(";") and not re.match(r"[\w.]+:", l) and "@llvm.lifetime" not in l and "@llvm.dbg" not in l]
        yield name, NAMES.findall(params), "..." in params, ins


def forwards(want, args, variadic, ins):
    """None, or what the wrapper does instead of passing everything on"""
    ap = None
    if variadic:
        if len(ins) < 4 or "= alloca" not in ins[0]:
            return "does not pass its variable arguments on"
        ap = ins[0].split()[0][1:]
        if "@llvm.va_start" not in ins[1] or "%" + ap not in ins[1] or "@llvm.va_end" not in ins[3] or "%" + ap not in ins[3]:
            return "does not set up its variable arguments around one call"
        ins = [ins[2], ins[4]] if len(ins) == 5 else ins
    if len(ins) != 2:
        return "does more than one call" if sum(" call " in " " + i for i in ins) != 1 else "changes what it passes on or returns"
    m = CALL.match(ins[0])
    if m is None:
        return "makes no call"
    res, callee, given = m.groups()
    if short(callee) == callee or (short(callee) not in ((("v" + want), ("v" + want[:-1])) if variadic else (want,))):
        return "calls %s" % short(callee)
    if NAMES.findall(given) != args + ([ap] if variadic else []):
        return "passes (%s) to it where (%s) is due" % (", ".join(NAMES.findall(given)), ", ".join(args))
    if (res is None and ins[1] != "ret void") or (res is not None and (not ins[1].startswith("ret ") or ins[1].split()[-1] != res)):
        return "does not return its result"
    return None


@check("I01", 150)
def i01(ctx):
    S = Stub().run()
    P = ctx.prog()

    def where(name):
        pat = re.compile(r"\bsym[ \t]*##[ \t]*%s\b" % re.escape(name))
        for h, t in S.hdrs:
            m = pat.search(t)
            if m:
                return "include/%s:%d" % (h, t[:m.start()].count("\n") + 1)
        return "include/rcpr"
    if S.ir is None:
        e = next((l for l in S.cerr.split("\n") if "error:" in l), "")
        ctx.finding("import", "headers", "include/rcpr", "a program that imports every header does not compile: %s" % e[-160:])
        return "compile witness"
    for m in S.missing:
        ctx.finding("import", m, "include/rcpr", "RCPR_IMPORT_%s does not exist beside RCPR_IMPORT_%s_as" % (m, m))
    have, n, pub = set(), 0, public(P, S.cpp)
    for name, args, va, ins in wrappers(S.ir):
        pre = name.startswith("t_") and name[2:]
        want = pre or name
        if pre:
            have.add(want)
        n += 1
        if want not in pub and len(ins) == 1 and ins[0] == "ret i1 true":
            continue                            # a check that is compiled out in this configuration
        have.add("v" + want if va and "v" + want in pub else want)
        d = forwards(want, args, va, ins)
        if d:
            ctx.finding("import", want, where(want), "the imported name %s %s" % (want, d))
        elif n < 4:
            ctx.sample("%s forwards (%s)" % (want, ", ".join(args)))
    ctx.rule("import wrappers that forward every argument in order and the result", n)
    # every public function can be imported
    for s in sorted(pub):
        if s not in have:
            ctx.finding("import", s, "include/rcpr", "the public function %s has no imported name" % s)
    ctx.rule("public functions with an imported name", len(pub))
    for n, k in S.types:
        if k is None:
            continue
        if n in S.terr:
            ctx.finding("import", n, where(n), "the imported type %s is another type" % n)
    ctx.rule("imported types that are the type of their name", len([1 for n, k in S.types if k]))
    for l in S.tother[:3]:
        raise AnalysisBroken("type witness: " + l[-200:])
    for l in S.cxx[:3]:
        ctx.finding("import", "C++", re.sub(r":\d+: error.*", "", l)[-60:], "the headers do not compile as C++: %s" % l.split("error:")[-1].strip())
    for h, l in S.alone:
        ctx.finding("import", h, "include/" + h, "the header does not compile on its own: %s" % l.split("error:")[-1].strip())
    ctx.rule("headers that compile alone and as C++", len(S.tops))
    return "Every import macro of every public header is instantiated, prefixed and bare; each wrapper's optimised IR must be one call of the function of its name with the parameters in order and its result returned."


def public(P, text):
    res = {}
    for s, ids in P.by_short.items():
        for f in ids if isinstance(ids, (list, tuple, set)) else [ids]:
            full = f if isinstance(f, str) else f.name
            full = full.lstrip("@")
            if short(full) != full and re.search(r"\b%s\)?\s*\(" % re.escape(full), text):
                res[s] = full
    return res


@check("E03", 70)
def e03(ctx):
    codes = frontend.status_codes()
    seen = {}
    for n, (v, h) in sorted(codes.items()):
        loc = "include/rcpr/" + h
        if n == "STATUS_SUCCESS":
            if v:
                ctx.finding("codes", n, loc, "success is %#x" % v)
            continue
        if not v & 0x80000000:
            ctx.finding("codes", n, loc, "the error code %s (%#x) does not have the error bit set" % (n, v))
        if v in seen:
            ctx.finding("codes", n, loc, "%s and %s are the same code %#x" % (n, seen[v], v))
        seen.setdefault(v, n)
    ctx.rule("error codes that are set apart from success and each other", len(codes))
    k = 0
    for h, t in headers():
        t = re.sub(r"/\*.*?\*/|//[^\n]*", "", t, flags=re.S)
        for m in re.finditer(r"\benum\b[^{;]*\{([^};]*)\}", t):
            vals = {}
            for n in re.findall(r"(?:^|,)\s*([A-Z]\w+)\s*(?==|,|$)", m.group(1).strip()):
                if n not in frontend.enums():
                    continue
                k += 1
                v = frontend.enums()[n]
                if v in vals:
                    ctx.finding("codes", n, "include/" + h, "%s and %s are the same value %d" % (n, vals[v], v))
                vals.setdefault(v, n)
    ctx.rule("enumerators that differ from the others of their type", k)
    ids, P = {}, ctx.prog()
    for nm, g in sorted(P.globals.items()):
        if not (g.get("const") and g.get("size") == 16 and g.get("type", "").endswith("rcpr_uuid")):
            continue
        v = bytearray(16)
        for off, sz, x in g.get("init", ()):
            if x[0] == "i":
                v[off:off + sz] = (x[1] & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")
        n = short(nm.lstrip("@"))
        loc = "%s:%s" % (g.get("file", ""), g.get("line", 0))
        if bytes(v) in ids:
            ctx.finding("codes", n, loc, "%s and %s are the same identifier" % (n, ids[bytes(v)]))
        ids.setdefault(bytes(v), n)
        ctx.rule("identifiers of scheduler services that differ from each other")
    if len(ids) < 4:
        raise AnalysisBroken("only %d identifiers of scheduler services found" % len(ids))
    return "Every status code and enumerator of the public headers is evaluated by the compiler's constant folder and compared."
