"""Abstract interpreter over the LLVM IR of the library.

A forward, interprocedural (call-context sensitive) dataflow analysis.  The
abstract state maps program values to constants / null / unknown terms /
pointers into abstract objects, keeps interval facts for unknown terms, an
abstract heap whose input part is discovered lazily, and a typestate per object
(live / released).  Loops are iterated to a fixpoint with widening; states that
are equal up to renaming are merged.  There is no solver and no path formula:
branches are decided from the intervals, or both taken."""
import itertools
import re
import sys
from values import *
from frontend import short, AnalysisBroken

sys.setrecursionlimit(20000)

SUFFIX = re.compile(r"\.\d+$")
M64 = (1 << 64) - 1


def base_name(n):
    n = short(n)
    return SUFFIX.sub("", n)


class Func:
    __slots__ = ("name", "short", "args", "blocks", "ret", "diret", "internal", "file", "line", "heads", "nvals", "vararg",
                 "live", "isleaf", "loopinfo", "rettd", "readonly")


class Program:
    def __init__(self, js, config):
        self.config = config
        self.funcs = {}
        self.by_short = {}
        self.globals = {}
        self.structs = {}
        for n, s in js["structs"].items():
            s = dict(s)
            s["members"] = [(o, z, nm, self.ty(t)) for o, z, nm, t in s["members"]]
            self.structs[short(n)] = s
        for n, g in js["globals"].items():
            self.globals[n] = g
        for n, f in js["functions"].items():
            F = Func()
            F.name = n
            F.short = base_name(n)
            F.args = [(a[0], a[1], self.ty(a[2]), a[3]) for a in f["args"]]
            F.ret = f["ret"]
            F.diret = self.ty(f.get("diret", "?"))
            F.rettd = f.get("rettd", "")
            F.readonly = f.get("readonly", ())
            F.internal = f["internal"]
            F.file = f.get("file", "")
            F.line = f.get("line", 0)
            F.vararg = f.get("vararg")
            F.blocks = f.get("blocks")
            F.nvals = f.get("nvals", 0)
            F.live = None
            F.isleaf = None
            F.loopinfo = None
            self.funcs[n] = F
            if F.blocks is not None:
                F.heads = self.loop_heads(F)
                cur = self.by_short.get(F.short)
                if cur is None or (cur.internal and not F.internal):
                    self.by_short[F.short] = F
        self.fnaddr = {n for n in self.funcs}

    @staticmethod
    def ty(t):
        if t is None:
            return "?"
        return re.sub(r"rcpr_u[0-9a-f]{8}_(?:[0-9a-f]{4}_){3}[0-9a-f]{12}_V\d+_\d+_", "", t)

    @staticmethod
    def succ(block):
        t = block[-1][2]
        if t[0] == "br":
            return [t[2]]
        if t[0] == "cbr":
            return [t[3], t[4]]
        if t[0] == "switch":
            return [t[3]] + [c[1] for c in t[4]]
        return []

    def loop_heads(self, F):
        heads, color = set(), {}
        stack = [(0, iter(self.succ(F.blocks[0])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succ(F.blocks[s]))))
                    break
            else:
                color[b] = 2
                stack.pop()
        return heads

    def loops(self, F):
        """head -> set of body blocks; block -> heads whose loop an edge out of it may leave"""
        if F.loopinfo is not None:
            return F.loopinfo
        preds = {}
        for bi, b in enumerate(F.blocks):
            for t in self.succ(b):
                preds.setdefault(t, []).append(bi)
        n = len(F.blocks)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in range(1, n):
                ps = [dom[u] for u in preds.get(x, ())]
                d = (set.intersection(*ps) if ps else set()) | {x}
                if d != dom[x]:
                    dom[x] = d
                    ch = True
        body = {}
        for h in F.heads:
            bs = {h}
            st = [u for u in preds.get(h, ()) if h in dom[u]]
            while st:
                x = st.pop()
                if x in bs:
                    continue
                bs.add(x)
                st.extend(preds.get(x, ()))
            body[h] = bs
        exits = {}
        for h, bs in body.items():
            for x in bs:
                if any(t not in bs for t in self.succ(F.blocks[x])):
                    exits.setdefault(x, []).append(h)
        F.loopinfo = (body, exits)
        return F.loopinfo

    def liveness(self, F):
        """block -> set of value ids live on entry (phi results included)"""
        if F.live is not None:
            return F.live
        n = len(F.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = {}

        def ops(x, out):
            if isinstance(x, bool):
                return
            if isinstance(x, int):
                out.add(x)
        for bi, b in enumerate(F.blocks):
            for _, _, ins in b:
                k = ins[0]
                us = set()
                if k == "phi":
                    for v, pb in ins[2]:
                        if isinstance(v, int):
                            phiuse.setdefault(pb, set()).add(v)
                elif k == "load":
                    ops(ins[2], us)
                elif k == "store":
                    ops(ins[2], us), ops(ins[3], us)
                elif k == "gep":
                    ops(ins[2], us)
                    for v in ins[4]:
                        ops(v[0], us)
                elif k in ("icmp", "bin"):
                    ops(ins[3], us), ops(ins[4], us)
                elif k == "cast":
                    ops(ins[3], us)
                elif k == "select":
                    ops(ins[2], us), ops(ins[3], us), ops(ins[4], us)
                elif k in ("cbr", "switch", "ret", "extractvalue"):
                    if len(ins) > 2:
                        ops(ins[2], us)
                elif k == "call":
                    ops(ins[2], us)
                    for v in ins[3]:
                        ops(v, us)
                use[bi] |= us - deff[bi]
                if ins[1] >= 0:
                    deff[bi].add(ins[1])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                out = set(phiuse.get(bi, ()))
                for s in self.succ(F.blocks[bi]):
                    out |= livein[s]
                li = use[bi] | (out - deff[bi])
                if li != livein[bi]:
                    livein[bi] = li
                    ch = True
        F.live = livein
        return livein

    def func(self, shortname):
        f = self.by_short.get(shortname)
        if f is None or f.blocks is None:
            raise AnalysisBroken("function %s not found in the program" % shortname)
        return f

    # --- types -----------------------------------------------------------
    def struct_of(self, di):
        if di and di.startswith("struct ") and not di.endswith("*"):
            return self.structs.get(di[7:])
        return None

    def member_at(self, di, off, size=None, prefix=""):
        """(dotted name, type, member offset) of the scalar at off in type di"""
        s = self.struct_of(di)
        if s is None:
            return None
        for o, z, nm, t in s["members"]:
            if o <= off < o + max(z, 1):
                if self.struct_of(t) is not None:
                    r = self.member_at(t, off - o, size, prefix + nm + ".")
                    if r:
                        return (r[0], r[1], r[2] + o)
                    return None
                if t.startswith("["):
                    el = t[1:-1]
                    es = self.struct_of(el)
                    if es is not None and es["size"]:
                        i = (off - o) // es["size"]
                        r = self.member_at(el, (off - o) % es["size"], size, "%s%s[%d]." % (prefix, nm, i))
                        if r:
                            return (r[0], r[1], r[2] + o + i * es["size"])
                        return None
                    return ("%s%s[+%d]" % (prefix, nm, off - o), el, off)
                return (prefix + nm, t, o)
        return None

    def offset(self, struct, field):
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken("struct %s not found" % struct)
        cur, base, t = s, 0, None
        for part in field.split("."):
            for o, z, nm, ty in cur["members"]:
                if nm == part:
                    base += o
                    cur = self.struct_of(ty)
                    break
            else:
                raise AnalysisBroken("field %s.%s not found" % (struct, field))
        return base

    def sizeof(self, struct):
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken("struct %s not found" % struct)
        return s["size"]

    def has_field(self, struct, field):
        try:
            self.offset(struct, field)
            return True
        except AnalysisBroken:
            return False


class Obj:
    __slots__ = ("id", "kind", "size", "fields", "default", "dtype", "status", "site", "meta", "n")

    def __init__(self, id, kind, size=None, default="undef", dtype=None, site="", n=0, meta=None):
        self.id = id
        self.kind = kind
        self.size = size
        self.fields = {}
        self.default = default
        self.dtype = dtype
        self.status = "live"
        self.site = site
        self.meta = meta or {}
        self.n = n

    def copy(self):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.default, o.dtype = self.id, self.kind, self.size, self.default, self.dtype
        o.status, o.site, o.meta, o.n = self.status, self.site, self.meta, self.n
        o.fields = dict(self.fields)
        return o


class State:
    __slots__ = ("heap", "facts", "rel", "bind", "sym", "n", "events", "ghost", "trail", "fr")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.rel = {}
        self.bind = {}
        self.sym = {}
        self.n = 0
        self.events = ()
        self.ghost = {}
        self.trail = ()
        self.fr = 0

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.bind = dict(self.bind)
        s.sym = dict(self.sym)
        s.n = self.n
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.trail = self.trail
        s.fr = self.fr
        return s

    # -- symbols
    def fresh(self, name, w=64, ty="?", origin=None):
        self.n += 1
        self.fr += 1
        sid = "%s#%d" % (name, self.n)
        self.sym[sid] = (w, ty, origin, self.n)
        return ("s", sid)

    def norm(self, v):
        k = v[0]
        if k == "s":
            b = self.bind.get(v[1])
            while b is not None:
                v = b
                if v[0] != "s":
                    return self.norm(v) if v[0] in ("a",) else v
                b = self.bind.get(v[1])
            f = self.facts.get(v)
            if f is not None and len(f) == 1 and f[0][0] == f[0][1]:
                return ("i", f[0][0])
            return v
        if k == "a":
            ch = False
            c = v[1]
            d = {}
            ptr = None
            for t, co in v[2]:
                nt = self.norm(t)
                if nt is not t:
                    ch = True
                if nt[0] == "p" and co == 1:
                    ptr = nt
                    continue
                x = terms(nt)
                if x is None:
                    return v
                c += co * x[0]
                for tt, kk in x[1].items():
                    d[tt] = d.get(tt, 0) + co * kk
            if ptr is not None:
                o = add(affine(c, d), off_val(ptr[2]))
                if o is None:
                    return v
                return ("p", ptr[1], val_off(o))
            return affine(c, d) if ch else v
        if k == "p" and not isinstance(v[2], int):
            o = self.norm(v[2])
            return ("p", v[1], val_off(o))
        if k == "o":
            f = self.facts.get(v)
            if f is not None and len(f) == 1 and f[0][0] == f[0][1]:
                return ("i", f[0][0])
        return v

    def width(self, t):
        if t[0] == "s":
            return self.sym[t[1]][0]
        if t[0] == "o":
            if t[1] == "cmp":
                return 1
            return t[-1] if isinstance(t[-1], int) else 64
        return 64

    def ivals(self, t):
        f = self.facts.get(t)
        if f is not None:
            return f
        w = self.width(t)
        return ((0, (1 << w) - 1),)

    def hull(self, v):
        """mathematical range (lo, hi) of a scalar value, or None"""
        x = terms(v)
        if x is None:
            return None
        lo = hi = x[0]
        for t, k in x[1].items():
            iv = self.ivals(t)
            a, b = iv[0][0], iv[-1][1]
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    # -- objects
    def new_obj(self, kind, size=None, default="undef", dtype=None, site="", meta=None, name=None):
        self.n += 1
        oid = "%s#%d" % (name or kind, self.n)
        self.heap[oid] = Obj(oid, kind, size, default, dtype, site, self.n, meta)
        return oid

    def wobj(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o

    def gget(self, name, key=None):
        d = self.ghost.get(name) or {}
        return d if key is None else d.get(key)

    def gset(self, name, key, val):
        d = dict(self.ghost.get(name) or {})
        d[key] = val
        self.ghost[name] = d

    def event(self, *e):
        self.events = self.events + (e,)


def inter(iv, lo, hi):
    return tuple((max(a, lo), min(b, hi)) for a, b in iv if max(a, lo) <= min(b, hi))


def inter2(a, b):
    out = []
    for lo, hi in b:
        out.extend(inter(a, lo, hi))
    return tuple(sorted(out))


def punch(iv, c):
    out = []
    for a, b in iv:
        if a <= c <= b:
            if a <= c - 1:
                out.append((a, c - 1))
            if c + 1 <= b:
                out.append((c + 1, b))
        else:
            out.append((a, b))
    return tuple(out)


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def pred_set(pred, c, w):
    """unsigned-canonical intervals of { x : x pred c } for a w-bit x"""
    top = (1 << w) - 1
    half = 1 << (w - 1)
    c &= top
    if pred == "eq":
        return ((c, c),)
    if pred == "ne":
        return punch(((0, top),), c)
    if pred in ("ult", "ule", "ugt", "uge"):
        r = {"ult": (0, c - 1), "ule": (0, c), "ugt": (c + 1, top), "uge": (c, top)}[pred]
        return (r,) if r[0] <= r[1] else ()
    sc = signed(c, w)
    r = {"slt": (-half, sc - 1), "sle": (-half, sc), "sgt": (sc + 1, half - 1), "sge": (sc, half - 1)}[pred]
    if r[0] > r[1]:
        return ()
    out = []
    if r[1] >= 0:
        out.append((max(r[0], 0), r[1]))
    if r[0] < 0:
        out.append((r[0] + top + 1, min(r[1], -1) + top + 1))
    return tuple(sorted(out))


def width_of(ty):
    if ty == "p":
        return 64
    if ty.startswith("i"):
        return int(ty[1:])
    return 64


class Report:
    def __init__(self, kind, loc, func, msg, trace, entry, data=None):
        self.kind, self.loc, self.func, self.msg, self.trace, self.entry = kind, loc, func, msg, trace, entry
        self.data = data

    def key(self):
        return (self.kind, self.loc, self.msg)

    def __str__(self):
        return "[%s] %s (in %s, entry %s): %s" % (self.kind, self.loc, self.func, self.entry, self.msg)


class Stop(Exception):
    """the current path is infeasible or ended in a report"""


# where an interface prescribes a width for a count: the length field of boxed data, callback codes
NARROW = {"psock_write_boxed_data": 32, "psock_write_boxed_string": 32, "fiber_scheduler_discipline_add": 32}


class Engine:
    def __init__(self, prog, models=None, spec=None):
        self.prog = prog
        self.models = dict(models or {})       # short name -> model
        self.spec = spec
        self.reports = {}
        self.stack = []                        # call stack (Func, loc)
        self.acts = []                         # what each active call started from (recursive functions only)
        self.entry = "?"
        self.steps = 0
        self.max_steps = 4000000
        self.truncated = 0
        self.unmodelled = {}
        self.visited_funcs = set()
        self.callsites = set()
        self.unroll = 3
        self.max_visits = 80
        self.max_counted = 64
        self.join_states = True
        self.copy_limit = 512
        self.join_limit = 16
        self.no_join = set()
        self.max_depth = 90
        self.max_rec = 8
        self.ghost_exact = True       # loop states differing in a ghost table are different
        self.kinds_off = set()
        self.readonly = {}      # objects the operation may read only -> what they are
        self.curloc = ""
        self.spec_arms = 0
        self.lazy_hook = None         # (engine, st, obj, off, size, name, ty) -> value or None
        self.mat_hook = None          # (engine, st, oid, sym) after materialisation
        self.icall_hook = None        # (engine, st, fnval, args, info) -> outcomes or None
        self.load_hook = None
        self.store_hook = None
        self.alloc_escapes = True

    # ------------------------------------------------------------- reports
    def report(self, st, kind, msg, loc=None, fatal=True, data=None):
        if kind not in self.kinds_off:
            r = Report(kind, loc or self.curloc, self.stack[-1][0].short if self.stack else self.entry, msg,
                       list(st.trail[-25:]), self.entry, data)
            self.reports.setdefault(r.key(), r)
        if fatal:
            raise Stop()

    # ------------------------------------------------------------- pointers
    def global_obj(self, st, name):
        oid = name
        if oid in st.heap:
            return oid
        g = self.prog.globals.get(name)
        if g is None:
            raise AnalysisBroken("no global " + name)
        o = Obj(oid, "global", g["size"], "undef" if "init" in g else "lazy", self.prog.ty(g.get("type")), name, 0, {"const": g["const"]})
        for off, sz, v in g.get("init", ()):
            if v[0] == "zero":
                o.fields[off] = (sz, ZERO) if sz <= 8 else (sz, ("z",))
            else:
                o.fields[off] = (sz, self.const(v))
        o.default = "zero" if "init" in g else "lazy"
        st.heap[oid] = o
        return oid

    def const(self, c):
        k = c[0]
        if k == "i":
            return ("i", c[1] & ((1 << c[2]) - 1))
        if k == "null":
            return ZERO
        if k == "c":
            return ("i", c[1] & M64)
        if k == "g":
            n = c[1][1:]
            if n in self.prog.funcs:
                return ("f", n)
            return ("p", c[1], c[2])
        return UNDEF

    def materialise(self, st, s, why="deref"):
        """bind unknown pointer symbol s to a lazily known input object"""
        w, ty, origin, n = st.sym[s[1]]
        dt = ty[:-1] if ty.endswith("*") else None
        st.n += 1
        oid = "L:%s" % s[1]
        ss = self.prog.struct_of(dt) if dt else None
        o = Obj(oid, "lazy", None, "lazy", dt if ss else dt, s[1], st.sym[s[1]][3], {})
        st.heap[oid] = o
        st.bind[s[1]] = ("p", oid, 0)
        st.facts.pop(s, None)
        if self.mat_hook:
            self.mat_hook(self, st, oid, s)
        return ("p", oid, 0)

    def pointer(self, st, v, what="access"):
        """-> (oid, off) of a dereferenced pointer value"""
        v = st.norm(v)
        if v[0] == "s":
            iv = st.ivals(v)
            if iv and iv[0] == (0, 0) and len(iv) == 1:
                self.report(st, "null-deref", "null pointer dereferenced")
            self.materialise(st, v)
            v = st.norm(v)
        elif v[0] == "a":
            syms = [t for t, k in v[2] if k == 1 and t[0] == "s" and
                    (st.sym[t[1]][1].endswith("*") or st.sym[t[1]][1] in ("?", "ptr", "fn*"))]
            if len(syms) >= 1:
                self.materialise(st, syms[0])
                v = st.norm(v)
        if v[0] == "p":
            if v[1] not in st.heap and v[1].startswith("@"):
                self.global_obj(st, v[1])
            return v[1], v[2]
        if v[0] == "i":
            if v[1] < 4096:
                self.report(st, "null-deref", "null pointer dereferenced" if v[1] == 0 else "null-based pointer dereferenced")
            self.report(st, "bad-deref", "constant address dereferenced")
        if v[0] == "u":
            self.report(st, "uninit", "uninitialised pointer dereferenced")
        if v[0] == "f":
            self.report(st, "bad-deref", "function address dereferenced as data")
        # opaque computed pointer
        st.n += 1
        oid = "X:" + show(v)
        if oid not in st.heap:
            st.heap[oid] = Obj(oid, "lazy", None, "lazy", None, "", st.n, {})
        return oid, 0

    def narrowing(self, st, v, w):
        """a size is cut down to w bits"""
        v = st.norm(v)
        if v[0] in ("u", "p", "f"):
            return
        top = (1 << w) - 1
        h = (v[1], v[1]) if v[0] == "i" else st.hull(v)
        if h is not None and h[1] <= top or any(w >= NARROW.get(f.short, 65) for f, _ in self.stack):
            return
        s = st.copy()
        if self.assume(s, self.cmp(s, "ugt", v, ("i", top), 64), True):
            self.report(st, "narrowed", "a size that need not fit is cut down to %d bits" % w, fatal=False)

    def check_access(self, st, oid, off, size, what):
        o = st.heap[oid]
        if o.status == "freed":
            self.report(st, "use-after-free", "%s of %s after it was released (%s)" % (what, self.describe(o), o.meta.get("freed_at", "")))
        if o.status == "dead":
            self.report(st, "use-after-scope", "%s of %s after its function returned" % (what, self.describe(o)))
        if oid in self.readonly and what in ("write", "memcpy write", "memset"):
            self.report(st, "input-write", "%s, which the caller handed in for reading only, is written to" % self.readonly[oid], fatal=False)
        osz = o.size
        if isinstance(osz, tuple):
            osz = st.norm(osz)
            osz = osz[1] if osz[0] == "i" else None
        if osz is not None and isinstance(size, int):
            if isinstance(off, int) and (off < 0 or off + size > osz):
                self.report(st, "out-of-bounds", "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, off, self.describe(o), osz))
            elif not isinstance(off, int):
                h = st.hull(off)
                if h and h[0] + size > osz:
                    self.report(st, "out-of-bounds", "%s at offset >= %d of %s (%d bytes)" % (what, h[0], self.describe(o), osz))
                elif size:
                    self.range_check(st, o, off, ("i", size), what)
        elif isinstance(o.size, tuple) and isinstance(size, int) and size and o.status == "live":
            self.range_check(st, o, off, ("i", size), what)

    def describe(self, o):
        if o.kind == "heap":
            return "the block allocated at %s" % o.site
        if o.kind == "stack":
            return "local %s" % o.site
        if o.kind == "global":
            return "global %s" % short(o.id[1:])
        return "object %s" % re.sub(r"#\d+", "", str(o.id)[2:])

    def load(self, st, v, size, ty):
        oid, off = self.pointer(st, v)
        self.check_access(st, oid, off, size, "read")
        return st.norm(self.read(st, oid, off, size, ty))

    def overlapping(self, o, off, size):
        res = []
        for k, (z, val) in o.fields.items():
            if isinstance(k, int) and k < off + size and off < k + z:
                res.append((k, z, val))
        return res

    def read(self, st, oid, off, size, ty="p"):
        o = st.heap[oid]
        if not isinstance(off, int):
            off = val_off(st.norm(off))
        f = o.fields.get(off)
        if f is not None and f[0] == size and f[1][0] != "z":
            return f[1]
        if self.load_hook:
            r = self.load_hook(self, st, oid, off, size, ty)
            if r is not None:
                return r
        if not isinstance(off, int):
            return self.read_sym(st, oid, off, size, ty)
        ov = self.overlapping(o, off, size)
        if ov:
            if len(ov) == 1:
                k, z, val = ov[0]
                if val[0] == "z":
                    if k <= off and off + size <= k + z:
                        return ZERO
                elif k <= off and off + size <= k + z:
                    return self.extract(st, val, z, off - k, size)
            # assemble byte by byte
            parts = []
            for b in range(off, off + size):
                for k, z, val in ov:
                    if k <= b < k + z:
                        parts.append(ZERO if val[0] == "z" else self.byte_of(st, val, z, b - k))
                        break
                else:
                    if o.default == "zero":
                        parts.append(ZERO)
                    elif o.default == "lazy":
                        parts.append(self.lazy_field(st, oid, b, 1, "i8"))
                    else:
                        return UNDEF
            return self.from_bytes(st, parts)
        if o.default == "zero":
            return ZERO
        if o.default == "undef":
            return UNDEF
        if isinstance(o.default, tuple) and o.default[0] == "fill":
            return self.from_bytes(st, [o.default[1]] * size)
        return self.lazy_field(st, oid, off, size, ty)

    def read_sym(self, st, oid, off, size, ty):
        o = st.heap[oid]
        # fields stored under an offset that is provably the same
        for k, (z, val) in o.fields.items():
            if z == size and k == off:
                return val
        if o.default == "zero" and not o.fields:
            return ZERO
        if isinstance(o.default, tuple) and o.default[0] == "fill" and not o.fields:
            return self.from_bytes(st, [o.default[1]] * size)
        c, d = terms(off) if terms(off) else (0, {})
        mem = self.prog.member_at(o.dtype, c) if o.dtype else None
        ety = mem[1] if mem else (o.meta.get("elem") or ("ptr" if ty == "p" else "?"))
        name = "%s[%s]" % (self.pathname(o) + ("." + mem[0] if mem else ""), "")
        s = st.fresh(name, width_of(ty) if size <= 8 else 64, ety, (oid, off, mem[0] if mem else "[]"))
        st.wobj(oid).fields[off] = (size, s)
        return s

    def pathname(self, o):
        if o.kind == "lazy":
            return re.sub(r"#\d+$", "", o.id[2:])
        return re.sub(r"#\d+$", "", o.id)

    def lazy_field(self, st, oid, off, size, ty):
        o = st.heap[oid]
        mem = self.prog.member_at(o.dtype, off, size) if o.dtype else None
        name, fty = (mem[0], mem[1]) if mem else ("+%d" % off, "ptr" if ty == "p" else "?")
        if mem is None and o.dtype and o.dtype.endswith("*") and off % 8 == 0 and ty == "p":
            fty, name = o.dtype, "[%d]" % (off // 8)
        if self.lazy_hook:
            v = self.lazy_hook(self, st, oid, off, size, name, fty)
            if v is not None:
                st.wobj(oid).fields[off] = (size, v)
                return v
        s = st.fresh("%s->%s" % (self.pathname(o), name), width_of(ty) if ty.startswith("i") else 64, fty, (oid, off, name))
        if fty in ("_Bool", "bool") and size == 1:
            st.facts[s] = ((0, 1),)
        st.wobj(oid).fields[off] = (size, s)
        return s

    # bytes ---------------------------------------------------------------
    def byte_of(self, st, val, z, k):
        val = st.norm(val)
        if val[0] == "i":
            return ("i", (val[1] >> (8 * k)) & 0xff)
        if val[0] == "o" and val[1] == "bytes":
            bs = val[2]
            return bs[k] if k < len(bs) else ZERO
        if val[0] == "u":
            return UNDEF
        if z == 1:
            return val
        if val[0] == "o":
            if val[1] == "byte":
                return val if k == 0 else ZERO
            if val[1] == "trunc" and k * 8 < val[3]:
                return self.byte_of(st, val[2], 8, k)
            if val[1] == "sext" and k * 8 < val[3]:
                return self.byte_of(st, val[2], val[3] // 8, k)
            if val[1] == "ashr" and val[3][0] == "i" and val[3][1] % 8 == 0 and k + val[3][1] // 8 < val[4] // 8:
                return self.byte_of(st, val[2], 8, k + val[3][1] // 8)
        w = st.width(val) if val[0] in ("s", "o") else 64
        if k * 8 >= w:
            return ZERO
        if w == 8:
            return val
        return ("o", "byte", val, k, 8)

    def from_bytes(self, st, parts):
        if any(p[0] == "u" for p in parts):
            return UNDEF
        if all(p[0] == "i" for p in parts):
            return ("i", sum(p[1] << (8 * i) for i, p in enumerate(parts)))
        hi = len(parts)
        while hi > 1 and parts[hi - 1] == ZERO:
            hi -= 1
        core = parts[:hi]
        if len(core) == 1:
            return core[0]
        p0 = core[0]
        if p0[0] == "o" and p0[1] == "byte" and p0[3] == 0:
            src = p0[2]
            w = st.width(src) if src[0] in ("s", "o") else 64
            if all(p == ("o", "byte", src, i, 8) for i, p in enumerate(core)) and len(core) * 8 >= w:
                return src
        return ("o", "bytes", tuple(parts), len(parts) * 8)

    def to_bytes(self, st, v, nbytes):
        v = st.norm(v)
        if v[0] in ("p", "f", "u") or (v[0] == "o" and v[1] == "cmp"):
            return None
        if v[0] == "a":
            return None
        return [self.byte_of(st, v, nbytes, k) for k in range(nbytes)]

    def extract(self, st, val, z, k, size):
        if k == 0 and size == z:
            return val
        val = st.norm(val)
        if val[0] == "u":
            return UNDEF
        if val[0] in ("p", "f", "a"):
            return ("o", "ext", val, k, size * 8)
        return self.from_bytes(st, [self.byte_of(st, val, z, k + i) for i in range(size)])

    def store(self, st, v, val, size, ty="p"):
        oid, off = self.pointer(st, v)
        self.check_access(st, oid, off, size, "write")
        o = st.heap[oid]
        if o.kind == "global" and o.meta.get("const"):
            self.report(st, "const-write", "write to constant %s" % self.describe(o))
        if self.store_hook:
            self.store_hook(self, st, oid, off, val, size)
        self.write(st, oid, off, val, size)

    def write(self, st, oid, off, val, size):
        o = st.wobj(oid)
        if not isinstance(off, int):
            off = val_off(st.norm(off))
        if isinstance(off, int):
            for k, z, pv in self.overlapping(o, off, size):
                if k == off and z == size:
                    continue
                del o.fields[k]
                if pv[0] == "z":
                    if k < off:
                        o.fields[k] = (off - k, ("z",))
                    if k + z > off + size:
                        o.fields[off + size] = (k + z - off - size, ("z",))
                else:
                    for b in range(k, k + z):
                        if not off <= b < off + size:
                            o.fields[b] = (1, self.byte_of(st, pv, z, b - k))
            for k in [k for k in o.fields if not isinstance(k, int)]:
                c = terms(k)[0] if terms(k) else 0
                if c <= off + size:
                    h = st.hull(k)
                    if h is None or (h[0] < off + size and off < h[1] + o.fields[k][0]):
                        del o.fields[k]
            o.fields[off] = (size, val)
        else:
            x = terms(off)
            c = x[0] if x else 0
            h = st.hull(off)
            lo = h[0] if h else 0
            hi = h[1] if h else 1 << 64
            for k in list(o.fields):
                if k == off:
                    continue
                if isinstance(k, int):
                    if k + o.fields[k][0] > lo and k < hi + size:
                        mem = self.prog.member_at(o.dtype, c) if o.dtype else None
                        mem2 = self.prog.member_at(o.dtype, k) if o.dtype else None
                        if mem and mem2 and mem[0].split("[")[0] != mem2[0].split("[")[0]:
                            continue
                        del o.fields[k]
                else:
                    d = add(k, off, -1)
                    if d is not None and d[0] == "i" and abs(d[1]) >= max(size, o.fields[k][0]):
                        continue
                    del o.fields[k]
            if o.default in ("zero", "undef") or isinstance(o.default, tuple):
                o.default = "lazy"
            o.fields[off] = (size, val)

    def fill(self, st, p, byte, n):
        """memset"""
        oid, off = self.pointer(st, p)
        n = st.norm(n)
        if n[0] == "i" and n[1] == 0:
            return
        self.check_access(st, oid, off, n[1] if n[0] == "i" else 1, "memset")
        o = st.wobj(oid)
        osz = o.size if isinstance(o.size, tuple) or o.size is None else ("i", o.size)
        whole = False
        if off == 0:
            if osz is not None and st.norm(osz) == n:
                whole = True
            elif n[0] == "i" and osz is None and o.dtype and self.prog.struct_of(o.dtype) and self.prog.struct_of(o.dtype)["size"] <= n[1]:
                whole = True
        byte = st.norm(byte)
        if byte[0] == "i":
            byte = ("i", byte[1] & 0xff)
        if whole:
            o.fields = {}
            o.default = "zero" if byte == ZERO else ("fill", byte)
            return
        if n[0] == "i" and isinstance(off, int) and n[1] <= 65536:
            for k, z, pv in self.overlapping(o, off, n[1]):
                del o.fields[k]
                for b in range(k, k + z):
                    if not off <= b < off + n[1]:
                        o.fields[b] = (1, ZERO if pv[0] == "z" else self.byte_of(st, pv, z, b - k))
            if byte == ZERO:
                o.fields[off] = (n[1], ("z",)) if n[1] not in (1, 2, 4, 8) else (n[1], ZERO)
            else:
                for b in range(off, off + min(n[1], 64)):
                    o.fields[b] = (1, byte)
            return
        # symbolic extent: check it against a known size, then weak update
        self.range_check(st, o, off, n, "memset")
        lo = off if isinstance(off, int) else (st.hull(off) or (0, 0))[0]
        for k in list(o.fields):
            if not isinstance(k, int) or k + o.fields[k][0] > lo:
                del o.fields[k]
        if o.kind == "heap" and off == 0 and byte == ZERO and not o.fields and o.default in ("undef", "zero"):
            o.default = "zero" if o.default == "zero" else "lazy"
        else:
            o.default = "lazy" if o.default != "zero" or byte != ZERO else "zero"

    def range_check(self, st, o, off, n, what):
        """[off, off+n) must lie within a block of known size, when decidable"""
        if o.size is None:
            return
        osz = o.size if isinstance(o.size, tuple) else ("i", o.size)
        end = add(off_val(off), n)
        if end is None:
            return
        r = self.cmp(st, "ugt", end, st.norm(osz), 64)
        if r == ("i", 1):
            self.report(st, "out-of-bounds", "%s of %s bytes at offset %s of %s exceeds its size %s" %
                        (what, show(n), show(off_val(off)), self.describe(o), show(osz)))

    def copy_mem(self, st, d, s, n):
        n = st.norm(n)
        if n[0] == "i" and n[1] == 0:
            return
        soid, soff = self.pointer(st, s)
        doid, doff = self.pointer(st, d)
        cn = n[1] if n[0] == "i" else None
        self.check_access(st, soid, soff, cn or 1, "memcpy read")
        self.check_access(st, doid, doff, cn or 1, "memcpy write")
        if cn is not None and cn <= self.copy_limit and isinstance(soff, int) and isinstance(doff, int):
            pieces = []
            so = st.heap[soid]
            b = soff
            end = soff + cn
            while b < end:
                f = so.fields.get(b)
                if f is not None and b + f[0] <= end:
                    pieces.append((b - soff, f[0], f[1]))
                    b += f[0]
                    continue
                ov = [(k, z, v) for k, z, v in self.overlapping(so, b, 1)]
                if ov:
                    k, z, v = ov[0]
                    m = min(k + z, end) - b
                    if v[0] == "z":
                        pieces.append((b - soff, m, ("z",)))
                    else:
                        pieces.append((b - soff, m, self.extract(st, v, z, b - k, m)))
                    b += m
                    continue
                nxt = min([k for k in so.fields if isinstance(k, int) and k > b] + [end])
                if so.default == "zero":
                    pieces.append((b - soff, nxt - b, ("z",)))
                    b = nxt
                elif so.default == "lazy":
                    mem = self.prog.member_at(so.dtype, b) if so.dtype else None
                    sz = 8
                    if mem and mem[2] == b:
                        sz = self.scalar_size(so.dtype, b) or 8
                    sz = min(sz, nxt - b)
                    while sz not in (1, 2, 4, 8):
                        sz -= 1
                    v = self.read(st, soid, b, sz, "p" if sz == 8 else "i%d" % (sz * 8))
                    so = st.heap[soid]
                    pieces.append((b - soff, sz, v))
                    b += sz
                elif isinstance(so.default, tuple):
                    pieces.append((b - soff, 1, so.default[1]))
                    b += 1
                else:
                    b = nxt
            dobj = st.wobj(doid)
            for k, z, pv in self.overlapping(dobj, doff, cn):
                del dobj.fields[k]
                for bb in range(k, k + z):
                    if not doff <= bb < doff + cn:
                        dobj.fields[bb] = (1, ZERO if pv[0] == "z" else self.byte_of(st, pv, z, bb - k))
            for r, z, v in pieces:
                if self.store_hook and v[0] != "z":
                    self.store_hook(self, st, doid, doff + r, v, z)
                    dobj = st.heap[doid]
                dobj.fields[doff + r] = (z, v if not (v[0] == "z" and z in (1, 2, 4, 8)) else ZERO)
            return
        self.range_check(st, st.heap[soid], soff, n, "memcpy read")
        self.range_check(st, st.heap[doid], doff, n, "memcpy write")
        dobj = st.wobj(doid)
        lo = doff if isinstance(doff, int) else (st.hull(doff) or (0, 0))[0]
        for k in list(dobj.fields):
            if not isinstance(k, int) or k + dobj.fields[k][0] > lo:
                del dobj.fields[k]
        dobj.default = "lazy"
        dobj.meta = dict(dobj.meta)
        dobj.meta["copies"] = dobj.meta.get("copies", ()) + ((doff, (soid, soff), n),)

    def scalar_size(self, di, off):
        s = self.prog.struct_of(di)
        if s is None:
            return None
        for o, z, nm, t in s["members"]:
            if o <= off < o + max(z, 1):
                if self.prog.struct_of(t):
                    return self.scalar_size(t, off - o)
                if t.startswith("["):
                    return 1
                return z
        return None

    # ------------------------------------------------------------- compare
    def canon(self, d):
        """affine value -> (key, sign, const) with key const-free and leading coef > 0"""
        x = terms(d)
        ts = sorted(x[1].items(), key=repr)
        sg = 1 if ts[0][1] > 0 else -1
        return tuple((t, k * sg) for t, k in ts), sg, x[0]

    def diff_range(self, st, d, deep=True):
        h = st.hull(d)
        if h is None:
            return None
        lo, hi = h
        x = terms(d)
        if x[1]:
            key, sg, c = self.canon(d)
            if key in st.rel:
                a, b = st.rel[key]
                if sg < 0:
                    a, b = -b, -a
                lo, hi = max(lo, a + c), min(hi, b + c)
            if deep and st.rel and len(x[1]) > 1:
                for k2, (a, b) in st.rel.items():
                    if k2 == key or not any(t in x[1] for t, _ in k2):
                        continue
                    for s2 in (1, -1):
                        e = affine(0, {t: k * s2 for t, k in k2})
                        rest = add(d, e, -1)
                        if rest is None or len(terms(rest)[1]) > len(x[1]):
                            continue
                        r = self.diff_range(st, rest, False)
                        if r is None:
                            continue
                        aa, bb = (a, b) if s2 > 0 else (-b, -a)
                        lo, hi = max(lo, r[0] + aa), min(hi, r[1] + bb)
        return lo, hi

    def cmp(self, st, pred, a, b, w):
        """-> ("i",0/1) or an undecided ("o","cmp",pred,a,b,w)"""
        a, b = st.norm(a), st.norm(b)
        if a[0] == "u" or b[0] == "u":
            return UNDEF
        # conditions used as integers
        if a[0] == "o" and a[1] == "cmp" and b[0] == "i" and pred in ("eq", "ne"):
            t = (b[1] == 1) == (pred == "eq") if b[1] in (0, 1) else None
            if t is None:
                return ("i", int(pred == "ne"))
            return a if t else self.negate(a)
        if a == b:
            return ("i", int(pred in ("eq", "ule", "uge", "sle", "sge")))
        if a[0] == "i" and b[0] != "i":
            return self.cmp(st, SWAP[pred], b, a, w)
        if a[0] == "i" and b[0] == "i":
            return ("i", int(self.concrete(pred, a[1], b[1], w)))
        if a[0] == "f" or b[0] == "f":
            if a[0] == "f" and b[0] in ("f", "i", "p") and pred in ("eq", "ne"):
                return ("i", int(pred == "ne"))
            if b[0] == "f" and a[0] == "p" and pred in ("eq", "ne"):
                return ("i", int(pred == "ne"))
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                a, b = off_val(a[2]), off_val(b[2])
                return self.cmp(st, pred, a, b, w)
            if pred in ("eq", "ne"):
                return ("i", int(pred == "ne"))
            return ("o", "cmp", pred, a, b, w)
        if a[0] == "p" and b[0] == "i":
            if pred in ("eq", "ne"):
                return ("i", int(pred == "ne"))
            if pred in ("ugt", "uge") and b[1] == 0:
                return ("i", 1)
            if pred in ("ult", "ule", "slt", "sle") and b[1] == 0:
                return ("i", 0)
            return ("o", "cmp", pred, a, b, w)
        if a[0] == "p" or b[0] == "p":
            if a[0] != "p":
                return self.cmp(st, SWAP[pred], b, a, w)
            if b[0] == "s" and pred in ("eq", "ne"):
                o = st.heap.get(a[1])
                if o is not None and o.kind in ("heap", "stack") and st.sym[b[1]][3] < o.n:
                    return ("i", int(pred == "ne"))
                if not self.may_alias(st, a, b):
                    return ("i", int(pred == "ne"))
            return ("o", "cmp", pred, a, b, w)
        if a[0] == "o" and a[1] == "sext" and b[0] == "i":
            w1 = a[3]
            lim = signed(b[1], w)
            if -(1 << (w1 - 1)) <= lim < (1 << (w1 - 1)):
                return self.cmp(st, pred, a[2], ("i", mask(lim, w1)), w1)
        if b[0] == "i" and a[0] in ("s", "o"):
            iv = st.ivals(a)
            ww = max(w, 1)
            tw = st.width(a)
            if tw < ww and pred[0] == "s":
                pass
            ps = pred_set(pred, b[1], ww)
            x = inter2(iv, ps)
            if not x:
                return ZERO
            if x == iv or sum(q - p + 1 for p, q in x) == sum(q - p + 1 for p, q in iv):
                return ("i", 1)
            if pred == "ne" and a[0] == "o" and a[1] == "and" and b[1] == 0:
                pass
            return ("o", "cmp", pred, a, b, w)
        d = add(a, b, -1)
        if d is None:
            return ("o", "cmp", pred, a, b, w)
        if d[0] == "i":
            z = d[1]
            r = {"eq": z == 0, "ne": z != 0, "ult": z < 0, "slt": z < 0, "ule": z <= 0, "sle": z <= 0,
                 "ugt": z > 0, "sgt": z > 0, "uge": z >= 0, "sge": z >= 0}[pred]
            return ("i", int(r))
        if pred[0] == "s" and b[0] != "i" and self.may_negative(st, a, b):
            return ("o", "cmp", pred, a, b, w)
        r = self.diff_range(st, d)
        if r is not None:
            lo, hi = r
            p = pred if pred in ("eq", "ne") else pred[1:]
            if lo > hi:
                return ("o", "cmp", pred, a, b, w)
            if p == "eq" or p == "ne":
                if lo > 0 or hi < 0:
                    return ("i", int(p == "ne"))
                if lo == hi == 0:
                    return ("i", int(p == "eq"))
            elif p == "lt":
                if hi < 0:
                    return ("i", 1)
                if lo >= 0:
                    return ZERO
            elif p == "le":
                if hi <= 0:
                    return ("i", 1)
                if lo > 0:
                    return ZERO
            elif p == "gt":
                if lo > 0:
                    return ("i", 1)
                if hi <= 0:
                    return ZERO
            elif p == "ge":
                if lo >= 0:
                    return ("i", 1)
                if hi < 0:
                    return ZERO
        return ("o", "cmp", pred, a, b, w)

    def may_negative(self, st, a, b):
        for v in (a, b):
            x = terms(v)
            if x is None:
                return True
            for t in x[1]:
                iv = st.ivals(t)
                w = st.width(t)
                if w in (32, 64) and iv[-1][1] >= 1 << (w - 1):
                    return True
        return False

    def may_alias(self, st, p, s):
        f = st.ghost.get("noalias")
        if f and (s[1], p[1]) in f:
            return False
        return True

    @staticmethod
    def concrete(pred, a, b, w):
        if pred == "eq":
            return mask(a, w) == mask(b, w)
        if pred == "ne":
            return mask(a, w) != mask(b, w)
        if pred[0] == "u":
            a, b = mask(a, w), mask(b, w)
        else:
            a, b = signed(a, w), signed(b, w)
        p = pred[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

    @staticmethod
    def negate(c):
        return ("o", "cmp", NEG[c[2]], c[3], c[4], c[5])

    def assume(self, st, c, truth):
        """refine st (in place); False when infeasible"""
        c = st.norm(c)
        if c[0] == "i":
            return (c[1] != 0) == truth
        if c[0] == "u":
            self.report(st, "uninit", "branch depends on an uninitialised value")
        if c[0] == "o" and c[1] == "cmp":
            pred, a, b, w = c[2], st.norm(c[3]), st.norm(c[4]), c[5]
            r = self.cmp(st, pred, a, b, w)
            if r[0] == "i":
                return (r[1] != 0) == truth
            if r[1] != "cmp":
                return True
            pred, a, b, w = r[2], r[3], r[4], r[5]
            if not truth:
                pred = NEG[pred]
            return self.assume_cmp(st, pred, a, b, w)
        if c[0] in ("s", "o"):
            iv = st.ivals(c)
            niv = inter2(iv, pred_set("ne" if truth else "eq", 0, max(st.width(c), 1)))
            if not niv:
                return False
            st.facts[c] = niv
            return True
        if c[0] in ("p", "f"):
            return truth
        return True

    def mentions(self, v, name):
        if not isinstance(v, tuple):
            return False
        return v == ("s", name) or any(self.mentions(x, name) for x in v)

    def assume_cmp(self, st, pred, a, b, w):
        if a[0] == "p" and b[0] == "s" and pred == "eq":
            st.bind[b[1]] = a
            return True
        if a[0] == "p" and b[0] == "s" and pred == "ne":
            st.ghost["noalias"] = st.ghost.get("noalias", frozenset()) | {(b[1], a[1])}
            return True
        if b[0] == "i" and a[0] in ("s", "o"):
            x = inter2(st.ivals(a), pred_set(pred, b[1], w))
            if not x:
                return False
            st.facts[a] = x
            if a[0] == "o" and a[1] == "and" and pred == "ne" and b[1] == 0:
                pass
            return True
        if a[0] == "s" and b[0] == "s" and pred == "eq":
            # unify, keep the older symbol
            if st.sym[a[1]][3] > st.sym[b[1]][3]:
                a, b = b, a
            x = inter2(st.ivals(a), st.ivals(b))
            if not x:
                return False
            st.bind[b[1]] = a
            st.facts[a] = x
            return True
        if pred == "eq":
            if b[0] == "s" and a[0] == "o":
                a, b = b, a
            if a[0] == "s" and b[0] == "o" and b[1] != "cmp" and not self.mentions(b, a[1]):
                x = inter2(st.ivals(a), st.ivals(b))
                if not x:
                    return False
                st.bind[a[1]] = b
                st.facts[b] = x
                return True
        d = add(a, b, -1)
        if d is None or d[0] == "i":
            return True
        p = pred if pred in ("eq", "ne") else pred[1:]
        if pred[0] == "s" and self.may_negative(st, a, b):
            # remember the literal comparison only
            return True
        x = terms(d)
        if p == "ne":
            if len(x[1]) == 1:
                (t, k), = x[1].items()
                if k in (1, -1):
                    iv = punch(st.ivals(t), -x[0] * k)
                    if not iv:
                        return False
                    st.facts[t] = iv
                    return True
            key, sg, c0 = self.canon(d)
            lo, hi = st.rel.get(key, (-(1 << 65), 1 << 65))
            z = -c0 * sg
            if lo == z:
                lo += 1
            if hi == z:
                hi -= 1
            if lo > hi:
                return False
            st.rel[key] = (lo, hi)
            return True
        lo, hi = {"eq": (0, 0), "lt": (-(1 << 65), -1), "le": (-(1 << 65), 0), "gt": (1, 1 << 65), "ge": (0, 1 << 65)}[p]
        if len(x[1]) == 1:
            (t, k), = x[1].items()
            if k in (1, -1):
                a1, b1 = lo - x[0], hi - x[0]
                if k < 0:
                    a1, b1 = -b1, -a1
                iv = inter(st.ivals(t), a1, b1)
                if not iv:
                    return False
                st.facts[t] = iv
                return True
        key, sg, c0 = self.canon(d)
        a1, b1 = lo - c0, hi - c0
        if sg < 0:
            a1, b1 = -b1, -a1
        l0, h0 = st.rel.get(key, (-(1 << 65), 1 << 65))
        l0, h0 = max(l0, a1), min(h0, b1)
        if l0 > h0:
            return False
        st.rel[key] = (l0, h0)
        return True

    # ------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, w):
        a, b = st.norm(a), st.norm(b)
        if a[0] == "u" or b[0] == "u":
            return UNDEF
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "shl":
                r = x << (y & 63)
            elif op == "lshr":
                r = mask(x, w) >> (y & 63)
            elif op == "ashr":
                r = signed(x, w) >> (y & 63)
            elif op in ("udiv", "urem"):
                if y == 0:
                    self.report(st, "div-zero", "division by zero")
                r = x // y if op == "udiv" else x % y
            elif op in ("sdiv", "srem"):
                sx, sy = signed(x, w), signed(y, w)
                if sy == 0:
                    self.report(st, "div-zero", "division by zero")
                q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                r = q if op == "sdiv" else sx - q * sy
            else:
                return st.fresh("arith", w)
            return ("i", mask(r, w))
        if w == 1 and op == "xor" and b == ("i", 1) and a[0] == "o" and a[1] == "cmp":
            return self.negate(a)
        if w == 1 and op in ("and", "or"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "i":
                    if op == "and":
                        return y if x[1] else ZERO
                    return ("i", 1) if x[1] else y
        if op in ("add", "sub"):
            if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                r = add(off_val(a[2]), off_val(b[2]), -1)
                if r is not None:
                    return r
            if a[0] == "p" and b[0] != "p":
                r = add(off_val(a[2]), self.sgn(b, w), 1 if op == "add" else -1)
                if r is not None:
                    return ("p", a[1], val_off(r))
            if b[0] == "p" and op == "add" and a[0] != "p":
                return self.binop(st, op, b, a, w)
            bb = b
            if b[0] == "i" and b[1] >> (w - 1) & 1:
                bb = ("i", signed(b[1], w))
            r = add(a, bb, 1 if op == "add" else -1)
            if r is not None:
                if r[0] == "a" and r[1] >> 63 > 0 and w == 64 and st.hull(r)[0] >> 64 > 0:
                    return add(r, ("i", 1 << 64), -1)
                return r
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x[0] == "i":
                    if x[1] == 0:
                        return ZERO
                    r = scale(y, x[1])
                    if r is not None:
                        return r
        if op == "shl" and b[0] == "i" and b[1] % 8:
            r = scale(a, 1 << b[1])
            if r is not None:
                return r
        if op in ("and", "or", "shl", "lshr", "xor") and w % 8 == 0:
            r = self.bytewise(st, op, a, b, w)
            if r is not None:
                return r
        if op == "and":
            if b[0] == "i" and b[1] == 0 or a[0] == "i" and a[1] == 0:
                return ZERO
        if op == "or" or op == "xor":
            if b == ZERO:
                return a
            if a == ZERO:
                return b
        if a == b and op in ("and", "or"):
            return a
        if op in ("urem", "and") and b[0] == "i" and b[1] and a[0] in "ap":
            r = self.residue(st, op, a, b[1], w)
            if r is not None:
                return r
        if op in ("urem", "udiv") and b == ZERO:
            self.report(st, "div-zero", "division by zero")
        if op == "udiv" and b[0] == "i" and a[0] in ("a",):
            x = terms(a)
            if x[0] % b[1] == 0 and all(k % b[1] == 0 for k in x[1].values()):
                return affine(x[0] // b[1], {t: k // b[1] for t, k in x[1].items()})
        r = ("o", op, a, b, w)
        if op == "urem" and b[0] == "i" and r not in st.facts:
            st.facts[r] = ((0, b[1] - 1),)
        if op == "and" and b[0] == "i" and r not in st.facts:
            st.facts[r] = ((0, b[1]),)
        return r

    def residue(self, st, op, a, m, w):
        """a % m or a & m where all unknown parts of a are multiples of a power of two"""
        base = 0
        if a[0] == "p":
            o = st.heap.get(a[1])
            if o is None or "residue" not in (o.meta or {}):
                return None
            base, n = o.meta["residue"]
            t = terms(off_val(a[2]))
        else:
            t, n = terms(a), 1 << w
        if t is None:
            return None
        for k in t[1].values():
            n = min(n, k & -k)
        low = (base + t[0]) % n
        if op == "urem":
            return ("i", low % m) if m & (m - 1) == 0 and n % m == 0 else None
        if m < n:
            return ("i", low & m)
        up = mask(~m, w)
        if up and up & (up + 1) == 0 and up < n:      # rounds down to a multiple
            return self.binop(st, "sub", a, ("i", low & up), w) if low & up else a
        return None

    @staticmethod
    def sgn(b, w):
        if b[0] == "i" and b[1] >> (w - 1) & 1:
            return ("i", signed(b[1], w))
        return b

    def bytewise(self, st, op, a, b, w):
        n = w // 8
        if op in ("shl", "lshr"):
            if b[0] != "i" or b[1] % 8:
                return None
            bs = self.to_bytes(st, a, n)
            if bs is None:
                return None
            k = b[1] // 8
            if op == "shl":
                bs = [ZERO] * min(k, n) + bs[: max(0, n - k)]
            else:
                bs = bs[k:] + [ZERO] * min(k, n)
            return self.from_bytes(st, bs)
        if op in ("and", "or", "xor"):
            x, y = self.to_bytes(st, a, n), self.to_bytes(st, b, n)
            if x is None or y is None:
                return None
            out = []
            for p, q in zip(x, y):
                if p[0] == "i" and q[0] == "i":
                    out.append(("i", {"and": p[1] & q[1], "or": p[1] | q[1], "xor": p[1] ^ q[1]}[op]))
                    continue
                if p[0] == "i":
                    p, q = q, p
                if q[0] == "i":
                    if op == "and" and q[1] in (0, 0xff):
                        out.append(p if q[1] else ZERO)
                        continue
                    if op in ("or", "xor") and q[1] == 0:
                        out.append(p)
                        continue
                    if op == "or" and q[1] == 0xff:
                        out.append(q)
                        continue
                return None
            return self.from_bytes(st, out)
        return None

    def cast(self, st, op, v, tf, tt):
        v = st.norm(v)
        if v[0] == "u":
            return v
        wf, wt = width_of(tf), width_of(tt)
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            return v
        if op == "zext":
            if v[0] == "a" and wf < 64:
                h = st.hull(v)
                if h and h[0] < 0:
                    return v
            return v
        if op == "sext":
            if v[0] == "i":
                return ("i", mask(signed(v[1], wf), wt))
            if v[0] in ("s", "o"):
                if v[0] == "o" and v[1] == "cmp":
                    return ("o", "sext", v, wf, wt)
                if st.ivals(v)[-1][1] < 1 << (wf - 1):
                    return v
                return ("o", "sext", v, wf, wt)
            return v
        if op == "trunc":
            if v[0] == "i":
                return ("i", mask(v[1], wt))
            if v[0] == "o":
                if v[1] == "cmp":
                    return v
                if v[1] == "sext":
                    if v[3] == wt:
                        return v[2]
                    if v[3] > wt:
                        return self.cast(st, "trunc", v[2], "i%d" % v[3], tt)
            if v[0] in ("s", "o"):
                if st.ivals(v)[-1][1] < 1 << wt:
                    return v
                if wt % 8 == 0:
                    bs = self.to_bytes(st, v, wf // 8)
                    if bs is not None:
                        return self.from_bytes(st, bs[:wt // 8])
                return ("o", "trunc", v, wt)
            if v[0] == "a":
                h = st.hull(v)
                if h and 0 <= h[0] and h[1] < 1 << wt:
                    return v
                if wt == 1:
                    return ("o", "trunc", v, wt)
                return ("o", "trunc", v, wt)
            return v
        return st.fresh("cast", wt)

    # ------------------------------------------------------------- execution
    def val(self, st, env, x):
        if isinstance(x, int):
            v = env.get(x)
            if v is None:
                raise AnalysisBroken("value %%%d undefined in %s" % (x, self.stack[-1][0].short))
            return st.norm(v)
        return self.const(x)

    def activation(self, st, F, args):
        """for a function that is already running: all its behaviour can depend on"""
        if all(f is not F for f, _ in self.stack):
            return None
        return (F.name, tuple(st.norm(a) for a in args), st.fr, st.trail,
                {o: (x.status, dict(x.fields)) for o, x in st.heap.items() if x.kind != "stack" or x.status == "live"})

    def run(self, st, F, args):
        """abstractly execute F; list of (state, return value or None)"""
        if len(self.stack) > self.max_depth:
            raise AnalysisBroken("call depth exceeded at " + F.short)
        self.visited_funcs.add(F.name)
        env0 = {}
        for (aid, ty, di, nm), v in zip(F.args, args):
            env0[aid] = v
        act = self.activation(st, F, args)
        if act is not None and act in self.acts:
            self.report(st, "no-progress", "%s calls itself again in the same state and never ends" % F.short)
        self.acts.append(act)
        self.stack.append((F, self.curloc))
        outs, seen_out = [], set()
        work = [(st, env0, 0, -1, {})]
        loopseen = {'heap0': dict(st.heap)}
        try:
            while work:
                st, env, b, prev, visits = work.pop()
                try:
                    for o in self.block(st, env, F, b, prev, visits, loopseen, work):
                        outs.append(o)
                except Stop:
                    pass
        finally:
            self.stack.pop()
            self.acts.pop()
        for st, rv in outs:
            for oid, o in list(st.heap.items()):
                if o.kind == "stack" and o.meta.get("frame") == len(self.stack) + 1 and o.status == "live":
                    o = st.wobj(oid)
                    o.status = "dead"
        outs = self.dedupe(outs)
        if len(outs) > 1 and self.join_states and F.name not in self.no_join and (self.leaf(F) or len(outs) > self.join_limit):
            outs = self.join_all(outs, F.ret in ('i8', 'i16'))
        return outs

    def leaf(self, F):
        if F.isleaf is None:
            F.isleaf = not any(i[2][0] == "call" and not (isinstance(i[2][2], list) and i[2][2][1][1:].startswith("llvm."))
                               for b in F.blocks for i in b)
        return F.isleaf

    def join_all(self, outs, scalar=False):
        res = []
        for st, rv in outs:
            for k, (s2, r2) in enumerate(res):
                j = self.join(s2, r2, st, rv, scalar)
                if j is not None:
                    res[k] = j
                    break
            else:
                res.append((st, rv))
        return res

    def join(self, a, ra, b, rb, scalar=False):
        """least upper bound of two states with the same heap shape, or None"""
        bad = "ufp" if scalar else "iufp"
        if ra != rb and (ra is None or rb is None or ra[0] in bad or rb[0] in bad):
            return None
        if a.events != b.events or a.bind != b.bind or a.heap.keys() != b.heap.keys():
            return None
        if self.ghost_key(a) != self.ghost_key(b):
            return None
        diff, drop = [], []
        for oid, o in a.heap.items():
            p = b.heap[oid]
            if o is p:
                continue
            if o.status != p.status or o.default != p.default or o.size != p.size:
                return None
            if o.status == "dead":
                continue
            for k in set(o.fields) | set(p.fields):
                x, y = o.fields.get(k), p.fields.get(k)
                if x == y:
                    continue
                if x is None or y is None:
                    if o.default == "lazy" and self.is_input_cell(a if x else b, oid, k, x or y):
                        drop.append((oid, k))
                        continue
                    return None
                if x[0] != y[0] or x[1][0] in "pfuz" or y[1][0] in "pfuz":
                    return None
                diff.append((oid, k, x, y))
        st = a
        st.n = max(a.n, b.n)
        for k, v in b.sym.items():
            st.sym.setdefault(k, v)
        for oid, k in drop:
            st.wobj(oid).fields.pop(k, None)
        facts = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is None:
                continue
            facts[k] = v if v == w else self.union(v, w)
        rel = {}
        for k, v in a.rel.items():
            w = b.rel.get(k)
            if w is not None:
                rel[k] = (min(v[0], w[0]), max(v[1], w[1]))

        known = []

        def lub(x, y, w):
            # values that differ from an earlier one by the same amount (up to
            # sign) in both states keep that relation
            x, y = a.norm(x), b.norm(y)
            ok = w == 64 and all(v[0] in "iaos" and not (v[0] == "o" and v[1] == "cmp") for v in (x, y))
            if ok:
                for x0, y0, f0 in known:
                    for k in (1, -1):
                        cx, cy = add(x, x0, -k), add(y, y0, -k)
                        if cx is not None and cx == cy:
                            return add(cx, f0, k)
                # values fixed relative to the same quantity
                cand = {t: 1 for v in (x, y) for t in terms(v)[1]}
                for rel_ in (a.rel, b.rel):
                    for key, (l, u) in rel_.items():
                        if l == u:
                            cand.update({t: 1 for t, c in key})
                for t in cand:
                    if t[0] != "s" or t[1] not in a.sym or t[1] not in b.sym or a.norm(t) != t or b.norm(t) != t:
                        continue
                    da, db = add(x, t, -1), add(y, t, -1)
                    if da is None or db is None:
                        continue
                    ra_, rb_ = self.diff_range(a, da), self.diff_range(b, db)
                    if ra_ and ra_ == rb_ and ra_[0] == ra_[1]:
                        return add(t, ("i", ra_[0]))
            hx, hy = a.hull(a.norm(x)), b.hull(b.norm(y))
            f = st.fresh("join", w)
            if hx and hy and min(hx[0], hy[0]) >= 0:
                facts[f] = ((min(hx[0], hy[0]), max(hx[1], hy[1])),)
            if ok:
                known.append((x, y, f))
            return f
        vals = [(oid, k, x[0], lub(x[1], y[1], x[0] * 8)) for oid, k, x, y in diff]
        rv = ra if ra == rb else lub(ra, rb, 64)
        st.facts, st.rel = facts, rel
        for oid, k, z, v in vals:
            st.wobj(oid).fields[k] = (z, v)
        return st, rv

    @staticmethod
    def union(v, w):
        iv = sorted(v + w)
        out = [iv[0]]
        for lo, hi in iv[1:]:
            if lo <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], hi))
            else:
                out.append((lo, hi))
        if len(out) > 8:
            out = [(out[0][0], out[-1][1])]
        return tuple(out)

    @staticmethod
    def is_input_cell(st, oid, k, f):
        v = f[1]
        if v[0] != "s":
            return False
        org = st.sym.get(v[1], (0, 0, None))[2]
        return isinstance(org, tuple) and len(org) == 3 and org[0] == oid and org[1] == k

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for st, rv in outs:
            k = self.exact_key(st, rv)
            if k in seen:
                continue
            seen.add(k)
            res.append((st, rv))
        return res

    def exact_key(self, st, rv):
        hp = []
        for oid, o in st.heap.items():
            if o.status == "dead":
                continue
            hp.append((oid, o.status, o.default, frozenset(o.fields.items())))
        return (rv, frozenset(hp), frozenset(st.facts.items()), frozenset(st.rel.items()), frozenset(st.bind.items()),
                st.events, self.ghost_key(st))

    @staticmethod
    def ghost_key(st):
        return repr(sorted(st.ghost.items(), key=lambda kv: kv[0]))

    def block(self, st, env, F, b, prev, visits, loopseen, work):
        blk = F.blocks[b]
        # phis, evaluated together
        i = 0
        newv = []
        while i < len(blk) and blk[i][2][0] == "phi":
            ins = blk[i][2]
            for v, pb in ins[2]:
                if pb == prev:
                    newv.append((ins[1], self.val(st, env, v)))
                    break
            i += 1
        for d, v in newv:
            env[d] = v
        if b in F.heads:
            visits = dict(visits)
            if not self.loop_head(st, env, F, b, prev, visits, loopseen):
                return
        yield from self.insts(st, env, F, b, i, visits, work)

    def loop_head(self, st, env, F, b, prev, visits, loopseen):
        if prev not in self.prog.loops(F)[0][b]:
            # entered from outside
            visits.pop(b, None), visits.pop(("nd", b), None), visits.pop(("det", b), None), visits.pop(("keys", b), None)
            visits["n0", b] = st.n
        n, prevs = visits.get(b, (0, None))
        phis = [ins[2][1] for ins in F.blocks[b] if ins[2][0] == "phi"]
        if prevs is not None and ("nd", b) not in visits and \
                any(env[x][0] == "i" and prevs[0].get(x) != env[x] for x in phis):
            # no undecided exit test since the last visit: a counted loop
            c = visits.get(("det", b), 0) + 1
            if c <= self.max_counted:
                visits[("det", b)] = c
                visits[b] = (n, (dict(env), dict(st.heap), n))
                return True
        visits.pop(("nd", b), None)
        n += 1
        live = self.prog.liveness(F)[b]
        phis = [ins[2][1] for ins in F.blocks[b] if ins[2][0] == "phi"]
        if n > self.unroll and prevs is not None:
            self.late = n > self.unroll + 3
            self.widen(st, env, F, b, prevs, phis)
            self.forget(st)
        if True:
            k = self.canon_key(st, env, set(live) | set(phis), F, loopseen.get('heap0'))
            if n > self.unroll:
                self.forget_relations(st, visits.get(("n0", b), 0))
            key = (b, len(self.stack))
            s = loopseen.setdefault(key, set())
            if k in s:
                if n <= self.unroll + 1:
                    own = [h for h in visits.get(("keys", b), ()) if h[0] == k]
                    if any(h[1] == st.fr and h[2] == st.trail for h in own):
                        # back where this path has been, with nothing decided or
                        # learnt on the way
                        self.report(st, "no-progress", "this loop comes back to the same state and never ends", fatal=False)
                        return False
                    if len(own) == 1 and own[0][2] == st.trail:
                        visits["keys", b] = visits.get(("keys", b), ()) + ((k, st.fr, st.trail),)
                        visits[b] = (n, (dict(env), dict(st.heap), n))
                        return True
                return False
            s.add(k)
            visits["keys", b] = visits.get(("keys", b), ()) + ((k, st.fr, st.trail),)
        if n > self.max_visits:
            self.truncated += 1
            return False
        visits[b] = (n, (dict(env), dict(st.heap), n))
        return True

    def forget_relations(self, st, n0):
        """drop relations of values that came up in this loop and are gone"""
        gone = [k for k in st.rel if any(t not in self.reached and any(s not in self.reached and st.sym.get(s[1], (0, 0, 0, 0))[3] > n0 for s in atoms(t)) for t, c in k)]
        for k in gone:
            del st.rel[k]

    def forget(self, st):
        """drop cached reads of unmodified input bytes / array elements; a later
        read yields a fresh unknown (sound: only loses correlation)"""
        for oid, o in list(st.heap.items()):
            if o.status != "live":
                continue
            drop = []
            if o.kind in ("heap", "lazy") and any(not isinstance(k, int) for k in o.fields):
                d2 = [k for k, (z, v) in o.fields.items() if not isinstance(k, int) and
                      not (v[0] == "p" and v[1] in st.heap and st.heap[v[1]].kind == "heap")]
                if d2:
                    o = st.wobj(oid)
                    for k in d2:
                        del o.fields[k]
                    o.default = "lazy"
            if o.default != "lazy":
                continue
            for k, (z, v) in o.fields.items():
                if v[0] != "s":
                    continue
                org = st.sym.get(v[1], (0, 0, None))[2]
                if not (isinstance(org, tuple) and len(org) == 3 and org[0] == oid and org[1] == k):
                    continue
                if not isinstance(k, int) or (z == 1 and not (o.dtype and self.prog.struct_of(o.dtype))):
                    drop.append(k)
                elif isinstance(org[2], str) and "]" in org[2]:
                    drop.append(k)
                elif z == 8:
                    b = st.bind.get(v[1])
                    if b is not None and b[0] == "p" and self.clean(st, b[1]):
                        drop.append(k)
            if drop:
                o = st.wobj(oid)
                for k in drop:
                    del o.fields[k]

    def clean(self, st, oid):
        """an input object none of whose cells has been written"""
        o = st.heap.get(oid)
        if o is None or o.kind != "lazy" or o.status != "live" or o.meta.get("root"):
            return False
        for k, (z, v) in o.fields.items():
            if v[0] == "s":
                org = st.sym.get(v[1], (0, 0, None))[2]
                if isinstance(org, tuple) and len(org) == 3 and org[0] == oid and org[1] == k:
                    continue
            return False
        return True

    def widen(self, st, env, F, b, prev, phis):
        penv, pheap, _ = prev
        h = "w%s.%d" % (F.short, b)
        items = []
        for p in phis:
            old, new = penv.get(p), env[p]
            if old is None:
                continue
            items.append((("env", p), old, new, "%s.%d" % (h, p)))
        for oid, o in list(st.heap.items()):
            po = pheap.get(oid)
            if po is None or po is o or o.status != "live":
                continue
            for k, (z, v) in list(o.fields.items()):
                pf = po.fields.get(k)
                if pf is None or pf[1] == v or pf[0] != z:
                    continue
                items.append((("cell", oid, k, z), pf[1], v, "%s.%s.%s" % (h, oid, k)))
        joint = self.widen_related(st, items, h)
        for i, (where, old, new, name) in enumerate(items):
            nv = joint[i] if i in joint else self.widen_val(st, old, new, name)
            if where[0] == "env":
                env[where[1]] = nv
            elif nv is not new:
                st.wobj(where[1]).fields[where[2]] = (where[3], nv)

    def widen_related(self, st, items, h):
        """values that change by the same amount (up to sign) keep that relation:
        they are widened together to base + T and base - T"""
        tn = h + ".T"
        groups = {}
        for i, (where, old, new, name) in enumerate(items):
            old, new = st.norm(old), st.norm(new)
            if old == new or (self.statusish(st, old) and self.statusish(st, new)):
                continue
            obj = None
            if old[0] == "p" and new[0] == "p" and old[1] == new[1]:
                obj = old[1]
                old, new = off_val(old[2]), off_val(new[2])
            elif old[0] not in ("i", "a", "s", "o") or new[0] not in ("i", "a", "s", "o"):
                continue
            if any(x[0] == "s" and (st.sym[x[1]][1].endswith("*") or st.sym[x[1]][1] == "ptr") for x in (old, new)) or \
                    any(x[0] == "o" and x[1] == "cmp" for x in (old, new)):
                continue
            d = add(new, old, -1)
            if d is None:
                continue
            to = terms(old)
            w, k = None, 0
            for t, c in to[1].items():
                if t[0] == "s" and t[1].startswith(tn + "#") and c in (1, -1):
                    w, k = t, c
            if w is None:
                x = terms(d)
                if not x[1]:
                    sg = 1 if x[0] > 0 else -1
                else:
                    key, sg, c = self.canon(d)
                k = sg
            delta = scale(d, k)
            groups.setdefault((w, delta), []).append((i, obj, k, old, new, w))
        res = {}
        for (w, delta), g in groups.items():
            if len(g) < 2:
                continue
            T = st.fresh(tn, 64)
            r = self.diff_range(st, delta)
            lo = 0 if r and r[0] >= 0 and (w is None or (st.hull(w) or (-1, 0))[0] >= 0) else None
            st.facts[T] = ((0 if lo == 0 else -(1 << 64), M64),)
            for i, obj, k, old, new, w in g:
                base = add(old, w, -k) if w is not None else old
                f = add(base, T, k)
                ho, hn = st.hull(old), st.hull(new)
                l, u = 0, M64
                if ho and hn:
                    dr = self.diff_range(st, add(new, old, -1))
                    l = ho[0] if 0 <= ho[0] <= hn[0] else (min(ho[0], hn[0]) if dr and dr[0] >= 0 and min(ho[0], hn[0]) >= 0 else 0)
                    u = ho[1] if hn[1] <= ho[1] <= M64 and ho[1] >= 0 else M64
                    if self.late:
                        l = min(l, 1)
                x = terms(f)
                if len(x[1]) == 1:
                    (t, c), = x[1].items()
                    if c in (1, -1):
                        a1, b1 = (l - x[0], u - x[0]) if c > 0 else (x[0] - u, x[0] - l)
                        iv = inter(st.ivals(t), a1, b1)
                        if iv:
                            st.facts[t] = iv
                elif x[1]:
                    key, sg, c0 = self.canon(f)
                    a1, b1 = l - c0, u - c0
                    if sg < 0:
                        a1, b1 = -b1, -a1
                    l0, h0 = st.rel.get(key, (-(1 << 65), 1 << 65))
                    l0, h0 = max(l0, a1), min(h0, b1)
                    if l0 <= h0:
                        st.rel[key] = (l0, h0)
                self.keep_bounds(st, old, new, f)
                res[i] = ("p", obj, val_off(f)) if obj is not None else f
        return res

    def keep_bounds(self, st, old, new, f):
        """what bounds both the old and the new value bounds the widened one"""
        mine = set(terms(old)[1]) | set(terms(new)[1])
        cand = {}
        for key in st.rel:
            ts = [t for t, c in key]
            if any(t in mine for t in ts):
                for t in ts:
                    if t[0] == "s" and t not in mine and st.norm(t) == t:
                        cand[t] = 1
        for t in list(cand)[:8]:
            for sg in (1, -1):
                ok = True
                for x in (old, new):
                    d = add(t, x, -1)
                    r = self.diff_range(st, scale(d, sg)) if d is not None else None
                    if not r or r[0] < 0:
                        ok = False
                        break
                if not ok:
                    continue
                d = add(t, f, -1)
                x = terms(d) if d is not None else None
                if not x or len(x[1]) < 2:
                    continue
                key, s0, c0 = self.canon(d)
                a1, b1 = (-c0, 1 << 65) if sg > 0 else (-(1 << 65), -c0)
                if s0 < 0:
                    a1, b1 = -b1, -a1
                l0, h0 = st.rel.get(key, (-(1 << 65), 1 << 65))
                if max(l0, a1) <= min(h0, b1):
                    st.rel[key] = (max(l0, a1), min(h0, b1))

    @staticmethod
    def statusish(st, v):
        """success or an error code: a value no loop counts up"""
        if v[0] == "i":
            return v[1] == 0 or v[1] >> 31 == 1
        if v[0] != "s":
            return False
        return all(iv == (0, 0) or (iv[0] >= 1 << 31 and iv[1] < 1 << 32) for iv in st.ivals(v))

    def widen_val(self, st, old, new, name):
        old, new = st.norm(old), st.norm(new)
        if old == new:
            return new
        if self.statusish(st, old) and self.statusish(st, new):
            return new
        to, tn = terms(old), terms(new)
        if old[0] == "p" and new[0] == "p" and old[1] != new[1] and new[2] == 0 and self.clean(st, new[1]):
            dt = st.heap[new[1]].dtype
            s = st.fresh(re.sub(r"#\d+$", "", name), 64, (dt + "*") if dt else "ptr", None)
            st.facts[s] = ((1, M64),)
            return s
        if old[0] == "p" and new[0] == "p" and old[1] == new[1]:
            o = self.widen_val(st, off_val(old[2]), off_val(new[2]), name)
            return ("p", new[1], val_off(o))
        if old[0] in ("i", "a", "s", "o") and new[0] in ("i", "a", "s", "o"):
            if old[0] in ("s",) and st.sym[old[1]][1].endswith("*"):
                return new
            if new[0] in ("s",) and (st.sym[new[1]][1].endswith("*") or st.sym[new[1]][1] == "ptr"):
                return new
            if new[0] == "o" and new[1] == "cmp" or old[0] == "o" and old[1] == "cmp":
                return new
            d = add(new, old, -1)
            if d is None:
                return new
            ho, hn = st.hull(old), st.hull(new)
            f = st.fresh(name, 64)
            dr = self.diff_range(st, d)
            lo, hi = 0, M64
            if ho and hn:
                lo = ho[0] if 0 <= ho[0] <= hn[0] else (min(ho[0], hn[0]) if dr and dr[0] >= 0 and min(ho[0], hn[0]) >= 0 else 0)
                hi = ho[1] if hn[1] <= ho[1] <= M64 and ho[1] >= 0 else M64
                if self.late:
                    lo = min(lo, 1)
            st.facts[f] = ((lo, hi),)
            self.keep_bounds(st, old, new, f)
            return f
        return new

    def canon_key(self, st, env, live, F, heap0=None):
        """structural key up to renaming of fresh symbols / objects"""
        ren = {}
        out = []
        todo = []

        def rn(x, kind):
            if x not in ren:
                ren[x] = len(ren)
                todo.append((kind, x))
            return ren[x]

        def cv(v):
            v = st.norm(v)
            k = v[0]
            if k == "s":
                return ("s", rn(v, "sym"))
            if k == "p":
                o = v[2]
                if v[1].startswith("@"):
                    return ("p", v[1], o if isinstance(o, int) else cv(o))
                return ("p", rn(v[1], "obj"), o if isinstance(o, int) else cv(o))
            if k == "a":
                return ("a", v[1], tuple((cv(t), c) for t, c in v[2]))
            if k == "o":
                return ("o", v[1]) + tuple(cv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in "siapofu"
                                           else (tuple(cv(y) for y in x) if isinstance(x, tuple) else x) for x in v[2:]) + (rn(v, "sym"),)
            return v
        for x in sorted(live):
            if x in env:
                out.append((x, cv(env[x])))
        # caller frames are unchanged while this loop runs: only the roots they
        # can see through memory matter
        roots = sorted(oid for oid, o in st.heap.items()
                       if (o.kind == "stack" and o.status == "live") or (o.kind == "lazy" and o.meta.get("root")))
        for r in roots:
            out.append(("root", r if st.heap[r].kind == "stack" else 0, rn(r, "obj")))
        # objects of the callers changed since this invocation began
        for oid, o in (heap0 or {}).items():
            if st.heap.get(oid) is not o and o.status == "live":
                out.append(("chg", oid, rn(oid, "obj")))
        done = [0]

        def drain():
            while done[0] < len(todo):
                kind, x = todo[done[0]]
                done[0] += 1
                if kind == "obj":
                    o = st.heap.get(x)
                    if o is None:
                        continue
                    if o.status != "live":
                        out.append((ren[x], o.status))
                        continue
                    fl = []
                    for k, (z, v) in sorted(o.fields.items(), key=lambda kv: repr(kv[0])):
                        fl.append((k if isinstance(k, int) else cv(k), z, v if v[0] == "z" else cv(v)))
                    out.append((ren[x], o.kind, o.default if not isinstance(o.default, tuple) else "fill", tuple(fl)))
                else:
                    f = st.facts.get(x)
                    if f is not None:
                        out.append((ren[x], f))
        drain()

        def cg(x):
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in "siapofu" and len(x) > 1 - (x[0] == "u"):
                    return cv(x)
                return tuple(cg(y) for y in x)
            if isinstance(x, dict):
                return tuple(sorted(((cg(k), cg(v)) for k, v in x.items()), key=repr))
            if isinstance(x, list):
                return tuple(cg(y) for y in x)
            if x is None or isinstance(x, (int, str)):
                return x
            return id(x)
        for t in sorted(st.ghost):
            if t in ("fd", "os"):
                continue
            g = []
            tab = st.ghost[t]
            for k in sorted(tab, key=repr):
                kk = st.norm(k) if isinstance(k, tuple) and k and isinstance(k[0], str) and k[0] in "siapof" else k
                if self.ghost_exact or kk in ren or (isinstance(kk, tuple) and len(kk) > 1 and kk[0] == "p" and kk[1] in ren):
                    g.append((cg(kk) if isinstance(kk, tuple) else ren.get(kk, kk), cg(tab[k])))
            out.append((t, tuple(g)))
        drain()
        rels = set()
        for k, r in st.rel.items():
            if all(t in ren for t, _ in k):
                ts = sorted((ren[t], c) for t, c in k)
                if ts and ts[0][1] < 0:
                    ts, r = [(t, -c) for t, c in ts], (-r[1], -r[0])
                rels.add((tuple(ts), r))
        out.append(tuple(sorted(rels)))
        self.reached = ren
        out.append(any(e[0] in ("fail", "sysfail") for e in st.events))
        for kind, dead in (("fd", "closed"), ("os", "dead")):
            g = set()
            for k, v in st.gget(kind).items():
                kk = st.norm(k) if isinstance(k, tuple) and k and isinstance(k[0], str) else k
                r = ren.get(kk)
                if r is None and isinstance(kk, tuple) and len(kk) > 1:
                    r = ren.get(kk[0])
                if r is not None or v[0] != dead:
                    g.add((r, v[0], str(v[1]) if v[0] != dead else ""))
            out.append((kind, tuple(sorted(g, key=repr))))
        return (tuple(out), self.spec.loop_key(st) if self.spec and hasattr(self.spec, "loop_key") else None)

    def insts(self, st, env, F, b, i, visits, work):
        blk = F.blocks[b]
        n = len(blk)
        while i < n:
            line, file, ins = blk[i]
            op = ins[0]
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisBroken("step budget exhausted in %s" % self.entry)
            if line:
                self.curloc = "%s:%d" % (self.relfile(file), line)
            if op == "load":
                env[ins[1]] = self.load(st, self.val(st, env, ins[2]), ins[3], ins[4])
            elif op == "store":
                self.store(st, self.val(st, env, ins[3]), self.val(st, env, ins[2]), ins[4], ins[5])
            elif op == "gep":
                env[ins[1]] = self.gep(st, env, ins)
            elif op == "icmp":
                env[ins[1]] = self.cmp(st, ins[2], self.val(st, env, ins[3]), self.val(st, env, ins[4]), width_of(ins[5]))
            elif op == "bin":
                env[ins[1]] = self.binop(st, ins[2], self.val(st, env, ins[3]), self.val(st, env, ins[4]), width_of(ins[5]))
            elif op == "cast":
                v = self.val(st, env, ins[3])
                if len(ins) > 6:
                    self.narrowing(st, v, width_of(ins[5]))
                env[ins[1]] = self.cast(st, ins[2], v, ins[4], ins[5])
            elif op == "alloca":
                oid = st.new_obj("stack", ins[2] if ins[2] >= 0 else None, "undef", None, "%s in %s" % (ins[3] or "variable", F.short),
                                 {"frame": len(self.stack)}, name="&" + F.short + "." + (ins[3] or "v"))
                env[ins[1]] = ("p", oid, 0)
            elif op == "call":
                outs = self.call(st, env, ins)
                self.curloc = "%s:%d" % (self.relfile(file), line)
                if len(outs) == 1:
                    st, rv = outs[0]
                    if ins[1] >= 0:
                        env[ins[1]] = rv if rv is not None else UNDEF
                else:
                    for k, (s2, rv) in enumerate(outs):
                        e2 = dict(env) if k < len(outs) - 1 else env
                        if ins[1] >= 0:
                            e2[ins[1]] = rv if rv is not None else UNDEF
                        try:
                            yield from self.insts(s2, e2, F, b, i + 1, dict(visits), work)
                        except Stop:
                            pass
                        self.curloc = "%s:%d" % (self.relfile(file), line)
                    return
            elif op == "br":
                work.append((st, env, ins[2], b, visits))
                return
            elif op == "cbr":
                c = self.val(st, env, ins[2])
                c = st.norm(c)
                if c[0] == "i":
                    work.append((st, env, ins[3] if c[1] else ins[4], b, visits))
                    return
                ex = self.prog.loops(F)[1].get(b) if F.heads else None
                if ex:
                    visits = dict(visits)
                    for h in ex:
                        visits[("nd", h)] = True
                s2 = st.copy()
                ok1 = self.assume(st, c, True)
                ok2 = self.assume(s2, c, False)
                if ok2:
                    s2.trail = s2.trail + ((self.curloc, "not " + show(c)),)
                    work.append((s2, dict(env), ins[4], b, visits))
                if ok1:
                    st.trail = st.trail + ((self.curloc, show(c)),)
                    work.append((st, env, ins[3], b, visits))
                return
            elif op == "switch":
                v = self.val(st, env, ins[2])
                w = width_of(ins[5])
                if v[0] == "i":
                    for cv, tb in ins[4]:
                        if mask(cv, w) == mask(v[1], w):
                            work.append((st, env, tb, b, visits))
                            return
                    work.append((st, env, ins[3], b, visits))
                    return
                rest = st.copy()
                feasible = True
                for cv, tb in ins[4]:
                    s2 = st.copy()
                    c = self.cmp(s2, "eq", v, ("i", mask(cv, w)), w)
                    if c == ZERO:
                        continue
                    if self.assume(s2, c, True):
                        work.append((s2, dict(env), tb, b, visits))
                    if feasible:
                        feasible = self.assume(rest, self.cmp(rest, "eq", v, ("i", mask(cv, w)), w), False)
                if feasible:
                    work.append((rest, dict(env), ins[3], b, visits))
                return
            elif op == "select":
                c = self.val(st, env, ins[2])
                if c[0] == "i":
                    env[ins[1]] = self.val(st, env, ins[3] if c[1] else ins[4])
                else:
                    s2, e2 = st.copy(), dict(env)
                    if self.assume(s2, c, False):
                        e2[ins[1]] = self.val(s2, e2, ins[4])
                        try:
                            yield from self.insts(s2, e2, F, b, i + 1, dict(visits), work)
                        except Stop:
                            pass
                    if not self.assume(st, c, True):
                        return
                    env[ins[1]] = self.val(st, env, ins[3])
            elif op == "ret":
                yield (st, self.val(st, env, ins[2]) if len(ins) > 2 else None)
                return
            elif op == "unreachable":
                return
            elif op == "extractvalue":
                env[ins[1]] = st.fresh("agg", width_of(ins[4]))
            elif op == "phi":
                pass
            else:
                raise AnalysisBroken("unsupported instruction %s in %s" % (ins, F.short))
            i += 1

    @staticmethod
    def relfile(f):
        return f[6:] if f.startswith("/repo/") else f

    def gep(self, st, env, ins):
        base = self.val(st, env, ins[2])
        c, var, stn = ins[3], ins[4], short(ins[5][7:]) if ins[5].startswith("struct.") else ""
        off = ("i", c)
        for v, k, w in var:
            x = self.val(st, env, v)
            if x[0] == "u":
                self.report(st, "uninit", "address computed from an uninitialised value")
            if x[0] == "i":
                x = ("i", signed(x[1], w))
            elif x[0] == "o" and x[1] == "sext":
                x = x[2]
            y = scale(x, k)
            o2 = add(off, y) if y is not None else None
            if o2 is None:
                y = st.fresh("idx", 64)
                o2 = add(off, y)
            off = o2
        if stn:
            self.upgrade(st, base, SUFFIX.sub("", stn))
        if off == ZERO:
            return base
        if base[0] == "p":
            o = add(off_val(base[2]), off)
            return ("p", base[1], val_off(o))
        if base[0] in ("s", "a", "o"):
            if base[0] == "s":
                iv = st.ivals(base)
                if len(iv) == 1 and iv[0] == (0, 0):
                    self.report(st, "null-deref", "member of a null pointer addressed")
            r = add(base, off)
            return r if r is not None else st.fresh("gep", 64)
        if base[0] == "i":
            if base[1] == 0 and stn:
                self.report(st, "null-deref", "member of a null pointer addressed")
            return ("i", mask(base[1] + (off[1] if off[0] == "i" else 0), 64))
        if base[0] == "u":
            self.report(st, "uninit", "address computed from an uninitialised pointer")
        return base

    def upgrade(self, st, base, stn):
        s = self.prog.structs.get(stn)
        if s is None:
            return
        if base[0] == "s":
            w, ty, org, n = st.sym[base[1]]
            cur = self.prog.struct_of(ty[:-1]) if ty and ty.endswith("*") else None
            if cur is None or cur["size"] < s["size"]:
                st.sym[base[1]] = (w, "struct %s*" % stn, org, n)
        elif base[0] == "p" and base[2] == 0:
            o = st.heap.get(base[1])
            if o is not None and o.kind in ("lazy", "heap"):
                cur = self.prog.struct_of(o.dtype) if o.dtype else None
                if cur is None or cur["size"] < s["size"]:
                    o = st.wobj(base[1])
                    o.dtype = "struct %s" % stn
                    if self.mat_hook and o.kind == "lazy":
                        self.mat_hook(self, st, base[1], None)

    # ------------------------------------------------------------- calls
    def call(self, st, env, ins):
        dst, cal, argx, rty = ins[1], ins[2], ins[3], ins[4]
        if isinstance(cal, list) and cal[0] == "g":
            name = cal[1][1:]
            if name.startswith("llvm."):
                return self.intrinsic(st, env, name, argx, rty)
            args = [self.val(st, env, a) for a in argx]
            return self.call_named(st, name, args, rty)
        fv = self.val(st, env, cal)
        args = [self.val(st, env, a) for a in argx]
        return self.call_value(st, fv, args, rty)

    def call_value(self, st, fv, args, rty="i32"):
        fv = st.norm(fv)
        if fv[0] == "f":
            return self.call_named(st, fv[1], args, rty)
        if fv[0] == "i":
            self.report(st, "null-call", "call through a null function pointer")
        if fv[0] == "u":
            self.report(st, "uninit", "call through an uninitialised function pointer")
        if fv[0] == "s":
            org = st.sym[fv[1]][2]
            if self.icall_hook:
                r = self.icall_hook(self, st, fv, args, org, rty)
                if r is not None:
                    return r
            return self.default_icall(st, fv, args, org, rty)
        if self.icall_hook:
            r = self.icall_hook(self, st, fv, args, None, rty)
            if r is not None:
                return r
        self.report(st, "bad-call", "call through a data pointer")

    def default_icall(self, st, fv, args, org, rty):
        name = (org[2] if org else None) or show(fv)
        return self.unknown_call(st, "callback:" + name, args, rty)

    def unknown_call(self, st, name, args, rty):
        def outs(s):
            for i, a in enumerate(args):
                a = s.norm(a)
                if a[0] != "p" or not isinstance(a[2], int):
                    continue
                o = s.heap.get(a[1])
                if o is None or o.kind != "stack" or o.status != "live" or a[2] != 0 or o.fields or o.default != "undef":
                    continue
                if o.size in (4, 8):
                    v = s.fresh("out%d.%s" % (i, name), o.size * 8, "ptr" if o.size == 8 else "?", None)
                    s.wobj(a[1]).fields[0] = (o.size, v)
        if rty == "v":
            outs(st)
            return [(st, None)]
        if rty == "i32":
            return self.fallible(st, name, ok=outs)
        return [(st, st.fresh("ret." + name, width_of(rty), "ptr" if rty == "p" else "?"))]

    def fallible(self, st, name, ok=None, fail=None):
        """success / error outcomes of a status-returning operation"""
        s2 = st.copy()
        e = s2.fresh("err." + name, 32, "status")
        s2.facts[e] = ((1 << 31, (1 << 32) - 1),)
        s2.event("fail", name, self.curloc, e)
        s2.trail = s2.trail + ((self.curloc, name + " fails"),)
        if fail:
            fail(s2)
        if ok:
            ok(st)
        st.trail = st.trail + ((self.curloc, name + " succeeds"),)
        return [(st, ZERO), (s2, e)]

    def call_named(self, st, name, args, rty="i32"):
        sn = base_name(name)
        if len(self.stack) >= 1:
            self.callsites.add((self.curloc, sn))
        m = self.models.get(sn)
        if m is not None:
            r = m(self, st, args)
            if r is not None:
                return r
        F = self.prog.funcs.get(name)
        if F is not None and F.blocks is not None:
            depth = sum(1 for f, _ in self.stack if f is F)
            if depth >= self.max_rec:
                self.truncated += 1
                return self.unknown_call(st, "recursive:" + sn, args, rty)
            return self.run(st, F, args)
        self.unmodelled[sn] = self.unmodelled.get(sn, 0) + 1
        return self.unknown_call(st, sn, args, rty)

    def intrinsic(self, st, env, name, argx, rty):
        if name.startswith("llvm.memset"):
            a = [self.val(st, env, x) for x in argx[:3]]
            self.fill(st, a[0], a[1], a[2])
            return [(st, None)]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            a = [self.val(st, env, x) for x in argx[:3]]
            m = self.models.get("memmove" if "memmove" in name else "memcpy")
            if m:
                r = m(self, st, a)
                if r is not None:
                    return r
            d, c, n = (st.norm(x) for x in a)
            if "memcpy" in name and d[0] == c[0] == "p" and d[1] == c[1] and n[0] == "i" and isinstance(d[2], int) and isinstance(c[2], int) and 0 < abs(d[2] - c[2]) < n[1]:
                self.report(st, "out-of-bounds", "memcpy of %d bytes between overlapping ranges %d bytes apart" % (n[1], abs(d[2] - c[2])), fatal=False)
            self.copy_mem(st, a[0], a[1], a[2])
            return [(st, None)]
        if name.startswith("llvm.bswap"):
            v = self.val(st, env, argx[0])
            n = width_of(rty) // 8
            bs = self.to_bytes(st, v, n)
            if bs is None:
                return [(st, ("o", "bswap", v, n * 8))]
            return [(st, self.from_bytes(st, bs[::-1]))]
        if name.startswith("llvm.va_start") or name.startswith("llvm.va_copy"):
            p = self.val(st, env, argx[0])
            oid, off = self.pointer(st, p)
            o = st.wobj(oid)
            o.default = "lazy"
            o.fields = {}
            if name.startswith("llvm.va_copy"):
                q = self.val(st, env, argx[1])
                if q[0] == "p" and st.heap[q[1]].kind == "lazy" and len(st.heap[q[1]].fields) >= 4:
                    self.copy_mem(st, p, q, ("i", 24))
            return [(st, None)]
        if name.startswith("llvm.lifetime"):
            p = self.val(st, env, argx[1])
            if p[0] == "p" and p[2] == 0 and p[1] in st.heap and st.heap[p[1]].kind == "stack":
                o = st.wobj(p[1])
                o.fields = {}
                o.default = "undef"
            return [(st, None)]
        if name.startswith(("llvm.dbg", "llvm.assume", "llvm.va", "llvm.stack")):
            return [(st, st.fresh("intr", 64) if rty != "v" else None)]
        if rty == "v":
            return [(st, None)]
        return [(st, st.fresh(name, width_of(rty)))]
