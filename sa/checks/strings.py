"""String helpers: for every string up to a length, with every character only known by its class."""
import itertools

import contracts
import models
import rules
from checks import osapi, psockbuf
from checks.psockio import outcell, finish, must
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "strings", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
CONF = {"join_states": False, "unroll": 60, "max_counted": 60}
WS = ((9, 13), (32, 32))
NWS = ((1, 8), (14, 31), (33, 255))
WHITE = (9, 10, 11, 12, 13, 32)


def rep(E, st, m):
    E.report(st, "strings", m, fatal=False)


def without(rs, b):
    out = []
    for lo, hi in rs:
        if lo <= b <= hi:
            out += [(lo, b - 1)] if lo < b else []
            out += [(b + 1, hi)] if b < hi else []
        else:
            out.append((lo, hi))
    return tuple(out)


def char(st, k, i, delim=None):
    """a character of class W (white space), N (other) or D (the delimiter)"""
    if k == "D":
        return ("i", delim)
    if isinstance(k, int):
        return ("i", k)
    v = st.fresh("c%d%s" % (i, k), 8, "char")
    rs = WS if k == "W" else NWS
    st.facts[v] = without(rs, delim) if delim is not None else rs
    return v


def string(E, st, cls, delim=None, name="string", room=0):
    o = st.new_obj("lazy", ("i", len(cls) + 1 + room), "undef", None, "(%s)" % name, {"root": True}, name=name)
    cs = [char(st, k, i, delim) for i, k in enumerate(cls)]
    for i, c in enumerate(cs + [ZERO]):
        E.write(st, o, i, c, 1)
    return o, cs


def text(E, st, o, off, want, what):
    for i, w in enumerate(list(want) + [ZERO]):
        v = st.norm(E.read(st, o, off + i, 1, "i8"))
        if v != st.norm(w):
            rep(E, st, "%s: character %d is %s where %s is due" % (what, i, show(v), "the end" if w == ZERO else show(st.norm(w))))
            return False
    return True


def zero(E, st, v):
    """True, False or None: is the byte zero?"""
    v = st.norm(v)
    if v[0] == "i":
        return v[1] & 0xff == 0
    if must(E, st, "ne", v, ZERO, 8):
        return False
    return None


def length(E, st, p, what):
    o, off = E.pointer(st, st.norm(p))
    n = 0
    while True:
        z = zero(E, st, E.read(st, o, off + n, 1, "i8"))
        if z is None:
            raise AnalysisBroken("%s of an unknown string: %s at %s" % (what, show(st.norm(E.read(st, o, off + n, 1, "i8"))), show(st.norm(p))))
        if z:
            return n
        n += 1


def m_strlen(E, st, args):
    return [(st, ("i", length(E, st, args[0], "strlen")))]


def m_memcmp(E, st, args):
    a, ao = E.pointer(st, st.norm(args[0]))
    b, bo = E.pointer(st, st.norm(args[1]))
    n = st.norm(args[2])
    if n[0] != "i":
        raise AnalysisBroken("memcmp of an unknown length")
    for i in range(n[1]):
        x, y = (st.norm(E.read(st, o, f + i, 1, "i8")) for o, f in ((a, ao), (b, bo)))
        if x[0] != "i" or y[0] != "i":
            raise AnalysisBroken("memcmp of unknown characters")
        if x[1] != y[1]:
            return [(st, ("i", 1 if x[1] > y[1] else (1 << 32) - 1))]
    return [(st, ZERO)]


def m_strncmp(E, st, args):
    a, ao = E.pointer(st, st.norm(args[0]))
    b, bo = E.pointer(st, st.norm(args[1]))
    n = st.norm(args[2])[1] if len(args) > 2 else 1 << 20
    for i in range(n):
        x, y = (st.norm(E.read(st, o, f + i, 1, "i8")) for o, f in ((a, ao), (b, bo)))
        if x[0] != "i" or y[0] != "i":
            raise AnalysisBroken("comparison of unknown characters")
        if x[1] != y[1]:
            return [(st, ("i", 1 if x[1] > y[1] else (1 << 32) - 1))]
        if x[1] == 0:
            break
    return [(st, ZERO)]


def m_strchr(E, st, args):
    o, off = E.pointer(st, st.norm(args[0]))
    c, i = st.norm(args[1]), 0
    while True:
        v = st.norm(E.read(st, o, off + i, 1, "i8"))
        if c[0] == "i" and (v == ("i", c[1] & 0xff) or (v[0] == "i" and v[1] & 0xff == c[1] & 0xff)):
            return [(st, ("p", o, off + i))]
        if c[0] != "i" or not must(E, st, "ne", v, ("i", c[1] & 0xff), 8):
            raise AnalysisBroken("strchr with unknown characters")
        if zero(E, st, v):
            return [(st, ZERO)]
        i += 1


def str_models():
    m = psockbuf.buf_models()
    m.update(strlen=m_strlen, memcmp=m_memcmp, strncmp=m_strncmp, strcmp=m_strncmp, strchr=m_strchr)
    return m


def in_place(fn, cls, expect):
    def setup(E, st, F, ctx):
        ctx["o"], ctx["cs"] = string(E, st, cls)
        return [("p", ctx["o"], 0)]

    def post(E, st, rv, args, ctx):
        lo, hi = expect(cls)
        text(E, st, ctx["o"], 0, ctx["cs"][lo:hi], fn)
    return Job(fn, post, setup, models=str_models(), icall=None, conf=CONF, name='%s "%s"' % (fn, "".join(cls)))


def lspan(c):
    i = 0
    while i < len(c) and c[i] == "W":
        i += 1
    return i


def rspan(c):
    i = len(c)
    while i and c[i - 1] == "W":
        i -= 1
    return i


def trimmed(c):
    return (lspan(c), rspan(c)) if lspan(c) < len(c) else (0, 0)


def words_of(cls, sep):
    res, i = [], 0
    while i < len(cls):
        if cls[i] == sep:
            i += 1
            continue
        j = i
        while j < len(cls) and cls[j] != sep:
            j += 1
        res.append((i, j))
        i = j
    return res


def iterate(fn, cls):
    """words and multisplit: all words, in order, then the end, and again the end"""
    tok = fn == "multisplit"

    def hook(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("str", "fn")):
            return None
        v = st.norm(args[0])
        for i, c in enumerate(st.gget("str", "cs")):
            if v in (st.norm(("o", "sext", c, 8, 32)), st.norm(c)) or same_char(E, st, v, c):
                return [(st, ("i", 1 if cls[i] == "W" else 0))]
        if v == ZERO:
            rep(E, st, "the token function is asked about the end of the string")
            return [(st, ZERO)]
        raise AnalysisBroken("the token function is asked about %s" % show(v))

    def setup(E, st, F, ctx):
        ctx["o"], ctx["cs"] = string(E, st, cls)
        st.gset("str", "cs", tuple(ctx["cs"]))
        ctx["w"] = outcell(st, "caller's word")
        ctx["it"] = outcell(st, "caller's iterator", E.prog.sizeof("string_iterator"))
        f = st.fresh("token function", 64, "void*", None)
        st.facts[f] = ((4096, (1 << 63) - 1),)
        st.gset("str", "fn", f)
        a = [("p", ctx["w"], 0), ("p", ctx["it"], 0), ("p", ctx["o"], 0)] + ([f] if tok else [])
        ctx["again"] = a[:2] + [ZERO] + ([ZERO] if tok else [])
        return a

    def post(E, st, rv, args, ctx):
        want = words_of(cls, "W")
        END = ("i", contracts.code("ERROR_STRING_END_OF_INPUT"))
        states = [(st, rv)]
        for k in range(len(want) + 2):
            nxt = []
            for s, r in states:
                w = s.norm(E.read(s, ctx["w"], 0, 8, "p"))
                if k >= len(want):
                    if s.norm(r) != END:
                        rep(E, s, "%s does not report the end of the input after %d words" % (fn, len(want)))
                        continue
                    if w != ZERO:
                        rep(E, s, "%s hands out %s at the end of the input" % (fn, show(w)))
                        continue
                else:
                    if rules.status_class(s, r) != "ok" or w != ("p", ctx["o"], want[k][0]):
                        rep(E, s, "%s gives %s as word %d where the string from %d is due" % (fn, show(w), k, want[k][0]))
                        continue
                    if not all(text(E, s, ctx["o"], lo, ctx["cs"][lo:hi], "word %d" % j) for j, (lo, hi) in enumerate(want[:k + 1])):
                        continue
                if k < len(want) + 1:
                    nxt += E.call_named(s, P_name(E, fn), ctx["again"], "i32")
            states = nxt
    return Job(fn, post, setup, models=str_models(), icall=hook, conf=CONF, name='%s of "%s"' % (fn, "".join(cls)))


def same_char(E, st, v, c):
    """is the int v the character c, converted?"""
    c = st.norm(c)
    if c[0] == "i":
        return v == ("i", signed(c[1], 8) & 0xffffffff) or v == c
    return c in leaves(v)


def leaves(v):
    res = set()
    if isinstance(v, tuple):
        if v and v[0] == "s":
            res.add(v)
        for x in v:
            res |= leaves(x)
    return res


def P_name(E, fn):
    return E.prog.func(fn).name


def split_job(cls, delim):
    def setup(E, st, F, ctx):
        ctx["o"], ctx["cs"] = string(E, st, cls, delim)
        ctx["l"], ctx["r"] = outcell(st, "caller's lhs"), outcell(st, "caller's rhs")
        return [("p", ctx["l"], 0), ("p", ctx["r"], 0), ("p", ctx["o"], 0), ("i", delim)]

    def post(E, st, rv, args, ctx):
        l, r = (st.norm(E.read(st, ctx[k], 0, 8, "p")) for k in "lr")
        if "D" not in cls:
            if st.norm(rv) != ("i", contracts.code("ERROR_STRING_END_OF_INPUT")) or l != ZERO or r != ZERO:
                rep(E, st, "split without a delimiter gives %s, %s and %s" % (show(st.norm(rv)), show(l), show(r)))
            else:
                text(E, st, ctx["o"], 0, ctx["cs"], "the string split found no delimiter in")
            return
        k = cls.index("D")
        if rules.status_class(st, rv) != "ok" or l != ("p", ctx["o"], 0) or r != ("p", ctx["o"], k + 1):
            rep(E, st, "split at %d gives %s, %s and %s" % (k, show(st.norm(rv)), show(l), show(r)))
            return
        text(E, st, ctx["o"], 0, ctx["cs"][:k], "the left half") and text(E, st, ctx["o"], k + 1, ctx["cs"][k + 1:], "the right half")
    return Job("split", post, setup, models=str_models(), icall=None, conf=CONF, name='split "%s" at %d' % ("".join(cls), delim))


def ends_job(cls, delim):
    def setup(E, st, F, ctx):
        ctx["o"], ctx["cs"] = string(E, st, cls, delim)
        return [("p", ctx["o"], 0), ("i", signed(delim, 8) & 0xffffffff)]

    def post(E, st, rv, args, ctx):
        want = bool(cls) and cls[-1] == "D"
        if st.norm(rv) not in (("i", int(want)),):
            rep(E, st, "ends_with gives %s" % show(st.norm(rv)))
        text(E, st, ctx["o"], 0, ctx["cs"], "ends_with's argument")
    return Job("ends_with", post, setup, models=str_models(), icall=None, conf=CONF, name='"%s" ends with %d' % ("".join(cls), delim))


def starts_job(a, b):
    def setup(E, st, F, ctx):
        ctx["a"] = ("p", string(E, st, a, name="string")[0], 0) if a is not None else ZERO
        ctx["b"] = ("p", string(E, st, b, name="beginning")[0], 0) if b is not None else ZERO
        return [ctx["a"], ctx["b"]]

    def post(E, st, rv, args, ctx):
        want = True if b is None else False if a is None else tuple(a[:len(b)]) == tuple(b)
        if st.norm(rv) != ("i", int(want)):
            rep(E, st, "starts_with gives %s" % show(st.norm(rv)))
    return Job("starts_with", post, setup, models=str_models(), icall=None, conf=CONF, name="%s starts with %s" % (a, b))


def space_jobs():
    res = []
    for name, rs, want in [("%d" % c, ((c, c),), 1) for c in WHITE] + [("up to 8", ((0, 8),), 0), ("14 to 31", ((14, 31),), 0), ("from 33", ((33, 0x7fffffff),), 0), ("negative", ((0x80000000, 0xffffffff),), 0)]:
        def setup(E, st, F, ctx, rs=rs):
            v = st.fresh("ch", 32, "int")
            st.facts[v] = rs
            return [v]

        def post(E, st, rv, args, ctx, want=want):
            if st.norm(rv) != ("i", want):
                rep(E, st, "is_whitespace gives %s" % show(st.norm(rv)))
        res.append(Job("is_whitespace", post, setup, models=str_models(), icall=None, name="is_whitespace %s" % name))
    return res


def dup_job(cls, null=None):
    def setup(E, st, F, ctx):
        ctx["o"], ctx["cs"] = string(E, st, cls)
        ctx["out"] = outcell(st, "caller's string")
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        st.facts[a] = ((4096, (1 << 63) - 1),)
        args = [("p", ctx["out"], 0), a, ("p", ctx["o"], 0)]
        if null is not None:
            args[null] = ZERO
        return args

    def post(E, st, rv, args, ctx):
        r = st.norm(E.read(st, ctx["out"], 0, 8, "p")) if null != 0 else None
        if null is not None or st.gget("pb", "oom"):
            if rules.status_class(st, rv) == "ok" or psockbuf.live(st) or r not in (None, ZERO):
                rep(E, st, "strdup without %s gives %s and %s" % ("memory" if null is None else "an argument", show(st.norm(rv)), r and show(r)))
            return
        if rules.status_class(st, rv) != "ok" or r[0] != "p" or st.gget("blk", r[1]) != ("live", st.norm(ctx["alloc"])) or r[2]:
            rep(E, st, "strdup gives %s, no new block of the caller's allocator" % show(r))
            return
        text(E, st, r[1], 0, ctx["cs"], "the copy")
        text(E, st, ctx["o"], 0, ctx["cs"], "the string copied")
    return Job("strdup", post, setup, models=str_models(), icall=None, conf=CONF, name='strdup of %d characters%s' % (len(cls), "" if null is None else ", argument %d NULL" % null))


def cat_job(lens):
    def setup(E, st, F, ctx):
        ss = [string(E, st, ["W", "N", "N", "W"][:n], name="string %d" % i) for i, n in enumerate(lens)]
        ctx["all"] = [c for _, cs in ss for c in cs]
        ctx["out"] = outcell(st, "caller's string")
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        ps = [("p", o, 0) for o, _ in ss] + [ZERO]
        return [("p", ctx["out"], 0), a, ps[0], osapi.va_list(E, st, ps[1:] if len(ps) > 1 else [ZERO], 8)]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            if rules.status_class(st, rv) == "ok" or psockbuf.live(st):
                rep(E, st, "vstrcat without memory gives %s" % show(st.norm(rv)))
            return
        r = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if rules.status_class(st, rv) != "ok" or r[0] != "p" or st.gget("blk", r[1]) != ("live", st.norm(ctx["alloc"])) or r[2]:
            rep(E, st, "vstrcat gives %s, no new block of the caller's allocator" % show(r))
            return
        text(E, st, r[1], 0, ctx["all"], "the concatenation")
    return Job("vstrcat", post, setup, models=str_models(), icall=None, conf=CONF, name="vstrcat of lengths %s" % (lens,))


@check("S01", 200)
def s01(ctx):
    P = ctx.prog()
    L = 6 if ctx.thorough else 4
    jobs = space_jobs()
    for n in range(L + 1):
        for cls in itertools.product("WN", repeat=n):
            cls = list(cls)
            jobs += [in_place("left_trim", cls, lambda c: (lspan(c), len(c))), in_place("right_trim", cls, lambda c: (0, rspan(c))), in_place("trim", cls, trimmed),
                     in_place("chomp", cls, lambda c: (0, max(len(c) - 1, 0))), iterate("words", cls), iterate("multisplit", cls)]
        if n <= L - 1:
            for cls in itertools.product("NDW", repeat=n):
                jobs += [split_job(list(cls), 44), split_job(list(cls), 32), ends_job(list(cls), 44), ends_job(list(cls), 0xe9)]
    strs = [s for n in range(4) for s in itertools.product((97, 0xe9), repeat=n)]
    jobs += [starts_job(a, b) for a in strs for b in strs if len(a) + len(b) <= (6 if ctx.thorough else 5)] + [starts_job(None, (97,)), starts_job((97,), None), starts_job(None, None)]
    jobs += [dup_job(list("NWN"[:n])) for n in range(4)] + [dup_job(["N"], k) for k in range(3)]
    jobs += [cat_job(l) for l in [(), (0,), (2,), (1, 2), (0, 3), (3, 0, 1), (1, 1, 1, 1)]]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "string")
    return "Abstract interpretation over every string of up to %d characters, each known only by its class (white space, other, delimiter), against the result the class pattern determines." % L
