"""Big integers: how they are made, copied and ended."""
import rules
import shape
from checks import psockbuf
from checks.psockio import outcell, finish
from checks.psockmake import mods
from framework import check
from sweep import Job
from values import *

KINDS = {"no-progress", "bigint", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
CONF = {"join_states": False, "unroll": 300, "max_counted": 300, "copy_limit": 1 << 40}


def rep(E, st, m):
    E.report(st, "bigint", m, fatal=False)


def digits(E, st, b, need, what, ctx):
    """the digits of the bigint handed out: (block, how many)"""
    if b[0] != "p" or b[2] or st.gget("blk", b[1]) != ("live", st.norm(ctx["alloc"])):
        rep(E, st, "%s hands out %s, no new object of the caller's allocator" % (what, show(b)))
        return None
    arr, n = st.norm(shape.getf(E, st, b[1], "bigint", "array")), st.norm(shape.getf(E, st, b[1], "bigint", "length"))
    if n[0] != "i" or 64 * n[1] < need or 64 * n[1] >= need + 64:
        rep(E, st, "%s has %s digits of 64 bits where %d bits are due" % (what, show(n), need))
        return None
    if arr[0] != "p" or arr[2] or st.gget("blk", arr[1]) != ("live", st.norm(ctx["alloc"])) or arr[1] == b[1] or st.norm(st.heap[arr[1]].size) != ("i", 8 * n[1]):
        rep(E, st, "%s keeps its %d digits in %s" % (what, n[1], show(arr)))
        return None
    if len(psockbuf.live(st)) != 2:
        rep(E, st, "%s leaves %d blocks" % (what, len(psockbuf.live(st))))
    return arr[1], n[1]


def probe(n):
    return sorted(k for k in {0, 1, 2, n // 2, n - 2, n - 1} | set(range(min(n, 12))) if 0 <= k < n)


def ends(E, st, b, what):
    st = st.copy()
    for t, h in E.call_named(st, E.prog.func("bigint_resource_handle").name, [b]):
        for t2, r in E.call_named(t, E.prog.func("resource_release").name, [h]):
            if psockbuf.live(t2) or rules.status_class(t2, r) != "ok":
                rep(E, t2, "the release of %s leaves %d blocks and gives %s" % (what, len(psockbuf.live(t2)), show(t2.norm(r))))


def release_job(P, n):
    """each of the two blocks goes back once, and a refusal is not hidden"""
    what = "the release of %d digits" % n

    def reclaim(E, st, args):
        a, p = st.norm(args[0]), st.norm(args[1])
        code = st.fresh("refusal", 32, "status")
        f = st.copy()
        f.gset("pb", "back", (f.gget("pb", "back") or ()) + ((a, p),))
        st.gset("pb", "back", (st.gget("pb", "back") or ()) + ((a, p),))
        E.assume(f, E.cmp(f, "ne", code, ZERO, 32), True)
        f.gset("pb", "codes", (f.gget("pb", "codes") or ()) + (f.norm(code),))
        for t in (st, f):
            if p[0] == "p":
                t.wobj(p[1]).status = "freed"
        return [(st, ZERO), (f, code)]

    def setup(E, st, F, ctx):
        b = shape.new_struct(E, st, "bigint", "number", kind="lazy")
        E.write(st, b, 0, shape.vtable(P, "bigint_create_zero"), 8)
        ctx["a"] = st.fresh("allocator", 64, "struct allocator*", None)
        shape.setf(E, st, b, "bigint", "a", ctx["a"])
        shape.setf(E, st, b, "bigint", "length", ("i", n))
        ctx["arr"] = st.new_obj("heap", ("i", 8 * n), "lazy", None, "(digits)", {}, name="digits")
        shape.setf(E, st, b, "bigint", "array", ("p", ctx["arr"], 0))
        ctx["b"] = b
        return [("p", b, 0)]

    def post(E, st, rv, args, ctx):
        back, codes = st.gget("pb", "back") or (), st.gget("pb", "codes") or ()
        a = st.norm(ctx["a"])
        if sorted(map(repr, back)) != sorted(map(repr, [(a, ("p", ctx["arr"], 0)), (a, ("p", ctx["b"], 0))])):
            rep(E, st, "%s gives back %s instead of the digits and the number" % (what, [show(p) for _, p in back]))
        r = st.norm(rv)
        if codes and r not in codes or not codes and r != ZERO:
            rep(E, st, "%s gives %s although %d of its blocks were refused" % (what, show(r), len(codes)))
    return Job("resource_release", post, setup, models={"allocator_reclaim": reclaim}, icall=None, conf=CONF, name=what)


def failed(E, st, rv, what):
    if rules.status_class(st, rv) != "err" or psockbuf.live(st):
        rep(E, st, "without memory, %s leaves %d blocks and gives %s" % (what, len(psockbuf.live(st)), show(st.norm(rv))))


def begin(st, ctx):
    ctx["out"] = outcell(st, "caller's bigint")
    ctx["alloc"] = st.fresh("alloc", 64, "struct allocator*", None)
    return [("p", ctx["out"], 0), ctx["alloc"]]


def zero_job(size):
    what = "a zero of %d bits" % size

    def setup(E, st, F, ctx):
        return begin(st, ctx) + [("i", size)]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            return failed(E, st, rv, what)
        if rules.status_class(st, rv) != "ok":
            return rep(E, st, "%s is refused although nothing failed" % what)
        b = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        d = digits(E, st, b, size, what, ctx)
        if d:
            for k in probe(d[1]):
                v = st.norm(E.read(st, d[0], 8 * k, 8, "i64"))
                if v != ZERO:
                    return rep(E, st, "digit %d of %s is %s" % (k, what, show(v)))
            if st.norm(shape.getf(E, st, b[1], "bigint", "sign", 1)) != ZERO:
                rep(E, st, "%s is negative" % what)
            ends(E, st, b, what)
    return Job("bigint_create_zero", post, setup, models=mods(), icall=None, conf=CONF, name=what)


def clone_job(P, n, sign):
    what = "the copy of %d digits" % n

    def setup(E, st, F, ctx):
        a = begin(st, ctx)
        src = shape.new_struct(E, st, "bigint", "original", kind="lazy")
        vt = shape.vtable(P, "bigint_create_zero")
        E.write(st, src, 0, vt, 8)
        shape.setf(E, st, src, "bigint", "a", st.fresh("original's allocator", 64, "struct allocator*", None))
        shape.setf(E, st, src, "bigint", "sign", ("i", sign), 1)
        shape.setf(E, st, src, "bigint", "length", ("i", n))
        arr = st.new_obj("lazy", ("i", 8 * n), "undef", None, "(digits)", {"root": True}, name="original digits")
        ctx["digits"] = []
        for k in range(n):
            v = st.fresh("digit%d" % k, 64, "uint64_t", None)
            E.write(st, arr, 8 * k, v, 8)
            ctx["digits"].append(v)
        shape.setf(E, st, src, "bigint", "array", ("p", arr, 0))
        ctx.update(src=src, arr=arr)
        return a + [("p", src, 0)]

    def intact(E, st, ctx):
        if shape.getf(E, st, ctx["src"], "bigint", "array") != ("p", ctx["arr"], 0) or \
                any(st.norm(E.read(st, ctx["arr"], 8 * k, 8, "i64")) != st.norm(v) for k, v in enumerate(ctx["digits"])):
            rep(E, st, "%s changes the original" % what)

    def post(E, st, rv, args, ctx):
        intact(E, st, ctx)
        if st.gget("pb", "oom"):
            return failed(E, st, rv, what)
        if rules.status_class(st, rv) != "ok":
            return rep(E, st, "%s is refused although nothing failed" % what)
        b = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        d = digits(E, st, b, 64 * n, what, ctx)
        if d:
            for k, v in enumerate(ctx["digits"]):
                w = st.norm(E.read(st, d[0], 8 * k, 8, "i64"))
                if w != st.norm(v):
                    return rep(E, st, "digit %d of %s is %s" % (k, what, show(w)))
            if st.norm(shape.getf(E, st, b[1], "bigint", "sign", 1)) != ("i", sign):
                rep(E, st, "%s has another sign" % what)
            ends(E, st, b, what)
            intact(E, st, ctx)
    return Job("bigint_clone", post, setup, models=mods(), icall=None, conf=CONF, name="%s, sign %d" % (what, sign))


@check("B01", 60)
def b01(ctx):
    P = ctx.prog()
    sizes = list(range(0, 20)) + [w + d for w in (64, 128, 192, 256, 512, 4096) for d in (-1, 0, 1, 7, 8, 9)] + [1 << 20, (1 << 35) + 1]
    if ctx.thorough:
        sizes = sorted(set(sizes) | set(range(0, 600)))
    jobs = [release_job(P, n) for n in (1, 2, 9)] + [zero_job(s) for s in sizes] + [clone_job(P, n, s) for n in (1, 2, 3, 8, 33) + ((0, 100, 257) if ctx.thorough else ()) for s in (0, 1)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "big integer")
    return "Abstract interpretation of creation at every size class, of cloning with unconstrained digits, and of release, with every outcome of every allocation."
