"""The discipline registry of the disciplined scheduler, its construction and
destruction, and the comparators the trees of the library are given."""
import contracts
import models
import rules
import shape
from checks.fiber import (World, container_models, wiring, fname, rep, en, KINDS, MGMT, CTX, INTERNAL, seq)
from checks.psockio import finish, glob, low, must, new_ptr, outcell, same
from framework import check, AnalysisBroken
from sweep import Job
from values import *

DISC = "fiber_scheduler_discipline"


# ------------------------------------------------------------- comparators
def byte_memcmp(E, st, args):
    """memcmp, byte by byte, with one outcome per way the bytes may compare"""
    n = st.norm(args[2])
    if n[0] != "i" or n[1] > 64:
        return models.memcmp(E, st, args)
    (ao, aoff), (bo, boff) = E.pointer(st, args[0]), E.pointer(st, args[1])
    outs = []
    for i in range(n[1]):
        x, y = E.read(st, ao, aoff + i, 1, "i8"), E.read(st, bo, boff + i, 1, "i8")
        if st.norm(x) == st.norm(y):
            continue
        for pred, v in (("ult", TOP32), ("ugt", 1)):
            s = st.copy()
            if E.assume(s, E.cmp(s, pred, x, y, 8), True):
                outs.append((s, ("i", v)))
        if not E.assume(st, E.cmp(st, "eq", x, y, 8), True):
            return outs
    return outs + [(st, ZERO)]


TOP32 = 0xffffffff


def compare_jobs(P, cmp, key, kind, struct, field, what):
    """the comparator is an order on the keys; the key function yields the
    element's key"""
    cmp, key = fname(cmp, "the comparator of " + what), fname(key, "the key function of " + what)
    size = 16 if kind == "uuid" else 8
    RES = ("RCPR_COMPARE_LT", "RCPR_COMPARE_EQ", "RCPR_COMPARE_GT")
    LT, EQ, GT = ("i", en(RES[0]) & TOP32), ("i", en(RES[1]) & TOP32), ("i", en(RES[2]) & TOP32)
    jobs = []

    def pair(i):
        """first difference at byte i of the ids (uuid) or in the value"""
        found = {}

        def mk(swap):
            def setup(E, st, F, ctx):
                c = st.fresh("context", 64, "void*", None)
                if kind == "pointer":
                    l, r = st.fresh("lhs", 64, "void*", None), st.fresh("rhs", 64, "void*", None)
                    for x in (l, r):
                        st.facts[x] = ((4096, (1 << 47) - 1),)
                    if i is None:
                        r = l
                    else:
                        E.assume(st, E.cmp(st, "ult", l, r, 64), True)
                    return [c, r, l] if swap else [c, l, r]
                l, r = outcell(st, "lhs", size), outcell(st, "rhs", size)
                if kind == "u64":
                    a = st.fresh("a", 64, "unsigned long", None)
                    b = a if i is None else st.fresh("b", 64, "unsigned long", None)
                    if i is not None:
                        E.assume(st, E.cmp(st, "ult", a, b, 64), True)
                    E.write(st, l, 0, a, 8)
                    E.write(st, r, 0, b, 8)
                else:
                    for k in range(size):
                        a = st.fresh("a%d" % k, 8, "unsigned char", None)
                        b = a
                        if i is not None and k >= i:
                            b = st.fresh("b%d" % k, 8, "unsigned char", None)
                            if k == i:
                                E.assume(st, E.cmp(st, "ult", a, b, 8), True)
                        E.write(st, l, k, a, 1)
                        E.write(st, r, k, b, 1)
                return [c] + [("p", o, 0) for o in ((r, l) if swap else (l, r))]

            def post(E, st, rv, args, ctx):
                v = low(st, rv)
                if i is None:
                    if v != EQ:
                        rep(E, st, "%s: two equal keys compare as %s" % (what, show(v)))
                    return
                want = GT if swap else LT
                if v != want:
                    rep(E, st, "%s: two keys of which the %s is smaller%s compare as %s" % (
                        what, "second" if swap else "first", " in byte %d" % i if kind == "uuid" else "", show(v)))
            return Job(cmp, post, setup, models=dict(container_models(), memcmp=byte_memcmp),
                       name="%s: comparing%s%s" % (what, "" if i is None else " different at %d" % i, " swapped" if swap else ""),
                       conf=dict(join_states=False, unroll=20))
        return [mk(s) for s in (False, True)]
    for i in [None] + list(range(size if kind == "uuid" else 1)):
        jobs += pair(i)

    def setup(E, st, F, ctx):
        c = st.fresh("context", 64, "void*", None)
        o = shape.new_struct(E, st, struct, struct, kind="lazy")
        ctx["o"] = o
        return [c, ("p", o, 0)]

    def post(E, st, rv, args, ctx):
        off = 0 if kind == "pointer" else E.prog.offset(struct, field)
        if off is None:
            raise AnalysisBroken("struct %s has no member %s" % (struct, field))
        if st.norm(rv) != ("p", ctx["o"], off):
            rep(E, st, "%s: the key of an element is taken from %s" % (what, show(st.norm(rv))))
    jobs.append(Job(key, post, setup, models=container_models(), name="%s: the key" % what))
    return jobs


# ------------------------------------------------------------ the registry
def registry(E, st, ids=("other",), n=0, disciplined=True):
    """a scheduler with n installed callbacks and some disciplines"""
    W = World(E, st, ())
    W.set(st, "fiber_scheduler", W.s, "disciplined", ("i", 1 if disciplined else 0), 1)
    W.cset(st, "alloc", ("p", outcell(st, "allocator", 64), 0))
    W.n = n
    W.vec = []
    W.disc = {}
    if n:
        for f, t in (("callback_vector", "callback"), ("context_vector", "context")):
            v = st.new_obj("heap", ("i", 8 * n), "undef", None, "given", name=f)
            st.facts[("a", v)] = ((4096, (1 << 63) - 1),)
            vals = [new_ptr(st, "old %s %d" % (t, i), "void*") for i in range(n)]
            for i, x in enumerate(vals):
                E.write(st, v, 8 * i, x, 8)
            W.cset(st, f, ("p", v, 0))
            W.vec.append(vals)
    else:
        W.cset(st, "callback_vector", ZERO)
        W.cset(st, "context_vector", ZERO)
        W.vec = [[], []]
    W.cset(st, "callback_vector_size", ("i", n))
    t = ("p", outcell(st, "disciplines", 64), 0)
    W.cset(st, "disciplines_by_uuid", t)
    st.gset("treekind", t, "uuid")
    st.gset("keyfield", "f", (DISC, "id"))
    W.tree = t
    st.gset("tree", t, tuple(("p", discipline(E, st, W, i), 0) for i in ids))
    return W


def new_id(E, st, name):
    return [st.fresh("%s.%d" % (name, k), 8, "unsigned char", None) for k in range(16)]


def put_id(E, st, oid, off, bs):
    for k, b in enumerate(bs):
        E.write(st, oid, off + k, b, 1)


def discipline(E, st, W, name, bs=None, k=1, owned=True):
    d = shape.new_struct(E, st, DISC, "discipline " + name, kind="lazy")
    bs = bs or new_id(E, st, name)
    put_id(E, st, d, E.prog.offset(DISC, "id"), bs)
    W.disc[name] = dict(oid=d, id=bs)
    shape.setf(E, st, d, DISC, "sched", ("p", W.s, 0) if owned else ZERO)
    if k is not None:
        v, c = outcell(st, name + " callbacks", 8 * k), outcell(st, name + " codes", 4 * k)
        cb = [new_ptr(st, "%s callback %d" % (name, i), "void*") for i in range(k)]
        for i, x in enumerate(cb):
            E.write(st, v, 8 * i, x, 8)
        cx = st.fresh(name + " context", 64, "void*", None)
        for f, x in (("callback_vector", ("p", v, 0)), ("callback_codes", ("p", c, 0)), ("callback_vector_size", ("i", k)), ("context", cx)):
            shape.setf(E, st, d, DISC, f, x)
        W.disc[name].update(cb=cb, cx=cx, codes=c)
    return d


def vec(E, st, W, field, n):
    p = W.cget(st, field)
    if p == ZERO or n == 0:
        return []
    return [st.norm(E.load(st, ("p", p[1], p[2] + 8 * i), 8, "p")) for i in range(n)]


def add_job(n, k, dup=False, owned=False, disciplined=True):
    fn = "fiber_scheduler_discipline_add"
    what = "adding a discipline of %d callbacks to %d%s%s%s" % (k, n, ", id taken" if dup else "", ", already added" if owned else "",
                                                               "" if disciplined else ", plain scheduler")

    def setup(E, st, F, ctx):
        W = ctx["W"] = registry(E, st, ("other", "third"), n, disciplined)
        d = discipline(E, st, W, "D", W.disc["third"]["id"] if dup else None, k, owned)
        return [("p", W.s, 0), ("p", d, 0)]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        D = W.disc["D"]
        old = [("p", W.disc[x]["oid"], 0) for x in ("other", "third")]
        tree = list(st.gget("tree", W.tree))
        size = W.cget(st, "callback_vector_size")
        sched = shape.getf(E, st, D["oid"], DISC, "sched")
        ok = rules.status_class(st, rv) == "ok"
        m = n + k if ok else n
        refuse = dup or owned or not disciplined
        if refuse:
            c = ("ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED" if not disciplined else
                 "ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED" if owned else "ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID")
            if low(st, rv) != ("i", contracts.code(c)):
                rep(E, st, "%s: %s is returned, not %s" % (what, show(st.norm(rv)), c))
                return
        elif not ok and not any(e[1].startswith(("allocator_", "rbtree_insert")) for e in rules.fail_events(st)):
            rep(E, st, "%s: fails although nothing went wrong" % what)
        if tree != old + ([("p", D["oid"], 0)] if ok else []):
            rep(E, st, "%s: the registry then holds %d disciplines%s" % (what, len(tree), "" if len(tree) != 3 else ", not the one added"))
        if size != ("i", m):
            rep(E, st, "%s: the scheduler then has %s callbacks, not %d" % (what, show(size), m))
            return
        if not owned and sched != (("p", W.s, 0) if ok else ZERO):
            rep(E, st, "%s: the discipline's scheduler is then %s" % (what, show(sched)))
        for f, vals, mine in (("callback_vector", W.vec[0], D["cb"]), ("context_vector", W.vec[1], [D["cx"]] * k)):
            got = vec(E, st, W, f, m)
            for i, (g, x) in enumerate(zip(got, vals + (mine if ok else []))):
                if not same(E, st, g, x):
                    rep(E, st, "%s: entry %d of the %s is %s" % (what, i, f.replace("_", " "), show(g)))
        if ok:
            for i in range(k):
                c = st.norm(E.read(st, D["codes"], 4 * i, 4, "i32"))
                if c != ("i", n + i):
                    rep(E, st, "%s: event %d is sent as %s, not %d" % (what, i, show(c), n + i))
    return Job(fn, post, setup, models=container_models(), name=what, conf=dict(join_states=False, unroll=12))


def find_job(ids, which, disciplined=True):
    fn = "fiber_scheduler_discipline_find"
    what = "finding a discipline%s of %d%s" % ("" if which is not None else " that is not there", len(ids), "" if disciplined else ", plain scheduler")

    def setup(E, st, F, ctx):
        W = ctx["W"] = registry(E, st, ids, 1, disciplined)
        o = outcell(st, "id", 16)
        put_id(E, st, o, 0, new_id(E, st, "absent") if which is None else W.disc[which]["id"])
        ctx["out"] = outcell(st, "result", 8)
        v = ctx["before"] = st.fresh("before", 64, "void*", None)
        E.write(st, ctx["out"], 0, v, 8)
        return [("p", ctx["out"], 0), ("p", W.s, 0), ("p", o, 0)]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        g = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if which is not None and disciplined:
            if rules.status_class(st, rv) != "ok" or g != ("p", W.disc[which]["oid"], 0):
                rep(E, st, "%s: %s with %s" % (what, show(st.norm(rv)), show(g)))
            return
        c = "ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND" if disciplined else "ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED"
        if low(st, rv) != ("i", contracts.code(c)):
            rep(E, st, "%s: %s is returned, not %s" % (what, show(st.norm(rv)), c))
    return Job(fn, post, setup, models=container_models(), name=what, conf=dict(join_states=False, unroll=12))


def create_job(k):
    fn = "fiber_scheduler_discipline_create"
    what = "creating a discipline of %d callbacks" % k

    def setup(E, st, F, ctx):
        o = outcell(st, "id", 16)
        ctx["id"] = new_id(E, st, "id")
        put_id(E, st, o, 0, ctx["id"])
        v = outcell(st, "callbacks", 8 * k)
        ctx["cb"] = [new_ptr(st, "callback %d" % i, "void*") for i in range(k)]
        for i, x in enumerate(ctx["cb"]):
            E.write(st, v, 8 * i, x, 8)
        ctx["cx"] = st.fresh("context", 64, "void*", None)
        ctx["a"] = ("p", outcell(st, "allocator", 64), 0)
        ctx["out"] = outcell(st, "result", 8)
        return [("p", ctx["out"], 0), ("p", o, 0), ctx["a"], ctx["cx"], ("i", k), ("p", v, 0)]

    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) != "ok":
            if not any(e[1].startswith("allocator_") for e in rules.fail_events(st)):
                rep(E, st, "%s: fails although nothing went wrong" % what)
            return
        d = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if d[0] != "p":
            rep(E, st, "%s: yields %s" % (what, show(d)))
            return
        off = E.prog.offset(DISC, "id")
        for i, b in enumerate(ctx["id"]):
            if st.norm(E.read(st, d[1], d[2] + off + i, 1, "i8")) != st.norm(b):
                rep(E, st, "%s: byte %d of its id is not the caller's" % (what, i))
                break
        for f, x in (("sched", ZERO), ("context", ctx["cx"]), ("callback_vector_size", ("i", k)), ("alloc", ctx["a"])):
            g = shape.getf(E, st, d[1], DISC, f)
            if not same(E, st, g, x):
                rep(E, st, "%s: its %s is %s" % (what, f.replace("_", " "), show(g)))
        v = shape.getf(E, st, d[1], DISC, "callback_vector")
        for i, x in enumerate(ctx["cb"]):
            if v[0] != "p" or st.norm(E.load(st, ("p", v[1], v[2] + 8 * i), 8, "p")) != st.norm(x):
                rep(E, st, "%s: its callback %d is not the caller's" % (what, i))
        c = shape.getf(E, st, d[1], DISC, "callback_codes")
        if c[0] != "p" or v[0] != "p" or c[1] == v[1] or v[1] == st.norm(args[5])[1]:
            rep(E, st, "%s: its codes are at %s and its callbacks at %s" % (what, show(c), show(v)))
        else:
            for i in range(k):
                E.store(st, ("p", c[1], c[2] + 4 * i), ZERO, 4)
    return Job(fn, post, setup, models=container_models(), name=what, conf=dict(join_states=False, unroll=12))


# ----------------------------------------------- the constructor's wiring
def wiring_job(P):
    """what the constructor installs, as one obligation each"""
    w = wiring(P)
    fn = "fiber_scheduler_create_with_disciplines"

    def post(E, st, rv, args, ctx):
        def need(c, m):
            if not c:
                rep(E, st, "the disciplined scheduler's constructor " + m)
        hs = w["handlers"]
        n = en("FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE") + 1
        need(len(hs) >= n, "installs %d callbacks for %d events" % (len(hs), n))
        need(all(h[0] == "f" for h in hs), "leaves an event without a handler")
        need(w["contexts_ok"], "gives a handler something other than its context")
        need(len(w["mgmt"]) > max(en("FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_" + e) for e in
                                  ("RECEIVE_EVENT", "QUIESCE_REQUEST", "TERMINATION_REQUEST", "QUIESCE_ALL_REQUEST", "TERMINATION_ALL_REQUEST")),
             "installs %d management handlers" % len(w["mgmt"]))
        need(w["mgmt_id"] == glob(P, MGMT), "gives the management discipline the id %s" % show(w["mgmt_id"]))
        need(w["mgmt_ctx_ok"], "gives the management discipline something other than its context")
        need(w.get("mgmt_added"), "does not add the management discipline to its scheduler")
        need(w.get("disciplined") == ("i", 1), "leaves the scheduler undisciplined")
        need(w.get("ctxsched") == w["sched"], "gives the context the scheduler %s" % show(w.get("ctxsched", ZERO)))
        for f, v in w.get("trees", {}).items():
            need(v is not None, "creates no tree %s" % f)
    return Job("fiber_scheduler_discipline_context_get", post, lambda E, st, F, ctx: [("p", shape.new_struct(E, st, DISC, "d", kind="lazy"), 0)],
               name="the wiring of " + fn)


def getter_job(fn, struct, field, out, width=8):
    """an accessor hands out the member"""
    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        if struct == CTX:
            o, a = W.c, ("p", W.s, 0)
        elif struct == "fiber_scheduler":
            o, a = W.s, ("p", W.s, 0)
        elif struct == "fiber":
            o = W.fib["Y"][1]
            a = ("p", o, 0)
        else:
            o = shape.new_struct(E, st, struct, struct, kind="lazy")
            a = ("p", o, 0)
        v = ctx["v"] = st.fresh("the member", 64, "void*", None)
        shape.setf(E, st, o, struct, field, v)
        ctx["out"] = outcell(st, "out", 8)
        return [("p", ctx["out"], 0), a] if out else [a]

    def post(E, st, rv, args, ctx):
        g = st.norm(E.read(st, ctx["out"], 0, 8, "p")) if out else st.norm(rv)
        if out and rules.status_class(st, rv) != "ok":
            rep(E, st, "%s: fails" % fn)
        elif not same(E, st, g, ctx["v"]):
            rep(E, st, "%s: hands out %s, not the %s" % (fn, show(g), field.replace("_", " ")))
    return Job(fn, post, setup, models=container_models(), name=fn)


def put_job(fn, front):
    """a fiber is made runnable"""
    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ("A", "B"))
        f = W.fiber(st, "N")
        ev = st.fresh("event", 32, "int", None)
        st.facts[ev] = ((0, (1 << 31) - 1),)
        prm = ctx["prm"] = st.fresh("param", 64, "void*", None)
        ctx["ev"] = ev
        return [("p", W.s, 0), f, glob(E.prog, MGMT), ev, prm]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        q = W.queue(st)
        ok = rules.status_class(st, rv) == "ok"
        if not ok and not rules.fail_events(st):
            rep(E, st, "%s: fails although nothing went wrong" % fn)
        want = (["N"] if front else []) + ["A", "B"] + ([] if front else ["N"])
        if q != (want if ok else ["A", "B"]):
            rep(E, st, "%s: the run queue is then [%s]" % (fn, ", ".join(q)))
        if ok:
            r = W.restore(st, "N")
            if r[0] != glob(E.prog, MGMT) or not same(E, st, low(st, r[1]), ctx["ev"]) or not same(E, st, r[2], ctx["prm"]):
                rep(E, st, "%s: the fiber is to be told %s" % (fn, ", ".join(show(x) for x in r)))
    return Job(fn, post, setup, models=container_models(), name=fn)


def remove_job(here):
    fn = "disciplined_fiber_scheduler_remove_fiber"

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        f = W.fiber(st, "T")
        t = ctx["t"] = ("p", outcell(st, "fibers", 64), 0)
        W.cset(st, "fibers_by_pointer", t)
        st.gset("treekind", t, "pointer")
        st.gset("tree", t, (W.fib["Y"],) + ((f,) if here else ()))
        return [("p", W.s, 0), f]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        ok = rules.status_class(st, rv) == "ok"
        if ok != here:
            rep(E, st, "removing a fiber %s: %s is returned" % ("of the scheduler" if here else "of another scheduler", show(st.norm(rv))))
        if st.gget("tree", ctx["t"]) != (W.fib["Y"],):
            rep(E, st, "removing a fiber %s: the scheduler then owns %d fibers" % ("of the scheduler" if here else "of another scheduler", len(st.gget("tree", ctx["t"]))))
        if st.gget("released", W.fib["T"]):
            rep(E, st, "removing a fiber releases it although it is the caller's then")
    return Job(fn, post, setup, models=container_models(), name="%s, %s" % (fn, "present" if here else "absent"))


def set_idle_job(none):
    fn = "disciplined_fiber_scheduler_set_idle_fiber"

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        W.cset(st, "idle_fiber", W.fiber(st, "I") if none else ZERO)
        f = ctx["f"] = ZERO if none else W.fiber(st, "N")
        return [("p", W.s, 0), f]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if rules.status_class(st, rv) != "ok" or W.cget(st, "idle_fiber") != ctx["f"]:
            rep(E, st, "%s: the idle fiber is then %s" % (fn, W.name(st, W.cget(st, "idle_fiber"))))
    return Job(fn, post, setup, models=container_models(), name="%s%s" % (fn, ", none" if none else ""))


def unexpected_job(handler):
    fn = "fiber_unexpected_event"

    def icall(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("w", "fn")):
            return contracts.icall(E, st, fv, args, org, rty)
        for i, (a, b) in enumerate(zip(args, st.gget("w", "want"))):
            if not same(E, st, a, b):
                rep(E, st, "%s: argument %d of the handler is %s, not %s" % (fn, i + 1, show(st.norm(a)), show(st.norm(b))))
        st.gset("w", "called", (st.gget("w", "called") or 0) + 1)
        r = st.fresh("result", 32, "status", None)
        st.gset("w", "r", r)
        return [(st, r)]

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        a = [W.fib["Y"], new_ptr(st, "id", "struct rcpr_uuid*"), st.fresh("event", 32, "int", None), st.fresh("param", 64, "void*", None),
             new_ptr(st, "expected id", "struct rcpr_uuid*"), st.fresh("expected event", 32, "int", None)]
        c = st.fresh("handler context", 64, "void*", None)
        h = new_ptr(st, "handler", "void*") if handler else ZERO
        W.set(st, "fiber", W.fib["Y"][1], "unexpected_fn", h)
        W.set(st, "fiber", W.fib["Y"][1], "unexpected_context", c)
        st.gset("w", "fn", h)
        st.gset("w", "want", [c] + a)
        return a

    def post(E, st, rv, args, ctx):
        if not handler:
            if low(st, rv) != ("i", contracts.code("ERROR_FIBER_NO_UNEXPECTED_HANDLER")):
                rep(E, st, "%s without a handler: %s is returned" % (fn, show(st.norm(rv))))
        elif st.gget("w", "called") != 1 or st.norm(rv) != st.norm(st.gget("w", "r")):
            rep(E, st, "%s: the handler is called %d times, %s is returned" % (fn, st.gget("w", "called") or 0, show(st.norm(rv))))
    return Job(fn, post, setup, models=container_models(), icall=icall, name="%s%s" % (fn, "" if handler else ", no handler"))


def unexpected_set_job():
    fn = "fiber_unexpected_event_callback_add"

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        return [W.fib["Y"], new_ptr(st, "handler", "void*"), st.fresh("context", 64, "void*", None)]

    def post(E, st, rv, args, ctx):
        o = ctx["W"].fib["Y"][1]
        got = [shape.getf(E, st, o, "fiber", f) for f in ("unexpected_fn", "unexpected_context")]
        if rules.status_class(st, rv) != "ok" or not all(same(E, st, a, b) for a, b in zip(got, args[1:])):
            rep(E, st, "%s: the fiber's handler is then %s with %s" % ((fn,) + tuple(show(g) for g in got)))
    return Job(fn, post, setup, models=container_models(), name=fn)


# ---------------------------------------------------------- construction
def initial_job(fn):
    """a new fiber's or scheduler's state"""
    def fmake(E, st, args):
        st.gset("w", "make", [st.norm(a) for a in args])
        f = st.norm(args[0])
        st.gset("w", "sp", shape.getf(E, st, f[1], "fiber", "stack_ptr"))
        return [(st, None)]

    def stack(E, st, args):
        st.gset("w", "stacksize", st.norm(args[2]))
        o = shape.new_struct(E, st, "stack", "stack", kind="lazy")
        n = st.fresh("real size", 64, "unsigned long", None)
        st.facts[n] = ((16, 1 << 40),)
        r = st.new_obj("region", n, "undef", None, "given", name="region")
        shape.setf(E, st, o, "stack", "region", ("p", r, 0))
        shape.setf(E, st, o, "stack", "size", n)
        st.gset("w", "stack", ("p", o, 0))
        st.gset("w", "end", (r, n))

        def ok(s):
            E.store(s, s.norm(args[0]), ("p", o, 0), 8)
        return E.fallible(st, "stack_create", ok)

    def setup(E, st, F, ctx):
        ctx["out"] = outcell(st, "out", 8)
        a = ctx["a"] = ("p", outcell(st, "allocator", 64), 0)
        s = ctx["s"] = ("p", shape.new_struct(E, st, "fiber_scheduler", "scheduler", kind="lazy"), 0)
        z = ctx["z"] = st.fresh("stack size", 64, "unsigned long", None)
        c = ctx["c"] = st.fresh("context", 64, "void*", None)
        f = ctx["f"] = new_ptr(st, "entry", "void*")
        if fn == "fiber_create":
            return [("p", ctx["out"], 0), a, s, z, c, f]
        return [("p", ctx["out"], 0), s, a]

    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) != "ok":
            if not rules.fail_events(st):
                rep(E, st, "%s: fails although nothing went wrong" % fn)
            return
        f = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if f[0] != "p":
            rep(E, st, "%s: yields %s" % (fn, show(f)))
            return
        thread = fn != "fiber_create"
        want = [("sched", ctx["s"]), ("alloc", ctx["a"]), ("unexpected_fn", ZERO),
                ("fiber_state", ("i", en("FIBER_STATE_RUNNING" if thread else "FIBER_STATE_CREATED")))]
        want += [("st", ZERO)] if thread else [("st", st.gget("w", "stack")), ("context", ctx["c"]), ("fn", ctx["f"])]
        for k, v in want:
            g = shape.getf(E, st, f[1], "fiber", k)
            if not same(E, st, g, v):
                rep(E, st, "%s: the new fiber's %s is %s" % (fn, k.replace("_", " "), show(g)))
        if thread:
            return
        if st.gget("w", "stacksize") != st.norm(ctx["z"]):
            rep(E, st, "%s: the stack has size %s" % (fn, show(st.gget("w", "stacksize") or ZERO)))
        mk = st.gget("w", "make")
        if mk is None or mk[:2] != [f, ctx["s"]] or mk[2] != ("f", "fiber_entry"):
            rep(E, st, "%s: the fiber is prepared with %s" % (fn, [show(x) for x in mk or []]))
            return
        r, n = st.gget("w", "end")
        sp = st.gget("w", "sp")
        if sp[0] != "p" or sp[1] != r or not same(E, st, sp[2] if isinstance(sp[2], tuple) else ("i", sp[2]), n):
            rep(E, st, "%s: the fiber starts with the stack pointer %s, not the end of its stack" % (fn, show(sp)))
    return Job(fn, post, setup, models=dict(container_models(), fiber_make=fmake, stack_create=stack), name=fn, conf=dict(join_states=False, unroll=12))


def sched_create_job():
    """the plain scheduler: its main fiber is announced and becomes current"""
    fn = "fiber_scheduler_create"

    def main(E, st, args):
        def ok(s):
            o = shape.new_struct(E, s, "fiber", "main fiber", kind="lazy")
            E.store(s, s.norm(args[0]), ("p", o, 0), 8)
            s.gset("w", "main", ("p", o, 0))
            s.gset("w", "mainargs", (s.norm(args[1]), s.norm(args[2])))
        return E.fallible(st, "fiber_create_for_thread", ok)

    def icall(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("w", "fn")):
            return contracts.icall(E, st, fv, args, org, rty)
        m = st.gget("w", "main")
        if st.gget("w", "releasing"):
            return E.fallible(st, "callback:fn")
        want = (st.gget("w", "c"), m, ("i", en("FIBER_SCHEDULER_YIELD_EVENT_MAIN")), ZERO)
        for i, (a, b) in enumerate(zip(args, want)):
            if not same(E, st, low(st, a) if i == 2 else a, b):
                rep(E, st, "%s: argument %d of the callback is %s" % (fn, i + 1, show(st.norm(a))))
        st.gset("w", "called", True)
        f = st.copy()
        c = f.fresh("err.callback", 32, "status")
        f.facts[c] = models.ERRSET
        f.event("fail", "callback:fn", E.curloc, c)
        f.gset("w", "releasing", True)
        outs = [(f, c)]
        other = ("p", shape.new_struct(E, st, "fiber", "another fiber", kind="lazy"), 0)
        for fib, ev, good in ((m, en("FIBER_SCHEDULER_RESUME_EVENT_MAIN"), True), (other, en("FIBER_SCHEDULER_RESUME_EVENT_MAIN"), False),
                              (m, en("FIBER_SCHEDULER_RESUME_EVENT_RUN"), False)):
            s = st.copy()
            for a, v, z in zip(args[4:], (fib, glob(E.prog, INTERNAL), ("i", ev & TOP32), ZERO), (8, 8, 4, 8)):
                E.store(s, s.norm(a), v, z)
            s.gset("w", "good", good)
            if not good:
                s.gset("w", "releasing", True)
                s.trail += ((E.curloc, "the callback names another fiber or event"),)
            outs.append((s, ZERO))
        return outs

    def setup(E, st, F, ctx):
        ctx["out"] = outcell(st, "out", 8)
        a = ctx["a"] = ("p", outcell(st, "allocator", 64), 0)
        c = ctx["c"] = st.fresh("context", 64, "void*", None)
        f = ctx["f"] = new_ptr(st, "callback", "void*")
        st.gset("w", "fn", f)
        st.gset("w", "c", c)
        return [("p", ctx["out"], 0), a, c, f]

    def post(E, st, rv, args, ctx):
        ok = rules.status_class(st, rv) == "ok"
        good = st.gget("w", "good")
        if not ok:
            if good and not rules.fail_events(st):
                rep(E, st, "%s: fails although nothing went wrong" % fn)
            return
        if not good:
            rep(E, st, "%s: succeeds although its callback did not accept the main fiber" % fn)
            return
        s = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if s[0] != "p":
            rep(E, st, "%s: yields %s" % (fn, show(s)))
            return
        m = st.gget("w", "main")
        for k, v in (("alloc", ctx["a"]), ("context", ctx["c"]), ("fn", ctx["f"]), ("main_fiber", m), ("current_fiber", m)):
            g = shape.getf(E, st, s[1], "fiber_scheduler", k)
            if not same(E, st, g, v):
                rep(E, st, "%s: the scheduler's %s is %s" % (fn, k.replace("_", " "), show(g)))
        if shape.getf(E, st, s[1], "fiber_scheduler", "disciplined", 1) != ZERO:
            rep(E, st, "%s: a plain scheduler counts as disciplined" % fn)
        if st.gget("w", "mainargs") != (s, ctx["a"]):
            rep(E, st, "%s: the main fiber is created for another scheduler" % fn)
    return Job(fn, post, setup, models=dict(container_models(), fiber_create_for_thread=main), icall=icall, name=fn, conf=dict(join_states=False, unroll=12))


def release_job(P, idle, queued, vectors=True):
    """releasing the disciplined scheduler releases everything it owns, once"""
    what = "releasing a scheduler%s%s%s" % ({None: "", "I": " with an idle fiber", "A": " whose idle fiber was added to it"}[idle],
                                            ", fibers about to run" if queued else "", "" if vectors else " without callbacks")
    vt = wiring(P).get("vtables")
    if not vt:
        raise AnalysisBroken("the disciplined scheduler's release functions cannot be determined")
    own = shape.vtable(P, "fiber_scheduler_create")

    def release(E, st, args):
        E.pointer(st, args[0])
        p = st.norm(args[0])
        kind = st.gget("kind", p)
        if kind is None:
            return None
        E.check_access(st, p[1], p[2], 8, "release")
        st.gset("rel", p, (st.gget("rel", p) or 0) + 1)
        for r in (st.gget("tree", p) or ()) + (seq(st, p) if kind == "queue" else ()):
            if not isinstance(r, tuple) or r[0] != "p":
                continue
            st.gset("rel", r, (st.gget("rel", r) or 0) + 1)
            o = st.wobj(r[1])
            o.status = "freed"
            o.meta = dict(o.meta, freed_at=E.curloc)
        o = st.wobj(p[1])
        o.status = "freed"
        o.meta = dict(o.meta, freed_at=E.curloc)
        return E.fallible(st, "resource_release")

    def icall(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("w", "fn")):
            return contracts.icall(E, st, fv, args, org, rty)
        W = st.gget("w", "W")
        want = (("p", W.c, 0), W.fib["main"], ("i", en("FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE")), ZERO)
        for i, (a, b) in enumerate(zip(args, want)):
            if not same(E, st, low(st, a) if i == 2 else a, b):
                rep(E, st, "%s: argument %d of the callback is %s" % (what, i + 1, show(st.norm(a))))
        return E.fallible(st, "callback:fn")

    def setup(E, st, F, ctx):
        W = ctx["W"] = registry(E, st, ("other", "third"), 2 if vectors else 0)
        st.gset("w", "W", W)
        a = W.cget(st, "alloc")
        fn = new_ptr(st, "callback", "void*")
        st.gset("w", "fn", fn)
        for n in ("A", "B"):
            W.fiber(st, n)
        W.set(st, "fiber_scheduler", W.s, "current_fiber", W.fib["main"])
        for f, v in (("fn", fn), ("main_fiber", W.fib["main"]), ("alloc", a)):
            W.set(st, "fiber_scheduler", W.s, f, v)
        E.write(st, W.s, 0, vt["sched"], 8)
        E.write(st, W.c, 0, vt["ctx"], 8)
        W.cset(st, "cached_scheduler_resource_handler", own)
        W.cset(st, "idle_fiber", W.fiber(st, idle) if idle else ZERO)
        t = ("p", outcell(st, "fibers", 64), 0)
        W.cset(st, "fibers_by_pointer", t)
        st.gset("treekind", t, "pointer")
        st.gset("tree", t, (W.fib["A"], W.fib["B"]))
        st.gset("seq", W.rq, tuple(W.fib[n] for n in queued))
        W.ftree = t
        for p, k in ((t, "tree"), (W.tree, "tree"), (W.rq, "queue")) + tuple((f, "fiber") for f in W.fib.values()):
            st.gset("kind", p, k)
        ctx["blocks"] = [("the scheduler", W.s), ("the context", W.c)] + ([(f.replace("_", " "), W.cget(st, f)[1]) for f in ("callback_vector", "context_vector")] if vectors else [])
        return [("p", W.s, 0)]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        things = [("fiber " + n, W.fib[n]) for n in ("A", "B", "main") + (("I",) if idle == "I" else ())]
        things += [("a discipline", ("p", W.disc[d]["oid"], 0)) for d in ("other", "third")]
        things += [("the tree of fibers", W.ftree), ("the tree of disciplines", W.tree), ("the run queue", W.rq)]
        for n, p in things:
            c = st.gget("rel", p) or 0
            if c != 1:
                rep(E, st, "%s: %s is released %d times" % (what, n, c))
        for n, o in ctx["blocks"]:
            if st.heap[o].status != "freed":
                rep(E, st, "%s: %s is not reclaimed" % (what, n))
        if rules.status_class(st, rv) == "ok" and rules.fail_events(st):
            rep(E, st, "%s: succeeds although a release failed" % what)
        if rules.status_class(st, rv) != "ok" and not rules.fail_events(st):
            rep(E, st, "%s: fails although nothing went wrong" % what)
    return Job("resource_release", post, setup, models=dict(container_models(), resource_release=release), icall=icall, name=what, conf=dict(join_states=False, unroll=12))


@check("F03", 60)
def f03(ctx):
    P = ctx.prog()
    deep = ctx.thorough
    jobs = [wiring_job(P)]
    for f, v in wiring(P).get("trees", {}).items():
        kind = "pointer" if f == "fibers_by_pointer" else "uuid"
        if v is not None:
            jobs += compare_jobs(P, v[0], v[1], kind, "fiber" if kind == "pointer" else DISC, "id", "the tree of " + ("fibers" if kind == "pointer" else "disciplines"))
    for n in (0, 2) + ((1, 5) if deep else ()):
        for k in (1, 2, 3) + ((4, 6) if deep else ()):
            jobs.append(add_job(n, k))
    jobs += [add_job(2, 2, dup=True), add_job(2, 2, owned=True), add_job(0, 1, disciplined=False)]
    jobs += [find_job((), None), find_job(("a", "b"), None), find_job(("a", "b"), "a"), find_job(("a", "b"), "b"), find_job(("a",), "a", False)]
    jobs += [create_job(k) for k in (1, 2, 3)]
    jobs += [getter_job("fiber_scheduler_discipline_context_get", DISC, "context", False),
             getter_job("fiber_discipline_scheduler_get", DISC, "sched", True),
             getter_job("disciplined_fiber_scheduler_main_fiber_get", CTX, "main_fiber", True),
             getter_job("disciplined_fiber_scheduler_current_fiber_get", "fiber_scheduler", "current_fiber", True),
             getter_job("fiber_scheduler_from_fiber_get", "fiber", "sched", False),
             getter_job("fiber_state_get", "fiber", "fiber_state", False)]
    jobs += [put_job("disciplined_fiber_scheduler_set_next_fiber_to_run", True), put_job("disciplined_fiber_scheduler_add_fiber_to_run_queue", False)]
    jobs += [remove_job(True), remove_job(False), set_idle_job(True), set_idle_job(False)]
    jobs += [unexpected_job(True), unexpected_job(False), unexpected_set_job()]
    jobs += [initial_job("fiber_create"), initial_job("fiber_create_for_thread"), sched_create_job()]
    jobs += [release_job(P, i, q) for i in (None, "I", "A") for q in ((), ("main", "A"))] + [release_job(P, None, (), False)]
    R = ctx.sweep(jobs, kinds=KINDS | {"use-after-free", "double-free", "bad-free"})
    finish(ctx, R, "registry")
    return ("Abstract interpretation of the registry functions over registries and disciplines of every small size with symbolic ids, callbacks and contexts, of the "
            "constructors, accessors and comparators; the trees and the run queue are ghost sequences.")
