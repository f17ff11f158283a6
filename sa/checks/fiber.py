"""The fiber scheduler: which fiber runs next and what it is told, what each
scheduler event does to the fibers involved, and how disciplines are
registered."""
import contracts
import frontend
import models
import rules
import shape
from checks.psockio import finish, glob, low, must, new_ptr, outcell, same
from engine import Engine, State, width_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "fiber", "null-deref", "uninit", "out-of-bounds"}
INTERNAL = "FIBER_SCHEDULER_INTERNAL_DISCIPLINE"
MGMT = "FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE"
CTX = "fiber_scheduler_disciplined_context"
TOP = 0xffffffff


def rep(E, st, m):
    E.report(st, "fiber", m, fatal=False)


def en(name):
    v = frontend.enums().get(name)
    if v is None:
        raise AnalysisBroken("enumerator %s is not defined" % name)
    return v


# ------------------------------------------------- containers, as sequences
def seq(st, q):
    return st.gget("seq", st.norm(q)) or ()


def seq_put(front):
    def m(E, st, args):
        q, r = st.norm(args[0]), st.norm(args[1])
        E.pointer(st, q)
        E.pointer(st, r)
        r = st.norm(r)

        def ok(s):
            cur = seq(s, q)
            s.gset("seq", q, ((r,) + cur) if front else (cur + (r,)))
        return E.fallible(st, "queue_insert" if front else "queue_append", ok)
    return m


def seq_pop(E, st, args):
    q = st.norm(args[0])
    E.pointer(st, q)
    cur = seq(st, q)
    if not cur:
        e = st.fresh("err.queue_pop", 32, "status")
        st.facts[e] = models.ERRSET
        return [(st, e)]
    st.gset("seq", q, cur[1:])
    E.store(st, st.norm(args[1]), cur[0], 8)
    return [(st, ZERO)]


def seq_count(E, st, args):
    E.pointer(st, args[0])
    return [(st, ("i", len(seq(st, args[0]))))]


def key_at(E, st, kind, p):
    """the key a key pointer refers to"""
    p = st.norm(p)
    if kind == "pointer":
        return (p,)
    oid, off = E.pointer(st, p)
    if kind == "u64":
        return (st.norm(E.read(st, oid, off, 8, "i64")),)
    return tuple(st.norm(E.read(st, oid, off + i, 1, "i8")) for i in range(16))


def key_of(E, st, kind, r):
    """the key of an element"""
    r = st.norm(r)
    if kind == "pointer":
        return (r,)
    struct, field = st.gget("keyfield", "f")
    oid, off = E.pointer(st, r)
    return key_at(E, st, kind, ("p", oid, off + E.prog.offset(struct, field)))


def locate(E, st, tree, k):
    """[(state, index or None)]: the elements the key may be equal to"""
    cur = st.gget("tree", st.norm(tree)) or ()
    kind = st.gget("treekind", st.norm(tree))
    outs = []
    for i, r in enumerate(cur):
        ek = key_of(E, st, kind, r)
        if ek == k:
            return outs + [(st, i)]
        if kind == "uuid" or all(x[0] == "i" for x in ek + k) or kind == "pointer":
            continue
        s = st.copy()
        if E.assume(s, E.cmp(s, "eq", ek[0], k[0], 64), True):
            s.trail += ((E.curloc, "the key is that of an element"),)
            outs.append((s, i))
        if not E.assume(st, E.cmp(st, "ne", ek[0], k[0], 64), True):
            return outs
    return outs + [(st, None)]


def tree_key(E, st, tree):
    tree = st.norm(tree)
    E.pointer(st, tree)
    tree = st.norm(tree)
    k = st.gget("treekind", tree)
    if k is None:
        raise AnalysisBroken("operation on an unknown tree %s" % show(tree))
    return tree, k


def notfound(st, what):
    e = ("i", contracts.code("ERROR_RBTREE_NOT_FOUND"))
    st.gset("w", "notfound", True)
    return [(st, e)]


def t_find(E, st, args):
    tree, kind = tree_key(E, st, args[1])
    res = []
    for s, i in locate(E, st, tree, key_at(E, st, kind, args[2])):
        if i is None:
            s.trail += ((E.curloc, "nothing is found"),)
            E.store(s, s.norm(args[0]), ZERO, 8)
            res += notfound(s, "find")
        else:
            E.store(s, s.norm(args[0]), s.gget("tree", tree)[i], 8)
            res.append((s, ZERO))
    return res


def t_insert(E, st, args):
    tree, kind = tree_key(E, st, args[0])
    r = st.norm(args[1])
    E.pointer(st, r)
    r = st.norm(r)
    res = []
    for s, i in locate(E, st, tree, key_of(E, st, kind, r)):
        if i is not None:
            s.gset("w", "duplicate", True)
            res.append((s, ("i", contracts.code("ERROR_RBTREE_DUPLICATE"))))
        else:
            res += E.fallible(s, "rbtree_insert", lambda x: x.gset("tree", tree, (x.gget("tree", tree) or ()) + (r,)))
    return res


def t_delete(E, st, args):
    tree, kind = tree_key(E, st, args[1])
    res = []
    for s, i in locate(E, st, tree, key_at(E, st, kind, args[2])):
        if i is None:
            res += notfound(s, "delete")
            continue
        cur = s.gget("tree", tree)
        s.gset("tree", tree, cur[:i] + cur[i + 1:])
        o = s.norm(args[0])
        if o == ZERO:
            s.gset("released", cur[i], True)
        else:
            E.store(s, o, cur[i], 8)
        res.append((s, ZERO))
    return res


def container_models():
    return dict(contracts.client_models(), queue_append=seq_put(False), slist_append_tail=seq_put(False), queue_insert=seq_put(True),
                slist_insert_head=seq_put(True), queue_pop=seq_pop, slist_pop=seq_pop, queue_count=seq_count, slist_count=seq_count,
                rbtree_find=t_find, rbtree_insert=t_insert, rbtree_delete=t_delete)


# --------------------------------------------------------------- the world
class World:
    """a scheduler, its context and some fibers, as objects of a state"""

    def __init__(self, E, st, queued=("A",), current="Y"):
        self.P = E.prog
        self.E = E
        self.fib = {}
        self.s = shape.new_struct(E, st, "fiber_scheduler", "scheduler", kind="lazy")
        self.c = shape.new_struct(E, st, CTX, "scheduler context", kind="lazy")
        self.rq = ("p", outcell(st, "run queue", 64), 0)
        self.set(st, "fiber_scheduler", self.s, "context", ("p", self.c, 0))
        self.set(st, "fiber_scheduler", self.s, "disciplined", ("i", 1), 1)
        self.set(st, CTX, self.c, "sched", ("p", self.s, 0))
        self.set(st, CTX, self.c, "run_queue", self.rq)
        for f in ("management_fiber", "idle_fiber"):
            self.set(st, CTX, self.c, f, ZERO)
        self.set(st, CTX, self.c, "main_fiber", self.fiber(st, "main"))
        for n in queued:
            self.fiber(st, n)
        self.set(st, "fiber_scheduler", self.s, "current_fiber", self.fiber(st, current))
        st.gset("seq", self.rq, tuple(self.fib[n] for n in queued))

    def set(self, st, struct, oid, field, v, size=8):
        shape.setf(self.E, st, oid, struct, field, v, size)

    def cset(self, st, field, v):
        self.set(st, CTX, self.c, field, v)

    def cget(self, st, field):
        return shape.getf(self.E, st, self.c, CTX, field)

    def fiber(self, st, n, state=1):
        if n is None:
            return ZERO
        if n not in self.fib:
            o = shape.new_struct(self.E, st, "fiber", "fiber " + n, kind="lazy")
            self.fib[n] = ("p", o, 0)
            self.set(st, "fiber", o, "sched", ("p", self.s, 0))
            self.set(st, "fiber", o, "fiber_state", ("i", state))
            self.mark(st, n, None)
        return self.fib[n]

    def mark(self, st, n, how):
        """give a fiber known resumption arguments"""
        o = self.fib[n][1]
        if how is None:
            ev = st.fresh("event." + n, 64, "unsigned long", None)
            st.facts[ev] = ((0, (1 << 31) - 1),)
            how = (new_ptr(st, "id." + n, "struct rcpr_uuid*"), ev, st.fresh("param." + n, 64, "void*", None))
        for f, v in zip(("restore_discipline_id", "restore_reason_code", "restore_param"), how):
            self.set(st, "fiber", o, f, v)
        st.gset("restore", n, tuple(how))

    def restore(self, st, n):
        return tuple(shape.getf(self.E, st, self.fib[n][1], "fiber", f)
                     for f in ("restore_discipline_id", "restore_reason_code", "restore_param"))

    def name(self, st, v):
        v = st.norm(v)
        if v == ZERO:
            return "no fiber"
        return next((n for n, x in self.fib.items() if x == v), show(v))

    def queue(self, st):
        return [self.name(st, v) for v in seq(st, self.rq)]

    def check(self, st, what, front=(), middle=("A",), back=(), anyorder=False):
        """the run queue is front (any order) + middle + back, and every fiber
        in front and back has the given resumption arguments; entries are
        (name, id, event, param)"""
        E = self.E
        q = self.queue(st)
        fn, bn = [x[0] for x in front], [x[0] for x in back]
        want = sorted(fn) + list(middle) + (sorted(bn) if anyorder else bn)
        n, m = len(fn), len(fn) + len(middle)
        got = sorted(q[:n]) + q[n:m] + (sorted(q[m:]) if anyorder else q[m:])
        if got != want:
            rep(E, st, "%s: the run queue is [%s] where [%s] is due" % (what, ", ".join(q), ", ".join(fn + list(middle) + bn)))
            return False
        for nm, uid, ev, prm in tuple(front) + tuple(back):
            self.told(st, what, nm, uid, ev, prm)
        for nm in middle:
            if not all(same(E, st, a, b) for a, b in zip(self.restore(st, nm), st.gget("restore", nm))):
                rep(E, st, "%s: what fiber %s is to be told is changed" % (what, nm))
        return True

    def told(self, st, what, nm, uid, ev, prm):
        E = self.E
        r = self.restore(st, nm)
        if r[0] != glob(self.P, uid):
            rep(E, st, "%s: fiber %s is resumed on behalf of %s, not %s" % (what, nm, show(r[0]), uid))
        if not same(E, st, low(st, r[1]), ("i", en(ev))):
            rep(E, st, "%s: fiber %s is resumed with event %s, not %s" % (what, nm, show(r[1]), ev))
        if prm is not None and not same(E, st, r[2], prm):
            rep(E, st, "%s: fiber %s is resumed with parameter %s, not %s" % (what, nm, show(r[2]), show(prm)))


# ------------------------------------------- what the constructor wires up
WIRES = {}


def wiring(P):
    """the scheduler callback, its internal handlers and the management
    discipline's handlers, found by interpreting the constructor"""
    if id(P) in WIRES:
        return WIRES[id(P)]
    got = {}

    def create(E, st, args):
        c = st.norm(args[2])
        got["callback"] = st.norm(args[3])
        if c[0] != "p":
            raise AnalysisBroken("the disciplined scheduler's context is %s" % show(c))
        n = shape.getf(E, st, c[1], CTX, "callback_vector_size")
        v = shape.getf(E, st, c[1], CTX, "callback_vector")
        w = shape.getf(E, st, c[1], CTX, "context_vector")
        if n[0] != "i" or v[0] != "p" or w[0] != "p":
            raise AnalysisBroken("the disciplined scheduler's callbacks cannot be determined")
        got["handlers"] = [st.norm(E.load(st, ("p", v[1], v[2] + 8 * i), 8, "p")) for i in range(n[1])]
        got["contexts_ok"] = all(st.norm(E.load(st, ("p", w[1], w[2] + 8 * i), 8, "p")) == c for i in range(n[1]))
        s = shape.new_struct(E, st, "fiber_scheduler", "scheduler", kind="lazy")
        got["sched"] = ("p", s, 0)
        got["ctx"] = c
        E.store(st, st.norm(args[0]), ("p", s, 0), 8)
        return [(st, ZERO)]

    def disc(E, st, args):
        n, p = st.norm(args[4]), st.norm(args[5])
        got["mgmt_id"] = st.norm(args[1])
        got["mgmt_ctx_ok"] = st.norm(args[3]) == got["ctx"]
        got["mgmt"] = [st.norm(E.load(st, ("p", p[1], p[2] + 8 * i), 8, "p")) for i in range(n[1])]
        return shape.found("struct fiber_scheduler_discipline*")(E, st, args)

    def trees(E, st, args):
        w = (st.norm(args[2]), st.norm(args[3]))
        outs = shape.found("struct rbtree*")(E, st, args)
        for s, rv in outs:
            if s.norm(rv) == ZERO:
                s.gset("treeof", s.norm(E.load(s, s.norm(args[0]), 8, "p")), w)
        return outs

    def add(E, st, args):
        got["mgmt_added"] = st.norm(args[0]) == got["sched"]
        return [(st, ZERO)]
    fn = "fiber_scheduler_create_with_disciplines"

    def alloc(E, st, args):
        return models.allocate(E, st, args)[:1]
    mods = dict(models.default_models(), fiber_scheduler_create=create, fiber_scheduler_discipline_create=disc, rbtree_create=trees,
                queue_create=shape.found("struct slist*"), fiber_scheduler_discipline_add=add, allocator_allocate=alloc)
    E = Engine(P, mods)
    E.entry = fn
    st = State()
    F = P.func(fn)
    outs = E.run(st, F, [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args])
    for k in ("callback", "handlers", "mgmt"):
        if k not in got:
            raise AnalysisBroken("%s: the %s cannot be determined" % (fn, k))
    ok = [s for s, rv in outs if s.norm(rv) == ZERO]
    got["result"] = None
    if ok:
        s = ok[0]
        o = got["sched"][1]
        got["disciplined"] = shape.getf(E, s, o, "fiber_scheduler", "disciplined", 1)
        got["trees"] = {f: s.gget("treeof", shape.getf(E, s, got["ctx"][1], CTX, f)) for f in ("fibers_by_pointer", "disciplines_by_uuid")}
        got["vtables"] = {n: s.norm(E.read(s, v[1], 0, 8, "p")) for n, v in (("sched", got["sched"]), ("ctx", got["ctx"]))}
        got["ctxsched"] = shape.getf(E, s, got["ctx"][1], CTX, "sched")
    WIRES[id(P)] = got
    return got


def fname(v, what):
    if v[0] != "f":
        raise AnalysisBroken("%s is %s" % (what, show(v)))
    return v[1]


# ------------------------------------------------- F01: dispatch and switch
def callback_job(P, ev, queued, idle):
    w = wiring(P)
    fn = fname(w["callback"], "the scheduler callback")
    what = "event %d with %d runnable%s" % (ev, len(queued), ", idle fiber" if idle else "")
    N = 3

    def icall(E, st, fv, args, org, rty):
        W = st.gget("w", "W")
        i = next((i for i in range(N) if st.norm(st.gget("w", "h%d" % i)) == st.norm(fv)), None)
        if i is None:
            return contracts.icall(E, st, fv, args, org, rty)
        if i != ev:
            rep(E, st, "%s: the handler of event %d is called" % (what, i))
        if st.gget("w", "called"):
            rep(E, st, "%s: the handler is called twice" % what)
        st.gset("w", "called", True)
        want = (st.gget("w", "c%d" % i), W.fib["Y"], ("i", ev & TOP), st.gget("w", "param"))
        for k, (a, b) in enumerate(zip(args, want)):
            if not same(E, st, a, b):
                rep(E, st, "%s: the handler's argument %d is %s, not %s" % (what, k + 1, show(st.norm(a)), show(st.norm(b))))
        f = st.copy()
        c = f.fresh("err.handler", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "code", c)
        f.event("fail", "handler", E.curloc, c)
        f.trail += ((E.curloc, "the handler fails"),)
        # the handler may make the yielding fiber runnable
        st.gset("seq", W.rq, seq(st, W.rq) + (W.fib["Y"],))
        return [(st, ZERO), (f, c)]

    def setup(E, st, F, ctx):
        W = World(E, st, queued)
        ctx["W"] = W
        st.gset("w", "W", W)
        if idle:
            W.cset(st, "idle_fiber", W.fiber(st, "idle"))
        vec, con = outcell(st, "callbacks", 8 * N), outcell(st, "contexts", 8 * N)
        for i in range(N):
            h, c = new_ptr(st, "handler%d" % i, "void*"), st.fresh("context%d" % i, 64, "void*", None)
            E.write(st, vec, 8 * i, h, 8)
            E.write(st, con, 8 * i, c, 8)
            st.gset("w", "h%d" % i, h)
            st.gset("w", "c%d" % i, c)
        W.cset(st, "callback_vector_size", ("i", N))
        W.cset(st, "callback_vector", ("p", vec, 0))
        W.cset(st, "context_vector", ("p", con, 0))
        p = st.fresh("param", 64, "void*", None)
        st.gset("w", "param", p)
        ctx["out"] = [outcell(st, n, 8) for n in ("fiber", "id", "event", "param")]
        return [("p", W.c, 0), W.fib["Y"], ("i", ev & TOP), p] + [("p", o, 0) for o in ctx["out"]]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        q = W.queue(st)
        if not 0 <= ev < N:
            if st.gget("w", "called"):
                rep(E, st, "%s: a handler is called for an event that does not exist" % what)
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: the event does not exist but %s is returned" % (what, show(st.norm(rv))))
            if q != list(queued):
                rep(E, st, "%s: the event does not exist but the run queue changes" % what)
            return
        if not st.gget("w", "called"):
            rep(E, st, "%s: the handler is not called" % what)
            return
        c = st.gget("w", "code")
        if c is not None:
            if st.norm(rv) != st.norm(c):
                rep(E, st, "%s: the handler failed but %s is returned" % (what, show(st.norm(rv))))
            if q != list(queued):
                rep(E, st, "%s: the handler failed and a runnable fiber is lost" % what)
            return
        got = [st.norm(E.read(st, o, 0, z, "p")) for o, z in zip(ctx["out"], (8, 8, 4, 8))]
        full = list(queued) + ["Y"]
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s: fails although a fiber can run" % what)
            return
        if got[0] != W.fib[full[0]]:
            rep(E, st, "%s: fiber %s is resumed where %s is next" % (what, W.name(st, got[0]), full[0]))
        if q != full[1:]:
            rep(E, st, "%s: the run queue is then [%s], not [%s]" % (what, ", ".join(q), ", ".join(full[1:])))
        for g, x, n in zip(got[1:], st.gget("restore", full[0]), ("discipline", "event", "parameter")):
            if not same(E, st, low(st, g) if n == "event" else g, low(st, x) if n == "event" else x):
                rep(E, st, "%s: the fiber is resumed with %s %s, not %s" % (what, n, show(g), show(st.norm(x))))
    return Job(fn, post, setup, models=container_models(), icall=icall, name="dispatch of " + what, conf=dict(join_states=False, unroll=12))


def idle_dispatch_job(P, idle):
    """nothing is runnable after the handler"""
    fn = fname(wiring(P)["callback"], "the scheduler callback")
    what = "nothing runnable, %s" % ("idle fiber" if idle else "no idle fiber")
    j = callback_job(P, 0, (), idle)

    def icall(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("w", "h0")):
            return contracts.icall(E, st, fv, args, org, rty)
        st.gset("w", "called", True)
        return [(st, ZERO)]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if not idle:
            if low(st, rv) != ("i", contracts.code("ERROR_FIBER_SCHEDULER_EXHAUSTED")):
                rep(E, st, "%s: %s is returned" % (what, show(st.norm(rv))))
            return
        got = [st.norm(E.read(st, o, 0, z, "p")) for o, z in zip(ctx["out"], (8, 8, 4, 8))]
        if rules.status_class(st, rv) != "ok" or got[0] != W.fib["idle"]:
            rep(E, st, "%s: fiber %s is resumed" % (what, W.name(st, got[0])))
        elif got[1] != glob(P, INTERNAL) or got[2] != ("i", en("FIBER_SCHEDULER_RESUME_EVENT_IDLE")) or got[3] != ZERO:
            rep(E, st, "%s: the idle fiber is resumed with %s, %s, %s" % ((what,) + tuple(show(x) for x in got[1:])))
        if W.queue(st):
            rep(E, st, "%s: the run queue becomes [%s]" % (what, ", ".join(W.queue(st))))
    return Job(fn, post, j.setup, models=container_models(), icall=icall, name="dispatch with " + what, conf=dict(join_states=False, unroll=12))


def switch_models():
    def fswitch(E, st, args):
        W = st.gget("w", "W")
        n = st.gget("w", "next")
        if n is None:
            rep(E, st, "a switch takes place although the scheduler callback named no fiber")
            E_stop()
        if st.gget("w", "switched"):
            rep(E, st, "two switches for one yield")
        st.gset("w", "switched", True)
        want = (W.fib["Y"], W.fib[n]) + tuple(st.gget("restore", n))
        for k, (a, b, t) in enumerate(zip(args, want, ("the fiber left", "the fiber entered", "the discipline", "the event", "the parameter"))):
            if not same(E, st, low(st, a) if k == 3 else a, low(st, b) if k == 3 else b):
                rep(E, st, "the switch gets %s as %s, not %s" % (W.name(st, a), t, W.name(st, b)))
        cur = shape.getf(E, st, W.s, "fiber_scheduler", "current_fiber")
        if cur != W.fib[n]:
            rep(E, st, "on the switch to fiber %s the scheduler's current fiber is %s" % (n, W.name(st, cur)))
        # control comes back when another fiber switches to this one
        W.set(st, "fiber_scheduler", W.s, "current_fiber", W.fib["Y"])
        W.mark(st, "Y", None)
        st.trail += ((E.curloc, "the fiber is resumed"),)
        return [(st, None)]
    return dict(container_models(), fiber_switch=fswitch)


def E_stop():
    from engine import Stop
    raise Stop()


def sched_callback(E, st, args):
    """the scheduler's callback, by contract"""
    W = st.gget("w", "W")
    ev, prm = st.gget("w", "want")
    want = (st.gget("w", "cbctx"), W.fib["Y"], ev, prm)
    for a, b, t in zip(args, want, ("context", "yielding fiber", "event", "parameter")):
        if b is not None and not same(E, st, low(st, a) if t == "event" else a, b):
            rep(E, st, "the scheduler callback gets the %s %s, not %s" % (t, W.name(st, a), W.name(st, b)))
    h = st.gget("w", "oncall")
    if h:
        h(E, st, args)
    f = st.copy()
    c = f.fresh("err.callback", 32, "status")
    f.facts[c] = models.ERRSET
    f.gset("w", "code", c)
    f.event("fail", "callback:fn", E.curloc, c)
    f.trail += ((E.curloc, "the scheduler callback fails"),)
    outs = [(f, c)]
    for n in ("B", "Y"):
        s = st.copy()
        s.gset("w", "next", n)
        r = s.gget("restore", n)
        E.store(s, s.norm(args[4]), W.fib[n], 8)
        E.store(s, s.norm(args[5]), r[0], 8)
        E.store(s, s.norm(args[6]), low(s, r[1]) if s.norm(r[1])[0] == "i" else E.cast(s, "trunc", s.norm(r[1]), "i64", "i32"), 4)
        E.store(s, s.norm(args[7]), r[2], 8)
        s.trail += ((E.curloc, "the scheduler callback names fiber %s" % n),)
        outs.append((s, ZERO))
    return outs


def yield_icall(E, st, fv, args, org, rty):
    if st.norm(fv) == st.norm(st.gget("w", "fn")):
        return sched_callback(E, st, args)
    return contracts.icall(E, st, fv, args, org, rty)


def yworld(E, st):
    W = World(E, st, ())
    W.fiber(st, "B")
    st.gset("w", "W", W)
    fnp = new_ptr(st, "scheduler callback", "void*")
    c = st.fresh("callback context", 64, "void*", None)
    st.facts[c] = ((4096, (1 << 63) - 1),)
    st.gset("w", "fn", fnp)
    st.gset("w", "cbctx", c)
    W.set(st, "fiber_scheduler", W.s, "fn", fnp)
    W.set(st, "fiber_scheduler", W.s, "context", c)
    return W


def after_yield(E, st, rv, W, what, outs=None, noreturn=False):
    c = st.gget("w", "code")
    sw = st.gget("w", "switched")
    cur = shape.getf(E, st, W.s, "fiber_scheduler", "current_fiber")
    if cur != W.fib["Y"]:
        rep(E, st, "%s: afterwards the scheduler's current fiber is %s" % (what, W.name(st, cur)))
    if c is not None:
        if sw:
            rep(E, st, "%s: switches although the scheduler callback failed" % what)
        if st.norm(rv) != st.norm(c):
            rep(E, st, "%s: the scheduler callback failed but %s is returned" % (what, show(st.norm(rv))))
        return False
    if not sw and st.gget("w", "next") != "Y":
        rep(E, st, "%s: no switch takes place" % what)
        return False
    if rules.status_class(st, rv) != "ok":
        rep(E, st, "%s: fails after the fiber was resumed" % what)
    if outs:
        for o, z, x, t in zip(outs, (8, 4, 8), st.gget("restore", "Y"), ("discipline", "event", "parameter")):
            g = st.norm(E.read(st, o, 0, z, "p"))
            if not same(E, st, low(st, g), low(st, x)) and not (t == "event" and same(E, st, g, E.cast(st, "trunc", st.norm(x), "i64", "i32"))):
                rep(E, st, "%s: the caller is told the %s %s, not %s" % (what, t, show(g), show(st.norm(x))))
    return True


def yield_job():
    fn = "fiber_scheduler_yield"

    def setup(E, st, F, ctx):
        W = ctx["W"] = yworld(E, st)
        ev = st.fresh("event", 32, "int", None)
        p = st.fresh("param", 64, "void*", None)
        st.gset("w", "want", (ev, p))
        ctx["out"] = [outcell(st, n, 8) for n in ("id", "event", "param")]
        return [("p", W.s, 0), ev, p] + [("p", o, 0) for o in ctx["out"]]

    def post(E, st, rv, args, ctx):
        after_yield(E, st, rv, ctx["W"], fn, ctx["out"])
    return Job(fn, post, setup, models=switch_models(), icall=yield_icall, name=fn, conf=dict(join_states=False, unroll=12))


def run_job_(fn):
    def setup(E, st, F, ctx):
        W = ctx["W"] = yworld(E, st)
        st.gset("w", "want", (("i", en("FIBER_SCHEDULER_YIELD_EVENT_RUN")), ZERO))
        return [("p", W.s, 0)]

    def post(E, st, rv, args, ctx):
        after_yield(E, st, rv, ctx["W"], fn)
    return Job(fn, post, setup, models=switch_models(), icall=yield_icall, name=fn, conf=dict(join_states=False, unroll=12))


def add_job():
    fn = "fiber_scheduler_add"

    def setup(E, st, F, ctx):
        W = ctx["W"] = yworld(E, st)
        n = W.fiber(st, "N", 0)
        W.set(st, "fiber", n[1], "sched", ZERO)
        st.gset("w", "want", (("i", en("FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER")), n))
        return [("p", W.s, 0), n]

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if after_yield(E, st, rv, W, fn) and shape.getf(E, st, W.fib["N"][1], "fiber", "sched") != ("p", W.s, 0):
            rep(E, st, "%s: the new fiber does not belong to the scheduler" % fn)
    return Job(fn, post, setup, models=switch_models(), icall=yield_icall, name=fn, conf=dict(join_states=False, unroll=12))


def discipline_yield_job(k):
    """yield through a discipline with two events"""
    fn = "fiber_discipline_yield"
    N = 2

    def setup(E, st, F, ctx):
        W = ctx["W"] = yworld(E, st)
        d = shape.new_struct(E, st, "fiber_scheduler_discipline", "discipline", kind="lazy")
        codes = outcell(st, "codes", 4 * N)
        cs = []
        for i in range(N):
            c = st.fresh("code%d" % i, 32, "unsigned", None)
            E.write(st, codes, 4 * i, c, 4)
            cs.append(c)
        for f, v in (("sched", ("p", W.s, 0)), ("callback_vector_size", ("i", N)), ("callback_codes", ("p", codes, 0))):
            shape.setf(E, st, d, "fiber_scheduler_discipline", f, v)
        p = st.fresh("param", 64, "void*", None)
        st.gset("w", "want", (cs[k] if 0 <= k < N else None, p))
        st.gset("w", "oncall", None if 0 <= k < N else lambda E, s, a: rep(E, s, "%s: event %d does not exist but the scheduler is entered" % (fn, k)))
        ctx["out"] = [outcell(st, n, 8) for n in ("id", "event", "param")]
        return [("p", d, 0), ("i", k & TOP), p] + [("p", o, 0) for o in ctx["out"]]

    def post(E, st, rv, args, ctx):
        if not 0 <= k < N:
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: event %d does not exist but %s is returned" % (fn, k, show(st.norm(rv))))
            return
        after_yield(E, st, rv, ctx["W"], fn, ctx["out"])
    return Job(fn, post, setup, models=switch_models(), icall=yield_icall, name="%s(%d)" % (fn, k), conf=dict(join_states=False, unroll=12))


def entry_job():
    fn = "fiber_entry"
    off = {}

    def icall(E, st, fv, args, org, rty):
        W = st.gget("w", "W")
        if st.norm(fv) == st.norm(st.gget("w", "body")):
            s = shape.getf(E, st, W.fib["Y"][1], "fiber", "fiber_state")
            if s != ("i", en("FIBER_STATE_RUNNING")):
                rep(E, st, "the fiber's function runs while the fiber's state is %s" % show(s))
            if st.norm(args[0]) != st.norm(st.gget("w", "fctx")):
                rep(E, st, "the fiber's function gets %s as its context" % show(st.norm(args[0])))
            if st.gget("w", "ran"):
                rep(E, st, "the fiber's function runs twice")
            st.gset("w", "ran", True)
            r = st.fresh("result", 32, "status", None)
            st.gset("w", "result", r)
            return [(st, r)]
        return yield_icall(E, st, fv, args, org, rty)

    def oncall(E, st, args):
        W = st.gget("w", "W")
        if not st.gget("w", "ran"):
            rep(E, st, "the fiber stops without running its function")
        s = shape.getf(E, st, W.fib["Y"][1], "fiber", "fiber_state")
        if s != ("i", en("FIBER_STATE_STOPPED")):
            rep(E, st, "the fiber stops while its state is %s" % show(s))
        p = st.norm(args[3])
        if p[0] != "p" or st.norm(E.load(st, p, 4, "i32")) != st.norm(st.gget("w", "result")):
            rep(E, st, "the fiber stops without handing on its result")

    def setup(E, st, F, ctx):
        W = ctx["W"] = yworld(E, st)
        body, fc = new_ptr(st, "body", "void*"), st.fresh("fiber context", 64, "void*", None)
        st.gset("w", "body", body)
        st.gset("w", "fctx", fc)
        st.gset("w", "oncall", oncall)
        W.set(st, "fiber", W.fib["Y"][1], "fn", body)
        W.set(st, "fiber", W.fib["Y"][1], "context", fc)
        W.set(st, "fiber", W.fib["Y"][1], "fiber_state", ("i", en("FIBER_STATE_CREATED")))
        st.gset("w", "want", (("i", en("FIBER_SCHEDULER_YIELD_EVENT_STOP")), None))
        return [("p", W.s, 0), W.fib["Y"]]

    def post(E, st, rv, args, ctx):
        after_yield(E, st, rv, ctx["W"], fn)
    return Job(fn, post, setup, models=switch_models(), icall=icall, name=fn, conf=dict(join_states=False, unroll=12))


@check("F01", 20)
def f01(ctx):
    P = ctx.prog()
    deep = ctx.thorough
    jobs = [callback_job(P, ev, q, idle) for ev in ((-(1 << 31), -1, 0, 1, 2, 3, 4, (1 << 31) - 1) if deep else (-1, 0, 2, 3))
            for q in ((), ("A",), ("A", "B")) + ((("A", "B", "C"),) if deep else ()) for idle in (False, True)]
    jobs += [idle_dispatch_job(P, i) for i in (False, True)]
    jobs += [yield_job(), run_job_("fiber_scheduler_run"), run_job_("disciplined_fiber_scheduler_idle_fiber_yield"), add_job(), entry_job()]
    jobs += [discipline_yield_job(k) for k in (-1, 0, 1, 2)]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "dispatch")
    return ("Abstract interpretation of the scheduler callback, the yield functions and the fiber entry with concrete run queues and symbolic events, parameters and "
            "resumption arguments; the scheduler callback is modelled by its outcomes (failing, resuming another fiber, resuming the same fiber).")


# -------------------------------- F02: what scheduler events do to fibers
def handler_call(E, st, W, F, ctx, param=ZERO, context=None):
    return [context or ("p", W.c, 0), W.fib["Y"], ctx.get("ev") or st.fresh("event", 32, "int", None), param]


def oom(st):
    return any(e[1].startswith("queue_") or e[1].startswith("rbtree_") for e in rules.fail_events(st))


def event_job(P, ev, mgmt, idle, queued=("A",)):
    fn = fname(wiring(P)["handlers"][en("FIBER_SCHEDULER_YIELD_EVENT_" + ev)], "the handler of event " + ev)
    what = "%s%s%s" % (ev, ", a fiber waits for management events" if mgmt else "", ", the idle fiber is %s" % idle if idle else "")

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, queued)
        n = W.fiber(st, "N", 0)
        if mgmt:
            W.cset(st, "management_fiber", W.fiber(st, "M"))
        if idle:
            W.cset(st, "idle_fiber", W.fiber(st, idle))
        t = ("p", outcell(st, "fibers", 64), 0)
        W.cset(st, "fibers_by_pointer", t)
        st.gset("treekind", t, "pointer")
        st.gset("tree", t, tuple(W.fib[x] for x in W.fib if x != "N" and x != "main"))
        ctx["tree"] = t
        st.gset("w", "W", W)
        ctx["fields"] = {f: W.cget(st, f) for f in ("main_fiber", "idle_fiber", "management_fiber")}
        ctx["states"] = {x: shape.getf(E, st, v[1], "fiber", "fiber_state") for x, v in W.fib.items()}
        return handler_call(E, st, W, F, ctx, n if ev == "ADD_FIBER" else st.fresh("param", 64, "void*", None))

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if rules.status_class(st, rv) != "ok":
            if not oom(st):
                rep(E, st, "%s: fails although nothing went wrong" % what)
            return
        front, back = [], []
        fields = dict(ctx["fields"])
        tree = set(st.gget("tree", ctx["tree"]) or ())
        want = {W.fib[x] for x in W.fib if x not in ("N", "main")}
        I = INTERNAL
        if ev == "RUN" and idle != "Y":
            back.append(("Y", I, "FIBER_SCHEDULER_RESUME_EVENT_RUN", ZERO))
        if ev == "MAIN":
            front.append(("Y", I, "FIBER_SCHEDULER_RESUME_EVENT_MAIN", ZERO))
            fields["main_fiber"] = W.fib["Y"]
        if ev == "RESOURCE_RELEASE":
            front.append(("Y", I, "FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE", ZERO))
        if ev == "ADD_FIBER":
            want.add(W.fib["N"])
            front.append(("Y", I, "FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER", ZERO))
            back.append(("N", I, "FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER", ZERO))
        if mgmt and ev in ("ADD_FIBER", "STOP"):
            front.append(("M", MGMT, "FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_" + ("ADD" if ev == "ADD_FIBER" else "STOP"),
                          W.fib["N" if ev == "ADD_FIBER" else "Y"]))
            fields["management_fiber"] = ZERO
        W.check(st, what, front, queued, back)
        for f, v in fields.items():
            if W.cget(st, f) != v:
                rep(E, st, "%s: afterwards the %s is %s" % (what, f.replace("_", " "), W.name(st, W.cget(st, f))))
        if tree != want:
            rep(E, st, "%s: the scheduler then owns the fibers %s" % (what, ", ".join(sorted(W.name(st, x) for x in tree))))
        for x, v in ctx["states"].items():
            if shape.getf(E, st, W.fib[x][1], "fiber", "fiber_state") != v:
                rep(E, st, "%s: the state of fiber %s changes" % (what, x))
    return Job(fn, post, setup, models=container_models(), name="%s%s" % (what, "" if queued else ", nothing runnable"), conf=dict(join_states=False, unroll=12))


def mgmt_handler(P, ev):
    i = en("FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_" + ev)
    m = wiring(P)["mgmt"]
    if i >= len(m):
        raise AnalysisBroken("the management discipline has no event %s" % ev)
    return fname(m[i], "the handler of " + ev)


def receive_job(P, queued):
    fn = mgmt_handler(P, "RECEIVE_EVENT")

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, queued)
        return handler_call(E, st, W, F, ctx, st.fresh("param", 64, "void*", None))

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "waiting for management events fails")
        if W.cget(st, "management_fiber") != W.fib["Y"]:
            rep(E, st, "the fiber waiting for management events is not recorded")
        W.check(st, "waiting for management events", (), queued, ())
    return Job(fn, post, setup, models=container_models(), name="management event, %d runnable" % len(queued), conf=dict(join_states=False, unroll=12))


REQ = {"QUIESCE": "QUIESCE_REQUEST", "TERMINATION": "TERMINATION_REQUEST"}


def request_job(P, kind, state, target="T"):
    """a request to one fiber"""
    fn = mgmt_handler(P, REQ[kind])
    sn = {0: "created", 1: "running", 2: "stopped"}[state]
    what = "%s request to a %s fiber%s" % (kind.lower(), sn, {"A": " that is about to run"}.get(target, ""))

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ("A",))
        t = W.fiber(st, target, state)
        W.set(st, "fiber", t[1], "fiber_state", ("i", state))
        return handler_call(E, st, W, F, ctx, t)

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if rules.status_class(st, rv) != "ok":
            if not oom(st):
                rep(E, st, "%s: fails although nothing went wrong" % what)
            return
        if target == "A":
            if W.queue(st).count("A") > 1:
                rep(E, st, "%s: the fiber is then in the run queue twice" % what)
            return
        c = 0 if state == 1 else contracts.code("ERROR_FIBER_INVALID_STATE")
        front = [("Y", MGMT, "FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT", None)]
        if state == 1:
            front.append(("T", MGMT, "FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_" + REQ[kind], ZERO))
        W.check(st, what, front)
        g = W.restore(st, "Y")[2]
        if g[0] != "i" or g[1] & TOP != c:
            rep(E, st, "%s: the requester is told %s" % (what, show(g)))
    return Job(fn, post, setup, models=container_models(), name=what, conf=dict(join_states=False, unroll=12))


def all_job(P, kind, states, queued=(), mgmt=True):
    """a request to all fibers"""
    ev = "QUIESCE_ALL_REQUEST" if kind == "QUIESCE" else "TERMINATION_ALL_REQUEST"
    fn = mgmt_handler(P, ev)
    names = ["F%d" % i for i in range(len(states))]
    what = "%s request to all, %s%s%s" % (kind.lower(), " ".join({0: "created", 1: "running", 2: "stopped"}[s] for s in states) or "no other fiber",
                                         ", one about to run" if queued else "", ", management fiber" if mgmt else "")

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, tuple(queued) or ("A",))
        for n, s in zip(names, states):
            W.set(st, "fiber", W.fiber(st, n, s)[1], "fiber_state", ("i", s))
        if mgmt:
            W.cset(st, "management_fiber", W.fiber(st, "M"))
        order = names[:1] + ["Y"] + (["M"] if mgmt else []) + names[1:]
        P = E.prog
        t = shape.new_struct(E, st, "rbtree", "fibers", kind="lazy")
        nil = shape.new_struct(E, st, "rbtree_node", "nil", kind="lazy")
        nodes = [shape.new_struct(E, st, "rbtree_node", "node " + n, kind="lazy") for n in order]

        def link(lo, hi, parent):
            if lo >= hi:
                return ("p", nil, 0)
            m = (lo + hi) // 2
            o = nodes[m]
            shape.setf(E, st, o, "rbtree_node", "parent", parent)
            shape.setf(E, st, o, "rbtree_node", "value", W.fib[order[m]])
            shape.setf(E, st, o, "rbtree_node", "left", link(lo, m, ("p", o, 0)))
            shape.setf(E, st, o, "rbtree_node", "right", link(m + 1, hi, ("p", o, 0)))
            return ("p", o, 0)
        shape.setf(E, st, t, "rbtree", "root", link(0, len(order), ("p", nil, 0)))
        shape.setf(E, st, t, "rbtree", "nil", ("p", nil, 0))
        shape.setf(E, st, t, "rbtree", "count", ("i", len(order)))
        W.cset(st, "fibers_by_pointer", ("p", t, 0))
        return handler_call(E, st, W, F, ctx, st.fresh("param", 64, "void*", None))

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        if rules.status_class(st, rv) != "ok":
            if not oom(st):
                rep(E, st, "%s: fails although nothing went wrong" % what)
            return
        if queued:
            for n in queued:
                if W.queue(st).count(n) > 1:
                    rep(E, st, "%s: a fiber about to run is then in the run queue twice" % what)
            return
        q = W.queue(st)
        want = [n for n, s in zip(names, states) if s == 1]
        got = sorted(x for x in q if x not in ("A", "Y"))
        if got != sorted(want):
            rep(E, st, "%s: the fibers told are [%s], not [%s]" % (what, ", ".join(got), ", ".join(want)))
            return
        for n in want:
            W.told(st, what, n, MGMT, "FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_" + REQ[kind], ZERO)
        if q.count("Y") != 1 or q.count("A") != 1:
            rep(E, st, "%s: the run queue is [%s]" % (what, ", ".join(q)))
            return
        W.told(st, what, "Y", MGMT, "FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT", ZERO)
        if W.cget(st, "management_fiber") != (W.fib["M"] if mgmt else ZERO):
            rep(E, st, "%s: the fiber waiting for management events is changed" % what)
    mods = {k: v for k, v in container_models().items() if not k.startswith("rbtree_")}
    return Job(fn, post, setup, models=mods, name=what, conf=dict(join_states=False, unroll=12))


def send_job(fn, ev, one):
    """the functions that send a request"""
    def do_yield(E, st, args):
        W = st.gget("w", "W")
        if st.gget("w", "yielded"):
            rep(E, st, "%s: yields twice" % fn)
        st.gset("w", "yielded", True)
        want = (st.gget("w", "disc"), ("i", en("FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_" + ev)), W.fib["T"] if one else None)
        for a, b, t in zip(args, want, ("discipline", "event", "target")):
            if b is not None and not same(E, st, low(st, a) if t == "event" else a, b):
                rep(E, st, "%s: the request's %s is %s" % (fn, t, W.name(st, a)))
        f = st.copy()
        c = f.fresh("err.yield", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "code", c)
        f.event("fail", "fiber_discipline_yield", E.curloc, c)
        res = [(f, c)]
        for d in (MGMT, INTERNAL):
            s = st.copy()
            e = s.fresh("event", 32, "int", None)
            p = s.fresh("param", 64, "void*", None)
            s.gset("w", "resumed", (d, e, p))
            s.trail += ((E.curloc, "resumed by %s" % d),)
            for a, v, z in zip(args[3:], (glob(E.prog, d), e, p), (8, 4, 8)):
                E.store(s, s.norm(a), v, z)
            res.append((s, ZERO))
        return res

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        st.gset("w", "W", W)
        d = ("p", outcell(st, "management discipline", 64), 0)
        W.cset(st, "management_discipline", d)
        st.gset("w", "disc", d)
        W.fiber(st, "T")
        if one is None:
            ctx["out"] = [outcell(st, n, 8) for n in ("id", "event", "param")]
            return [("p", W.s, 0)] + [("p", o, 0) for o in ctx["out"]]
        return [("p", W.s, 0)] + ([W.fib["T"]] if one else [])

    def post(E, st, rv, args, ctx):
        c = st.gget("w", "code")
        if not st.gget("w", "yielded"):
            rep(E, st, "%s: no request is made" % fn)
            return
        if c is not None:
            if st.norm(rv) != st.norm(c):
                rep(E, st, "%s: the request failed but %s is returned" % (fn, show(st.norm(rv))))
            return
        d, e, p = st.gget("w", "resumed")
        if one is None:
            if rules.status_class(st, rv) != "ok":
                rep(E, st, "%s: fails although an event arrived" % fn)
            got = [st.norm(E.read(st, o, 0, z, "p")) for o, z in zip(ctx["out"], (8, 4, 8))]
            if got[0] != glob(E.prog, d) or not same(E, st, got[1], e) or not same(E, st, got[2], p):
                rep(E, st, "%s: hands out %s" % (fn, [show(g) for g in got]))
            return
        mine = d == MGMT and must(E, st, "eq", e, ("i", en("FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT")), 32)
        if not mine:
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: returns %s although it was resumed by something else" % (fn, show(st.norm(rv))))
        elif not same(E, st, rv, E.cast(st, "trunc", st.norm(p), "i64", "i32")):
            rep(E, st, "%s: returns %s where the result is %s" % (fn, show(st.norm(rv)), show(st.norm(p))))
    return Job(fn, post, setup, models=dict(container_models(), fiber_discipline_yield=do_yield), name=fn, conf=dict(join_states=False, unroll=12))


def fiber_jobs(P):
    jobs = [event_job(P, ev, m, i, q) for ev in ("RUN", "MAIN", "ADD_FIBER", "STOP", "RESOURCE_RELEASE") for m in (False, True)
            for i in (None, "I", "Y") for q in (("A",), ())]
    jobs += [receive_job(P, q) for q in ((), ("A",))]
    for kind in REQ:
        jobs += [request_job(P, kind, s) for s in (0, 1, 2)] + [request_job(P, kind, 1, "A")]
        jobs += [all_job(P, kind, s, (), m) for s in ((), (1,), (0, 1), (2, 1), (1, 1, 0)) for m in (False, True)]
        jobs += [all_job(P, kind, (1,), ("F0",))]
    for fn, ev, one in (("disciplined_fiber_scheduler_receive_management_event", "RECEIVE_EVENT", None),
                        ("disciplined_fiber_scheduler_send_quiesce_request_to_fiber", "QUIESCE_REQUEST", True),
                        ("disciplined_fiber_scheduler_send_quiesce_request_to_all", "QUIESCE_ALL_REQUEST", False),
                        ("disciplined_fiber_scheduler_send_terminate_request_to_fiber", "TERMINATION_REQUEST", True),
                        ("disciplined_fiber_scheduler_send_terminate_request_to_all", "TERMINATION_ALL_REQUEST", False)):
        jobs.append(send_job(fn, ev, one))
    return jobs


@check("F02", 60)
def f02(ctx):
    P = ctx.prog()
    R = ctx.sweep(fiber_jobs(P), kinds=KINDS)
    finish(ctx, R, "scheduler event")
    return ("Abstract interpretation of every handler the disciplined scheduler's constructor installs and of the request functions, with each combination of "
            "idle, management, target and runnable fibers; the run queue and fiber set are ghost sequences.")
