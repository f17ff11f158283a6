"""Messaging and condition barriers between fibers: what the discipline
handlers do to mailboxes, waiters and the run queue, and what the functions
that enter them make of the answer."""
import contracts
import models
import rules
import shape
from checks.fiber import World, container_models, fname, rep, en, seq, MGMT, KINDS
from checks.psockio import finish, glob, low, must, new_ptr, outcell, same
from checks.registry import compare_jobs, getter_job
from engine import Engine, State, width_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

TOP = 0xffffffff


class Kind:
    def __init__(self, name, ctor, ctx, tree, struct, key, uid, pre):
        self.name, self.ctor, self.ctx, self.tree, self.struct, self.key = name, ctor, ctx, tree, struct, key
        self.uid, self.y, self.r = uid, "FIBER_SCHEDULER_%s_YIELD_EVENT_" % pre, "FIBER_SCHEDULER_%s_RESUME_EVENT_" % pre


MSG = Kind("messaging", "message_discipline_get_or_create", "message_discipline_context", "mailboxes", "mailbox", "address",
           "FIBER_SCHEDULER_MESSAGE_DISCIPLINE", "MESSAGE")
CON = Kind("condition", "condition_discipline_get_or_create", "condition_discipline_context", "condition_barriers", "condition_barrier", "cond",
           "FIBER_SCHEDULER_CONDITION_DISCIPLINE", "CONDITION")
WIRES = {}


def capture(got):
    def disc(E, st, args):
        n, p = st.norm(args[4]), st.norm(args[5])
        got["id"] = st.norm(args[1])
        got["context"] = st.norm(args[3])
        if n[0] != "i" or p[0] != "p":
            raise AnalysisBroken("the discipline's callbacks cannot be determined")
        got["handlers"] = [st.norm(E.load(st, ("p", p[1], p[2] + 8 * i), 8, "p")) for i in range(n[1])]
        st.gset("w", "ctx", got["context"])
        outs = shape.found("struct fiber_scheduler_discipline*")(E, st, args)
        for s, rv in outs:
            if s.norm(rv) == ZERO:
                s.gset("w", "disc", s.norm(E.load(s, s.norm(args[0]), 8, "p")))
        return outs

    def trees(E, st, args):
        w = (st.norm(args[2]), st.norm(args[3]))
        outs = shape.found("struct rbtree*")(E, st, args)
        for s, rv in outs:
            if s.norm(rv) == ZERO:
                s.gset("treeof", s.norm(E.load(s, s.norm(args[0]), 8, "p")), w)
        return outs
    return disc, trees


def wiring(P, K):
    """handlers, initial context and comparator, by interpreting the constructor"""
    if (id(P), K.name) in WIRES:
        return WIRES[id(P), K.name]
    got = {}
    disc, trees = capture(got)

    def find(E, st, args):
        return [(st, ("i", contracts.code("ERROR_RBTREE_NOT_FOUND")))]

    def add(E, st, args):
        return [(st, ZERO)]

    def alloc(E, st, args):
        return models.allocate(E, st, args)[:1]
    mods = dict(models.default_models(), fiber_scheduler_discipline_find=find, fiber_scheduler_discipline_create=disc, rbtree_create=trees,
                fiber_scheduler_discipline_add=add, allocator_allocate=alloc)
    E = Engine(P, mods)
    E.entry = K.ctor
    st = State()
    F = P.func(K.ctor)
    args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
    outs = [s for s, rv in E.run(st, F, args) if s.norm(rv) == ZERO]
    if "handlers" not in got or not outs:
        raise AnalysisBroken("%s: the handlers cannot be determined" % K.ctor)
    s = outs[0]
    c = got["context"]
    if c[0] != "p":
        raise AnalysisBroken("%s: the context is %s" % (K.ctor, show(c)))
    got["index0"] = shape.getf(E, s, c[1], K.ctx, "index")
    got["cmp"] = s.gget("treeof", shape.getf(E, s, c[1], K.ctx, K.tree))
    WIRES[id(P), K.name] = got
    return got


def handler(P, K, ev):
    h, i = wiring(P, K)["handlers"], en(K.y + ev)
    if not 0 <= i < len(h):
        raise AnalysisBroken("the %s discipline has no event %s" % (K.name, ev))
    return fname(h[i], "the handler of " + ev)


class Box:
    """the mailboxes (or condition barriers) of a discipline"""

    def __init__(self, E, st, K, spec, current="Y"):
        """spec: [(name, blocked fiber or None, items in its queue)]"""
        self.K, self.E = K, E
        W = self.W = World(E, st, ("A",), current)
        st.gset("w", "W", W)
        st.gset("w", "B", self)
        self.c = shape.new_struct(E, st, K.ctx, K.name + " context", kind="lazy")
        self.tree = ("p", outcell(st, K.tree, 64), 0)
        self.index = st.fresh("index", 64, "unsigned long", None)
        st.facts[self.index] = ((0, (1 << 62)),)
        for f, v in (("sched", ("p", W.s, 0)), (K.tree, self.tree), ("index", self.index)):
            shape.setf(E, st, self.c, K.ctx, f, v)
        st.gset("treekind", self.tree, "u64")
        st.gset("keyfield", "f", (K.struct, K.key))
        self.box, self.msg = {}, {}
        addrs = []
        for n, blocked, items in spec:
            a = st.fresh("address." + n, 64, "unsigned long", None)
            st.facts[a] = ((1, 1 << 62),)
            E.assume(st, E.cmp(st, "ule", a, self.index, 64), True)
            for b in addrs:
                E.assume(st, E.cmp(st, "ne", a, b, 64), True)
            addrs.append(a)
            o = shape.new_struct(E, st, K.struct, n, kind="lazy")
            q = ("p", outcell(st, "queue of " + n, 64), 0)
            shape.setf(E, st, o, K.struct, K.key, a)
            shape.setf(E, st, o, K.struct, "message_queue" if K is MSG else "wait_list", q)
            if K is MSG:
                shape.setf(E, st, o, K.struct, "blocked_fiber", W.fiber(st, blocked) if blocked else ZERO)
            its = []
            for i in items:
                its.append(W.fiber(st, i) if K is CON else self.message(st, i))
            st.gset("seq", q, tuple(its))
            self.box[n] = dict(oid=o, addr=a, q=q, items=tuple(its), blocked=blocked)
        st.gset("tree", self.tree, tuple(("p", b["oid"], 0) for b in self.box.values()))
        for n in spec:
            for x in [n[1]] + list(n[2] if K is CON else ()):
                if x:
                    W.mark(st, x, None)

    def message(self, st, n, to=None):
        o = shape.new_struct(self.E, st, "message", "message " + n, kind="lazy")
        if to is not None:
            shape.setf(self.E, st, o, "message", "sendaddr", to)
        self.msg[n] = ("p", o, 0)
        return self.msg[n]

    def mname(self, v):
        return next((n for n, x in list(self.msg.items()) + list(self.W.fib.items()) if x == v), show(v))

    def which(self, st, addr):
        """the box the address is known to be of, or None"""
        for n, b in self.box.items():
            if must(self.E, st, "eq", addr, b["addr"]):
                return n
        return None

    def same_as_before(self, st, what, but=None):
        """every box but one still holds what it held"""
        E = self.E
        if tuple(st.gget("tree", self.tree) or ()) != tuple(("p", b["oid"], 0) for n, b in self.box.items()):
            rep(E, st, "%s: the set of %s changes" % (what, self.K.tree.replace("_", " ")))
        if not same(E, st, shape.getf(E, st, self.c, self.K.ctx, "index"), self.index):
            rep(E, st, "%s: the counter of addresses changes" % what)
        for n, b in self.box.items():
            if n != but:
                self.holds(st, what, n, b["items"], b["blocked"])

    def holds(self, st, what, n, items, blocked):
        E, b = self.E, self.box[n]
        got = seq(st, b["q"])
        if tuple(got) != tuple(items):
            rep(E, st, "%s: %s then holds [%s] where [%s] is due" % (what, n, ", ".join(self.mname(x) for x in got), ", ".join(self.mname(x) for x in items)))
        if self.K is MSG:
            g = shape.getf(E, st, b["oid"], "mailbox", "blocked_fiber")
            if g != (self.W.fib[blocked] if blocked else ZERO):
                rep(E, st, "%s: the fiber waiting at %s is then %s" % (what, n, self.W.name(st, g)))


def runq_failed(st):
    """the scheduler could not make a fiber runnable"""
    return bool(st.gget("w", "runq failed"))


def models_():
    m = container_models()

    def put(front):
        inner = m["queue_insert" if front else "queue_append"]

        def f(E, st, args):
            W = st.gget("w", "W")
            outs = inner(E, st, args)
            for s, rv in outs:
                if s.norm(rv) != ZERO:
                    s.gset("w", "runq failed" if s.norm(args[0]) == W.rq else "put failed", s.norm(rv))
            return outs
        return f

    def release(E, st, args):
        p = st.norm(args[0])
        E.pointer(st, p)
        st.gset("released", p, True)
        return [(st, ZERO)]
    return dict(m, queue_insert=put(True), slist_insert_head=put(True), queue_append=put(False), slist_append_tail=put(False), resource_release=release)


def result(E, st, W, K, what, ev, nm="Y"):
    """what the requester is told: the parameter of the given event"""
    r = W.restore(st, nm)
    W.told(st, what, nm, K.uid, K.r + ev, None)
    return r[2]


def told_error(E, st, W, K, what, ev):
    p = result(E, st, W, K, what, ev)
    v = E.cast(st, "trunc", p, "i64", "i32") if p[0] != "i" else ("i", p[1] & TOP)
    if rules.status_class(st, v) != "err":
        rep(E, st, "%s: the requester is told that it failed with the code %s" % (what, show(p)))


def call(E, st, B, K, ev, param):
    return [("p", B.c, 0), B.W.fib["Y"], ("i", en(K.y + ev)), param]


def lost(E, st, B, what, mine=None):
    """when the scheduler cannot make a fiber runnable, nothing may be lost or
    kept that its owner was told it still has"""
    W = B.W
    q = W.queue(st)
    inq = {r: n for n, b in B.box.items() for r in seq(st, b["q"])}
    given = {}
    for n in q:
        p = W.restore(st, n)[2]
        given[p] = n
    for n, m in B.msg.items():
        places = (1 if m in inq else 0) + (1 if m in given else 0)
        if m == mine:
            if places:
                rep(E, st, "%s: the send fails but the message is kept" % what)
        elif places != 1:
            rep(E, st, "%s: message %s is then held %d times" % (what, n, places))
    for n, b in B.box.items():
        f = b["blocked"]
        if f and shape.getf(E, st, b["oid"], "mailbox", "blocked_fiber") == ZERO and f not in q:
            rep(E, st, "%s: the fiber waiting at %s is forgotten" % (what, n))


# ------------------------------------------------------------- creating
def create_job(P, K, ev):
    fn = handler(P, K, ev)
    what = "creating a %s" % K.struct.replace("_", " ")

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, K, [("X", None, ()), ("Z", None, ())])
        return call(E, st, B, K, ev, st.fresh("param", 64, "void*", None))

    def post(E, st, rv, args, ctx):
        B, W = ctx["B"], ctx["B"].W
        tree = tuple(st.gget("tree", B.tree) or ())
        old = tuple(("p", b["oid"], 0) for b in B.box.values())
        i1 = shape.getf(E, st, B.c, K.ctx, "index")
        if runq_failed(st):
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: the requester cannot be resumed but %s is returned" % (what, show(st.norm(rv))))
            return
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s: the handler fails with %s although the requester is resumed" % (what, show(st.norm(rv))))
            return
        nm = "CREATE" if K is CON else "MAILBOX_CREATE"
        if rules.fail_events(st) or st.gget("w", "duplicate"):
            if tree != old:
                rep(E, st, "%s: fails but the set of %s changes" % (what, K.tree))
            if not must(E, st, "ule", B.index, i1):
                rep(E, st, "%s: fails and an address may be given out twice" % what)
            told_error(E, st, W, K, what, nm + "_FAILURE")
        else:
            p = result(E, st, W, K, what, nm + "_SUCCESS")
            new = [r for r in tree if r not in old]
            if len(new) != 1 or tree[:-1] != old:
                rep(E, st, "%s: %d are added" % (what, len(new)))
                return
            o = new[0][1]
            a = shape.getf(E, st, o, K.struct, K.key)
            if not same(E, st, a, p):
                rep(E, st, "%s: the requester is told the address %s of %s" % (what, show(p), show(a)))
            i0, base = B.index, wiring(P, K)["index0"]
            one = must(E, st, "ult", i0, a) and must(E, st, "ule", a, i1)
            two = must(E, st, "ule", i0, a) and must(E, st, "ult", a, i1) and base[0] == "i" and base[1] >= 1
            if not (one or two):
                rep(E, st, "%s: the address %s may have been given out before or be given out again (counter %s to %s)" % (what, show(a), show(i0), show(i1)))
            if K is MSG and shape.getf(E, st, o, K.struct, "blocked_fiber") != ZERO:
                rep(E, st, "%s: a fiber is waiting at the new mailbox" % what)
            if st.heap[o].status == "freed":
                rep(E, st, "%s: the new one is already released" % what)
        for n, b in B.box.items():
            B.holds(st, what, n, b["items"], b["blocked"])
        W.check(st, what, [("Y", K.uid, K.r + nm + ("_FAILURE" if rules.fail_events(st) or st.gget("w", "duplicate") else "_SUCCESS"), None)])
    return Job(fn, post, setup, models=models_(), name=what, conf=dict(join_states=False, unroll=12))


def close_job(P, K, ev):
    fn = handler(P, K, ev)
    what = "closing a %s" % K.struct.replace("_", " ")

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, K, [("X", None, ("m1",) if K is MSG else ()), ("Z", None, ())])
        a = ctx["addr"] = st.fresh("address", 64, "unsigned long", None)
        return call(E, st, B, K, ev, a)

    def post(E, st, rv, args, ctx):
        B, W = ctx["B"], ctx["B"].W
        n = B.which(st, ctx["addr"])
        tree = tuple(st.gget("tree", B.tree) or ())
        want = tuple(("p", b["oid"], 0) for m, b in B.box.items() if m != n)
        if tree != want:
            rep(E, st, "%s: %d remain where %d should" % (what, len(tree), len(want)))
        for m, b in B.box.items():
            rel = bool(st.gget("released", ("p", b["oid"], 0)))
            if rel != (m == n):
                rep(E, st, "%s: %s is %sreleased" % (what, m, "" if rel else "not "))
            if m != n:
                B.holds(st, what, m, b["items"], b["blocked"])
        if not same(E, st, shape.getf(E, st, B.c, K.ctx, "index"), B.index):
            rep(E, st, "%s: the counter of addresses changes" % what)
        if runq_failed(st):
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: the requester cannot be resumed but %s is returned" % (what, show(st.norm(rv))))
            return
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s: the handler fails with %s although the requester is resumed" % (what, show(st.norm(rv))))
        e = ("MAILBOX_CLOSE" if K is MSG else "CLOSE_SUCCESS" if n else "CLOSE_FAILURE")
        if n:
            p = result(E, st, W, K, what, e)
            if p != ZERO:
                rep(E, st, "%s: the requester is told %s" % (what, show(p)))
        else:
            told_error(E, st, W, K, what + " that does not exist", e)
        W.check(st, what, [("Y", K.uid, K.r + e, None)])
    return Job(fn, post, setup, models=models_(), name=what, conf=dict(join_states=False, unroll=12))


# ------------------------------------------------------------- messages
def send_handler_job(P, blocked, items):
    fn = handler(P, MSG, "MESSAGE_SEND")
    what = "sending to a mailbox with %s" % ("a waiting fiber" if blocked else "%d messages" % len(items))

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, MSG, [("X", blocked, items), ("Z", None, ("z",))])
        a = ctx["addr"] = st.fresh("to", 64, "unsigned long", None)
        m = ctx["m"] = B.message(st, "new", a)
        return call(E, st, B, MSG, "MESSAGE_SEND", m)

    def post(E, st, rv, args, ctx):
        B, W, m = ctx["B"], ctx["B"].W, ctx["m"]
        n = B.which(st, ctx["addr"])
        ok = rules.status_class(st, rv) == "ok"
        if not ok:
            if not runq_failed(st):
                rep(E, st, "%s: the handler fails with %s although every fiber could be made runnable" % (what, show(st.norm(rv))))
            elif W.queue(st) != ["A"]:
                rep(E, st, "%s: the handler fails after it has made a fiber runnable" % what)
            B.same_as_before(st, what + ", which fails")
            lost(E, st, B, what, m)
            return
        r = W.restore(st, "Y")
        success = same(E, st, low(st, r[1]), ("i", en(MSG.r + "MESSAGE_SEND_SUCCESS")))
        failed = n is None or st.gget("w", "put failed") is not None or runq_failed(st)
        if failed == success:
            rep(E, st, "%s: the sender is told that it %s" % (what, "succeeded" if success else "failed"))
            return
        if failed:
            told_error(E, st, W, MSG, what, "MESSAGE_SEND_FAILURE")
            W.check(st, what, [("Y", MSG.uid, MSG.r + "MESSAGE_SEND_FAILURE", None)])
            B.same_as_before(st, what + ", which fails")
            lost(E, st, B, what, m)
            return
        b = B.box[n]
        front = [("Y", MSG.uid, MSG.r + "MESSAGE_SEND_SUCCESS", None)]
        now, wait = b["items"] + (m,), b["blocked"]
        if wait:
            front.append((wait, MSG.uid, MSG.r + "MESSAGE_RECEIVE_SUCCESS", now[0]))
            now, wait = now[1:], None
        W.check(st, what, front)
        B.holds(st, what, n, now, wait)
        B.same_as_before(st, what, n)
    return Job(fn, post, setup, models=models_(), name=what, conf=dict(join_states=False, unroll=12))


def receive_handler_job(P, blocked, items):
    fn = handler(P, MSG, "MESSAGE_RECEIVE")
    what = "receiving from a mailbox with %s" % ("a waiting fiber" if blocked else "%d messages" % len(items))

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, MSG, [("X", blocked, items), ("Z", None, ("z", "y"))])
        a = ctx["addr"] = st.fresh("at", 64, "unsigned long", None)
        return call(E, st, B, MSG, "MESSAGE_RECEIVE", a)

    def post(E, st, rv, args, ctx):
        B, W = ctx["B"], ctx["B"].W
        n = B.which(st, ctx["addr"])
        if rules.status_class(st, rv) != "ok":
            if not runq_failed(st):
                rep(E, st, "%s: the handler fails with %s although the receiver could be resumed" % (what, show(st.norm(rv))))
            if W.queue(st) != ["A"]:
                rep(E, st, "%s: the handler fails after it has made a fiber runnable" % what)
            B.same_as_before(st, what + ", which fails")
            return
        b = B.box.get(n)
        if n is None or (not b["items"] and b["blocked"]):
            told_error(E, st, W, MSG, what, "MESSAGE_RECEIVE_FAILURE")
            if n is not None:
                p = W.restore(st, "Y")[2]
                if p[0] != "i" or p[1] & TOP != contracts.code("ERROR_MESSAGE_ALREADY_BLOCKED"):
                    rep(E, st, "%s: the second fiber is told %s" % (what, show(p)))
            W.check(st, what, [("Y", MSG.uid, MSG.r + "MESSAGE_RECEIVE_FAILURE", None)])
            B.same_as_before(st, what)
        elif not b["items"]:
            W.check(st, what, ())
            B.holds(st, what, n, (), "Y")
            B.same_as_before(st, what, n)
        else:
            W.check(st, what, [("Y", MSG.uid, MSG.r + "MESSAGE_RECEIVE_SUCCESS", b["items"][0])])
            B.holds(st, what, n, b["items"][1:], None)
            B.same_as_before(st, what, n)
    return Job(fn, post, setup, models=models_(), name=what, conf=dict(join_states=False, unroll=12))


# ----------------------------------------------------------- conditionals
def cond_job(P, ev, items):
    fn = handler(P, CON, ev)
    what = {"COND_WAIT": "waiting for", "NOTIFY_ONE": "notifying one fiber of", "NOTIFY_ALL": "notifying all fibers of"}[ev] + \
        " a conditional with %d waiting" % len(items)

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, CON, [("X", None, items), ("Z", None, ("U",))])
        a = ctx["addr"] = st.fresh("handle", 64, "unsigned long", None)
        return call(E, st, B, CON, ev, a)

    def post(E, st, rv, args, ctx):
        B, W = ctx["B"], ctx["B"].W
        n = B.which(st, ctx["addr"])
        if runq_failed(st):
            # a waiter that cannot be made runnable is given up (documented in the code)
            for m, b in B.box.items():
                if m != n:
                    B.holds(st, what, m, b["items"], None)
            return
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s: the handler fails with %s although every fiber could be made runnable" % (what, show(st.norm(rv))))
            return
        kind = "WAIT" if ev == "COND_WAIT" else "NOTIFY"
        if n is None or st.gget("w", "put failed") is not None:
            told_error(E, st, W, CON, what, kind + "_FAILURE")
            e = [("Y", CON.uid, CON.r + kind + "_FAILURE", None)]
            if W.queue(st)[:1] == ["Y"]:
                W.check(st, what, e)
            else:
                W.check(st, what, (), ("A",), e)
            B.same_as_before(st, what + ", which fails")
            return
        its = B.box[n]["items"]
        if ev == "COND_WAIT":
            W.check(st, what, ())
            B.holds(st, what, n, its + (W.fib["Y"],), None)
        else:
            k = len(its) if ev == "NOTIFY_ALL" else min(1, len(its))
            back = [(W.name(st, f), CON.uid, CON.r + "WAIT_SUCCESS", ZERO) for f in its[:k]]
            W.check(st, what, (), ("A",), back + [("Y", CON.uid, CON.r + "NOTIFY_SUCCESS", None)])
            B.holds(st, what, n, its[k:], None)
        B.same_as_before(st, what, n)
    return Job(fn, post, setup, models=models_(), name=what, conf=dict(join_states=False, unroll=8))


# ------------------------------------------------------- client functions
def client_job(K, fn, ev, good, bad, out=False, prm="handle"):
    """good / bad: resume events; prm: what the request carries"""
    def do_yield(E, st, args):
        W = st.gget("w", "W")
        if st.gget("w", "yielded"):
            rep(E, st, "%s: yields twice" % fn)
        st.gset("w", "yielded", True)
        want = (st.gget("w", "disc"), ("i", en(K.y + ev)), st.gget("w", "prm"))
        for a, b, t in zip(args, want, ("discipline", "event", "parameter")):
            if b is not None and not same(E, st, low(st, a) if t == "event" else a, b):
                rep(E, st, "%s: the request's %s is %s" % (fn, t, W.name(st, a)))
        m = st.gget("w", "msg")
        if m and not same(E, st, shape.getf(E, st, m[1], "message", "sendaddr"), st.gget("w", "to")):
            rep(E, st, "%s: the message is not addressed to the mailbox given" % fn)
        f = st.copy()
        c = f.fresh("err.yield", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "code", c)
        f.event("fail", "fiber_discipline_yield", E.curloc, c)
        res = [(f, c)]
        for d in (K.uid, MGMT):
            s = st.copy()
            e = s.fresh("event", 32, "int", None)
            p = s.fresh("param", 64, "void*", None)
            s.gset("w", "resumed", (d, e, p))
            s.trail += ((E.curloc, "resumed by %s" % d),)
            for a, v, z in zip(args[3:], (glob(E.prog, d), e, p), (8, 4, 8)):
                E.store(s, s.norm(a), v, z)
            res.append((s, ZERO))
        return res

    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        st.gset("w", "W", W)
        d = ("p", outcell(st, "discipline", 64), 0)
        st.gset("w", "disc", d)
        h = st.fresh("handle", 64, "unsigned long", None)
        st.facts[h] = ((1, (1 << 62)),)
        if out:
            o = ctx["out"] = outcell(st, "out", 8)
            ctx["before"] = st.fresh("before", 64, "void*", None)
            E.write(st, o, 0, ctx["before"], 8)
        if prm == "none":
            return [("p", ctx["out"], 0), d]
        if prm == "message":
            m = ("p", shape.new_struct(E, st, "message", "message", kind="lazy"), 0)
            for k, v in (("prm", m), ("msg", m), ("to", h)):
                st.gset("w", k, v)
            return [h, m, d]
        st.gset("w", "prm", h)
        return [h] + ([("p", ctx["out"], 0)] if out else []) + [d]

    def post(E, st, rv, args, ctx):
        c = st.gget("w", "code")
        if not st.gget("w", "yielded"):
            rep(E, st, "%s: no request is made" % fn)
            return
        now = st.norm(E.read(st, ctx["out"], 0, 8, "p")) if out else None
        kept = not out or same(E, st, now, ctx["before"])
        if c is not None:
            if st.norm(rv) != st.norm(c):
                rep(E, st, "%s: the request failed but %s is returned" % (fn, show(st.norm(rv))))
            if not kept:
                rep(E, st, "%s: the request failed but a result is handed out" % fn)
            return
        d, e, p = st.gget("w", "resumed")

        def is_(names):
            return d == K.uid and any(must(E, st, "eq", e, ("i", en(K.r + x)), 32) for x in names)
        if is_(good) and not is_(bad):
            if rules.status_class(st, rv) != "ok":
                rep(E, st, "%s: fails with %s although the request was granted" % (fn, show(st.norm(rv))))
            if out and not same(E, st, now, p):
                rep(E, st, "%s: hands out %s where the answer is %s" % (fn, show(now), show(p)))
        elif is_(bad):
            if not same(E, st, rv, E.cast(st, "trunc", st.norm(p), "i64", "i32")):
                rep(E, st, "%s: returns %s where the answer is %s" % (fn, show(st.norm(rv)), show(st.norm(p))))
            if not kept:
                rep(E, st, "%s: the request was refused but a result is handed out" % fn)
        else:
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s: returns %s although it was resumed by %s" % (fn, show(st.norm(rv)), "another discipline" if d != K.uid else "another event"))
            if not kept:
                rep(E, st, "%s: was resumed by %s but hands out a result" % (fn, "another discipline" if d != K.uid else "another event"))
    return Job(fn, post, setup, models=dict(models_(), fiber_discipline_yield=do_yield, memcmp=models.memcmp), name=fn, conf=dict(join_states=False, unroll=12))


def interrupted_job(P, K, fn, ev, wake):
    """a wait that ends by an event of another discipline leaves no trace: a
    later message or notification must not go to a fiber that no longer waits"""
    def do_yield(E, st, args):
        B = st.gget("w", "B")
        b, y = B.box["A"], B.W.fib["Y"]
        if K is MSG:
            shape.setf(E, st, b["oid"], "mailbox", "blocked_fiber", y)
        else:
            st.gset("seq", b["q"], seq(st, b["q"]) + (y,))
        e = st.fresh("event", 32, "int", None)
        p = st.fresh("param", 64, "void*", None)
        for a, v, z in zip(args[3:], (glob(E.prog, MGMT), e, p), (8, 4, 8)):
            E.store(st, st.norm(a), v, z)
        st.gset("w", "yielded", True)
        return [(st, ZERO)]

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, K, [("A", None, ())])
        d = shape.new_struct(E, st, "fiber_scheduler_discipline", "discipline", kind="lazy")
        for f, v in (("context", ("p", B.c, 0)), ("sched", ("p", B.W.s, 0))):
            shape.setf(E, st, d, "fiber_scheduler_discipline", f, v)
        a = B.box["A"]["addr"]
        return [a, ("p", outcell(st, "out", 8), 0), ("p", d, 0)] if K is MSG else [a, ("p", d, 0)]

    def post(E, st, rv, args, ctx):
        if not st.gget("w", "yielded") or rules.status_class(st, rv) != "err":
            return
        B = ctx["B"]
        b = B.box["A"]
        if K is MSG:
            left = B.W.fib["Y"] == shape.getf(E, st, b["oid"], "mailbox", "blocked_fiber")
        else:
            left = B.W.fib["Y"] in seq(st, b["q"])
        if left:
            rep(E, st, "%s: a wait ended by another discipline's event leaves the fiber registered, so a later %s goes to a fiber that no longer waits" % (fn, wake))
    return Job(fn, post, setup, models=dict(models_(), fiber_discipline_yield=do_yield, memcmp=models.memcmp), name=fn + " interrupted", conf=dict(join_states=False, unroll=12))


def box_release_job(P, K, items):
    """releasing a mailbox releases the messages in it; releasing a condition
    barrier leaves the fibers waiting at it alone: the scheduler owns those"""
    creator = "mailbox_resource_create" if K is MSG else "condition_barrier_create"
    vt = shape.vtable(P, creator)
    what = "releasing a %s with %d %s" % (K.struct.replace("_", " "), len(items), "messages" if K is MSG else "waiting fibers")

    def release(E, st, args):
        p = st.norm(args[0])
        E.pointer(st, p)
        if p == st.gget("w", "target"):
            return None
        for r in (p,) + (seq(st, p) if st.gget("w", "queue") == p else ()):
            st.gset("rel", r, (st.gget("rel", r) or 0) + 1)
        return E.fallible(st, "resource_release")

    def pop(E, st, args):
        st.gset("w", "pops", (st.gget("w", "pops") or 0) + 1)
        return [o for o in inner(E, st, args) if o[0].norm(o[1]) == ZERO]
    m = models_()
    inner = m["slist_pop"]

    def setup(E, st, F, ctx):
        B = ctx["B"] = Box(E, st, K, [("A", None, items)])
        b = B.box["A"]
        al = st.fresh("alloc", 64, "struct allocator*", None)
        st.heap[b["oid"]].kind = "heap"
        shape.setf(E, st, b["oid"], K.struct, "alloc", al)
        st.wobj(b["oid"]).meta = dict(st.heap[b["oid"]].meta, alloc=al)
        E.write(st, b["oid"], 0, vt, 8)
        st.gset("w", "target", ("p", b["oid"], 0))
        st.gset("w", "queue", b["q"])
        return [("p", b["oid"], 0)]

    def post(E, st, rv, args, ctx):
        b = ctx["B"].box["A"]
        for n, p, due in [("the " + ("message queue" if K is MSG else "wait list"), b["q"], 1)] + [(ctx["B"].mname(x), x, 1 if K is MSG else 0) for x in b["items"]]:
            c = st.gget("rel", p) or 0
            if c != due:
                rep(E, st, "%s: %s is released %d times" % (what, n, c))
        if st.heap[b["oid"]].status != "freed":
            rep(E, st, "%s: its memory is not reclaimed" % what)
        bad = rules.fail_events(st)
        if (rules.status_class(st, rv) == "ok") == bool(bad):
            rep(E, st, "%s: %s" % (what, "succeeds although a release failed" if bad else "fails although nothing went wrong"))
    return Job("resource_release", post, setup, models=dict(m, resource_release=release, slist_pop=pop), name=what, conf=dict(join_states=False, unroll=12))


# -------------------------------------------------- discipline and message
def ctor_job(K):
    """the discipline found is handed out; otherwise one is created, wired to
    its own context and added to the scheduler"""
    def setup(E, st, F, ctx):
        W = ctx["W"] = World(E, st, ())
        st.gset("w", "W", W)
        o = ctx["out"] = outcell(st, "discipline", 8)
        E.write(st, o, 0, ZERO, 8)
        a = new_ptr(st, "alloc", "struct allocator*")
        return [("p", o, 0), a, ("p", W.s, 0)]
    got = {}
    disc, trees = capture(got)

    def find(E, st, args):
        W = st.gget("w", "W")
        if st.norm(args[1]) != ("p", W.s, 0) or st.norm(args[2]) != glob(E.prog, K.uid):
            rep(E, st, "%s: another discipline or scheduler is searched" % K.ctor)
        f = st.copy()
        d = new_ptr(st, "found", "struct fiber_scheduler_discipline*")
        st.gset("w", "found", d)
        E.store(st, st.norm(args[0]), d, 8)
        return [(st, ZERO), (f, ("i", contracts.code("ERROR_RBTREE_NOT_FOUND")))]

    def add(E, st, args):
        W = st.gget("w", "W")
        if st.norm(args[0]) != ("p", W.s, 0) or st.norm(args[1]) != st.norm(st.gget("w", "disc")):
            rep(E, st, "%s: something other than the new discipline is added, or to another scheduler" % K.ctor)
        return E.fallible(st, "fiber_scheduler_discipline_add", lambda s: s.gset("w", "added", True))

    def post(E, st, rv, args, ctx):
        W = ctx["W"]
        out = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        f = st.gget("w", "found")
        if f is not None:
            if rules.status_class(st, rv) != "ok" or out != st.norm(f) or st.gget("w", "disc"):
                rep(E, st, "%s: the discipline exists but is not handed out" % K.ctor)
            return
        if rules.status_class(st, rv) != "ok":
            if not rules.fail_events(st):
                rep(E, st, "%s: fails although nothing went wrong" % K.ctor)
            return
        if rules.fail_events(st) or not st.gget("w", "added") or out != st.norm(st.gget("w", "disc")):
            rep(E, st, "%s: succeeds without handing out the discipline it added" % K.ctor)
            return
        if got["id"] != glob(E.prog, K.uid):
            rep(E, st, "%s: the discipline's id is %s" % (K.ctor, show(got["id"])))
        c = st.norm(st.gget("w", "ctx"))
        if c[0] != "p" or shape.getf(E, st, c[1], K.ctx, "sched") != ("p", W.s, 0):
            rep(E, st, "%s: the discipline's context does not belong to the scheduler" % K.ctor)
        elif shape.getf(E, st, c[1], K.ctx, K.tree) == ZERO or not st.gget("treeof", shape.getf(E, st, c[1], K.ctx, K.tree)):
            rep(E, st, "%s: the discipline's context has no %s" % (K.ctor, K.tree))
    return Job(K.ctor, post, setup, models=dict(contracts.client_models(), fiber_scheduler_discipline_find=find, fiber_scheduler_discipline_create=disc,
                                                rbtree_create=trees, fiber_scheduler_discipline_add=add), name=K.ctor, conf=dict(join_states=False, unroll=12))


def message_create_job():
    fn = "message_create"

    def setup(E, st, F, ctx):
        o = ctx["out"] = outcell(st, "out", 8)
        E.write(st, o, 0, ZERO, 8)
        ctx["v"] = [new_ptr(st, "alloc", "struct allocator*"), st.fresh("return address", 64, "unsigned long", None), new_ptr(st, "payload", "struct resource*")]
        return [("p", o, 0)] + ctx["v"]

    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) != "ok":
            return
        m = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if m[0] != "p":
            rep(E, st, "%s: succeeds without a message" % fn)
            return
        for f, v in zip(("alloc", "returnaddr", "payload"), ctx["v"]):
            if not same(E, st, shape.getf(E, st, m[1], "message", f), v):
                rep(E, st, "%s: the new message's %s is not the one given" % (fn, f))
    return Job(fn, post, setup, models=contracts.client_models(), name=fn, conf=dict(join_states=False, unroll=12))


def payload_job(xfer):
    fn = "message_payload"

    def setup(E, st, F, ctx):
        m = ctx["m"] = shape.new_struct(E, st, "message", "message", kind="lazy")
        p = ctx["p"] = st.fresh("payload", 64, "struct resource*", None)
        shape.setf(E, st, m, "message", "payload", p)
        return [("p", m, 0), ("i", 1 if xfer else 0)]

    def post(E, st, rv, args, ctx):
        if not same(E, st, rv, ctx["p"]):
            rep(E, st, "%s: yields %s, not the payload" % (fn, show(st.norm(rv))))
        now = shape.getf(E, st, ctx["m"], "message", "payload")
        if xfer and now != ZERO:
            rep(E, st, "%s: the message keeps the payload it has handed over" % fn)
        if not xfer and not same(E, st, now, ctx["p"]):
            rep(E, st, "%s: the message loses the payload" % fn)
    return Job(fn, post, setup, models=contracts.client_models(), name="%s, %s" % (fn, "transferred" if xfer else "kept"), conf=dict(join_states=False, unroll=12))


def message_release_job(P, carries):
    """releasing a message releases the payload it carries, if it carries one"""
    vt = shape.vtable(P, "message_create")
    what = "releasing a message %s" % ("with its payload" if carries else "without payload")

    def release(E, st, args):
        p = st.norm(args[0])
        if p == st.gget("w", "target"):
            return None
        if p == ZERO:
            rep(E, st, "%s: releases a payload that is not there" % what)
        st.gset("rel", p, (st.gget("rel", p) or 0) + 1)
        return E.fallible(st, "resource_release")

    def setup(E, st, F, ctx):
        m = ctx["m"] = shape.new_struct(E, st, "message", "message")
        al, p = new_ptr(st, "alloc", "struct allocator*"), new_ptr(st, "payload", "struct resource*") if carries else ZERO
        for f, v in (("alloc", al), ("payload", p)):
            shape.setf(E, st, m, "message", f, v)
        st.wobj(m).meta = dict(st.heap[m].meta, alloc=al)
        E.write(st, m, 0, vt, 8)
        ctx["p"] = p
        st.gset("w", "target", ("p", m, 0))
        return [("p", m, 0)]

    def post(E, st, rv, args, ctx):
        c = (st.gget("rel", st.norm(ctx["p"])) or 0) if carries else 0
        if carries and c != 1:
            rep(E, st, "%s: the payload is released %d times" % (what, c))
        if st.heap[ctx["m"]].status != "freed":
            rep(E, st, "%s: its memory is not reclaimed" % what)
        bad = rules.fail_events(st)
        if (rules.status_class(st, rv) == "ok") == bool(bad):
            rep(E, st, "%s: %s" % (what, "succeeds although a release failed" if bad else "fails although nothing went wrong"))
    return Job("resource_release", post, setup, models=dict(contracts.client_models(), resource_release=release), name=what, conf=dict(join_states=False, unroll=12))


@check("G01", 15)
def g01(ctx):
    P = ctx.prog()
    K = MSG
    jobs = [ctor_job(K), create_job(P, K, "MAILBOX_CREATE"), close_job(P, K, "MAILBOX_CLOSE")]
    c = wiring(P, K)["cmp"]
    if c:
        jobs += compare_jobs(P, c[0], c[1], "u64", K.struct, K.key, "the tree of mailboxes")
    for b, i in ((None, ()), (None, ("m1",)), (None, ("m1", "m2")), ("R", ())):
        jobs += [send_handler_job(P, b, i), receive_handler_job(P, b, i)]
    jobs += [client_job(K, "mailbox_create", "MAILBOX_CREATE", ["MAILBOX_CREATE_SUCCESS"], ["MAILBOX_CREATE_FAILURE"], True, "none"),
             client_job(K, "mailbox_close", "MAILBOX_CLOSE", [], ["MAILBOX_CLOSE"]),
             client_job(K, "message_send", "MESSAGE_SEND", ["MESSAGE_SEND_SUCCESS"], ["MESSAGE_SEND_FAILURE"], False, "message"),
             client_job(K, "message_receive", "MESSAGE_RECEIVE", ["MESSAGE_RECEIVE_SUCCESS"], ["MESSAGE_RECEIVE_FAILURE"], True)]
    jobs += [box_release_job(P, K, i) for i in ((), ("m1",), ("m1", "m2"))]
    jobs += [interrupted_job(P, K, "message_receive", "MESSAGE_RECEIVE", "message")]
    jobs += [message_create_job(), payload_job(True), payload_job(False), message_release_job(P, True), message_release_job(P, False), getter_job("message_return_address", "message", "returnaddr", False)]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "messaging")
    return ("Abstract interpretation of the messaging discipline's handlers (found by interpreting its constructor) over two mailboxes with symbolic distinct addresses, "
            "each with no, one or two messages or a waiting fiber, and of the functions that enter them with every answer.")


@check("G02", 15)
def g02(ctx):
    P = ctx.prog()
    K = CON
    jobs = [ctor_job(K), create_job(P, K, "CREATE"), close_job(P, K, "CLOSE")]
    c = wiring(P, K)["cmp"]
    if c:
        jobs += compare_jobs(P, c[0], c[1], "u64", K.struct, K.key, "the tree of conditionals")
    for i in ((), ("U1",), ("U1", "U2"), ("U1", "U2", "U3")):
        jobs += [cond_job(P, ev, i) for ev in ("COND_WAIT", "NOTIFY_ONE", "NOTIFY_ALL")]
    jobs += [client_job(K, "conditional_create", "CREATE", ["CREATE_SUCCESS"], ["CREATE_FAILURE"], True, "none"),
             client_job(K, "conditional_close", "CLOSE", [], ["CLOSE_SUCCESS", "CLOSE_FAILURE"]),
             client_job(K, "conditional_wait", "COND_WAIT", ["WAIT_SUCCESS"], ["WAIT_FAILURE"]),
             client_job(K, "conditional_notify_one", "NOTIFY_ONE", ["NOTIFY_SUCCESS"], ["NOTIFY_FAILURE"]),
             client_job(K, "conditional_notify_all", "NOTIFY_ALL", ["NOTIFY_SUCCESS"], ["NOTIFY_FAILURE"])]
    jobs += [box_release_job(P, K, i) for i in ((), ("U1",), ("U1", "U2"))]
    jobs += [interrupted_job(P, K, "conditional_wait", "COND_WAIT", "notification")]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "condition")
    return ("Abstract interpretation of the condition discipline's handlers over two barriers with symbolic distinct handles and up to three waiting fibers, "
            "and of the functions that enter them with every answer.")
