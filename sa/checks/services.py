"""Setting up and ending the services of a scheduler: mailboxes, conditions, fiber sockets."""
import os
import re

import contracts
import frontend
import models
import rules
import shape
from checks import osapi, psockbuf
from checks.messaging import MSG, CON
from checks.psockio import outcell, finish, glob, low
from checks.psockmake import mods
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "service", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
CONF = {"join_states": False, "unroll": 30, "copy_limit": 60000}
DISC = "fiber_scheduler_discipline"
PSOCK_ID = "FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE"


def rep(E, st, m):
    E.report(st, "service", m, fatal=False)


def log(st, *c):
    st.gset("svc", "log", (st.gget("svc", "log") or ()) + (c,))


def done(st, *names):
    return [c for c in st.gget("svc", "log") or () if c[0] in names]


def fails(st, what):
    f = st.copy()
    e = f.fresh("err.%s" % what, 32, "status")
    f.facts[e] = models.ERRSET
    f.gset("svc", "broke", what)
    f.trail += ((E_loc(st), "%s fails" % what),)
    return f, e


def E_loc(st):
    return st.trail[-1][0] if st.trail else "?"


def thing(E, st, ty, name):
    o = shape.new_struct(E, st, ty, name, kind="lazy")
    st.gset("thing", o, (name, 0))
    return ("p", o, 0)


def once(st):
    """at most one thing goes wrong in a history"""
    return not st.gget("svc", "broke") and not st.gget("pb", "oom")


def internal(name):
    """value of an enumerator of the library's own headers"""
    for d, _, fs in sorted(os.walk(os.path.join(frontend.REPO, "src"))):
        for f in sorted(fs):
            m = re.search(r"^\s*%s\s*=\s*(0[xX][0-9a-fA-F]+|\d+)\b" % name, open(os.path.join(d, f), errors="replace").read() if f.endswith(".h") else "", re.M)
            if m:
                return int(m.group(1), 0)
    raise AnalysisBroken("enumerator %s is not defined" % name)


def find(E, st, args):
    log(st, "find", st.norm(args[1]), st.norm(args[2]))
    n = st.copy()
    o = st.gget("svc", "existing")
    E.store(st, args[0], o, 8)
    st.gset("svc", "found", True)
    n.gset("svc", "found", False)
    return [(st, ZERO), (n, ("i", contracts.code("ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND")))]


def add(E, st, args):
    r = []
    if once(st):
        f, e = fails(st, "adding the discipline")
        log(f, "refused", f.norm(args[0]), f.norm(args[1]))
        r = [(f, e)]
    log(st, "add", st.norm(args[0]), st.norm(args[1]))
    return [(st, ZERO)] + r


def tree(E, st, args):
    r = []
    if once(st):
        f, e = fails(st, "creating the tree")
        E.store(f, args[0], ZERO, 8)
        r = [(f, e)]
    E.store(st, args[0], thing(E, st, "rbtree", "tree"), 8)
    return [(st, ZERO)] + r


def fiber(E, st, args):
    r = []
    if once(st):
        f, e = fails(st, "creating the idle fiber")
        E.store(f, args[0], ZERO, 8)
        r = [(f, e)]
    p = thing(E, st, "fiber", "idle fiber")
    E.store(st, args[0], p, 8)
    log(st, "fiber", *([p] + [st.norm(a) for a in args[1:]]))
    return [(st, ZERO)] + r


def idle(E, st, args):
    log(st, "idle", st.norm(args[0]), st.norm(args[1]))
    return [(st, ZERO)]


def epoll(E, st, args):
    r = []
    if once(st):
        f, _ = fails(st, "epoll_create1")
        r = [(f, ("i", (1 << 32) - 1))]
    fd = st.fresh("epoll", 32, "int")
    st.facts[fd] = ((0, 1 << 20),)
    log(st, "epoll", fd)
    return [(st, fd)] + r


def close(E, st, args):
    log(st, "close", low(st, st.norm(args[0])))
    return [(st, ZERO)]


def nonblock(E, st, args):
    log(st, "nonblock", low(st, st.norm(args[0])))
    r = []
    if once(st):
        f, e = fails(st, "making the descriptor non-blocking")
        r = [(f, e)]
    return [(st, ZERO)] + r


def end(E, st, args):
    """the release of a tree, a fiber or the wrapped socket"""
    p = st.norm(args[0])
    t = st.gget("thing", p[1]) if p[0] == "p" and p[2] == 0 else None
    if t is None:
        return None
    st.gset("thing", p[1], (t[0], t[1] + 1))
    st.wobj(p[1]).status = "freed"
    if not st.gget("svc", "end"):
        return [(st, ZERO)]
    f = st.copy()
    e = f.fresh("err.release", 32, "status")
    f.facts[e] = models.ERRSET
    f.gset("svc", "unreleased", (f.gget("svc", "unreleased") or ()) + (e,))
    return [(st, ZERO), (f, e)]


def reclaim(E, st, args):
    """when the service ends, the allocator may refuse a block"""
    r = osapi.reclaim_once(E, st, args)
    if not st.gget("svc", "end"):
        return r
    f = st.copy()
    e = f.fresh("err.reclaim", 32, "status")
    f.facts[e] = models.ERRSET
    f.gset("svc", "unreleased", (f.gget("svc", "unreleased") or ()) + (e,))
    return r + [(f, e)]


def service_models():
    m = mods(resource_release=end, allocator_reclaim=reclaim, fiber_scheduler_discipline_find=find, fiber_scheduler_discipline_add=add, rbtree_create=tree, fiber_create=fiber,
             disciplined_fiber_scheduler_set_idle_fiber=idle, epoll_create1=epoll, close=close, socket_utility_set_nonblock=nonblock)
    return m


def left(st):
    """(blocks, other things) that nobody has given back"""
    return psockbuf.live(st), [t[0] for o, t in sorted((st.ghost.get("thing") or {}).items(), key=repr) if not t[1]]


def begin(E, st, ctx):
    ctx["alloc"] = st.fresh("alloc", 64, "struct allocator*", None)
    ctx["out"] = outcell(st, "caller's pointer")
    ctx["sched"] = ("p", shape.new_struct(E, st, "fiber_scheduler", "scheduler", kind="lazy"), 0)
    shape.setf(E, st, ctx["sched"][1], "fiber_scheduler", "disciplined", ("i", 1), 1)
    ctx["existing"] = ("p", shape.new_struct(E, st, DISC, "existing discipline", kind="lazy"), 0)
    st.gset("svc", "existing", ctx["existing"])


def looked_up(E, st, ctx, uid, what):
    if any(c[1:] != (ctx["sched"], glob(E.prog, uid)) for c in done(st, "find")) or len(done(st, "find")) != 1:
        rep(E, st, "%s does not look for its own service" % what)


def nothing_left(E, st, ctx, what):
    b, t = left(st)
    t = [x for x in t if x != "wrapped socket"]
    if b or t or [c[1] for c in done(st, "close")] != [low(st, c[1]) for c in done(st, "epoll")]:
        rep(E, st, "%s fails (%s) and keeps %d blocks%s%s" % (what, st.gget("svc", "broke") or "no memory", len(b), "".join(" and a " + x for x in t),
                                                        " and an event descriptor" if len(done(st, "close")) != len(done(st, "epoll")) else ""))
    twice = [t for t in (st.ghost.get("thing") or {}).values() if t[1] > 1]
    if twice:
        rep(E, st, "%s fails and releases the %s %d times" % ((what,) + twice[0]))


def complete(E, st, ctx, d, uid, least, what):
    """the discipline that was set up; its blocks and things all hang together"""
    P = E.prog
    if d[0] != "p" or d[2] or st.gget("blk", d[1]) != ("live", st.norm(ctx["alloc"])):
        rep(E, st, "%s yields %s, no new discipline" % (what, show(d)))
        return False
    if [c[1:] for c in done(st, "add")] != [(ctx["sched"], d)]:
        rep(E, st, "%s adds %s" % (what, [[show(x) for x in c[1:]] for c in done(st, "add")]))
    g = glob(P, uid)
    off, n = P.offset(DISC, "id"), 16
    if [st.norm(E.read(st, d[1], off + k, 1, "i8")) for k in range(n)] != [st.norm(E.load(st, ("p", g[1], g[2] + k), 1, "i8")) for k in range(n)]:
        rep(E, st, "%s gives its discipline another service's identifier" % what)
    v, k = st.norm(shape.getf(E, st, d[1], DISC, "callback_vector")), st.norm(shape.getf(E, st, d[1], DISC, "callback_vector_size"))
    if k[0] != "i" or k[1] < least or v[0] != "p" or any(st.norm(E.load(st, ("p", v[1], v[2] + 8 * i), 8, "p"))[0] != "f" for i in range(k[1])):
        rep(E, st, "%s installs %s handlers for %d events" % (what, show(k), least))
    c = st.norm(shape.getf(E, st, d[1], DISC, "context"))
    if c[0] != "p" or st.gget("blk", c[1]) != ("live", st.norm(ctx["alloc"])) or c[1] == d[1]:
        rep(E, st, "%s gives its handlers %s" % (what, show(c)))
        return False
    return c


def ends(E, st, d, ctx, what, keep=()):
    """the release of the discipline, as its scheduler does it"""
    st = st.copy()
    st.gset("svc", "end", True)
    ep = [low(st, c[1]) for c in done(st, "epoll")]
    for t, r in E.call_named(st, E.prog.func("resource_release").name, [d]):
        b, th = left(t)
        th = [x for x in th if x not in keep]
        if b - ctx.get("own", set()) or th:
            rep(E, t, "releasing the discipline made by %s keeps %d blocks%s" % (what, len(b - ctx.get("own", set())), "".join(" and a " + x for x in th)))
        twice = [x for x in (t.ghost.get("thing") or {}).values() if x[1] > 1]
        if twice:
            rep(E, t, "releasing the discipline made by %s releases the %s %d times" % ((what,) + twice[0]))
        if [c[1] for c in done(t, "close")] != ep:
            rep(E, t, "releasing the discipline made by %s closes %s where %s is due" % (what, [show(c[1]) for c in done(t, "close")], [show(x) for x in ep]))
        bad = t.gget("svc", "unreleased") or ()
        if (rules.status_class(t, r) == "ok") != (not bad):
            rep(E, t, "releasing the discipline made by %s gives %s although %s" % (what, show(t.norm(r)), "a release failed" if bad else "nothing failed"))


def join_job(P, K, events):
    what = K.ctor

    def setup(E, st, F, ctx):
        begin(E, st, ctx)
        return [("p", ctx["out"], 0), ctx["alloc"], ctx["sched"]]

    def post(E, st, rv, args, ctx):
        looked_up(E, st, ctx, K.uid, what)
        d = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if st.gget("svc", "found"):
            if rules.status_class(st, rv) != "ok" or d != ctx["existing"] or left(st)[0] or done(st, "add"):
                rep(E, st, "%s does not yield the service that is there" % what)
            return
        if not once(st):
            if rules.status_class(st, rv) != "err" or done(st, "add"):
                rep(E, st, "%s gives %s and adds %d disciplines although %s" % (what, show(st.norm(rv)), len(done(st, "add")), st.gget("svc", "broke") or "there is no memory"))
            return nothing_left(E, st, ctx, what)
        if rules.status_class(st, rv) != "ok":
            return rep(E, st, "%s fails although nothing went wrong" % what)
        if complete(E, st, ctx, d, K.uid, events, what):
            ends(E, st, d, ctx, what)
    return Job(what, post, setup, models=service_models(), icall=None, conf=CONF, name=what)


def wrap_job(P, kind, plain, cfg="epoll"):
    what = "psock_create_wrap_async of a %s" % (("socket of type %d" % kind) if plain else "socket without a descriptor")
    DT = internal("PSOCK_TYPE_DESCRIPTOR")

    def setup(E, st, F, ctx):
        begin(E, st, ctx)
        f = shape.new_struct(E, st, "fiber", "user's fiber", kind="lazy")
        shape.setf(E, st, f, "fiber", "sched", ctx["sched"])
        w = shape.new_struct(E, st, "psock_from_descriptor", "wrapped", kind="lazy")
        st.gset("thing", w, ("wrapped socket", 0))
        shape.setf(E, st, w, "psock", "type", ("i", DT if plain else DT + 1), 4)
        shape.setf(E, st, w, "psock", "socktype", ("i", kind), 4)
        ctx["fd"] = st.fresh("descriptor", 32, "int")
        st.facts[ctx["fd"]] = ((0, 1 << 20),)
        shape.setf(E, st, w, "psock_from_descriptor", "descriptor", ctx["fd"], 4)
        ctx["was"] = was = st.fresh("old", 64, "struct psock*", None)
        E.write(st, ctx["out"], 0, was, 8)
        ctx.update(f=f, w=w)
        return [("p", ctx["out"], 0), ctx["alloc"], ("p", f, 0), ("p", w, 0)]

    def service(E, st, ctx):
        """what was set up for the scheduler, if anything: True when it is complete"""
        a, i, f = done(st, "add"), done(st, "idle"), done(st, "fiber")
        if not a and not i:
            return False
        if len(a) != 1 or len(i) != 1 or len(f) != 1:
            rep(E, st, "%s gives the scheduler %d disciplines and %d idle fibers" % (what, len(a), len(i)))
            return False
        d = a[0][2]
        c = complete(E, st, ctx, d, PSOCK_ID, 2, what)
        if not c:
            return False
        if i[0][1:] != (ctx["sched"], f[0][1]) or f[0][2:4] != (st.norm(ctx["alloc"]), ctx["sched"]) or f[0][5] != c or f[0][6][0] != "f":
            rep(E, st, "%s sets up the idle fiber with %s and %s" % (what, [show(x) for x in f[0][1:]], [show(x) for x in i[0][1:]]))
        if shape.getf(E, st, c[1], "psock_io_%s_context" % cfg, "sched") != ctx["sched"]:
            rep(E, st, "%s: the waits are handed to another scheduler" % what)
        return d

    def post(E, st, rv, args, ctx):
        cls = rules.status_class(st, rv)
        s = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if not plain:
            if low(st, rv) != ("i", contracts.code("ERROR_PSOCK_UNSUPPORTED_TYPE")) or st.gget("svc", "log") or left(st)[0] or s != st.norm(ctx["was"]):
                rep(E, st, "%s gives %s" % (what, show(st.norm(rv))))
            return
        looked_up(E, st, ctx, PSOCK_ID, what)
        if (st.gget("thing", ctx["w"]) or ("", 1))[1]:
            rep(E, st, "%s releases the socket to be wrapped" % what)
        if any(c[1] != low(st, ctx["fd"]) for c in done(st, "nonblock")):
            rep(E, st, "%s makes another descriptor non-blocking" % what)
        found = st.gget("svc", "found")
        d = service(E, st, ctx)
        if found and (done(st, "add") or done(st, "idle")):
            rep(E, st, "%s sets up a second service" % what)
        if cls != "ok":
            if cls != "err" or once(st):
                rep(E, st, "%s gives %s although nothing failed" % (what, show(st.norm(rv))))
            if s != st.norm(ctx["was"]):
                rep(E, st, "%s fails and hands out %s" % (what, show(s)))
            if not d:
                return nothing_left(E, st, ctx, what)
            ctx["own"] = set()
            st2 = st.copy()
            return ends(E, st2, d, ctx, what, ("wrapped socket", "idle fiber"))
        if not once(st):
            rep(E, st, "%s succeeds although %s fails" % (what, st.gget("svc", "broke") or "an allocation"))
        if s[0] != "p" or s[2] or st.gget("blk", s[1]) != ("live", st.norm(ctx["alloc"])):
            return rep(E, st, "%s hands out %s" % (what, show(s)))
        if not done(st, "nonblock"):
            rep(E, st, "%s leaves the descriptor blocking" % what)
        if not found and not d:
            return rep(E, st, "%s hands out a socket for which the scheduler has no service" % what)
        disc = ctx["existing"] if found else d
        for f, want in (("wrapped", ("p", ctx["w"], 0)), ("fib", ("p", ctx["f"], 0)), ("psock_discipline", disc)):
            if st.norm(shape.getf(E, st, s[1], "psock_wrap_async", f)) != want:
                rep(E, st, "%s: the new socket's %s is %s" % (what, f, show(st.norm(shape.getf(E, st, s[1], "psock_wrap_async", f)))))
        for t, k in E.call_named(st.copy(), P.func("psock_socket_type").name, [s]):
            if low(t, k) != ("i", kind):
                rep(E, t, "%s gives a socket of type %s" % (what, show(low(t, k))))
        if d:
            ctx["own"] = {s[1]}
            ends(E, st, d, ctx, what, ("wrapped socket", "idle fiber"))
        mine = psockbuf.live(st) - {s[1]}
        st = st.copy()
        st.gset("svc", "end", True)
        for t, h in E.call_named(st, P.func("psock_resource_handle").name, [s]):
            for t2, r in E.call_named(t, P.func("resource_release").name, [h]):
                bad = t2.gget("svc", "unreleased") or ()
                if (t2.gget("thing", ctx["w"]) or ("", 0))[1] != 1:
                    rep(E, t2, "releasing the socket made by %s releases the wrapped one %d times" % (what, t2.gget("thing", ctx["w"])[1]))
                if psockbuf.live(t2) != mine or done(t2, "close"):
                    rep(E, t2, "releasing the socket made by %s leaves %d blocks where %d are due" % (what, len(psockbuf.live(t2)), len(mine)))
                if (rules.status_class(t2, r) == "ok") != (not bad):
                    rep(E, t2, "releasing the socket made by %s gives %s although %s" % (what, show(t2.norm(r)), "a release failed" if bad else "nothing failed"))
    return Job("psock_create_wrap_async", post, setup, models=service_models(), icall=None, conf=CONF, name=what)


@check("F05", 5)
def f05(ctx):
    P = ctx.prog()
    jobs = [join_job(P, MSG, 4), join_job(P, CON, 5)] + [wrap_job(P, k, True) for k in (1, 2)] + [wrap_job(P, 1, False)]
    R = ctx.sweep(jobs, kinds=KINDS)
    if ctx.thorough:
        P = ctx.prog("poll")
        R += ctx.sweep([wrap_job(P, k, True, "poll") for k in (1, 2, 3)], "poll", kinds=KINDS)
    finish(ctx, R, "service")
    return ("Abstract interpretation of the set-up of each service from a scheduler that has it or not, with every allocation, system call and "
            "addition failing in turn, and of the end of everything it made, with every release failing in turn.")
