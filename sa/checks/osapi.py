"""Threads, descriptors and stacks: the operating system's part."""
import contracts
import models
import rules
import shape
from checks.psockio import must, same, outcell, finish, low
from engine import width_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}


def rep(E, st, m):
    E.report(st, "osapi", m, fatal=False)


def calls(st):
    return st.gget("osx", "calls") or ()


def clear(st):
    st.gset("osx", "calls", ())


def fresh_errno(E, st, name, lo=1):
    e = st.fresh("rc." + name, 32, "int")
    st.facts[e] = ((lo, 4095),)
    return e


def recorded(name, ok=None, also=None):
    """0 or a positive error number; the call is recorded"""
    def m(E, st, args):
        a = tuple(st.norm(x) for x in args)
        for x in a:                 # the system's own objects must be as it left them
            seal = st.gget("seal", x)
            if seal and not name.endswith("_init") and (st.heap[x[1]].status != "live" or st.norm(E.read(st, x[1], x[2], 8, "p")) != st.norm(seal)):
                rep(E, st, "%s is called for an object whose memory was overwritten or released" % name)
        if name.endswith(("mutex_init", "cond_init")) and a[0][0] == "p":
            v = st.fresh("sealed", 64, "unsigned long", None)
            E.write(st, a[0][1], a[0][2], v, 8)
            st.gset("seal", a[0], v)
        f = st.copy()
        f.gset("osx", "calls", calls(f) + ((name, a, False),))
        f.trail += ((E.curloc, "%s fails" % name),)
        st.gset("osx", "calls", calls(st) + ((name, a, True),))
        st.trail += ((E.curloc, "%s succeeds" % name),)
        outs = [(st, ZERO)]
        if ok:
            ok(E, st, args)
        if also:
            outs = also(E, st, args)
        return outs + [(f, fresh_errno(E, f, name))]
    return m


# --------------------------------------------------------------- T01: threads
PT = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy",
      "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_join"]


def alloc_once(E, st, args):
    """allocation may fail; each block and its end are recorded"""
    f = st.copy()
    E.store(f, args[1], ZERO, 8)
    e = f.fresh("err.allocate", 32, "status")
    f.facts[e] = models.ERRSET
    f.gset("osx", "oom", True)
    f.trail += ((E.curloc, "the allocation fails"),)
    o = st.new_obj("heap", st.norm(args[2]), "undef", None, E.curloc, {}, name="block")
    E.store(st, args[1], ("p", o, 0), 8)
    st.gset("blk", o, ("live", st.norm(args[0])))
    return [(st, ZERO), (f, e)]


def reclaim_once(E, st, args):
    p = st.norm(args[1])
    b = st.gget("blk", p[1]) if p[0] == "p" and p[2] == 0 else None
    if b is None or b[0] != "live" or b[1] != st.norm(args[0]):
        rep(E, st, "%s is reclaimed, which is no live block of this allocator" % show(p))
        return [(st, ZERO)]
    st.gset("blk", p[1], ("dead", b[1]))
    st.wobj(p[1]).status = "freed"
    return [(st, ZERO)]


def thread_models(at_once):
    m = contracts.client_models()
    for n in PT:
        m[n] = recorded(n)
    m["allocator_allocate"], m["allocator_reclaim"] = alloc_once, reclaim_once
    m["resource_release"] = None
    m.pop("resource_release")

    def attr_ok(E, st, args):
        p = st.norm(args[0])
        st.gset("attr", p[1], None)

    def stacksize(E, st, args):
        st.gset("attr", st.norm(args[0])[1], st.norm(args[1]))

    def spawn(E, st, args):
        h = st.fresh("thread", 64, "unsigned long")
        st.gset("th", "id", h)
        st.gset("th", "start", (st.norm(args[2]), st.norm(args[3])))
        st.gset("th", "stack", st.gget("attr", st.norm(args[1])[1]) if st.norm(args[1])[0] == "p" else None)
        outs = [(st, ZERO)]
        if at_once:
            outs = [(s, ZERO) for s, _ in run_thread(E, st)]
        for s, _ in outs:
            E.store(s, args[0], h, 8)
        return outs
    m["pthread_attr_init"] = recorded("pthread_attr_init", ok=attr_ok)
    m["pthread_attr_setstacksize"] = recorded("pthread_attr_setstacksize", ok=stacksize)
    m["pthread_attr_destroy"] = recorded("pthread_attr_destroy")
    m["pthread_create"] = recorded("pthread_create", also=spawn)
    return m


def run_thread(E, st):
    fv, arg = st.gget("th", "start")
    if fv[0] != "f":
        raise AnalysisBroken("the thread starts at %s" % show(fv))
    return E.call_named(st, E.prog.func(fv[1]).name, [arg], "p")


def entry_hook(eng, st, fv, args, org, rty):
    """the user's thread function"""
    if st.norm(fv) == st.norm(st.gget("th", "fn")):
        st.gset("th", "ran", (st.gget("th", "ran") or ()) + (st.norm(args[0]),))
        r = st.fresh("exitcode", 32, "status")
        st.gset("th", "exit", r)
        return [(st, r)]
    return None


def release(E, st, obj):
    """release a resource through the vtable it was given"""
    v = st.norm(E.read(st, obj[1], obj[2], 8, "p"))
    f = st.norm(E.load(st, v, 8, "p")) if v[0] == "p" else v
    if f[0] != "f":
        rep(E, st, "the object's release method is %s" % show(f))
        return []
    return E.call_named(st, E.prog.func(f[1]).name, [obj])


def names(st):
    return [c[0] for c in calls(st)]


def balanced_attr(E, st):
    live = [c[1][0] for c in calls(st) if c[0] == "pthread_attr_init" and c[2]]
    dead = [c[1][0] for c in calls(st) if c[0] == "pthread_attr_destroy"]
    if live != dead:
        rep(E, st, "the thread attributes are initialised %d times and destroyed %d times" % (len(live), len(dead)))


def failed_clean(E, st, rv, out, what):
    if rules.status_class(st, rv) == "ok":
        rep(E, st, "%s succeeds although a system call or allocation failed" % what)
    if any(b[0] == "live" for b in (st.ghost.get("blk") or {}).values()):
        rep(E, st, "%s fails and loses its memory" % what)


def failures(st):
    return st.gget("osx", "oom") or any(not c[2] and not c[0].endswith("attr_destroy") for c in calls(st))


def created(E, st, rv, out, what):
    """-> the created object, or None after a (checked) failure"""
    if failures(st):
        failed_clean(E, st, rv, out, what)
        return None
    if rules.status_class(st, rv) != "ok":
        rep(E, st, "%s fails although every system call succeeded" % what)
        return None
    o = st.norm(E.read(st, out, 0, 8, "p"))
    b = st.gget("blk", o[1]) if o[0] == "p" else None
    if b is None or b[0] != "live":
        rep(E, st, "%s hands out %s instead of the object it made" % (what, show(o)))
        return None
    return o


def gone(E, st, o, what):
    if st.gget("blk", o[1])[0] == "live":
        rep(E, st, "releasing the %s does not give its memory back" % what)


def thread_job(P, at_once):
    def setup(E, st, F, ctx):
        a = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        ctx["out"] = c = outcell(st, "caller's thread")
        a[0] = ("p", c, 0)
        st.facts[a[1]] = ((4096, (1 << 63) - 1),)
        st.gset("th", "fn", a[4])
        ctx["a"] = list(a)
        return a

    def post(E, st, rv, args, ctx):
        balanced_attr(E, st)
        o = created(E, st, rv, ctx["out"], "thread_create")
        if o is None:
            if st.gget("th", "start"):
                rep(E, st, "thread_create fails although the thread runs")
            return
        n = [c for c in calls(st) if c[0] == "pthread_create"]
        if len(n) != 1:
            rep(E, st, "%d threads are started" % len(n))
            return
        if st.gget("th", "stack") != st.norm(ctx["a"][2]):
            rep(E, st, "the thread does not get the stack size asked for")
        for s in [st] if at_once else [x for x, _ in run_thread(E, st)]:
            if [s.norm(x) for x in s.gget("th", "ran") or ()] != [s.norm(ctx["a"][3])]:
                rep(E, s, "the new thread calls the function given with %s where once with the context given is due" % ([show(x) for x in s.gget("th", "ran") or ()],))
                continue
            clear(s)
            for s2, r2 in release(E, s, o):
                j = calls(s2)
                if [c[0] for c in j] != ["pthread_join"] or s2.norm(j[0][1][0]) != s2.norm(s2.gget("th", "id")):
                    rep(E, s2, "releasing a thread does not join exactly this thread")
                    continue
                gone(E, s2, o, "thread")
                if j[0][2] and s2.norm(r2) != s2.norm(s2.gget("th", "exit")):
                    rep(E, s2, "releasing a thread reports %s where its function returned %s" % (show(s2.norm(r2)), show(s2.norm(s2.gget("th", "exit")))))
                if not j[0][2] and rules.status_class(s2, r2) != "err":
                    rep(E, s2, "releasing a thread succeeds although joining it failed")
    return Job("thread_create", post, setup, models=thread_models(at_once), icall=entry_hook,
               name="thread that runs %s" % ("at once" if at_once else "later"))


def one_call(E, st, rv, name, args, what):
    c = calls(st)
    if len(c) != 1 or c[0][0] != name or any(st.norm(x) != st.norm(y) for x, y in zip(c[0][1], args)):
        rep(E, st, "%s makes the calls %s where one %s of its own object is due" % (what, ["%s(%s)" % (k[0], ", ".join(show(x) for x in k[1])) for k in c], name))
        return None
    ok = c[0][2]
    if (rules.status_class(st, rv) == "ok") != ok or rules.status_class(st, rv) == "any":
        rep(E, st, "%s reports %s although %s %s" % (what, "success" if not ok else "failure", name, "succeeded" if ok else "failed"))
        return None
    return ok


def lock_job(P):
    """create a mutex, lock it, wait and signal under the lock, unlock, release"""
    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's mutex")
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        return [("p", c, 0), a]

    def after_lock(E, st, ctx, mut, mx):
        cell = outcell(st, "caller's lock")
        clear(st)
        for s, rv in E.call_named(st, P.func("thread_mutex_lock_acquire").name, [("p", cell, 0), mut]):
            if not one_call(E, s, rv, "pthread_mutex_lock", [mx], "acquiring a lock"):
                continue
            lk = s.norm(E.read(s, cell, 0, 8, "p"))
            if lk[0] != "p":
                rep(E, s, "acquiring a lock hands out %s" % show(lk))
                continue
            for t in cond_steps(E, s.copy(), ctx, cell, lk, mx):
                pass
            clear(s)
            for s2, r2 in release(E, s, lk):
                one_call(E, s2, r2, "pthread_mutex_unlock", [mx], "releasing a lock")
                if s2.gget("blk", mut[1])[0] != "live":
                    rep(E, s2, "releasing a lock frees the mutex")

    def cond_steps(E, st, ctx, cell, lk, mx):
        out = outcell(st, "caller's condition")
        clear(st)
        for s, rv in E.call_named(st, P.func("thread_cond_create").name, [("p", out, 0), ctx["alloc"]]):
            if failures(s):
                if rules.status_class(s, rv) == "ok":
                    rep(E, s, "thread_cond_create succeeds although a system call or allocation failed")
                if sum(b[0] == "live" for b in s.ghost["blk"].values()) != 1:
                    rep(E, s, "thread_cond_create fails and loses its memory")
                continue
            cv = created(E, s, rv, out, "thread_cond_create")
            if cv is None:
                continue
            ini = [c for c in calls(s) if c[0] == "pthread_cond_init"]
            if len(calls(s)) != 1 or not ini:
                rep(E, s, "creating a condition makes the calls %s" % names(s))
                continue
            cx = ini[0][1][0]
            for fn, sysc, args, pargs in (("thread_cond_wait", "pthread_cond_wait", [("p", cell, 0), cv], [cx, mx]),
                                          ("thread_cond_signal_one", "pthread_cond_signal", [lk, cv], [cx]),
                                          ("thread_cond_signal_all", "pthread_cond_broadcast", [lk, cv], [cx])):
                t = s.copy()
                clear(t)
                for t2, r2 in E.call_named(t, P.func(fn).name, args):
                    one_call(E, t2, r2, sysc, pargs, fn)
                    if t2.norm(E.read(t2, cell, 0, 8, "p")) != lk:
                        rep(E, t2, "%s changes the caller's lock" % fn)
            clear(s)
            for s2, r2 in release(E, s, cv):
                one_call(E, s2, r2, "pthread_cond_destroy", [cx], "releasing a condition")
                gone(E, s2, cv, "condition")
                yield s2

    def post(E, st, rv, args, ctx):
        mut = created(E, st, rv, ctx["out"], "thread_mutex_create")
        if mut is None:
            return
        ini = [c for c in calls(st) if c[0] == "pthread_mutex_init"]
        if len(calls(st)) != 1 or not ini:
            rep(E, st, "creating a mutex makes the calls %s" % names(st))
            return
        mx = ini[0][1][0]
        after_lock(E, st.copy(), ctx, mut, mx)
        clear(st)
        for s2, r2 in release(E, st, mut):
            one_call(E, s2, r2, "pthread_mutex_destroy", [mx], "releasing a mutex")
            gone(E, s2, mut, "mutex")
    return Job("thread_mutex_create", post, setup, models=thread_models(False), icall=entry_hook, conf={"join_states": False}, name="mutex, lock and condition")


@check("T01", 3)
def t01(ctx):
    P = ctx.prog()
    jobs = [thread_job(P, True), thread_job(P, False), lock_job(P)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "thread")
    return ("Abstract interpretation of whole life cycles (create, run at once or later, join; create, lock, wait, signal, unlock, release) with "
            "every pthread call recorded with its object and either succeeding or failing.")


# --------------------------------------------- P08: descriptor housekeeping
F_DUPFD, F_GETFL, F_SETFL, F_DUPFD_CLOEXEC, O_NONBLOCK = 0, 3, 4, 1030, 0x800


def table(st):
    return dict(st.gget("ptab", "table") or ())


def put(st, t):
    st.gset("ptab", "table", tuple(sorted(t.items())))


def num(E, st, v, what):
    v = st.norm(v)
    if v[0] != "i":
        raise AnalysisBroken("%s is called with %s" % (what, show(v)))
    return signed(v[1], 32)


def minus1(E, st, what):
    st.gset("ptab", "failed", (st.gget("ptab", "failed") or ()) + (what,))
    E.write(st, models.errno_obj(E, st), 0, ("i", 9), 4)
    st.trail += ((E.curloc, "%s fails" % what),)
    return (st, ("i", (1 << 32) - 1))


def fd_models(inject=True):
    """the process's descriptor table, concretely"""
    m = contracts.client_models()

    def dup_to(E, st, a, b):
        t = table(st)
        if a not in t or b < 0:
            return [minus1(E, st, "dup2")]
        res = [minus1(E, st.copy(), "dup2")] if inject else []
        t[b] = t[a]
        put(st, t)
        return [(st, ("i", b))] + res

    def dup2(E, st, args):
        return dup_to(E, st, num(E, st, args[0], "dup2"), num(E, st, args[1], "dup2"))

    def close(E, st, args):
        fd = num(E, st, args[0], "close")
        t = table(st)
        if fd not in t:
            return [minus1(E, st, "close")] if not st.gget("ptab", "lenient") else [(st, ("i", (1 << 32) - 1))]
        del t[fd]
        put(st, t)
        return [(st, ZERO)]

    def close_range(E, st, args):
        lo, hi = num(E, st, args[0], "close_range") & 0xffffffff, st.norm(args[1])[1] & 0xffffffff
        put(st, {k: v for k, v in table(st).items() if not lo <= k <= hi})
        return [(st, ZERO)]

    def closefrom(E, st, args):
        put(st, {k: v for k, v in table(st).items() if k < num(E, st, args[0], "closefrom")})
        return [(st, None)]

    def fcntl(E, st, args):
        fd, cmd = num(E, st, args[0], "fcntl"), num(E, st, args[1], "fcntl")
        t = table(st)
        if fd not in t:
            return [minus1(E, st, "fcntl")]
        f = minus1(E, st.copy(), "fcntl")
        if cmd in (F_DUPFD, F_DUPFD_CLOEXEC):
            n = num(E, st, args[2], "fcntl")
            while n in t:
                n += 1
            t[n] = t[fd]
            put(st, t)
            return [(st, ("i", n))] + ([f] if inject else [])
        if cmd == F_GETFL:
            return [(st, ("i", st.gget("fl", fd) or 0)), f]
        if cmd == F_SETFL:
            st.gset("fl", fd, st.norm(args[2])[1])
            return [(st, ZERO), f]
        raise AnalysisBroken("fcntl with command %d" % cmd)

    def socketpair(E, st, args):
        f = minus1(E, st.copy(), "socketpair")
        st.gset("ptab", "pair", tuple(st.norm(a) for a in args[:3]))
        o, off = E.pointer(st, st.norm(args[3]))
        for k in (0, 1):
            v = st.fresh("side%d" % k, 32, "int")
            st.facts[v] = ((0, (1 << 31) - 1),)
            E.write(st, o, add(("i", off), ("i", 4 * k))[1], v, 4)
            st.gset("ptab", "side%d" % k, v)
        return [(st, ZERO), f]
    m.update(dup2=dup2, close=close, close_range=close_range, closefrom=closefrom, fcntl=fcntl, socketpair=socketpair)
    return m


def va_list(E, st, vals, size):
    """a va_list (System V, x86-64) whose remaining arguments lie on the stack"""
    area = st.new_obj("lazy", ("i", 8 * len(vals)), "undef", None, "(arguments)", {"root": True}, name="arguments")
    for k, v in enumerate(vals):
        E.write(st, area, 8 * k, v, size)
    va = outcell(st, "va_list", 24)
    E.write(st, va, 0, ("i", 48), 4)
    E.write(st, va, 4, ("i", 304), 4)
    E.write(st, va, 8, ("p", area, 0), 8)
    E.write(st, va, 16, ZERO, 8)
    return ("p", va, 0)


def failed(st, but=()):
    return [f for f in st.gget("ptab", "failed") or () if f not in but]


MOVES = [([5, 6], 10), ([10], 10), ([10, 11], 10), ([11, 10], 10), ([5, 10], 10), ([3, 4, 5], 4), ([9, 20, 10], 9), ([5, -1], 10), ([5, 6], -1), ([12, 5], 10),
         ([0], 0), ([0, 1, 2], 3), ([5, 6], 0), ([0, 1], 0)]


def move_job(P, fds, thr):
    name = "move descriptors %s to %d and above" % (fds, thr)

    def setup(E, st, F, ctx):
        t = {0: "in", 1: "out", 2: "err", 12: "bystander"} if thr else {12: "bystander"}       # with a threshold of 0, descriptor 0 can be the new one
        t.update({fd: "file%d" % fd for fd in fds if fd >= 0})
        put(st, t)
        cells = []
        for fd in fds:
            c = outcell(st, "descriptor %d" % fd, 4)
            E.write(st, c, 0, ("i", fd & 0xffffffff), 4)
            cells.append(c)
        ctx.update(before=t, cells=cells)
        return [("i", thr & 0xffffffff), ("p", cells[0], 0), va_list(E, st, [("p", c, 0) for c in cells[1:]] + [ZERO], 8)]

    def post(E, st, rv, args, ctx):
        t, before = table(st), ctx["before"]
        cls = rules.status_class(st, rv)
        now = [num(E, st, E.read(st, c, 0, 4, "i32"), "descriptor") for c in ctx["cells"]]
        bad = failed(st, ("close",))
        if cls == "ok" and (bad or thr < 0 or min(fds) < 0):
            rep(E, st, "moving descriptors succeeds although %s" % ("%s failed" % bad[0] if bad else "an argument is invalid"))
        if cls != "ok" and not bad and thr >= 0 and min(fds) >= 0:
            rep(E, st, "moving descriptors fails although every system call succeeded")
        for fd, n in zip(fds, now):
            if fd < 0:
                continue
            if t.get(n) != before[fd]:
                rep(E, st, "descriptor %d is reported at %d, which is now %s" % (fd, n, "closed" if n not in t else "another file"))
            elif cls == "ok" and n < thr:
                rep(E, st, "descriptor %d stays at %d, below the threshold %d" % (fd, n, thr))
        for n, f in before.items():
            if n not in fds and t.get(n) != f:
                rep(E, st, "descriptor %d, which is not in the list, is %s" % (n, "closed" if n not in t else "replaced"))
        for n, f in t.items():
            if n not in now and n not in before:
                rep(E, st, "a copy of a descriptor stays open at %d" % n)
            if n in fds and n not in now:
                rep(E, st, "the descriptor moved away from %d stays open there" % n)
    return Job("vsocket_utility_move_descriptors", post, setup, models=fd_models(), conf={"unroll": 30}, name=name)


SETS = [([10, 0], None), ([0, 10], None), ([10, 4, 0, 11, 1, 12], None), ([0, 0, 1, 1], None), ([10, 0, 11, 1], None), ([10, 3, 11, 4, 12, 5], None), ([3, 3], None), ([3, 3, 11, 0], None), ([11, 0, 3, 3, 12, 4], None),
        ([-1, 0], 1), ([10, -1], 1), ([10, 0, 11], 1)]


def set_job(P, pairs, bad):
    def setup(E, st, F, ctx):
        src = [x for x in pairs[::2] if x >= 0]
        t = {0: "in", 1: "out", 2: "err", 12: "bystander"}
        t.update({fd: "file%d" % fd for fd in src})
        put(st, t)
        ctx["before"] = t
        a = [("i", x & 0xffffffff) for x in pairs] + [("i", 0xffffffff)]
        return [a[0], a[1], va_list(E, st, a[2:] or [("i", 0xffffffff)], 4)]

    def post(E, st, rv, args, ctx):
        t, before = table(st), ctx["before"]
        cls = rules.status_class(st, rv)
        fl = failed(st, ("close",))
        if cls == "ok" and (fl or bad):
            rep(E, st, "mapping descriptors succeeds although %s" % ("%s failed" % fl[0] if fl else "an argument is invalid"))
        if cls != "ok" and not fl and not bad:
            rep(E, st, "mapping descriptors fails although every system call succeeded")
        todo = list(zip(pairs[::2], pairs[1::2]))
        src, dst = [p[0] for p in todo], [p[1] for p in todo]
        if cls == "ok":
            for s, d in todo:
                if t.get(d) != before[s]:
                    rep(E, st, "after mapping %d to %d, %d is %s" % (s, d, d, "closed" if d not in t else "another file"))
                if s not in dst and s in t:
                    rep(E, st, "descriptor %d stays open after it was mapped" % s)
        for n, f in before.items():
            if n not in src and n not in dst and t.get(n) != f:
                rep(E, st, "descriptor %d, which is not in the list, is %s" % (n, "closed" if n not in t else "replaced"))
        for n in t:
            if n not in before and n not in dst:
                rep(E, st, "an extra descriptor stays open at %d" % n)
    return Job("vsocket_utility_setfds", post, setup, models=fd_models(), conf={"unroll": 30}, name="map descriptors %s" % pairs)


def close_job(P, fn, fd):
    opened = list(range(0, 8)) + [500, 1021, 1022, 1023, 1024, 2000]

    def setup(E, st, F, ctx):
        put(st, {k: "file" for k in opened})
        st.gset("ptab", "lenient", True)
        return [("i", fd)] if fd is not None else []

    def post(E, st, rv, args, ctx):
        t = table(st)
        for k in opened:
            keep = k > 2 if fd is None else k <= fd
            if keep and k not in t:
                rep(E, st, "%s%s closes descriptor %d" % (fn, "" if fd is None else "(%d)" % fd, k))
            if not keep and k in t:
                rep(E, st, "%s leaves descriptors %s open" % (fn, "from %d on" % k if k >= 1024 else "like %d" % k))
                break
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s fails" % fn)
    j = Job(fn, post, setup, models=fd_models(), conf={"unroll": 1100, "max_counted": 1100, "max_visits": 1200, "max_steps": 100000}, name="%s %s" % (fn, fd))
    j.conf_run = {"unrolls": (1100,), "secs": 120}
    return j


def nonblock_job(P, flags):
    def setup(E, st, F, ctx):
        put(st, {7: "file", 8: "other"})
        st.gset("fl", 7, flags)
        st.gset("fl", 8, 0)
        return [("i", 7)]

    def post(E, st, rv, args, ctx):
        bad = failed(st)
        if (rules.status_class(st, rv) == "ok") == bool(bad):
            rep(E, st, "making a descriptor non-blocking %s although fcntl %s" % ("succeeds" if bad else "fails", "failed" if bad else "succeeded"))
        got = st.gget("fl", 7)
        if got != (flags if bad else flags | O_NONBLOCK) or st.gget("fl", 8) != 0:
            rep(E, st, "making a descriptor with flags %#x non-blocking leaves it with %#x" % (flags, got))
    return Job("socket_utility_set_nonblock", post, setup, models=fd_models(), name="set_nonblock, flags %#x" % flags)


def pair_job(P):
    def setup(E, st, F, ctx):
        a = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        ctx["l"], ctx["r"] = outcell(st, "left", 4), outcell(st, "right", 4)
        ctx["a"] = a[:3]
        return a[:3] + [("p", ctx["l"], 0), ("p", ctx["r"], 0)]

    def post(E, st, rv, args, ctx):
        cls = rules.status_class(st, rv)
        if failed(st):
            if cls != "err":
                rep(E, st, "socket_utility_socketpair succeeds although socketpair failed")
            return
        if cls != "ok":
            rep(E, st, "socket_utility_socketpair fails although socketpair succeeded")
            return
        if tuple(st.norm(x) for x in ctx["a"]) != st.gget("ptab", "pair"):
            rep(E, st, "socketpair gets other arguments than the caller's")
        l, r = (st.norm(E.read(st, ctx[k], 0, 4, "i32")) for k in "lr")
        if [l, r] != [st.norm(st.gget("ptab", "side0")), st.norm(st.gget("ptab", "side1"))]:
            rep(E, st, "the two ends of the pair are reported as %s and %s" % (show(l), show(r)))
    return Job("socket_utility_socketpair", post, setup, models=fd_models(), name="socketpair")


def stack_job(P):
    m = thread_models(False)

    def mmap(E, st, args):
        a = tuple(st.norm(x) for x in args)
        f = st.copy()
        f.gset("osx", "calls", calls(f) + (("mmap", a, False),))
        f.trail += ((E.curloc, "mmap fails"),)
        o = st.new_obj("heap", a[1], "zero", None, E.curloc, {}, name="pages")
        st.gset("osx", "calls", calls(st) + (("mmap", a, True),))
        st.gset("osx", "pages", ("p", o, 0))
        return [(st, ("p", o, 0)), (f, ("i", (1 << 64) - 1))]

    def munmap(E, st, args):
        a = tuple(st.norm(x) for x in args)
        f = st.copy()
        f.gset("osx", "calls", calls(f) + (("munmap", a, False),))
        st.gset("osx", "calls", calls(st) + (("munmap", a, True),))
        return [(st, ZERO), (f, ("i", (1 << 32) - 1))]
    m.update(mmap=mmap, munmap=munmap)

    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's stack")
        a = st.fresh("alloc", 64, "struct allocator*", None)
        ctx["size"] = n = st.fresh("size", 64, "unsigned long")
        st.facts[n] = ((1, 1 << 40),)
        return [("p", c, 0), a, n]

    def post(E, st, rv, args, ctx):
        o = created(E, st, rv, ctx["out"], "stack_create")
        if o is None:
            return
        c = calls(st)
        if len(c) != 1 or c[0][0] != "mmap":
            rep(E, st, "creating a stack makes the calls %s" % names(st))
            return
        a = c[0][1]
        if not must(E, st, "uge", a[1], ctx["size"]):
            rep(E, st, "the stack is smaller than asked for")
        if a[2][0] == "i" and a[2][1] & 3 != 3:
            rep(E, st, "the stack is not readable and writable")
        if a[3][0] == "i" and (not a[3][1] & 0x20 or a[3][1] & 3 != 2 or low(st, a[4]) != ("i", 0xffffffff)):
            rep(E, st, "the stack's memory is not private and anonymous")
        reg, sz = shape.getf(E, st, o[1], "stack", "region"), shape.getf(E, st, o[1], "stack", "size")
        if reg != st.gget("osx", "pages") or not must(E, st, "ule", sz, a[1]) or not must(E, st, "ule", ctx["size"], sz):
            rep(E, st, "the stack records %s with %s bytes, not the memory obtained" % (show(reg), show(sz)))
        clear(st)
        for s, r2 in release(E, st, o):
            c = calls(s)
            if len(c) != 1 or c[0][0] != "munmap" or s.norm(c[0][1][0]) != s.norm(s.gget("osx", "pages")) or not same(E, s, c[0][1][1], a[1]):
                rep(E, s, "releasing a stack does not unmap exactly its memory")
                continue
            if c[0][2]:
                gone(E, s, o, "stack")
            if (rules.status_class(s, r2) == "ok") != c[0][2]:
                rep(E, s, "releasing a stack reports %s although munmap %s" % (("failure", "succeeded") if c[0][2] else ("success", "failed")))
    return Job("stack_create", post, setup, models=m, icall=entry_hook, name="stack")


@check("P08", 30)
def p08(ctx):
    P = ctx.prog()
    jobs = [move_job(P, *c) for c in MOVES] + [set_job(P, *c) for c in SETS]
    jobs += [close_job(P, "socket_utility_close_other_fds", fd) for fd in (2, 5, 1020, 1022, 1023)]
    jobs += [close_job(P, "socket_utility_close_standard_fds", None)]
    jobs += [nonblock_job(P, f) for f in (0, O_NONBLOCK, 0x402, 0x8001 | O_NONBLOCK)] + [pair_job(P), stack_job(P)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "descriptor")
    return ("Abstract interpretation of the descriptor utilities against a model of the process's descriptor table (dup2, close, fcntl, "
            "socketpair; each may fail) for argument lists that include descriptors already in place or at each other's target, and of "
            "a stack's life cycle against recorded mmap and munmap calls.")
