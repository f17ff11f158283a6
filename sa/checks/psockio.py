"""Psock back ends: the descriptor psock's system calls, the blocking wrapper,
the fiber's wait for readiness and the readiness discipline behind it."""
import contracts
import models
import rules
import shape
from engine import Engine, State, width_of
from framework import check, AnalysisBroken, ObjectBroken
from sweep import Job
from values import *

EAGAIN = 11
EINTR, ENOENT, EEXIST = 4, 2, 17
KINDS = {"no-progress", "psockio", "null-deref", "uninit", "out-of-bounds"}
BLOCKCODES = ("ERROR_PSOCK_READ_WOULD_BLOCK", "ERROR_PSOCK_WRITE_WOULD_BLOCK", "ERROR_PSOCK_ACCEPT_WOULD_BLOCK")
POS = ((4096, (1 << 63) - 1),)
DISCIPLINE = "FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE"


def rep(E, st, m):
    E.report(st, "psockio", m, fatal=False)


def slot_of(P, creator, slot, struct="psock_vtable"):
    """the short name of the function a constructor wires to a vtable slot"""
    vt = shape.vtable(P, creator)
    E = Engine(P, {})
    v = E.load(State(), ("p", vt[1], P.offset(struct, slot)), 8, "p")
    if v == ZERO:
        return None
    if v[0] != "f":
        raise ObjectBroken(P, creator, "hands out an object whose method %s is %s" % (slot, show(v)))
    return v[1]


def must(E, st, pred, a, b, w=64):
    """does the relation hold in every concretisation of st?"""
    s = st.copy()
    neg = {"eq": "ne", "ne": "eq", "ule": "ugt", "ult": "uge", "uge": "ult", "ugt": "ule"}[pred]
    return not E.assume(s, E.cmp(s, neg, s.norm(a), s.norm(b), w), True)


def same(E, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        return True
    if a[0] == "p" or b[0] == "p":
        if a[0] != "p" or b[0] != "p" or a[1] != b[1]:
            return False
        a, b = off_val(a[2]), off_val(b[2])
    d = add(a, b, -1)
    if d is None:
        return False
    d = st.norm(d)
    return d == ZERO or E.diff_range(st, d) == (0, 0)


def low(st, v, w=32):
    """a value as a w-bit quantity, for comparisons"""
    v = st.norm(v)
    return ("i", v[1] & ((1 << w) - 1)) if v[0] == "i" else v


def new_ptr(st, name, ty):
    s = st.fresh(name, 64, ty, None)
    st.facts[s] = POS
    return s


def outcell(st, name, n=8, default="undef"):
    o = st.new_obj("lazy", ("i", n), default, None, "(%s)" % name, name=name)
    st.heap[o].meta = {"root": True}
    return o


def finish(ctx, R, what):
    for r in R:
        ctx.rule("%s cases" % what)
        if r["exits"] == 0 and not r["reports"]:
            raise AnalysisBroken("%s has no exit: %s" % (r["job"], r["incomplete"]))
        if r["incomplete"]:
            raise AnalysisBroken("%s: %s" % (r["job"], r["incomplete"]))


# ------------------------------------------------- P03: the descriptor psock
# slot -> (system call, code for "try again", argument positions passed through)
SYS = {"read_fn": ("read", BLOCKCODES[0]), "write_fn": ("write", BLOCKCODES[1]), "accept_fn": ("accept", BLOCKCODES[2]),
       "recvmsg_fn": ("recvmsg", BLOCKCODES[0]), "sendmsg_fn": ("sendmsg", BLOCKCODES[1]), "setsockopt_fn": ("setsockopt", None)}


def sys_model(name):
    def m(E, st, args):
        st.gset("io", "calls", (st.gget("io", "calls") or ()) + ((name, tuple(st.norm(a) for a in args)),))
        res = []
        w = 32 if name in ("accept", "setsockopt") else 64
        for what, facts in (("EAGAIN", ((EAGAIN, EAGAIN),)), ("another errno", ((1, EAGAIN - 1), (EAGAIN + 1, 4095)))):
            f = st.copy()
            e = f.fresh("errno." + name, 32, "int")
            f.facts[e] = facts
            E.write(f, models.errno_obj(E, f), 0, e, 4)
            f.gset("io", "outcome", what)
            f.event("sysfail", name, E.curloc, e)
            f.trail += ((E.curloc, "%s fails with %s" % (name, what)),)
            res.append((f, ("i", (1 << w) - 1)))
        if name == "setsockopt":
            r = ZERO
        else:
            r = st.fresh("result." + name, w, "long")
            st.facts[r] = ((0, (1 << (w - 1)) - 1),)
            if name in ("read", "write"):
                E.assume(st, E.cmp(st, "ule", r, st.norm(args[2]), 64), True)
            if name == "read":
                p = st.norm(args[1])
                if p[0] == "p":
                    models.havoc_buffer(E, st, p)
            if name == "recvmsg":
                models.havoc_msghdr(E, st, args[1])
        st.gset("io", "outcome", "ok")
        st.gset("io", "result", r)
        st.trail += ((E.curloc, "%s succeeds" % name),)
        return [(st, r)] + res
    return m


def descriptor_job(P, slot):
    call, wb = SYS[slot]
    fn = slot_of(P, "psock_create_from_descriptor", slot)
    if fn is None:
        raise AnalysisBroken("the descriptor psock has no %s" % slot)

    def setup(E, st, F, ctx):
        so = shape.new_struct(E, st, "psock_from_descriptor", "descriptor psock")
        fd = st.fresh("descriptor", 32, "int")
        st.facts[fd] = ((0, (1 << 31) - 1),)
        shape.setf(E, st, so, "psock_from_descriptor", "descriptor", fd, 4)
        args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        args[0] = ("p", so, 0)
        ctx["fd"] = fd
        if slot in ("read_fn", "write_fn"):
            ctx["size"] = n = st.fresh("size", 64, "unsigned long")
            st.facts[n] = ((0, (1 << 62)),)
            ctx["out"] = o = outcell(st, "caller's size")
            E.write(st, o, 0, n, 8)
            args[3] = ("p", o, 0)
        if slot == "accept_fn":
            ctx["out"] = o = outcell(st, "caller's descriptor", 4)
            args[2] = ("p", o, 0)
        if slot == "recvmsg_fn":
            ctx["out"] = o = outcell(st, "caller's length")
            E.write(st, o, 0, st.fresh("len", 64, "unsigned long"), 8)
            args[3] = ("p", o, 0)
        for i, a in enumerate(args):
            if st.norm(a)[0] == "s" and F.args[i][1] in ("p", "ptr"):
                st.facts[a] = POS
        ctx["args"] = list(args)
        return args

    def expected(a, ctx):
        if slot in ("read_fn", "write_fn"):
            return [a[2], ctx["size"]]
        if slot == "accept_fn":
            return [a[3], a[4]]
        if slot == "setsockopt_fn":
            return a[2:6]
        return [a[2], a[4] if slot == "recvmsg_fn" else a[3]]

    def post(E, st, rv, args, ctx):
        calls = st.gget("io", "calls") or ()
        if len(calls) != 1 or calls[0][0] != call:
            rep(E, st, "%s makes the system calls %s where one %s is due" % (fn, [c[0] for c in calls], call))
            return
        a = calls[0][1]
        if st.norm(a[0]) != st.norm(ctx["fd"]):
            rep(E, st, "%s calls %s on %s instead of the psock's descriptor" % (fn, call, show(a[0])))
        for i, (got, want) in enumerate(zip(a[1:], expected(ctx["args"], ctx))):
            if not same(E, st, low(st, got) if got[0] == "i" else got, low(st, want) if st.norm(want)[0] == "i" else want):
                rep(E, st, "%s passes %s to %s where its caller's argument is due" % (fn, show(st.norm(got)), call))
        oc = st.gget("io", "outcome")
        cls = rules.status_class(st, rv)
        if oc == "ok":
            if cls != "ok":
                rep(E, st, "%s fails although %s succeeded" % (fn, call))
                return
            if "out" in ctx:
                n = 4 if slot == "accept_fn" else 8
                got = st.norm(E.read(st, ctx["out"], 0, n, "i%d" % (n * 8)))
                if not same(E, st, got, st.gget("io", "result")):
                    rep(E, st, "%s reports %s where %s returned %s" % (fn, show(got), call, show(st.norm(st.gget("io", "result")))))
        elif cls != "err":
            rep(E, st, "%s reports success although %s failed with %s" % (fn, call, oc))
        elif oc == "EAGAIN" and wb:
            if low(st, rv) != ("i", contracts.code(wb)):
                rep(E, st, "%s reports %s where %s means %s" % (fn, show(st.norm(rv)), oc, wb))
            if slot == "read_fn" and not same(E, st, st.norm(E.read(st, ctx["out"], 0, 8, "i64")), ZERO):
                rep(E, st, "%s would block but counts bytes as read" % fn)
        elif low(st, rv) in [("i", contracts.code(c)) for c in BLOCKCODES]:
            rep(E, st, "%s reports a would-block condition although %s failed with another error" % (fn, call))
    mods = contracts.client_models()
    for c, _ in SYS.values():
        mods[c] = sys_model(c)
    return Job(fn, post, setup, models=mods, name="descriptor psock %s" % slot)


@check("P03", 6)
def p03(ctx):
    P = ctx.prog()
    R = ctx.sweep([descriptor_job(P, s) for s in SYS], kinds=KINDS)
    finish(ctx, R, "descriptor operation")
    return ("Abstract interpretation of every method the descriptor psock's constructor installs in its vtable, against models of the system call that "
            "enumerate success with any result, EAGAIN and every other errno.")


# --------------------------------------------- P04: the non-blocking wrapper
class Spec:
    def __init__(self, keys):
        self.keys = keys

    def loop_key(self, st):
        return tuple(st.gget("w", k) for k in self.keys)


KEYS = ("last", "waits")


def anyerr(but):
    """error codes other than those in but"""
    cut = sorted(contracts.code(c) for c in but)
    lo, res = 1 << 31, []
    for c in cut:
        if c > lo:
            res.append((lo, c - 1))
        lo = c + 1
    res.append((lo, (1 << 32) - 1))
    return tuple(res)


def blocking(st):
    return st.gget("w", "block")


def wrapped_slot(E, st, fld, args):
    wb = {"read_fn": BLOCKCODES[0], "write_fn": BLOCKCODES[1], "accept_fn": BLOCKCODES[2],
          "recvmsg_fn": BLOCKCODES[0], "sendmsg_fn": BLOCKCODES[1]}[fld]
    G = lambda k: st.gget("w", k)
    if fld != G("slot"):
        rep(E, st, "the wrapped psock's %s is called by the wrapper of %s" % (fld, G("slot")))
    w = st.norm(G("wrapped"))
    if st.norm(args[0]) != w:
        rep(E, st, "the call is not addressed to the wrapped psock")
    if w[0] == "p" and st.norm(E.read(st, w[1], w[2] + E.prog.offset("psock", "context"), 8, "p")) != st.norm(args[1]):
        rep(E, st, "the call does not pass the wrapped psock's context")
    last = G("last")
    if last == "wouldblock":
        rep(E, st, "the operation is tried again without waiting for the descriptor")
    elif last is not None:
        rep(E, st, "the operation is tried again after %s" % last)
    res = []

    def branch(s, last, why, rv):
        s.gset("w", "last", last)
        if last is not None:
            s.gset("w", "code", rv)
        s.trail += ((E.curloc, why),)
        res.append((s, rv))
    xfer = fld in ("read_fn", "write_fn")
    for last, why, facts in (("wouldblock", "the wrapped psock would block", ((contracts.code(wb),) * 2,)),
                             ("an error", "the wrapped psock fails", anyerr([wb]))):
        f = st.copy()
        c = f.fresh("err.callback:" + fld, 32, "status")
        f.facts[c] = facts
        if xfer:
            E.store(f, args[3], f.fresh("part", 64, "unsigned long"), 8)
            if fld == "read_fn" and st.norm(args[2])[0] == "p" and last != "wouldblock":
                pass
        branch(f, last, why, f.norm(c) if last != "wouldblock" else ("i", contracts.code(wb)))
    if not xfer:
        for i, (got, want) in enumerate(zip(args[2:], G("args")[2:])):
            if not same(E, st, low(st, got) if st.norm(got)[0] == "i" else got, want):
                rep(E, st, "the wrapper passes %s on where its caller's argument is due" % show(st.norm(got)))
        branch(st, "success", "the wrapped psock succeeds", ZERO)
        return res
    n = st.norm(E.load(st, args[3], 8, "i64"))
    cell = G("cell")
    moved = st.norm(E.read(st, cell, 0, 8, "i64"))
    total = st.norm(G("total"))
    base = st.norm(G("data"))
    if not same(E, st, args[2], ("p", base[1], val_off(add(off_val(base[2]), moved)))):
        rep(E, st, "a transfer does not continue where the previous one ended (%s after %s bytes)" % (show(st.norm(args[2])), show(moved)))
    rest = add(total, moved, -1)
    if not same(E, st, n, rest):
        s = st.copy()
        if E.assume(s, E.cmp(s, "ugt", n, s.norm(rest), 64), True):
            rep(E, st, "a transfer of %s bytes is asked for where %s remain" % (show(n), show(st.norm(rest))))
    if fld == "read_fn":
        b = G("block")
        if low(st, args[4], 1) != ("i", 1 if b else 0):
            rep(E, st, "the wrapper does not pass on whether to block")
    z = st.copy()
    E.store(z, args[3], ZERO, 8)
    if n != ZERO and E.assume(z, E.cmp(z, "ne", n, ZERO, 64), True):
        branch(z, "an empty transfer", "nothing is transferred", ZERO)
    m = st.fresh("moved", 64, "unsigned long")
    st.facts[m] = ((1, 1 << 62),)
    if E.assume(st, E.cmp(st, "ule", m, n, 64), True):
        E.write(st, cell, 0, st.norm(add(moved, m)), 8)
        E.store(st, args[3], m, 8)
        branch(st, None, "some bytes are transferred", ZERO)
    return res


def wait_model(direction):
    def m(E, st, args):
        slot = st.gget("w", "slot")
        if st.norm(args[0]) != st.norm(st.gget("w", "self")):
            rep(E, st, "the wait is not for this psock")
        if direction != ("write" if slot in ("write_fn", "sendmsg_fn") else "read"):
            rep(E, st, "the wrapper of %s waits for the psock to be ready to %s" % (slot, direction))
        if not blocking(st):
            rep(E, st, "a non-blocking operation waits")
        if st.gget("w", "last") != "wouldblock":
            rep(E, st, "the wrapper waits after %s" % (st.gget("w", "last") or "a transfer that made progress"))
        f = st.copy()
        c = f.fresh("err.wait", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "last", "a failed wait")
        f.gset("w", "code", c)
        f.trail += ((E.curloc, "the wait fails"),)
        st.gset("w", "last", None)
        st.trail += ((E.curloc, "the psock becomes ready"),)
        return [(st, ZERO), (f, c)]
    return m


def async_icall(E, st, fv, args, org, rty):
    fld = str(org[2]).split(".")[-1] if org else None
    if fld in ("read_fn", "write_fn", "accept_fn", "recvmsg_fn", "sendmsg_fn"):
        return wrapped_slot(E, st, fld, args)
    return contracts.icall(E, st, fv, args, org, rty)


def async_job(P, slot, block=True, empty=False):
    fn = slot_of(P, "psock_create_wrap_async", slot)
    if fn is None:
        raise AnalysisBroken("the wrapper has no %s" % slot)
    xfer = slot in ("read_fn", "write_fn")

    def setup(E, st, F, ctx):
        so = shape.new_struct(E, st, "psock_wrap_async", "wrapper psock")
        w = new_ptr(st, "wrapped", "struct psock*")
        shape.setf(E, st, so, "psock_wrap_async", "wrapped", w)
        shape.setf(E, st, so, "psock", "type", ("i", 3), 4)
        args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        args[0] = ("p", so, 0)
        for i, a in enumerate(args[1:], 1):
            if F.args[i][1] in ("p", "ptr"):
                st.facts[a] = POS
        st.gset("w", "self", args[0])
        st.gset("w", "wrapped", w)
        st.gset("w", "slot", slot)
        st.gset("w", "block", block)
        st.gset("w", "last", None)
        if xfer:
            n = ZERO
            if not empty:
                n = st.fresh("size", 64, "unsigned long")
                st.facts[n] = ((1, (1 << 62)),)
            o = outcell(st, "caller's size")
            E.write(st, o, 0, n, 8)
            d = st.new_obj("lazy", None, "lazy", None, "(caller's data)", name="data")
            st.heap[d].meta = {"root": True}
            c = outcell(st, "bytes transferred")
            E.write(st, c, 0, ZERO, 8)
            args[2], args[3] = ("p", d, 0), ("p", o, 0)
            if slot == "read_fn":
                args[4] = ("i", 1 if block else 0)
            st.gset("w", "data", args[2])
            st.gset("w", "total", n)
            st.gset("w", "cell", c)
            ctx["size"] = o
        st.gset("w", "args", tuple(args))
        return args

    def post(E, st, rv, args, ctx):
        last, code = st.gget("w", "last"), st.gget("w", "code")
        ok = rules.status_class(st, rv) == "ok"
        what = "%s (%s)" % (fn, "blocking" if block else "non-blocking")
        unset = False
        if not xfer and last is None and code is None and not ok:
            # the wrapped psock does not support the operation
            if low(st, rv) != ("i", contracts.code("ERROR_PSOCK_METHOD_UNDEFINED")):
                rep(E, st, "%s fails with %s without calling the wrapped psock" % (what, show(st.norm(rv))))
            return
        if last == "wouldblock" and block:
            rep(E, st, "%s returns without waiting although the wrapped psock would block" % what)
            return
        if not xfer:
            if last == "success" and not ok:
                rep(E, st, "%s fails although the wrapped psock succeeded" % what)
            elif last != "success" and ok:
                rep(E, st, "%s reports success after %s" % (what, last or "no call"))
            elif last != "success" and st.norm(rv) != st.norm(code):
                rep(E, st, "%s reports %s after %s with %s" % (what, show(st.norm(rv)), last, show(st.norm(code))))
            return
        moved = st.norm(E.read(st, st.gget("w", "cell"), 0, 8, "i64"))
        total = st.norm(st.gget("w", "total"))
        size = st.norm(E.read(st, ctx["size"], 0, 8, "i64"))
        complete = same(E, st, moved, total)
        if ok:
            if not same(E, st, size, moved):
                rep(E, st, "%s succeeds and reports %s bytes where %s were transferred" % (what, show(size), show(moved)))
            if not complete and (block or must(E, st, "eq", moved, ZERO)):
                rep(E, st, "%s reports success after %s of %s bytes" % (what, show(moved), show(total)))
            if not complete and not block and last is None:
                rep(E, st, "%s stops after %s of %s bytes although more may be available" % (what, show(moved), show(total)))
            return
        if last is None:
            rep(E, st, "%s fails although the transfer made progress" % what)
        elif not block and not must(E, st, "eq", moved, ZERO):
            rep(E, st, "%s reports a failure and drops the %s bytes already read" % (what, show(moved)))
        elif last == "an empty transfer":
            if low(st, rv) in [("i", contracts.code(c)) for c in BLOCKCODES]:
                rep(E, st, "%s reports end of file as a would-block condition" % what)
        elif st.norm(rv) != st.norm(code):
            rep(E, st, "%s reports %s after %s with %s" % (what, show(st.norm(rv)), last, show(st.norm(code))))
    mods = contracts.client_models()
    mods["psock_read_block"] = wait_model("read")
    mods["psock_write_block"] = wait_model("write")
    j = Job(fn, post, setup, models=mods, icall=async_icall, spec=Spec(KEYS),
            name="wrapper psock %s %s%s" % (slot, "blocking" if block else "non-blocking", " empty" if empty else ""))
    j.conf_run = {"unrolls": (3,)}
    return j


@check("P04", 9)
def p04(ctx):
    P = ctx.prog()
    jobs = [async_job(P, "read_fn", False), async_job(P, "read_fn", False, True)]
    for s in ("read_fn", "write_fn"):
        jobs += [async_job(P, s), async_job(P, s, True, True)]
    jobs += [async_job(P, s) for s in ("accept_fn", "recvmsg_fn", "sendmsg_fn")]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "wrapper operation")
    return ("Abstract interpretation, to a loop fixpoint, of every method the blocking wrapper's constructor installs, with the wrapped psock's methods "
            "modelled as would-block, failing, empty, partial or full, and a transfer counter as ghost state.")


# ------------------------------------ P05: waiting for readiness, and waking
EPIN, EPOUT, EPERR, EPHUP, EPRDHUP = 1, 4, 8, 16, 0x2000
SLOT = {"read": "read_block_fib", "write": "write_block_fib"}
RESUME = {"read": 0, "write": 1}     # published resume event codes


def glob(P, name):
    g = "@" + name
    if g not in P.globals:
        raise AnalysisBroken("global %s is not defined" % name)
    return ("p", g, 0)


def wait_handlers(P):
    """the callbacks the readiness discipline registers, in order"""
    got = []

    def create(E, st, args):
        n = st.norm(args[4])
        p = st.norm(args[5])
        if n[0] != "i" or p[0] != "p":
            raise AnalysisBroken("the discipline is created with %s callbacks" % show(n))
        got.append([st.norm(E.load(st, ("p", p[1], p[2] + 8 * i), 8, "p")) for i in range(n[1])])
        return shape.found("struct fiber_scheduler_discipline*")(E, st, args)
    fn = "psock_fiber_scheduler_discipline_create"
    mods = dict(models.default_models(), fiber_scheduler_discipline_create=create,
                psock_fiber_scheduler_discipline_context_create=shape.found("struct resource*"),
                psock_fiber_scheduler_discipline_set_resource_release=lambda E, st, a: [(st, None)])
    E = Engine(P, mods)
    E.entry = fn
    st = State()
    F = P.func(fn)
    E.run(st, F, [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args])
    if len(got) != 1 or any(v[0] != "f" for v in got[0]):
        raise AnalysisBroken("the callbacks of the readiness discipline cannot be determined")
    return [v[1] for v in got[0]]


def wait_job(P, direction, taken, handlers):
    fn = "psock_%s_block" % direction
    field = SLOT[direction]
    other = SLOT["write" if direction == "read" else "read"]

    def current(E, st, args):
        return E.fallible(st, "disciplined_fiber_scheduler_current_fiber_get",
                          lambda s: E.store(s, s.norm(args[0]), s.gget("w", "cur"), 8))

    def slots(E, st):
        so = st.gget("w", "obj")
        return shape.getf(E, st, so, "psock_wrap_async", field), shape.getf(E, st, so, "psock_wrap_async", other)

    def do_yield(E, st, args):
        so = st.gget("w", "obj")
        last = st.gget("w", "last")
        if taken:
            rep(E, st, "%s waits although another fiber is already waiting" % fn)
        if last not in (None, "unexpected handled"):
            rep(E, st, "%s waits again after %s" % (fn, last))
        a, b = slots(E, st)
        if a != st.norm(st.gget("w", "cur")):
            rep(E, st, "%s yields while the psock records %s as the waiting fiber" % (fn, show(a)))
        if b != st.norm(st.gget("w", "other")):
            rep(E, st, "%s changes who waits to %s" % (fn, "write" if direction == "read" else "read"))
        if st.norm(args[0]) != shape.getf(E, st, so, "psock_wrap_async", "psock_discipline"):
            rep(E, st, "%s yields to another discipline" % fn)
        ev = low(st, args[1])
        if ev[0] != "i" or ev[1] >= len(handlers):
            rep(E, st, "%s yields with event %s, which the discipline does not handle" % (fn, show(ev)))
        if st.norm(args[2]) != ("p", so, 0):
            rep(E, st, "%s yields for another psock" % fn)
        res = []
        f = st.copy()
        c = f.fresh("err.yield", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "last", "a failed yield")
        f.gset("w", "code", c)
        f.trail += ((E.curloc, "the yield fails"),)
        res.append((f, c))
        off = E.prog.offset("psock_wrap_async", field)
        for who in ("itself", "nobody", "another"):
            for disc in (DISCIPLINE, "FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE"):
                if disc != DISCIPLINE and who == "nobody":
                    continue
                s = st.copy()
                E.store(s, args[3], glob(E.prog, disc), 8)
                E.store(s, args[4], s.fresh("event", 32, "int"), 4)
                E.store(s, args[5], s.fresh("param", 64, "void*"), 8)
                if who == "nobody":
                    E.write(s, so, off, ZERO, 8)
                elif who == "another":
                    n = ("p", shape.new_struct(E, s, "fiber", "newcomer", kind="lazy"), 0)
                    s.gset("w", "newcomer", n)
                    E.write(s, so, off, n, 8)
                ready = disc == DISCIPLINE
                s.gset("w", "last", "readiness" if ready else "an unexpected event")
                s.trail += ((E.curloc, "the fiber is resumed by %s; the psock records %s as waiting" % (disc, who)),)
                res.append((s, ZERO))
        return res

    def unexpected(E, st, args):
        if st.gget("w", "last") != "an unexpected event":
            rep(E, st, "%s calls the unexpected-event handler after %s" % (fn, st.gget("w", "last")))

        def ok(s):
            s.gset("w", "last", "unexpected handled")
        r = E.fallible(st, "fiber_unexpected_event", ok, lambda s: s.gset("w", "last", "an unhandled event"))
        r[1][0].gset("w", "code", r[1][1])
        return r

    def setup(E, st, F, ctx):
        so = shape.new_struct(E, st, "psock_wrap_async", "wrapper psock")
        st.gset("w", "obj", so)
        shape.setf(E, st, so, "psock", "type", ("i", 3), 4)
        for f in ("wrapped", "fib", "psock_discipline"):
            shape.setf(E, st, so, "psock_wrap_async", f, new_ptr(st, f, "struct %s*" % {"wrapped": "psock", "fib": "fiber", "psock_discipline": "fiber_scheduler_discipline"}[f]))
        cur = ("p", shape.new_struct(E, st, "fiber", "current fiber", kind="lazy"), 0)
        oth = st.fresh("otherwaiter", 64, "struct fiber*", None)
        st.gset("w", "cur", cur)
        st.gset("w", "other", oth)
        ctx["waiter"] = w = new_ptr(st, "waiter", "struct fiber*") if taken else ZERO
        shape.setf(E, st, so, "psock_wrap_async", field, w)
        shape.setf(E, st, so, "psock_wrap_async", other, oth)
        st.gset("w", "last", None)
        return [("p", so, 0)]

    def post(E, st, rv, args, ctx):
        last = st.gget("w", "last")
        ok = rules.status_class(st, rv) == "ok"
        a, b = slots(E, st)
        new = st.gget("w", "newcomer")
        if b != st.norm(st.gget("w", "other")):
            rep(E, st, "%s changes who waits to %s" % (fn, "write" if direction == "read" else "read"))
        if taken:
            if a != st.norm(ctx["waiter"]):
                rep(E, st, "%s replaces the fiber already waiting by %s" % (fn, show(a)))
            if ok:
                rep(E, st, "%s reports success although another fiber waits" % fn)
            elif not rules.fail_events(st) and low(st, rv) != ("i", contracts.code("ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED")):
                rep(E, st, "%s reports %s when another fiber waits" % (fn, show(st.norm(rv))))
            return
        if new is not None:
            if a != st.norm(new):
                rep(E, st, "%s drops another fiber that started to wait in the meantime (the psock records %s)" % (fn, show(a)))
        elif a != ZERO:
            rep(E, st, "%s returns but leaves %s recorded as waiting" % (fn, show(a)))
        if ok and last != "readiness":
            rep(E, st, "%s reports success after %s" % (fn, last or "no wait at all"))
        if not ok and last == "readiness":
            rep(E, st, "%s fails although the psock became ready" % fn)
        if not ok and last == "unexpected handled" and new is None:
            rep(E, st, "%s gives up after an unexpected event that was handled" % fn)
        if last in ("a failed yield", "an unhandled event") and st.norm(rv) != st.norm(st.gget("w", "code")):
            rep(E, st, "%s reports %s after %s" % (fn, show(st.norm(rv)), last))
    mods = dict(contracts.client_models(), disciplined_fiber_scheduler_current_fiber_get=current, fiber_discipline_yield=do_yield,
                fiber_unexpected_event=unexpected)
    j = Job(fn, post, setup, models=mods, spec=Spec(("last",)), name="%s%s" % (fn, " (taken)" if taken else ""))
    j.conf_run = {"unrolls": (3,)}
    return j


def io_objects(E, st, readers):
    """a wrapper psock over a descriptor, with the given kinds of waiter"""
    P = E.prog
    d = shape.new_struct(E, st, "psock_from_descriptor", "descriptor psock")
    fd = st.fresh("descriptor", 32, "int")
    st.facts[fd] = ((0, (1 << 31) - 1),)
    shape.setf(E, st, d, "psock_from_descriptor", "descriptor", fd, 4)
    s = shape.new_struct(E, st, "psock_wrap_async", "wrapper psock")
    shape.setf(E, st, s, "psock_wrap_async", "wrapped", ("p", d, 0))
    shape.setf(E, st, s, "psock", "type", ("i", 3), 4)
    fibs = {}
    for k, f in SLOT.items():
        v = new_ptr(st, "%ser" % k, "struct fiber*") if k in readers else ZERO
        shape.setf(E, st, s, "psock_wrap_async", f, v)
        fibs[k] = v
    return s, fd, fibs


def io_context(E, st):
    c = shape.new_struct(E, st, "psock_io_epoll_context", "readiness context")
    ep = st.fresh("ep", 32, "int")
    st.facts[ep] = ((0, (1 << 31) - 1),)
    shape.setf(E, st, c, "psock_io_epoll_context", "ep", ep, 4)
    sch = new_ptr(st, "sched", "struct fiber_scheduler*")
    shape.setf(E, st, c, "psock_io_epoll_context", "sched", sch)
    return c, ep, sch


def epoll_ctl(E, st, args):
    """the kernel's registration table for the descriptors seen so far"""
    ep, op, fd, evp = [st.norm(a) for a in args]
    op = low(st, op)
    if ep != st.norm(st.gget("w", "ep")):
        rep(E, st, "epoll_ctl on %s instead of the discipline's epoll descriptor" % show(ep))
    if op[0] != "i" or op[1] not in (1, 2, 3):
        rep(E, st, "epoll_ctl with operation %s" % show(op))
        return [(st, ("i", (1 << 32) - 1))]
    res = []
    f = st.copy()
    e = f.fresh("errno.epoll_ctl", 32, "int")
    f.facts[e] = ((1, 1), (3, EEXIST - 1), (EEXIST + 1, 4095))
    E.write(f, models.errno_obj(E, f), 0, e, 4)
    f.gset("w", "ctlfail", True)
    f.event("sysfail", "epoll_ctl", E.curloc, e)
    f.trail += ((E.curloc, "epoll_ctl fails"),)
    res.append((f, ("i", (1 << 32) - 1)))
    for known in ((True, False) if st.gget("reg", fd) is None else (bool(st.gget("reg", fd)),)):
        s = st.copy()
        s.trail += ((E.curloc, "the descriptor is %s" % ("known to epoll" if known else "not known to epoll")),)
        if known == (op[1] == 1):
            E.write(s, models.errno_obj(E, s), 0, ("i", EEXIST if known else ENOENT), 4)
            s.gset("reg", fd, "stale" if known else 0)
            res.append((s, ("i", (1 << 32) - 1)))
            continue
        if op[1] == 2:
            s.gset("reg", fd, 0)
        else:
            p = s.norm(evp)
            oid, off = E.pointer(s, p)
            E.check_access(s, oid, off, 12, "epoll_ctl")
            ev = s.norm(E.read(s, oid, off, 4, "i32"))
            data = s.norm(E.read(s, oid, off + 4, 8, "p"))
            s.gset("reg", fd, ("set", ev, data))
        res.append((s, ZERO))
    return res


def armed(E, st, fd, pso, fibs, what):
    """the registration matches who waits; returns an error text or None"""
    g = st.gget("reg", st.norm(fd))
    if not isinstance(g, tuple):
        return "%s but the descriptor is not registered with epoll" % what
    ev, data = g[1], g[2]
    if ev[0] != "i":
        return "%s and the requested events are %s" % (what, show(ev))
    if data != ("p", pso, 0):
        return "%s and the registration refers to %s instead of the psock" % (what, show(data))
    for k, bit in (("read", EPIN), ("write", EPOUT)):
        if bool(ev[1] & bit) != (k in fibs):
            return "%s and the registration %s %s" % (what, "asks for" if ev[1] & bit else "does not ask for", "readiness to " + k)
    return None


def handler_job(P, fn, i, waiters):
    what = "%s with %s waiting" % (fn, " and ".join("a %ser" % w.replace("write", "writ").replace("read", "read") for w in waiters))

    def setup(E, st, F, ctx):
        c, ep, sch = io_context(E, st)
        so, fd, fibs = io_objects(E, st, waiters)
        st.gset("w", "ep", ep)
        ctx.update(so=so, fd=fd)
        return [("p", c, 0), fibs[waiters[0]], ("i", i), ("p", so, 0)]

    def post(E, st, rv, args, ctx):
        ok = rules.status_class(st, rv) == "ok"
        if not ok:
            if not st.gget("w", "ctlfail"):
                rep(E, st, "%s fails although the descriptor can be registered" % what)
            return
        m = armed(E, st, ctx["fd"], ctx["so"], waiters, "%s: success" % what)
        if m:
            rep(E, st, m)
    return Job(fn, post, setup, models=dict(contracts.client_models(), epoll_ctl=epoll_ctl), name="%d %s" % (i, what))


def mask_text(m):
    return "|".join(n for b, n in ((EPIN, "IN"), (EPOUT, "OUT"), (EPERR, "ERR"), (EPHUP, "HUP"), (EPRDHUP, "RDHUP")) if m & b)


def idle_job(P, events):
    """events: tuple of (waiters, mask)"""
    fn = "psock_idle_fiber_entry"
    what = " then ".join("%s with %s waiting" % (mask_text(m), "+".join(w) or "nobody") for w, m in events)

    def due(w, m):
        return {k for k, b in (("read", EPIN), ("write", EPOUT)) if k in w and m & (b | EPERR | EPHUP)}

    def may(w, m):
        return {k for k, b in (("read", EPIN | EPRDHUP), ("write", EPOUT)) if k in w and m & (b | EPERR | EPHUP)}

    def epoll_wait(E, st, args):
        if st.gget("w", "waits"):
            raise_stop()
        if st.norm(args[0]) != st.norm(st.gget("w", "ep")):
            rep(E, st, "epoll_wait on another descriptor")
        res = []
        for err in (EINTR, None):
            if err == EINTR and st.gget("w", "eintr"):
                continue
            f = st.copy()
            e = ("i", EINTR)
            if err is None:
                e = f.fresh("errno.epoll_wait", 32, "int")
                f.facts[e] = ((1, EINTR - 1), (EINTR + 1, 4095))
                f.gset("w", "fatal", True)
                f.gset("w", "waits", True)
            else:
                f.gset("w", "eintr", True)
            E.write(f, models.errno_obj(E, f), 0, e, 4)
            f.event("sysfail", "epoll_wait", E.curloc, f.norm(e))
            f.trail += ((E.curloc, "epoll_wait fails with %s" % ("EINTR" if err else "another errno")),)
            res.append((f, ("i", (1 << 32) - 1)))
        mx = low(st, args[2])
        if mx[0] != "i" or mx[1] < len(events):
            raise AnalysisBroken("epoll_wait asks for %s events" % show(mx))
        p = st.norm(args[1])
        E.range_check(st, st.heap[p[1]], p[2], ("i", mx[1] * 12), "epoll_wait into")
        for i, (w, m) in enumerate(events):
            E.write(st, p[1], p[2] + 12 * i, ("i", m), 4)
            E.write(st, p[1], p[2] + 12 * i + 4, ("p", st.gget("io", i)[0], 0), 8)
        st.gset("w", "waits", True)
        st.trail += ((E.curloc, "epoll_wait reports " + what),)
        res.append((st, ("i", len(events))))
        return res

    def wake(E, st, args):
        sched, fib, did, ev, par = args[:5]
        if st.norm(sched) != st.norm(st.gget("w", "sched")):
            rep(E, st, "the fiber is queued on another scheduler")
        fib = st.norm(fib)
        hit = None
        for i in range(len(events)):
            so, fd, fibs = st.gget("io", i)
            for k, v in fibs:
                if v != ZERO and st.norm(v) == fib:
                    hit = (i, k)
        if hit is None:
            rep(E, st, "%s: %s is made runnable, which is not a waiting fiber" % (what, show(fib)))
            return [(st, ZERO)]
        woken = st.gget("w", "woken") or ()
        if hit in woken:
            rep(E, st, "%s: the %ser is made runnable twice" % (what, hit[1]))
        if hit[1] not in may(*events[hit[0]]):
            rep(E, st, "%s: the %ser is woken although the descriptor is not ready to %s" % (what, hit[1], hit[1]))
        if st.norm(did) != glob(E.prog, DISCIPLINE):
            b = mem(E, st, did)
            if b is None or b != mem(E, st, glob(E.prog, DISCIPLINE)):
                rep(E, st, "%s: the %ser is not resumed on behalf of the readiness discipline" % (what, hit[1]))
        if low(st, ev) != ("i", RESUME[hit[1]]):
            rep(E, st, "%s: the %ser is resumed with event %s" % (what, hit[1], show(st.norm(ev))))
        r = E.fallible(st, "add_fiber_to_run_queue", lambda s: s.gset("w", "woken", woken + (hit,)), lambda s: s.gset("w", "fatal", True))
        return r

    def mem(E, st, p):
        return models.mem_content(E, st, st.norm(p), 16)

    def idle_yield(E, st, args):
        if not st.gget("w", "waits"):
            rep(E, st, "the idle fiber gives up control without having polled for events")
        woken = st.gget("w", "woken") or ()
        for i, (w, m) in enumerate(events):
            so, fd, fibs = st.gget("io", i)
            left = []
            for k, v in fibs:
                cur = shape.getf(E, st, so, "psock_wrap_async", SLOT[k])
                if k in due(w, m) and (i, k) not in woken:
                    rep(E, st, "%s: the %ser is not woken" % (what, k))
                if (i, k) in woken:
                    if cur != ZERO:
                        rep(E, st, "%s: the %ser was woken but is still recorded as waiting" % (what, k))
                elif k in w:
                    if cur != st.norm(v):
                        rep(E, st, "%s: the %ser was not woken but is no longer recorded as waiting" % (what, k))
                    left.append(k)
                elif cur != ZERO:
                    rep(E, st, "%s: nobody waits to %s, but %s is recorded" % (what, k, show(cur)))
            if left and not st.gget("w", "ctlfail"):
                e = armed(E, st, fd, so, left, "%s: the %s keeps waiting" % (what, " and ".join(k + "er" for k in left)))
                if e:
                    rep(E, st, e)
        f = st.copy()
        c = f.fresh("err.idle", 32, "status")
        f.facts[c] = models.ERRSET
        f.gset("w", "stop", True)
        f.trail += ((E.curloc, "the scheduler asks the idle fiber to end"),)
        st.gset("w", "again", True)
        return [(st, ZERO), (f, c)]

    def raise_stop():
        from engine import Stop
        raise Stop()

    def set_idle(E, st, args):
        if st.norm(args[1]) != ZERO:
            rep(E, st, "the idle fiber is replaced by %s" % show(st.norm(args[1])))
        st.gset("w", "cleared", True)
        return E.fallible(st, "disciplined_fiber_scheduler_set_idle_fiber")

    def setup(E, st, F, ctx):
        c, ep, sch = io_context(E, st)
        st.gset("w", "ep", ep)
        st.gset("w", "sched", sch)
        for i, (w, m) in enumerate(events):
            so, fd, fibs = io_objects(E, st, w)
            st.gset("io", i, (so, fd, tuple(fibs.items())))
        return [("p", c, 0)]

    def post(E, st, rv, args, ctx):
        if not st.gget("w", "cleared"):
            rep(E, st, "the idle fiber ends but stays registered as the scheduler's idle fiber")
        if st.gget("w", "fatal") and rules.status_class(st, rv) != "err":
            rep(E, st, "the idle fiber reports success after a failure to wait or to queue a fiber")
        if not st.gget("w", "fatal") and not st.gget("w", "stop"):
            rep(E, st, "the idle fiber ends although nothing asks it to")
    mods = dict(contracts.client_models(), epoll_ctl=epoll_ctl, epoll_wait=epoll_wait, disciplined_fiber_scheduler_add_fiber_to_run_queue=wake,
                disciplined_fiber_scheduler_idle_fiber_yield=idle_yield, disciplined_fiber_scheduler_set_idle_fiber=set_idle)
    return Job(fn, post, setup, models=mods, name="idle fiber: " + what)


@check("P05", 60)
def p05(ctx):
    P = ctx.prog()
    hs = wait_handlers(P)
    W = [("read",), ("write",), ("read", "write")]
    jobs = [wait_job(P, d, t, hs) for d in SLOT for t in (False, True)]
    jobs += [handler_job(P, h, i, w) for i, h in enumerate(hs) for w in W]
    masks = [m for m in range(1, 32) if m & ~2 == m]
    jobs += [idle_job(P, ((w, m),)) for m in masks for w in W + [()]]
    pairs = [(a, b) for a in W for b in W]
    two = [((a, m), (b, n)) for a, b in pairs for m in (EPIN, EPOUT, EPHUP) for n in (EPIN, EPOUT, EPERR)]
    jobs += [idle_job(P, e) for e in (two if ctx.thorough else two[::4])]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "readiness")
    return ("Abstract interpretation of the wait functions, of the callbacks the readiness discipline registers and of the idle fiber, against a model "
            "of the kernel's epoll registration table and every combination of reported events and waiting fibers.")


# --------------------------------------------------- P06: the buffered reader
BR_RD = ("io",)


def br_object(E, st, M, offset, current, error=0):
    b = st.new_obj("heap", ("i", M), "undef", None, "(reader's buffer)", name="brbuf")
    o = shape.new_struct(E, st, "psock_br", "buffered reader")
    w = new_ptr(st, "wrapped", "struct psock*")
    F = lambda f, v, n=8: shape.setf(E, st, o, "psock_br", f, v, n)
    F("wrapped", w), F("buffer", ("p", b, 0)), F("max_size", ("i", M)), F("current_size", ("i", current)), F("offset", ("i", offset))
    F("error", ("i", error), 1)
    pend = []
    for i in range(current):
        v = st.fresh("old%d" % i, 8, "unsigned char")
        E.write(st, b, i, v, 1)
        if i >= offset:
            pend.append(v)
    st.gset("br", "obj", o)
    st.gset("br", "wrapped", w)
    st.gset("br", "data", tuple(pend))
    st.gset("br", "max", M)
    st.gset("br", "last", "an earlier error" if error else None)
    return o


def br_pending(E, st):
    """the bytes the reader holds, or None if its counters are inconsistent"""
    o = st.gget("br", "obj")
    G = lambda f: shape.getf(E, st, o, "psock_br", f)
    b, off, cur = G("buffer"), G("offset"), G("current_size")
    if off[0] != "i" or cur[0] != "i" or b[0] != "p" or not 0 <= off[1] <= cur[1] <= st.gget("br", "max"):
        rep(E, st, "the buffered reader's counters are inconsistent (offset %s, size %s)" % (show(off), show(cur)))
        return None
    return [st.norm(E.read(st, b[1], b[2] + i, 1, "i8")) for i in range(off[1], cur[1])]


def br_icall(E, st, fv, args, org, rty):
    fld = str(org[2]).split(".")[-1] if org else None
    if fld != "read_fn":
        return contracts.icall(E, st, fv, args, org, rty)
    w = st.norm(st.gget("br", "wrapped"))
    if st.norm(args[0]) != w or w[0] == "p" and st.norm(E.read(st, w[1], w[2] + E.prog.offset("psock", "context"), 8, "p")) != st.norm(args[1]):
        rep(E, st, "the read is not addressed to the wrapped psock")
    block = low(st, args[4], 1)
    if block != ZERO and not st.gget("br", "block"):
        rep(E, st, "a non-blocking read waits for data")
    last = st.gget("br", "last")
    if last is not None and not (last == "wouldblock" and block != ZERO):
        rep(E, st, "the reader reads again after %s" % last)
    need = st.gget("br", "need")
    T = st.gget("br", "data")
    if need is not None and len(T) >= need:
        rep(E, st, "the reader reads from the wrapped psock although it holds enough")
    n = st.norm(E.load(st, args[3], 8, "i64"))
    d = st.norm(args[2])
    if n[0] != "i" or d[0] != "p" or not isinstance(d[2], int):
        raise AnalysisBroken("the reader asks for %s bytes" % show(n))
    E.range_check(st, st.heap[d[1]], d[2], n, "read into")
    res = []
    for last, code in (("wouldblock", ((contracts.code(BLOCKCODES[0]),) * 2,)), ("an error", anyerr([BLOCKCODES[0]]))):
        if last == "wouldblock" and block != ZERO:
            continue
        f = st.copy()
        c = f.fresh("err.read", 32, "status")
        f.facts[c] = code
        f.gset("br", "last", last)
        f.gset("br", "code", f.norm(c))
        f.trail += ((E.curloc, "the wrapped psock %s" % ("would block" if last == "wouldblock" else "fails")),)
        E.store(f, args[3], f.fresh("part", 64, "unsigned long"), 8)
        res.append((f, f.norm(c) if last != "wouldblock" else ("i", contracts.code(BLOCKCODES[0]))))
    for k in sorted({0, 1, n[1] - 1, n[1]}):
        if not 0 <= k <= n[1]:
            continue
        s = st.copy()
        new = []
        for i in range(k):
            v = s.fresh("in%d" % (len(T) + i), 8, "unsigned char")
            E.write(s, d[1], d[2] + i, v, 1)
            new.append(v)
        E.store(s, args[3], ("i", k), 8)
        s.gset("br", "data", T + tuple(new))
        s.gset("br", "last", None if k else "end of file")
        s.trail += ((E.curloc, "%d bytes arrive" % k),)
        res.append((s, ZERO))
    return res


def br_read_job(P, M, offset, current, R, block):
    fn = slot_of(P, "psock_br_create_from_psock", "read_fn")
    what = "%s of %d bytes (%s) with %d of %d buffered" % (fn, R, "blocking" if block else "non-blocking", current - offset, M)

    def setup(E, st, F, ctx):
        o = br_object(E, st, M, offset, current)
        st.gset("br", "need", R)
        st.gset("br", "block", block)
        d = outcell(st, "caller's data", max(R, 1))
        s = outcell(st, "caller's size")
        E.write(st, s, 0, ("i", R), 8)
        ctx.update(d=d, s=s)
        return [("p", o, 0), st.fresh("ctx", 64, "void*"), ("p", d, 0), ("p", s, 0), ("i", 1 if block else 0)]

    def post(E, st, rv, args, ctx):
        T = [st.norm(v) for v in st.gget("br", "data")]
        pend = br_pending(E, st)
        if pend is None:
            return
        ok = rules.status_class(st, rv) == "ok"
        n = st.norm(E.read(st, ctx["s"], 0, 8, "i64"))
        if n[0] != "i":
            rep(E, st, "%s reports %s bytes" % (what, show(n)))
            return
        if not ok:
            if st.gget("br", "last") is None:
                rep(E, st, "%s fails although nothing went wrong" % what)
            elif not block and T:
                rep(E, st, "%s fails although %d bytes are available" % (what, len(T)))
            if T[len(T) - len(pend):] != pend:
                rep(E, st, "%s fails and mixes up the bytes it still holds" % what)
            return
        if n[1] > R or n[1] > len(T):
            rep(E, st, "%s reports %d bytes where %d are available" % (what, n[1], len(T)))
            return
        got = [st.norm(E.read(st, ctx["d"], i, 1, "i8")) for i in range(n[1])]
        if got != T[:n[1]]:
            rep(E, st, "%s hands out %s where %s is next" % (what, [show(x) for x in got], [show(x) for x in T[:n[1]]]))
        if pend != T[n[1]:]:
            rep(E, st, "%s then holds %s where %s is left" % (what, [show(x) for x in pend], [show(x) for x in T[n[1]:]]))
        if block and n[1] != R:
            rep(E, st, "%s succeeds with %d bytes" % (what, n[1]))
        if not block and (n[1] != min(R, len(T)) or R and not n[1]):
            rep(E, st, "%s succeeds with %d bytes where %d are available" % (what, n[1], len(T)))
    return Job(fn, post, setup, models=contracts.client_models(), icall=br_icall, name=what,
               conf=dict(max_counted=64, join_states=False, unroll=12))


def br_line_job(M, offset, current, cap, error):
    fn = "psock_br_read_line"
    what = "%s into %d bytes with %d of %d buffered%s" % (fn, cap, current - offset, M, ", after an error" if error else "")
    NL = ("i", 10)

    def setup(E, st, F, ctx):
        o = br_object(E, st, M, offset, current, error)
        st.gset("br", "block", True)
        st.gset("br", "need", None)
        d = outcell(st, "caller's buffer", cap)
        s = outcell(st, "caller's size")
        E.write(st, s, 0, ("i", cap), 8)
        ctx.update(d=d, s=s)
        return [("p", d, 0), ("p", s, 0), ("p", o, 0)]

    def isnl(E, st, v, yes):
        s = st.copy()
        return E.assume(s, E.cmp(s, "eq" if yes else "ne", s.norm(v), NL, 8), True)

    def post(E, st, rv, args, ctx):
        T = [st.norm(v) for v in st.gget("br", "data")]
        pend = br_pending(E, st)
        if pend is None:
            return
        n = st.norm(E.read(st, ctx["s"], 0, 8, "i64"))
        rvn = low(st, rv)
        trunc = rvn == ("i", contracts.code("ERROR_PSOCK_BR_READ_LINE_TRUNCATED"))
        ended = st.gget("br", "last") not in (None, "wouldblock")
        ok = rules.status_class(st, rv) == "ok"
        if cap <= 1:
            if ok or trunc:
                rep(E, st, "%s is accepted" % what)
            if pend != T:
                rep(E, st, "%s consumes input" % what)
            return
        if not ok and not trunc:
            if not ended:
                rep(E, st, "%s fails although the wrapped psock did not" % what)
            elif T:
                rep(E, st, "%s fails and loses the %d bytes received before" % (what, len(T)))
            if n != ("i", cap):
                rep(E, st, "%s fails but changes the caller's size to %s" % (what, show(n)))
            return
        if n[0] != "i" or not (1 <= n[1] <= cap):
            rep(E, st, "%s reports a size of %s" % (what, show(n)))
            return
        k = n[1] if trunc else n[1] - 1
        if k > len(T) or k > cap - 1:
            rep(E, st, "%s reports %d bytes where %d were received" % (what, k, len(T)))
            return
        got = [st.norm(E.read(st, ctx["d"], i, 1, "i8")) for i in range(k)]
        if got != T[:k]:
            rep(E, st, "%s yields %s where %s was received" % (what, [show(x) for x in got], [show(x) for x in T[:k]]))
        if st.norm(E.read(st, ctx["d"], k, 1, "i8")) != ZERO:
            rep(E, st, "%s does not end the line with a zero" % what)
        if any(isnl(E, st, v, True) for v in T[:k]):
            rep(E, st, "%s yields more than one line" % what)
        rest = T[k:]
        if ok and rest and not isnl(E, st, rest[0], False):
            rest = rest[1:]
        elif ok and not (ended and not rest):
            rep(E, st, "%s reports a complete line of %d bytes that no newline follows" % (what, k))
            return
        elif trunc and k != cap - 1:
            rep(E, st, "%s reports a truncated line after %d bytes" % (what, k))
            return
        elif trunc and rest and isnl(E, st, rest[0], True):
            rep(E, st, "%s reports a truncated line although the line fits and its end has been received" % what)
        if pend != rest:
            rep(E, st, "%s then holds %s where %s is left" % (what, [show(x) for x in pend], [show(x) for x in rest]))
    return Job(fn, post, setup, models=contracts.client_models(), icall=br_icall, name=what,
               conf=dict(max_counted=64, join_states=False, unroll=12))


def br_pass_job(P, slot):
    """operations the buffered reader hands on unchanged"""
    fn = slot_of(P, "psock_br_create_from_psock", slot)
    if fn is None:
        return None

    def icall(E, st, fv, args, org, rty):
        fld = str(org[2]).split(".")[-1] if org else None
        if fld not in ("write_fn", "accept_fn", "recvmsg_fn", "sendmsg_fn", "setsockopt_fn"):
            return contracts.icall(E, st, fv, args, org, rty)
        if fld != slot:
            rep(E, st, "%s calls the wrapped psock's %s" % (fn, fld))
        w = st.norm(st.gget("br", "wrapped"))
        if st.norm(args[0]) != w or w[0] == "p" and st.norm(E.read(st, w[1], w[2] + E.prog.offset("psock", "context"), 8, "p")) != st.norm(args[1]):
            rep(E, st, "%s does not address the wrapped psock" % fn)
        if st.gget("br", "code") is not None:
            rep(E, st, "%s performs the operation twice" % fn)
        for got, want in zip(args[2:], st.gget("br", "args")[2:]):
            if not same(E, st, low(st, got) if st.norm(got)[0] == "i" else got, want):
                rep(E, st, "%s passes %s on where its caller's argument is due" % (fn, show(st.norm(got))))
        r = E.fallible(st, "callback:" + fld)
        for s, c in r:
            s.gset("br", "code", c)
        return r

    def setup(E, st, F, ctx):
        o = br_object(E, st, 4, 0, 2)
        args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        args[0] = ("p", o, 0)
        for i, a in enumerate(args[1:], 1):
            if F.args[i][1] in ("p", "ptr"):
                st.facts[a] = POS
        st.gset("br", "args", tuple(args))
        return args

    def post(E, st, rv, args, ctx):
        c = st.gget("br", "code")
        if c is None:
            if low(st, rv) != ("i", contracts.code("ERROR_PSOCK_METHOD_UNDEFINED")):
                rep(E, st, "%s returns %s without calling the wrapped psock" % (fn, show(st.norm(rv))))
                return
            w = st.norm(st.gget("br", "wrapped"))
            oid, off = E.pointer(st, st.norm(E.load(st, w, 8, "p")))
            m = E.read(st, oid, off + E.prog.offset("psock_vtable", slot), 8, "p")
            if not must(E, st, "eq", m, ZERO):
                rep(E, st, "%s reports the operation undefined although the wrapped psock has it" % fn)
        elif st.norm(rv) != st.norm(c):
            rep(E, st, "%s returns %s where the wrapped psock returned %s" % (fn, show(st.norm(rv)), show(st.norm(c))))
    return Job(fn, post, setup, models=contracts.client_models(), icall=icall, name="buffered reader %s" % slot)


@check("P06", 60)
def p06(ctx):
    P = ctx.prog()
    jobs = []
    for M in ((3, 4) if ctx.thorough else (3,)):
        lay = [(o, c) for c in range(M + 1) for o in range(c + 1) if not (o == 0 and c == M)]
        jobs += [br_read_job(P, M, o, c, R, b) for o, c in lay for R in range(0, M + (3 if ctx.thorough else 2)) for b in (True, False)]
        jobs += [br_line_job(M, o, c, cap, e) for o, c in lay for cap in range(0, M + 2) for e in (0, 1)]
    jobs += [j for j in (br_pass_job(P, s) for s in ("write_fn", "accept_fn", "recvmsg_fn", "sendmsg_fn", "setsockopt_fn")) if j]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "buffered reader")
    return ("Abstract interpretation of the buffered reader's read and line operations for a small buffer in every fill state, with symbolic contents, "
            "the wrapped psock delivering nothing, one byte, part or all of what is asked, failing, blocking or ending at any point.")
