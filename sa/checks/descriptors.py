"""Partial raw reads, and descriptors passed over a datagram socket."""
import contracts
import models
import rules
import shape
from framework import check
from sweep import Job
from values import *
from checks.psockio import rep, same, low, outcell, finish, anyerr, KINDS, POS, BLOCKCODES

RIGHTS, SOCKET = 1, 1
HDR = 16            # struct cmsghdr on 64 bit Linux: length 8, level 4, type 4
PEEK = 2
DATAGRAM = 2
UNSUPPORTED = "ERROR_PSOCK_UNSUPPORTED_TYPE"


def align(n):
    return (n + 7) & ~7


def psock(E, st, ctx, slot, socktype=None, method=True):
    """a psock of the caller with one known method"""
    vt = shape.new_struct(E, st, "psock_vtable", "vtable", kind="lazy")
    f = st.fresh("method", 64, "fn", None)
    st.facts[f] = POS
    shape.setf(E, st, vt, "psock_vtable", slot, f if method else ZERO)
    o = shape.new_struct(E, st, "psock", "psock", kind="lazy")
    E.write(st, o, 0, ("p", vt, 0), 8)
    c = st.fresh("context", 64, "void*", None)
    shape.setf(E, st, o, "psock", "context", c)
    if socktype is not None:
        shape.setf(E, st, o, "psock", "socktype", socktype, 4)
    ctx.update(o=o, c=c, slot=slot, f=f)
    for k in ("o", "c", "slot", "f"):
        st.gset("d", k, ctx[k])
    return ("p", o, 0)


def addressed(E, st, fv, args):
    """the call reaches this psock's method, once, for this psock"""
    if st.norm(fv) != st.norm(st.gget("d", "f")):
        rep(E, st, "another function is called where the psock's %s is due" % st.gget("d", "slot"))
    if st.norm(args[0]) != ("p", st.gget("d", "o"), 0) or st.norm(args[1]) != st.norm(st.gget("d", "c")):
        rep(E, st, "the operation is not addressed to the psock given")
    if st.gget("d", "done"):
        rep(E, st, "the operation is performed twice")
    st.gset("d", "done", True)


def failing(E, st, name, codes=None):
    f = st.copy()
    e = f.fresh("err." + name, 32, "status")
    f.facts[e] = codes or ((0x80000000, 0xffffffff),)
    f.gset("d", "result", e)
    f.trail += ((E.curloc, "%s fails" % name),)
    return f, e


# ------------------------------------------------------------ psock_read_raw
def read_raw_job(P):
    def icall(E, st, fv, args, org, rty):
        addressed(E, st, fv, args)
        if low(st, args[4], 1) != ZERO:
            rep(E, st, "psock_read_raw waits for data")
        if not same(E, st, args[2], st.gget("d", "data")):
            rep(E, st, "psock_read_raw reads into another buffer than its caller's")
        R = st.gget("d", "size")
        n = E.load(st, args[3], 8, "i64")
        if not same(E, st, n, R):
            rep(E, st, "psock_read_raw asks for %s bytes where its caller asked for another number" % show(st.norm(n)))
        res = []
        wb = contracts.code(BLOCKCODES[0])
        for how in ("all", "part", "would block"):
            s = st.copy()
            k = R
            if how != "all":
                k = s.fresh("got", 64, "unsigned long")
                if not E.assume(s, E.cmp(s, "ult", k, s.norm(R), 64), True):
                    continue
            E.store(s, args[3], k, 8)
            rv = ZERO if how != "would block" else ("i", wb)
            s.gset("d", "result", rv), s.gset("d", "got", k)
            s.trail += ((E.curloc, "the read gets %s" % how),)
            res.append((s, rv))
        f, e = failing(E, st, "read_fn", anyerr([BLOCKCODES[0]]))
        E.store(f, args[3], f.fresh("junk", 64, "unsigned long"), 8)
        return res + [(f, e)]

    def setup(E, st, F, ctx):
        o = psock(E, st, ctx, "read_fn")
        n = st.fresh("size", 64, "unsigned long", None)
        st.facts[n] = ((1, (1 << 62)),)
        d = st.fresh("data", 64, "void*", None)
        st.facts[d] = POS
        ctx["out"] = c = outcell(st, "caller's size")
        E.write(st, c, 0, n, 8)
        st.gset("d", "data", d), st.gset("d", "size", n)
        return [o, d, ("p", c, 0)]

    def post(E, st, rv, args, ctx):
        if not st.gget("d", "done"):
            if rules.status_class(st, rv) != "err":
                rep(E, st, "psock_read_raw reports success without reading")
            return
        want = st.gget("d", "result")
        if low(st, rv) != low(st, want):
            rep(E, st, "psock_read_raw returns %s where the psock's read returned %s" % (show(st.norm(rv)), show(st.norm(want))))
        k = st.gget("d", "got")
        if k is not None:
            n = st.norm(E.read(st, ctx["out"], 0, 8, "i64"))
            if not same(E, st, n, k):
                rep(E, st, "psock_read_raw reports %s bytes where %s were read" % (show(n), show(st.norm(k))))
    return Job("psock_read_raw", post, setup, models=contracts.client_models(), icall=icall, name="psock_read_raw")


# ------------------------------------------------------- passing descriptors
def number(E, st, p, off, size):
    v = st.norm(E.load(st, (p[0], p[1], p[2] + off), size, "i%d" % (size * 8)))
    return v[1] if v[0] == "i" else None


def header(E, st, p):
    """(address of the control buffer, its length) of a message with room for data"""
    p = st.norm(p)
    if p[0] != "p" or not isinstance(p[2], int):
        rep(E, st, "no message is given")
        return None
    n = number(E, st, p, 24, 8)
    iov = st.norm(E.load(st, ("p", p[1], p[2] + 16), 8, "p"))
    room = number(E, st, iov, 8, 8) if n and iov[0] == "p" else 0
    if not room:
        rep(E, st, "the message has no data part, so that a stream or an empty datagram can lose its descriptor")
        return None
    base = st.norm(E.load(st, iov, 8, "p"))
    if base[0] != "p":
        rep(E, st, "the message's data part is nowhere")
        return None
    E.range_check(st, st.heap[base[1]], base[2], ("i", room), "message data")
    ctl = st.norm(E.load(st, ("p", p[1], p[2] + 32), 8, "p"))
    cl = number(E, st, p, 40, 8)
    if ctl[0] != "p" or not cl:
        return None, 0
    E.range_check(st, st.heap[ctl[1]], ctl[2], ("i", cl), "control data")
    return ctl, cl


def nxthdr(E, st, args):
    m, c = st.norm(args[0]), st.norm(args[1])
    ctl, cl = st.norm(E.load(st, ("p", m[1], m[2] + 32), 8, "p")), number(E, st, m, 40, 8)
    n = number(E, st, c, 0, 8)
    if n < HDR or c[2] + align(n) + HDR > ctl[2] + cl:
        return [(st, ZERO)]
    return [(st, ("p", c[1], c[2] + align(n)))]


def send_icall(E, st, fv, args, org, rty):
    addressed(E, st, fv, args)
    h = header(E, st, args[2])
    if h:
        ctl, cl = h
        found = []
        at = 0
        while ctl and at + HDR <= cl:
            n, level, kind = (number(E, st, ctl, at + o, z) for o, z in ((0, 8), (8, 4), (12, 4)))
            if not n or n < HDR or at + n > cl:
                rep(E, st, "a control message has a length (%s) that does not fit" % n)
                break
            if (level, kind) != (SOCKET, RIGHTS):
                rep(E, st, "a control message of level %s and type %s is sent" % (level, kind))
            else:
                if (n - HDR) % 4:
                    rep(E, st, "a control message of %d bytes does not hold whole descriptors" % n)
                found += [st.norm(E.load(st, ("p", ctl[1], ctl[2] + at + HDR + i), 4, "i32")) for i in range(0, n - HDR - 3, 4)]
            at += align(n)
        if len(found) != 1 or not same(E, st, found[0], st.gget("d", "fd")):
            rep(E, st, "the message carries the descriptors %s where the caller's one is due" % [show(x) for x in found])
    s = st.copy()
    s.gset("d", "result", ZERO)
    return [(s, ZERO), failing(E, st, "sendmsg_fn")]


def recv_icall(E, st, fv, args, org, rty):
    addressed(E, st, fv, args)
    h = header(E, st, args[2])
    fl = low(st, args[4])
    if fl[0] == "i" and fl[1] & PEEK:
        rep(E, st, "the message is looked at, not received: its descriptor is received again later")
    res = [failing(E, st, "recvmsg_fn")]
    if not h:
        return res
    ctl, cl = h
    if cl < HDR + 4:
        rep(E, st, "the message has no room for the descriptor (%d bytes of control data)" % cl)
    m = st.norm(args[2])

    def message(text, parts, room=None):
        """parts: (level, type, payload bytes, number of descriptors)"""
        need = 0
        for i, (level, kind, size, nfd) in enumerate(parts):
            need = align(need) + HDR + size
        if need > cl:
            return
        s = st.copy()
        at = 0
        got = []
        for level, kind, size, nfd in parts:
            at = align(at)
            for o, v, z in ((0, HDR + size, 8), (8, level, 4), (12, kind, 4)):
                E.store(s, ("p", ctl[1], ctl[2] + at + o), ("i", v), z)
            for i in range(0, size, 4):
                v = s.fresh("ctl", 32, "int")
                if i // 4 < nfd:
                    v = models.new_fd(E, s, "recvmsg_fn")
                    got.append(s.norm(v))
                E.store(s, ("p", ctl[1], ctl[2] + at + HDR + i), v, 4)
            at += HDR + size
        E.store(s, ("p", m[1], m[2] + 40), ("i", min(cl, align(at))), 8)
        E.store(s, ("p", m[1], m[2] + 48), s.fresh("msgflags", 32, "int"), 4)
        n = s.fresh("msglen", 64, "unsigned long")
        E.store(s, args[3], n, 8)
        s.gset("d", "result", ZERO), s.gset("d", "fds", tuple(got))
        s.trail += ((E.curloc, text),)
        res.append((s, ZERO))

    message("a message without control data arrives", [])
    message("a message with the sender's credentials arrives", [(SOCKET, 2, 12, 0)])
    message("a control message of another kind arrives", [(SOCKET, 29, 4, 0)])
    message("a control message of another level arrives", [(0, RIGHTS, 4, 0)])
    for k in range(1, min((cl - HDR) // 4, 5) + 1):
        message("a message with %d descriptors arrives" % k, [(SOCKET, RIGHTS, 4 * k, k)])
    message("credentials and a descriptor arrive", [(SOCKET, 2, 12, 0), (SOCKET, RIGHTS, 4, 1)])
    return res


def pass_job(P, fn, slot, datagram, method):
    what = "%s on a %s socket %s" % (fn, "datagram" if datagram else "stream", "" if method else "without this method")

    def setup(E, st, F, ctx):
        t = ("i", DATAGRAM)
        if not datagram:
            t = st.fresh("socktype", 32, "int", None)
            st.facts[t] = ((0, DATAGRAM - 1), (DATAGRAM + 1, (1 << 31) - 1))
        o = psock(E, st, ctx, slot, t, method)
        if slot == "sendmsg_fn":
            fd = st.fresh("descriptor", 32, "int", None)
            st.facts[fd] = ((0, (1 << 31) - 1),)
            st.gset("d", "fd", fd)
            return [o, fd]
        ctx["out"] = c = outcell(st, "caller's descriptor", 4)
        return [o, ("p", c, 0)]

    def post(E, st, rv, args, ctx):
        done = st.gget("d", "done")
        if not datagram or not method:
            if done:
                rep(E, st, "%s: the operation is attempted" % what)
            elif low(st, rv) != ("i", contracts.code(UNSUPPORTED)):
                rep(E, st, "%s returns %s where %s is due" % (what, show(st.norm(rv)), UNSUPPORTED))
            return
        if not done:
            if rules.status_class(st, rv) != "err":
                rep(E, st, "%s reports success without doing anything" % what)
            else:
                rep(E, st, "%s fails without trying" % what)
            return
        r = st.gget("d", "result")
        if r != ZERO or slot == "sendmsg_fn":
            if low(st, rv) != low(st, r):
                rep(E, st, "%s returns %s where its method returned %s" % (what, show(st.norm(rv)), show(st.norm(r))))
            return
        fds = st.gget("d", "fds")
        ok = rules.status_class(st, rv) == "ok"
        if ok != bool(fds) and (ok or len(fds) == 1):
            rep(E, st, "%s %s although %d descriptors arrived" % (what, "succeeds" if ok else "fails", len(fds)))
            return
        held = st.norm(E.read(st, ctx["out"], 0, 4, "i32")) if ok else None
        if ok and held not in fds:
            rep(E, st, "%s hands out %s, which is not the descriptor received" % (what, show(held)))
        for k, v in (st.ghost.get("fd") or {}).items():
            if v[0] == "open" and st.norm(k) != held:
                rep(E, st, "%s leaves a received descriptor open that nobody holds" % what)
            if v[0] != "open" and ok and st.norm(k) == held:
                rep(E, st, "%s hands out a descriptor it has closed" % what)
    mods = contracts.client_models()
    mods["__cmsg_nxthdr"] = nxthdr
    return Job(fn, post, setup, models=mods, icall=send_icall if slot == "sendmsg_fn" else recv_icall, name=what,
               conf=dict(join_states=False, unroll=12, max_counted=64, copy_limit=128))


@check("P10", 6)
def p10(ctx):
    P = ctx.prog()
    jobs = [pass_job(P, fn, slot, d, m) for fn, slot in (("psock_write_raw_descriptor", "sendmsg_fn"), ("psock_read_raw_descriptor", "recvmsg_fn"))
            for d, m in ((True, True), (True, False), (False, True))]
    R = ctx.sweep(jobs, kinds=KINDS)
    finish(ctx, R, "descriptor passing")
    return ("Abstract interpretation of the operations that pass a descriptor over a datagram psock, the message header they build read byte by byte as the "
            "kernel reads it; the receiving side is given every kind of message for which its control buffer has room, and each descriptor that arrives must be "
            "handed out or closed.")
