"""How sockets come to be and how they end."""
import contracts
import models
import rules
import shape
from checks import core, osapi, psockbuf
from checks.psockio import low, must, new_ptr, outcell, finish, same
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "psockmake", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
CONF = {"join_states": False, "unroll": 40, "max_counted": 40}
AF_INET, AF_INET6, STREAM, DGRAM, SOL_SOCKET, SO_TYPE = 2, 10, 1, 2, 1, 3
FDS = ((0, (1 << 31) - 1),)
STREAM_TYPE, DATAGRAM_TYPE, OTHER_TYPE = 1, 2, 3


def rep(E, st, m):
    E.report(st, "psockmake", m, fatal=False)


def log(st, *c):
    st.gset("net", "calls", (st.gget("net", "calls") or ()) + (c,))


def done(st, name=None):
    return [c for c in st.gget("net", "calls") or () if name is None or c[0] == name]


def syscall(name, see=None):
    def m(E, st, args):
        a = tuple(st.norm(x) for x in args)
        f = st.copy()
        log(f, name, a, False)
        f.trail += ((E.curloc, "%s fails" % name),)
        log(st, name, a, True)
        if see:
            see(E, st, a)
            see(E, f, a)
        return [(st, ZERO), (f, ("i", (1 << 32) - 1))]
    return m


def new_socket(E, st, args):
    a = tuple(low(st, x) for x in args)
    f = st.copy()
    log(f, "socket", a, False)
    f.trail += ((E.curloc, "socket fails"),)
    fd = st.fresh("socket", 32, "int")
    st.facts[fd] = FDS
    log(st, "socket", a, True, fd)
    return [(st, fd), (f, ("i", (1 << 32) - 1))]


def see_address(E, st, a):
    n = low(st, a[2])
    oid, off = E.pointer(st, a[1])
    if n[0] == "i" and isinstance(off, int):
        st.gset("net", "address", tuple(st.norm(E.read(st, oid, off + k, 1, "i8")) for k in range(n[1])))


def kind_of(which):
    """getsockopt(fd, SOL_SOCKET, SO_TYPE) with a given outcome"""
    def m(E, st, args):
        a = tuple(st.norm(x) for x in args)
        log(st, "getsockopt", a, which is not None)
        if tuple(low(st, x) for x in a[1:3]) != (("i", SOL_SOCKET), ("i", SO_TYPE)):
            rep(E, st, "getsockopt asks for option %s of level %s where the type of the socket is due" % (show(a[2]), show(a[1])))
        ln = low(st, E.load(st, a[4], 4, "i32"))
        if ln[0] != "i" or ln[1] < 4:
            rep(E, st, "getsockopt is given room for %s bytes of a four byte value" % show(ln))
        if which is None:
            return [(st, ("i", (1 << 32) - 1))]
        E.store(st, a[3], which, 4)
        E.store(st, a[4], ("i", 4), 4)
        return [(st, ZERO)]
    return m


def close(E, st, args):
    """either outcome ends the descriptor"""
    a = (low(st, args[0]),)
    f = st.copy()
    log(f, "close", a, False)
    log(st, "close", a, True)
    f.trail += ((E.curloc, "close reports a failure"),)
    return [(st, ZERO), (f, ("i", (1 << 32) - 1))]


def resolver(v4, v6):
    def m(E, st, args):
        fam = low(st, args[1])
        log(st, "gethostbyname2", (st.norm(args[0]), fam), True)
        if fam not in (("i", AF_INET), ("i", AF_INET6)):
            rep(E, st, "the name is looked up in address family %s" % show(fam))
            return [(st, ZERO)]
        n = 4 if fam[1] == AF_INET else 16
        if not (v4 if n == 4 else v6):
            return [(st, ZERO)]
        addr = outcell(st, "address", n)
        bs = []
        for k in range(n):
            v = st.fresh("addr%d" % k, 8, "char")
            E.write(st, addr, k, v, 1)
            bs.append(v)
        st.gset("net", "resolved%d" % n, tuple(bs))
        lst = outcell(st, "addresses", 16)
        E.write(st, lst, 0, ("p", addr, 0), 8)
        E.write(st, lst, 8, ZERO, 8)
        h = outcell(st, "hostent", 32)
        E.write(st, h, 16, fam, 4)
        E.write(st, h, 20, ("i", n), 4)
        E.write(st, h, 24, ("p", lst, 0), 8)
        return [(st, ("p", h, 0))]
    return m


def lookup(v4, v6):
    """getaddrinfo; the address found is remembered, what it hands out has to be given back"""
    def m(E, st, args):
        h = st.norm(args[2])
        fam = low(st, E.load(st, ("p", h[1], h[2] + 4), 4, "i32")) if h[0] == "p" else ZERO
        log(st, "getaddrinfo", (st.norm(args[0]), fam), True)
        if fam not in (("i", AF_INET), ("i", AF_INET6)):
            rep(E, st, "the name is looked up in address family %s" % show(fam))
            return [(st, ("i", 1))]
        if st.norm(args[1]) != ZERO:
            rep(E, st, "the name is looked up together with a service")
        if not (v4 if fam[1] == AF_INET else v6):
            f = st.fresh("err.getaddrinfo", 32, "int")
            st.facts[f] = ((1, (1 << 32) - 1),)
            return [(st, f)]
        bs, _ = models.addrinfo(E, st, args[2], args[3])
        st.gset("net", "resolved%d" % len(bs), tuple(bs))
        o = st.norm(E.load(st, args[3], 8, "p"))
        st.gset("net", "list", o[1])
        return [(st, ZERO)]
    return m


def given_back(E, st, args):
    p = st.norm(args[0])
    if p[0] != "p" or p[2] != 0 or st.gget("net", "list") != p[1]:
        rep(E, st, "%s is given back to the resolver, which did not hand it out" % show(p))
        return [(st, ZERO)]
    st.gset("net", "list", None)
    return models.freeaddrinfo(E, st, args)


def mods(**more):
    m = contracts.client_models()
    for n in ("resource_release", "resource_init", "resource_handle"):
        m.pop(n, None)
    m.update(allocator_allocate=psockbuf.block, allocator_reclaim=osapi.reclaim_once, close=close, socket=new_socket,
             bind=syscall("bind", see_address), connect=syscall("connect", see_address), listen=syscall("listen"), getsockopt=kind_of(("i", STREAM)))
    m.update(more)
    return m


def live(st):
    return psockbuf.live(st)


def socket_made(E, st, rv, ctx, fd, what):
    """the psock handed out, over descriptor fd; None if there is none"""
    s = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
    if rules.status_class(st, rv) != "ok" or s[0] != "p" or s[2] or st.gget("blk", s[1]) != ("live", st.norm(ctx["alloc"])):
        rep(E, st, "%s hands out %s and %s although nothing failed" % (what, show(st.norm(rv)), show(s)))
        return None
    if len(live(st)) != 1:
        rep(E, st, "%s leaves %d blocks" % (what, len(live(st))))
    if fd is not None and not over(E, st, s, fd, what):
        return None
    return s


def over(E, st, s, fd, what):
    """reading from the socket reads the descriptor"""
    vt = st.norm(E.load(st, s, 8, "p"))
    good = True
    for slot, call in (("read_fn", "read"), ("write_fn", "write")):
        f = st.norm(E.load(st, ("p", vt[1], E.prog.offset("psock_vtable", slot)), 8, "p")) if vt[0] == "p" else vt
        if f[0] != "f":
            rep(E, st, "%s gives a socket without %s" % (what, slot))
            return False
        t = st.copy()
        data, size = outcell(t, "data", 8), outcell(t, "size")
        E.write(t, size, 0, ("i", 8), 8)
        old = E.models
        E.models = dict(old)
        E.models[call] = syscall(call)
        try:
            for t2, r in E.call_named(t, f[1], [s, ZERO, ("p", data, 0), ("p", size, 0)] + ([("i", 1)] if call == "read" else [])):
                c = done(t2, call)
                if len(c) != 1 or low(t2, c[0][1][0]) != low(t2, fd):
                    good = False
                    rep(E, t2, "%s gives a socket whose %s uses %s where descriptor %s is due" % (what, call, [show(low(t2, x[1][0])) for x in c], show(fd)))
                    break
        finally:
            E.models = old
        if not good:
            return False
    return True


def type_is(E, st, s, want, what):
    for t, r in E.call_named(st.copy(), E.prog.func("psock_socket_type").name, [s]):
        if low(t, r) != ("i", want):
            rep(E, t, "%s gives a socket of type %s where %d is due" % (what, show(low(t, r)), want))


def released(E, st, s, what, fd=None, extra=None):
    """the end of the object closes its descriptor once and returns its memory"""
    st = st.copy()
    st.gset("net", "calls", ())
    h = E.call_named(st, E.prog.func("psock_resource_handle").name, [s])
    for t, r in [x for t0, r0 in h for x in E.call_named(t0, E.prog.func("resource_release").name, [r0])]:
        c = [low(t, x[1][0]) for x in done(t, "close")]
        if c != ([] if fd is None else [low(t, fd)]):
            rep(E, t, "releasing the socket made by %s closes %s where %s is due" % (what, [show(x) for x in c], "nothing" if fd is None else show(fd)))
        if live(t):
            rep(E, t, "releasing the socket made by %s leaves %d of its blocks" % (what, len(live(t))))
        if all(x[2] for x in done(t)) and rules.status_class(t, r) == "err" and not extra:
            rep(E, t, "releasing the socket made by %s fails although nothing failed" % what)
        if extra:
            extra(E, t, r)


def begin(st, ctx):
    ctx["out"] = outcell(st, "caller's socket")
    ctx["alloc"] = st.fresh("alloc", 64, "struct allocator*", None)
    return ("p", ctx["out"], 0), ctx["alloc"]


def failed_call(E, st, rv, ctx, what):
    """nothing made: no memory kept, an error"""
    if rules.status_class(st, rv) != "err" or live(st):
        rep(E, st, "%s fails and %s" % (what, "loses memory" if live(st) else "reports %s" % show(st.norm(rv))))


def descriptor_job(which, want, name):
    def setup(E, st, F, ctx):
        o, a = begin(st, ctx)
        ctx["fd"] = st.fresh("descriptor", 32, "int")
        st.facts[ctx["fd"]] = FDS
        return [o, a, ctx["fd"]]

    def post(E, st, rv, args, ctx):
        what = "psock_create_from_descriptor of a %s" % name
        if done(st, "close"):
            rep(E, st, "%s closes a descriptor" % what)
        if st.gget("pb", "oom"):
            return failed_call(E, st, rv, ctx, what)
        if any(low(st, c[1][0]) != low(st, ctx["fd"]) for c in done(st, "getsockopt")):
            rep(E, st, "%s asks about another descriptor" % what)
        s = socket_made(E, st, rv, ctx, ctx["fd"], what)
        if s:
            type_is(E, st, s, want, what)
            released(E, st, s, what, ctx["fd"])
    return Job("psock_create_from_descriptor", post, setup, models=mods(getsockopt=kind_of(which)), icall=None, conf=CONF, name="a %s" % name)


def closed_or_kept(E, st, rv, ctx, what):
    """-> the socket and its descriptor when everything succeeded"""
    so = done(st, "socket")
    cl = [low(st, c[1][0]) for c in done(st, "close")]
    if len(so) != 1 or not so[0][2]:
        if len(so) > 1:
            rep(E, st, "%s makes %d sockets" % (what, len(so)))
        if cl:
            rep(E, st, "%s closes %s without having made a socket" % (what, [show(x) for x in cl]))
        failed_call(E, st, rv, ctx, what)
        return None
    fd = so[0][3]
    if so[0][1][1] != ("i", STREAM):
        rep(E, st, "%s makes a socket of type %s where a stream is due" % (what, show(so[0][1][1])))
    if st.gget("pb", "oom") or any(not c[2] for c in done(st) if c[0] != "close"):
        if cl != [low(st, fd)]:
            rep(E, st, "%s fails after making %s and closes %s" % (what, show(fd), [show(x) for x in cl]))
        failed_call(E, st, rv, ctx, what)
        return None
    if cl:
        rep(E, st, "%s succeeds and closes %s" % (what, [show(x) for x in cl]))
        return None
    return fd


def connect_job(v4, v6, port):
    what = "connecting to port %d of a host with %s" % (port, " and ".join((["an IPv4 address"] if v4 else []) + (["an IPv6 address"] if v6 else [])) or "no address")

    def setup(E, st, F, ctx):
        o, a = begin(st, ctx)
        ctx["name"] = new_ptr(st, "hostname", "char*")
        return [o, a, ctx["name"], ("i", port)]

    def post(E, st, rv, args, ctx):
        if any(c[1][0] != st.norm(ctx["name"]) for f in ("gethostbyname2", "getaddrinfo") for c in done(st, f)):
            rep(E, st, "%s looks up another name" % what)
        if st.gget("net", "list") is not None:
            rep(E, st, "%s keeps what the resolver handed out" % what)
        if not v4 and not v6:
            if done(st, "socket") or rules.status_class(st, rv) != "err":
                rep(E, st, "%s gives %s" % (what, show(st.norm(rv))))
            return
        if not done(st, "socket"):
            rep(E, st, "%s gives up before making a socket" % what)
        fd = closed_or_kept(E, st, rv, ctx, what)
        for c in done(st, "connect"):
            so = done(st, "socket")
            a = st.gget("net", "address")
            if len(so) != 1 or not so[0][2] or low(st, c[1][0]) != low(st, so[0][3]) or a is None:
                rep(E, st, "%s connects %s" % (what, show(c[1][0])))
                return
            fam = so[0][1][0]
            tail = [("i", port >> 8 & 255), ("i", port & 255)]
            n = 4 if fam == ("i", AF_INET) else 16
            want = [fam, ZERO] + tail + ([ZERO] * 4 if n == 16 else []) + list(st.gget("net", "resolved%d" % n) or ()) + ([ZERO] * 8 if n == 4 else [ZERO] * 4)
            if fam not in (("i", AF_INET), ("i", AF_INET6)) or len(a) != len(want) or any(st.norm(x) != st.norm(y) for k, (x, y) in enumerate(zip(a, want)) if n == 16 or k < 8):
                rep(E, st, "%s connects to %s where %s is due" % (what, [show(x) for x in a], [show(st.norm(x)) for x in want]))
                return
        if len(done(st, "connect")) > 1 or fd and len(done(st, "connect")) != 1:
            rep(E, st, "%s connects %d times" % (what, len(done(st, "connect"))))
        if fd:
            s = socket_made(E, st, rv, ctx, fd, what)
            if s:
                released(E, st, s, what, fd)
    return Job("psock_create_from_hostname_and_port", post, setup, models=mods(gethostbyname2=resolver(v4, v6), getaddrinfo=lookup(v4, v6), freeaddrinfo=given_back), icall=None, conf=CONF, name=what)


def listen_job(P):
    what = "psock_create_from_listen_address"

    def setup(E, st, F, ctx):
        o, a = begin(st, ctx)
        ad = outcell(st, "listen address", 16)
        ctx["bytes"] = [ZERO] * 16
        for k in range(16):
            v = ("i", AF_INET if k == 0 else 0) if k < 2 else st.fresh("name%d" % k, 8, "char")
            E.write(st, ad, k, v, 1)
            ctx["bytes"][k] = v
        return [o, a, ("p", ad, 0), ("i", 16)]

    def post(E, st, rv, args, ctx):
        fd = closed_or_kept(E, st, rv, ctx, what)
        so, b, li = done(st, "socket"), done(st, "bind"), done(st, "listen")
        if so and so[0][1][0] != ("i", AF_INET):
            rep(E, st, "%s makes a socket of family %s for an IPv4 address" % (what, show(so[0][1][0])))
        if [c[0] for c in done(st) if c[0] in ("socket", "bind", "listen")] != ["socket", "bind", "listen"][:len(so) + len(b) + len(li)]:
            rep(E, st, "%s makes the calls %s" % (what, [c[0] for c in done(st)]))
            return
        if b and (low(st, b[0][1][0]) != low(st, so[0][3]) or [st.norm(x) for x in st.gget("net", "address") or ()] != [st.norm(x) for x in ctx["bytes"]]):
            rep(E, st, "%s binds %s to %s" % (what, show(b[0][1][0]), [show(x) for x in st.gget("net", "address") or ()]))
        if li and (low(st, li[0][1][0]) != low(st, so[0][3]) or not (li[0][1][1][0] == "i" and 0 < li[0][1][1][1] < 1 << 31)):
            rep(E, st, "%s listens on %s with a backlog of %s" % (what, show(li[0][1][0]), show(li[0][1][1])))
        for c in done(st):
            code = {"socket": "SOCKET_CREATE", "bind": "BIND", "listen": "LISTEN", "close": "CLOSE"}.get(c[0])
            last = [x for x in done(st) if not x[2]]
            if code and last and last[-1] is c and not st.gget("pb", "oom") and low(st, rv) != ("i", contracts.code("ERROR_PSOCK_CREATE_FROM_ADDRESS_" + code)):
                rep(E, st, "%s gives %s after a failing %s" % (what, show(st.norm(rv)), c[0]))
        if fd:
            if not li:
                rep(E, st, "%s does not listen" % what)
            s = socket_made(E, st, rv, ctx, fd, what)
            if s:
                type_is(E, st, s, STREAM_TYPE, what)
                released(E, st, s, what, fd)
    return Job(what, post, setup, models=mods(), icall=None, conf=CONF, name="listening")


def user_hook(E, st, fv, args, org, rty):
    log(st, "user", tuple([st.norm(fv)] + [st.norm(a) for a in args]), True)
    f = st.copy()
    c = done(f)
    f.gset("net", "calls", tuple(c[:-1]) + (c[-1][:2] + (False,),))
    e = f.fresh("err.user", 32, "status")
    f.facts[e] = models.ERRSET
    return [(st, ZERO), (f, e)]


def user_job(P, with_release):
    what = "psock_create_from_user_methods with%s a release method" % ("" if with_release else "out")

    def setup(E, st, F, ctx):
        o, a = begin(st, ctx)
        ctx["context"] = st.fresh("context", 64, "void*", None)
        vt = shape.new_struct(E, st, "psock_vtable", "user vtable", kind="lazy")
        ctx["m"] = {}
        for k in ("read_fn", "write_fn", "release_fn"):
            ctx["m"][k] = st.fresh(k, 64, "fn", None)
            st.facts[ctx["m"][k]] = ((1 << 20, 1 << 46),)
            shape.setf(E, st, vt, "psock_vtable", k, ctx["m"][k] if k != "release_fn" or with_release else ZERO)
        return [o, a, ctx["context"], ("p", vt, 0)]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            return failed_call(E, st, rv, ctx, what)
        s = socket_made(E, st, rv, ctx, None, what)
        if not s:
            return
        type_is(E, st, s, OTHER_TYPE, what)
        vt = st.norm(E.load(st, s, 8, "p"))
        f = st.norm(E.load(st, ("p", vt[1], E.prog.offset("psock_vtable", "read_fn")), 8, "p"))
        t = st.copy()
        data, size = outcell(t, "data", 8), outcell(t, "size")
        for t2, r in E.call_named(t, f[1], [s, t.fresh("ctx", 64, "void*", None), ("p", data, 0), ("p", size, 0), ("i", 1)]):
            c = done(t2, "user")
            if len(c) != 1 or c[0][1][:3] != (t2.norm(ctx["m"]["read_fn"]), s, t2.norm(ctx["context"])):
                rep(E, t2, "%s gives a socket whose read calls %s" % (what, [[show(x) for x in k[1]] for k in c]))

        def extra(E, t, r):
            c = done(t, "user")
            want = [(t.norm(ctx["m"]["release_fn"]), s, t.norm(ctx["context"]))] if with_release else []
            if [k[1] for k in c] != want:
                rep(E, t, "releasing the socket made by %s calls the user's %s" % (what, [[show(x) for x in k[1]] for k in c]))
            elif (rules.status_class(t, r) == "ok") != all(k[2] for k in c):
                rep(E, t, "releasing the socket made by %s gives %s" % (what, show(t.norm(r))))
        released(E, st, s, what, None, extra)
    return Job("psock_create_from_user_methods", post, setup, models=mods(), icall=user_hook, conf=CONF, name=what)


def br_job(P, kind):
    what = "psock_br_create_from_psock over a socket of type %d" % kind

    def setup(E, st, F, ctx):
        o, a = begin(st, ctx)
        w = shape.new_struct(E, st, "psock", "wrapped", kind="lazy")
        shape.setf(E, st, w, "psock", "socktype", ("i", kind), 4)
        ctx["w"] = w
        return [o, a, ("p", w, 0)]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            return failed_call(E, st, rv, ctx, what)
        b = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if rules.status_class(st, rv) != "ok" or b[0] != "p" or st.gget("blk", b[1]) != ("live", st.norm(ctx["alloc"])):
            return rep(E, st, "%s hands out %s although nothing failed" % (what, show(b)))
        if shape.getf(E, st, b[1], "psock_br", "wrapped") != ("p", ctx["w"], 0):
            rep(E, st, "%s reads from %s" % (what, show(shape.getf(E, st, b[1], "psock_br", "wrapped"))))
        buf, size = st.norm(shape.getf(E, st, b[1], "psock_br", "buffer")), st.norm(shape.getf(E, st, b[1], "psock_br", "max_size"))
        if buf[0] != "p" or buf[1] not in live(st) or size[0] != "i" or size[1] < 1 or st.norm(st.heap[buf[1]].size) != size:
            rep(E, st, "%s has a buffer of %s for %s bytes" % (what, show(buf), show(size)))
        for f in ("current_size", "offset"):
            if st.norm(shape.getf(E, st, b[1], "psock_br", f)) != ZERO:
                rep(E, st, "%s starts with %s" % (what, f))
        for t, s in E.call_named(st.copy(), E.prog.func("psock_br_psock_adapter").name, [b]):
            type_is(E, t, s, kind, what)
        st = st.copy()
        for t, r in [x for t0, r0 in E.call_named(st, E.prog.func("psock_br_resource_handle").name, [b]) for x in E.call_named(t0, E.prog.func("resource_release").name, [r0])]:
            if live(t) or done(t) or t.heap[ctx["w"]].status != "live" or rules.status_class(t, r) != "ok":
                rep(E, t, "releasing the reader leaves %d blocks, makes the calls %s and gives %s" % (len(live(t)), [c[0] for c in done(t)], show(t.norm(r))))
    return Job("psock_br_create_from_psock", post, setup, models=mods(), icall=user_hook, conf=CONF, name=what)


@check("P09", 15)
def p09(ctx):
    P = ctx.prog()
    jobs = [descriptor_job(("i", STREAM), STREAM_TYPE, "stream socket"), descriptor_job(("i", DGRAM), DATAGRAM_TYPE, "datagram socket"),
            descriptor_job(("i", 5), OTHER_TYPE, "packet socket"), descriptor_job(None, OTHER_TYPE, "file"), listen_job(P)]
    jobs += [connect_job(v4, v6, port) for v4 in (0, 1) for v6 in (0, 1) for port in (80, 0x1234, 65535)]
    jobs += [user_job(P, r) for r in (True, False)] + [br_job(P, k) for k in (1, 2, 3)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "socket life")
    return "Abstract interpretation of each constructor and release with every outcome of every allocation and system call."
