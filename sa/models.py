"""Contracts of the operations at which the analysis stops: the allocator
interface, release of resources of unknown type, and the C library / system
calls.  Each contract enumerates the outcomes the operation may have."""
from values import *
from engine import Stop, pred_set, inter2

ERRSET = ((1 << 31, (1 << 32) - 1),)


def out(st, v):
    return [(st, v)]


# ---------------------------------------------------------------- allocator
def allocate(eng, st, args):
    a, p, size = args
    size = st.norm(size)
    if st.norm(a) == ZERO:
        eng.report(st, "null-deref", "allocation from a null allocator")
    if st.norm(a)[0] == "u":
        eng.report(st, "uninit", "allocation from an uninitialised allocator")
    if a[0] == "p":
        eng.check_access(st, a[1], a[2], 8, "allocation from")
    f = st.copy()
    eng.store(f, p, ZERO, 8)
    e = f.fresh("err.allocate", 32, "status")
    f.facts[e] = ERRSET
    f.event("fail", "allocator_allocate", eng.curloc, e)
    f.trail = f.trail + ((eng.curloc, "allocation fails"),)
    oid = st.new_obj("heap", size, "undef", None, eng.curloc, {"alloc": st.norm(a)}, name="heap")
    eng.store(st, p, ("p", oid, 0), 8)
    st.event("alloc", oid, eng.curloc)
    st.trail = st.trail + ((eng.curloc, "allocation succeeds: " + oid),)
    return [(st, ZERO), (f, e)]


def reclaim(eng, st, args):
    a, p = args
    p = st.norm(p)
    if p == ZERO:
        eng.report(st, "null-free", "null pointer reclaimed")
    if p[0] == "u":
        eng.report(st, "uninit", "uninitialised pointer reclaimed")
    oid, off = eng.pointer(st, p)
    o = st.heap[oid]
    if o.status == "freed":
        eng.report(st, "double-free", "%s is released again (first released at %s)" % (eng.describe(o), o.meta.get("freed_at")))
    if o.kind in ("stack", "global"):
        eng.report(st, "bad-free", "%s is not a heap block" % eng.describe(o))
    if off != 0 and o.kind == "heap":
        eng.report(st, "bad-free", "interior pointer of %s reclaimed" % eng.describe(o))
    al = o.meta.get("alloc")
    na = st.norm(a)
    if na[0] == "u":
        eng.report(st, "uninit", "reclaim through an uninitialised allocator")
    if na == ZERO:
        eng.report(st, "null-deref", "reclaim through a null allocator")
    if na[0] == "p":
        ao = st.heap.get(na[1])
        if ao is not None and ao.status == "freed":
            eng.report(st, "use-after-free", "reclaim through an allocator read from %s after its release" % eng.describe(ao))
    if al is not None:
        if st.norm(al) != na and na[0] in ("p", "s") and st.norm(al)[0] in ("p", "s"):
            eng.report(st, "wrong-allocator", "%s is reclaimed through a different allocator (%s, allocated from %s)" %
                       (eng.describe(o), show(na), show(st.norm(al))))
    check_embedded(eng, st, oid)
    o = st.wobj(oid)
    o.status = "freed"
    o.meta = dict(o.meta, freed_at=eng.curloc)
    st.event("free", oid, eng.curloc)
    if eng.spec is not None and getattr(eng.spec, "reclaim_can_fail", False):
        f = st.copy()
        e = f.fresh("err.reclaim", 32, "status")
        f.facts[e] = ERRSET
        f.event("fail", "allocator_reclaim", eng.curloc, e)
        return [(st, ZERO), (f, e)]
    return out(st, ZERO)


def check_embedded(eng, st, oid):
    """OS objects embedded in a block must be destroyed before the block goes"""
    for key, (state, site) in list((st.ghost.get("os") or {}).items()):
        if key[1] == oid and state == "live":
            eng.report(st, "leak-os", "%s initialised at %s is not destroyed before its memory is released" % (key[0], site), fatal=False)


def reallocate(eng, st, args):
    a, pp, size = args
    size = st.norm(size)
    old = eng.load(st, pp, 8, "p")
    if old[0] == "u":
        eng.report(st, "uninit", "uninitialised pointer reallocated")
    if old == ZERO:
        eng.report(st, "null-deref", "null pointer reallocated")
    f = st.copy()
    e = f.fresh("err.reallocate", 32, "status")
    f.facts[e] = ERRSET
    f.event("fail", "allocator_reallocate", eng.curloc, e)
    f.trail = f.trail + ((eng.curloc, "reallocation fails"),)
    ooid, off = eng.pointer(st, old)
    eng.check_access(st, ooid, off, 1, "reallocation")
    o = st.heap[ooid]
    if o.kind in ("stack", "global"):
        eng.report(st, "bad-free", "%s is not a heap block" % eng.describe(o))
    oid = st.new_obj("heap", size, "undef", o.dtype, eng.curloc, {"alloc": st.norm(a), "elem": o.meta.get("elem"), "realloc_of": ooid}, name="heap")
    n = st.wobj(oid)
    n.fields = dict(o.fields)
    # what was stored before is kept; the part beyond the old size is unknown
    n.default = "lazy" if o.default in ("lazy",) else ("undef" if o.default == "undef" else "lazy")
    old_o = st.wobj(ooid)
    old_o.status = "freed"
    old_o.meta = dict(old_o.meta, freed_at=eng.curloc)
    eng.store(st, pp, ("p", oid, 0), 8)
    st.event("realloc", ooid, oid, eng.curloc)
    st.trail = st.trail + ((eng.curloc, "reallocation succeeds: " + oid),)
    return [(st, ZERO), (f, e)]


def resource_release(eng, st, args):
    """release of a resource: resolved when its vtable is known, otherwise the
    contract (the resource is consumed; the status is success or an error)"""
    r = st.norm(args[0])
    if r == ZERO:
        eng.report(st, "null-deref", "null resource released")
    if r[0] == "u":
        eng.report(st, "uninit", "uninitialised resource pointer released")
    oid, off = eng.pointer(st, r)
    eng.check_access(st, oid, off, 8, "release")
    o = st.heap[oid]
    if o.status == "freed":
        eng.report(st, "double-free", "%s is released again (first released at %s)" % (eng.describe(o), o.meta.get("freed_at")))
    spec = eng.spec
    if spec is not None and getattr(spec, "release_hook", None):
        r2 = spec.release_hook(eng, st, oid, off)
        if r2 is not None:
            return r2
    if o.kind == "lazy" and not (spec is not None and oid in getattr(spec, "release_inline", ())):
        f0 = o.fields.get(off)
        if f0 is None or st.norm(f0[1])[0] not in ("p",):
            return consume(eng, st, oid)
    return None     # interpret resource_release itself


def consume(eng, st, oid, fails=True):
    o = st.wobj(oid)
    o.status = "freed"
    o.meta = dict(o.meta, freed_at=eng.curloc)
    st.event("release", oid, eng.curloc)
    if not fails:
        return [(st, ZERO)]
    f = st.copy()
    e = f.fresh("err.release", 32, "status")
    f.facts[e] = ERRSET
    f.event("fail", "resource_release", eng.curloc, e)
    f.trail = f.trail + ((eng.curloc, "release reports an error"),)
    return [(st, ZERO), (f, e)]


# ---------------------------------------------------------------- libc
def malloc(eng, st, args):
    size = st.norm(args[0])
    f = st.copy()
    f.event("fail", "malloc", eng.curloc, None)
    f.trail = f.trail + ((eng.curloc, "malloc fails"),)
    oid = st.new_obj("heap", size, "undef", None, eng.curloc, {}, name="heap")
    st.event("alloc", oid, eng.curloc)
    return [(st, ("p", oid, 0)), (f, ZERO)]


def free(eng, st, args):
    p = st.norm(args[0])
    if p == ZERO:
        return out(st, None)
    if p[0] == "u":
        eng.report(st, "uninit", "uninitialised pointer freed")
    oid, off = eng.pointer(st, p)
    o = st.heap[oid]
    if o.status == "freed":
        eng.report(st, "double-free", "%s is freed again (first freed at %s)" % (eng.describe(o), o.meta.get("freed_at")))
    if o.kind in ("stack", "global"):
        eng.report(st, "bad-free", "%s is not a heap block" % eng.describe(o))
    o = st.wobj(oid)
    o.status = "freed"
    o.meta = dict(o.meta, freed_at=eng.curloc)
    st.event("free", oid, eng.curloc)
    return out(st, None)


def realloc(eng, st, args):
    p, size = st.norm(args[0]), st.norm(args[1])
    f = st.copy()
    f.event("fail", "realloc", eng.curloc, None)
    if p == ZERO:
        return malloc(eng, st, [size])
    ooid, off = eng.pointer(st, p)
    eng.check_access(st, ooid, off, 1, "realloc")
    o = st.wobj(ooid)
    oid = st.new_obj("heap", size, "undef", o.dtype, eng.curloc, {"realloc_of": ooid}, name="heap")
    n = st.wobj(oid)
    n.fields = dict(o.fields)
    n.default = o.default if o.default == "lazy" else "lazy"
    o.status = "freed"
    o.meta = dict(o.meta, freed_at=eng.curloc)
    st.event("realloc", ooid, oid, eng.curloc)
    return [(st, ("p", oid, 0)), (f, ZERO)]


def set_errno(eng, st, name):
    e = st.fresh("errno." + name, 32, "int")
    st.facts[e] = ((1, 4095),)
    eng.write(st, errno_obj(eng, st), 0, e, 4)
    return e


def errno_obj(eng, st):
    if "errno" not in st.heap:
        from engine import Obj
        st.heap["errno"] = Obj("errno", "global", 4, "lazy", None, "errno", 0, {"const": False})
    return "errno"


def errno_location(eng, st, args):
    return out(st, ("p", errno_obj(eng, st), 0))


def syscall_fail(eng, st, name, w=32):
    f = st.copy()
    en = set_errno(eng, f, name)
    f.event("sysfail", name, eng.curloc, en)
    f.trail = f.trail + ((eng.curloc, name + " fails"),)
    return (f, ("i", (1 << w) - 1))


def new_fd(eng, st, name):
    s = st.fresh("fd." + name, 32, "int")
    st.facts[s] = ((0, (1 << 31) - 1),)
    st.gset("fd", s, ("open", eng.curloc, name))
    st.event("fd", s, eng.curloc)
    st.trail = st.trail + ((eng.curloc, name + " succeeds"),)
    return s


def opener(name):
    def m(eng, st, args):
        f = syscall_fail(eng, st, name)
        s = new_fd(eng, st, name)
        return [(st, s), f]
    return m


def socketpair(eng, st, args):
    f = syscall_fail(eng, st, "socketpair")
    a, b = new_fd(eng, st, "socketpair"), new_fd(eng, st, "socketpair")
    eng.store(st, args[3], a, 4)
    p = st.norm(args[3])
    p2 = eng.binop(st, "add", p, ("i", 4), 64) if p[0] == "p" else p
    eng.store(st, p2, b, 4)
    return [(st, ZERO), f]


def close(eng, st, args):
    fd = st.norm(args[0])
    if fd[0] == "u":
        eng.report(st, "uninit", "uninitialised descriptor closed")
    cur = st.gget("fd", fd)
    if cur is not None and cur[0] == "closed":
        eng.report(st, "double-close", "descriptor opened at %s closed twice (first at %s)" % (cur[2] if len(cur) > 2 else "?", cur[1]))
    if fd[0] != "i":
        st.gset("fd", fd, ("closed", eng.curloc, cur[1] if cur else "caller"))
    st.event("close", fd, eng.curloc)
    f = st.copy()
    en = set_errno(eng, f, "close")
    f.event("sysfail", "close", eng.curloc, en)
    return [(st, ZERO), (f, ("i", (1 << 32) - 1))]


def sys0(name):
    """returns 0 or -1 with errno"""
    def m(eng, st, args):
        for a in args:
            if st.norm(a)[0] == "u":
                eng.report(st, "uninit", "uninitialised argument passed to %s" % name)
        f = syscall_fail(eng, st, name)
        st.event("sys", name, tuple(st.norm(a) for a in args), eng.curloc)
        st.trail = st.trail + ((eng.curloc, name + " succeeds"),)
        return [(st, ZERO), f]
    return m


def outgoing(eng, st, p, n, what):
    """the bytes that leave through a write must lie in the buffer and be set"""
    p, n = st.norm(p), st.norm(n)
    if p[0] != "p" or n == ZERO:
        return
    o = st.heap.get(p[1])
    if o is None or o.status != "live":
        return
    if o.kind != "lazy":
        eng.range_check(st, o, p[2], n, what)
    if o.kind in ("heap", "stack") and n[0] == "i" and n[1] <= 256 and isinstance(p[2], int):
        for k in range(n[1]):
            if eng.read(st, p[1], p[2] + k, 1, "i8")[0] == "u":
                eng.report(st, "sent-uninit", "a byte of %s that was never set is sent by %s" % (eng.describe(o), what), fatal=False)
                return


def outgoing_message(eng, st, msg, what):
    """the data parts of a message header"""
    m = st.norm(msg)
    if m[0] != "p" or not isinstance(m[2], int) or m[1] not in st.heap or st.heap[m[1]].kind == "lazy":
        return
    v = st.norm(eng.read(st, m[1], m[2] + 16, 8, "p"))
    n = st.norm(eng.read(st, m[1], m[2] + 24, 8, "i64"))
    if v[0] != "p" or n[0] != "i" or n[1] > 8 or not isinstance(v[2], int) or v[1] not in st.heap:
        return
    for k in range(n[1]):
        b = eng.read(st, v[1], v[2] + 16 * k, 8, "p")
        z = eng.read(st, v[1], v[2] + 16 * k + 8, 8, "i64")
        outgoing(eng, st, b, z, what)


def fd_op(name, limit=True, sizearg=2):
    """read/write style: -1, or a count not larger than the size"""
    def m(eng, st, args):
        fd = st.norm(args[0])
        cur = st.gget("fd", fd)
        if cur is not None and cur[0] == "closed":
            eng.report(st, "use-after-close", "%s on a closed descriptor" % name)
        if name == "write":
            outgoing(eng, st, args[1], args[sizearg], "write()")
        elif name == "sendmsg":
            outgoing_message(eng, st, args[1], "sendmsg()")
        f = syscall_fail(eng, st, name, 64)
        s = st.fresh("n." + name, 64, "long")
        if limit:
            n = st.norm(args[sizearg])
            h = st.hull(n)
            hi = min(h[1], (1 << 63) - 1) if h else (1 << 63) - 1
            st.facts[s] = ((0, max(hi, 0)),)
            if n[0] != "i":
                eng.assume_cmp(st, "ule", s, n, 64)
            p = st.norm(args[1])
            if p[0] == "p" and name == "read":
                o = st.heap.get(p[1])
                if o is not None:
                    eng.range_check(st, o, p[2], n, "read()")
                    havoc_buffer(eng, st, p)
        else:
            st.facts[s] = ((0, (1 << 63) - 1),)
        st.event("sys", name, tuple(st.norm(a) for a in args), eng.curloc, s)
        return [(st, s), f]
    return m


def havoc_buffer(eng, st, p):
    o = st.wobj(p[1])
    lo = p[2] if isinstance(p[2], int) else 0
    for k in list(o.fields):
        if not isinstance(k, int) or k + o.fields[k][0] > lo:
            del o.fields[k]
    if o.default != "lazy":
        o.default = "lazy"


def getsockopt(eng, st, args):
    f = syscall_fail(eng, st, "getsockopt")
    p = st.norm(args[3])
    eng.store(st, p, st.fresh("sockopt", 32, "int"), 4)
    st.event("sys", "getsockopt", tuple(st.norm(a) for a in args), eng.curloc)
    st.trail = st.trail + ((eng.curloc, "getsockopt succeeds"),)
    return [(st, ZERO), f]


def havoc_msghdr(eng, st, p, depth=0):
    """recvmsg: the kernel fills the buffers a message header refers to and
    updates its lengths"""
    oid, off = eng.pointer(st, st.norm(p))
    if not isinstance(off, int):
        return
    for fo, kind in ((16, "iov"), (32, "ctl")):
        v = eng.load(st, ("p", oid, off + fo), 8, "p")
        if v[0] == "p" and v[1] in st.heap:
            if kind == "iov":
                b = eng.load(st, v, 8, "p")
                if b[0] == "p" and b[1] in st.heap:
                    havoc_buffer(eng, st, b)
            else:
                havoc_buffer(eng, st, v)
    l = st.fresh("controllen", 64, "unsigned long")
    eng.store(st, ("p", oid, off + 40), l, 8)
    eng.store(st, ("p", oid, off + 48), st.fresh("msgflags", 32, "int"), 4)


def recvmsg(eng, st, args):
    r = fd_op("recvmsg", False)(eng, st, args)
    havoc_msghdr(eng, r[0][0], args[1])
    return r


def fiber_switch(eng, st, args):
    """control returns when some other fiber resumes this one: the resumption
    arguments left in the current fiber are arbitrary"""
    prev = st.norm(args[0])
    if prev[0] == "u":
        eng.report(st, "uninit", "switch from an uninitialised fiber")
    nxt = st.norm(args[1])
    if nxt[0] == "u":
        eng.report(st, "uninit", "switch to an uninitialised fiber")
    eng.pointer(st, args[0])
    eng.pointer(st, args[1])
    st.event("switch", prev, nxt, tuple(st.norm(a) for a in args[2:]), eng.curloc)
    for p in (prev, nxt):
        p = st.norm(p)
        if p[0] == "p" and isinstance(p[2], int):
            for fld, w, ty in (("restore_discipline_id", 8, "struct rcpr_uuid*"), ("restore_reason_code", 4, "int"),
                               ("restore_param", 8, "void*")):
                off = eng.prog.offset("fiber", fld)
                w = eng.scalar_size("struct fiber", off) or w
                eng.store(st, ("p", p[1], p[2] + off), st.fresh("resume." + fld, w * 8, ty, (p[1], off, fld)), w)
    return [(st, None)]


def fiber_make(eng, st, args):
    st.event("fiber_make", tuple(st.norm(a) for a in args), eng.curloc)
    return [(st, None)]


def fcntl(eng, st, args):
    f = syscall_fail(eng, st, "fcntl")
    s = st.fresh("flags", 32, "int")
    st.facts[s] = ((0, (1 << 31) - 1),)
    st.event("sys", "fcntl", tuple(st.norm(a) for a in args), eng.curloc, s)
    return [(st, s), f]


def dup2(eng, st, args):
    f = syscall_fail(eng, st, "dup2")
    st.event("dup2", st.norm(args[0]), st.norm(args[1]), eng.curloc)
    return [(st, st.norm(args[1])), f]


def epoll_wait(eng, st, args):
    f = syscall_fail(eng, st, "epoll_wait")
    s = st.fresh("nev", 32, "int")
    h = st.hull(st.norm(args[2]))
    st.facts[s] = ((0, h[1] if h else 1 << 20),)
    p = st.norm(args[1])
    if p[0] == "p":
        havoc_range(eng, st, p, st.norm(args[2]), 12)
    st.event("sys", "epoll_wait", tuple(st.norm(a) for a in args), eng.curloc, s)
    return [(st, s), f]


def havoc_range(eng, st, p, n, esz):
    if p[1] not in st.heap:
        return
    o = st.wobj(p[1])
    lo = p[2] if isinstance(p[2], int) else 0
    hi = lo + n[1] * esz if n[0] == "i" else 1 << 40
    for k in list(o.fields):
        if not isinstance(k, int):
            del o.fields[k]
        elif k < hi and k + o.fields[k][0] > lo:
            del o.fields[k]
    if o.default != "lazy":
        o.default = "lazy"


def poll(eng, st, args):
    f = syscall_fail(eng, st, "poll")
    s = st.fresh("nev", 32, "int")
    st.facts[s] = ((0, (1 << 31) - 1),)
    st.event("sys", "poll", tuple(st.norm(a) for a in args), eng.curloc, s)
    return [(st, s), f]


def strlen(eng, st, args):
    p = st.norm(args[0])
    eng.pointer(st, p)
    p = st.norm(p)
    m = st.gget("strlen", p)
    if m is None:
        m = st.fresh("strlen", 64, "unsigned long")
        st.facts[m] = ((0, (1 << 48)),)
        st.gset("strlen", p, m)
    return out(st, m)


def mem_content(eng, st, p, n):
    """tuple of the n bytes at p if all are known constants"""
    oid, off = eng.pointer(st, p)
    if not isinstance(off, int):
        return None
    res = []
    for i in range(n):
        o = st.heap[oid]
        if o.kind == "lazy" and not eng.overlapping(o, off + i, 1):
            return None
        v = eng.read(st, oid, off + i, 1, "i8")
        if v[0] != "i":
            return None
        res.append(v[1])
    return tuple(res)


def memcmp(eng, st, args):
    a, b, n = st.norm(args[0]), st.norm(args[1]), st.norm(args[2])
    if a[0] == "u" or b[0] == "u":
        eng.report(st, "uninit", "memcmp on an uninitialised pointer")
    if a == b or n == ZERO:
        return out(st, ZERO)
    eng.pointer(st, a), eng.pointer(st, b)
    a, b = st.norm(a), st.norm(b)
    for p in (a, b):
        if p[0] == "p":
            eng.range_check(st, st.heap[p[1]], p[2], n, "memcmp")
    if n[0] == "i" and n[1] <= 64:
        x, y = mem_content(eng, st, a, n[1]), mem_content(eng, st, b, n[1])
        if x is not None and y is not None:
            r = 0 if x == y else (1 if x > y else -1)
            return out(st, ("i", r & 0xffffffff))
    return out(st, ("o", "memcmp", a, b, n, 32))


def htons(eng, st, args):
    v = st.norm(args[0])
    bs = eng.to_bytes(st, v, 2)
    if bs is None:
        return out(st, ("o", "bswap", v, 16))
    return out(st, eng.from_bytes(st, bs[::-1]))


def htonl(eng, st, args):
    v = st.norm(args[0])
    bs = eng.to_bytes(st, v, 4)
    if bs is None:
        return out(st, ("o", "bswap", v, 32))
    return out(st, eng.from_bytes(st, bs[::-1]))


def gethostbyname2(eng, st, args):
    s = st.fresh("hostent", 64, "struct hostent*")
    return out(st, s)


AF_SIZE = {2: (16, 4, 4), 10: (28, 8, 16)}


def addrinfo(eng, st, hints, out, fresh=True):
    """what the resolver hands out: one entry with its address -> (state, [address bytes], family) or None"""
    fam, kind, proto = ("i", 0), ("i", 0), ("i", 0)
    h = st.norm(hints)
    if h != ZERO:
        flags, fam, kind, proto = (st.norm(eng.load(st, ("p", h[1], h[2] + k) if h[0] == "p" else add(h, ("i", k)), 4, "i32")) for k in (0, 4, 8, 12))
        if any(x[0] == "u" for x in (flags, fam, kind, proto)):
            eng.report(st, "uninit", "the hints given to the resolver are not set")
    n, off, an = AF_SIZE.get(fam[1] if fam[0] == "i" else None, (128, 128, 0))
    a = st.new_obj("lazy", ("i", n), "zero" if an else "undef", None, "(address found)", {"root": True}, name="address")
    bs = []
    if an:
        eng.write(st, a, 0, ("i", fam[1]), 2)
        for k in range(an):
            v = st.fresh("addr%d" % k, 8, "char")
            eng.write(st, a, off + k, v, 1)
            bs.append(v)
    else:
        for k in range(n):
            eng.write(st, a, k, st.fresh("addr%d" % k, 8, "char"), 1)
    o = st.new_obj("heap", ("i", 48), "zero", None, eng.curloc, {"addrinfo": a}, name="addrinfo")
    for k, v, w in ((4, fam, 4), (8, kind, 4), (12, proto, 4), (16, ("i", n), 4), (24, ("p", a, 0), 8)):
        eng.write(st, o, k, v, w)
    eng.store(st, out, ("p", o, 0), 8)
    st.event("alloc", o, eng.curloc)
    return bs, fam


def getaddrinfo(eng, st, args):
    f = st.copy()
    e = f.fresh("err.getaddrinfo", 32, "int")
    f.facts[e] = ((1, (1 << 32) - 1),)
    f.event("sysfail", "getaddrinfo", eng.curloc, e)
    f.trail += ((eng.curloc, "the name is not found"),)
    addrinfo(eng, st, args[2], args[3])
    return [(st, ZERO), (f, e)]


def freeaddrinfo(eng, st, args):
    p = st.norm(args[0])
    if p[0] == "u":
        eng.report(st, "uninit", "uninitialised address list released")
    if p == ZERO:
        eng.report(st, "null-free", "null address list released")
    oid, off = eng.pointer(st, p)
    o = st.heap[oid]
    if o.status == "freed":
        eng.report(st, "double-free", "%s is released again" % eng.describe(o))
    if "addrinfo" not in (o.meta or {}):
        eng.report(st, "bad-free", "%s is released as an address list" % eng.describe(o))
    for x in (oid, (o.meta or {}).get("addrinfo")):
        if x is not None:
            w = st.wobj(x)
            w.status = "freed"
            w.meta = dict(w.meta, freed_at=eng.curloc)
    st.event("free", oid, eng.curloc)
    return out(st, ZERO)


def mmap(eng, st, args):
    f = syscall_fail(eng, st, "mmap", 64)
    oid = st.new_obj("heap", st.norm(args[1]), "zero", None, eng.curloc, {"mmap": True}, name="mmap")
    st.event("alloc", oid, eng.curloc)
    return [(st, ("p", oid, 0)), f]


def munmap(eng, st, args):
    p = st.norm(args[0])
    if p[0] == "u":
        eng.report(st, "uninit", "uninitialised pointer unmapped")
    if p == ZERO:
        eng.report(st, "null-free", "null region unmapped")
    oid, off = eng.pointer(st, p)
    o = st.heap[oid]
    if o.status == "freed":
        eng.report(st, "double-free", "%s is unmapped again" % eng.describe(o))
    o = st.wobj(oid)
    o.status = "freed"
    o.meta = dict(o.meta, freed_at=eng.curloc)
    if o.kind == "heap" and o.size is not None:
        sz = st.norm(args[1])
        if st.norm(o.size if isinstance(o.size, tuple) else ("i", o.size)) != sz:
            eng.report(st, "bad-unmap", "region mapped with size %s is unmapped with size %s" % (show(o.size), show(sz)), fatal=False)
    st.event("free", oid, eng.curloc)
    f = st.copy()
    en = set_errno(eng, f, "munmap")
    f.event("sysfail", "munmap", eng.curloc, en)
    return [(st, ZERO), (f, ("i", (1 << 32) - 1))]


# ---------------------------------------------------------------- pthread
def oskey(eng, st, kind, p):
    oid, off = eng.pointer(st, p)
    eng.check_access(st, oid, off, 1, kind)
    return (kind, oid, off)


def pt_init(name, kind):
    def m(eng, st, args):
        k = oskey(eng, st, kind, args[0])
        f = st.copy()
        e = f.fresh("rc." + name, 32, "int")
        f.facts[e] = ((1, 4095),)
        f.event("sysfail", name, eng.curloc, e)
        f.trail = f.trail + ((eng.curloc, name + " fails"),)
        cur = st.gget("os", k)
        if cur and cur[0] == "live":
            eng.report(st, "double-init", "%s initialised twice" % kind)
        st.gset("os", k, ("live", eng.curloc))
        st.event("os", k, eng.curloc)
        st.trail = st.trail + ((eng.curloc, name + " succeeds"),)
        return [(st, ZERO), (f, e)]
    return m


def pt_destroy(name, kind):
    def m(eng, st, args):
        k = oskey(eng, st, kind, args[0])
        cur = st.gget("os", k)
        if cur and cur[0] == "dead":
            eng.report(st, "double-destroy", "%s destroyed twice" % kind)
        st.gset("os", k, ("dead", eng.curloc))
        st.event("osdestroy", k, eng.curloc)
        f = st.copy()
        e = f.fresh("rc." + name, 32, "int")
        f.facts[e] = ((1, 4095),)
        f.event("sysfail", name, eng.curloc, e)
        return [(st, ZERO), (f, e)]
    return m


def pt_call(name, kind=None):
    """0 or a positive error number"""
    def m(eng, st, args):
        for i, a in enumerate(args):
            if st.norm(a)[0] == "u":
                eng.report(st, "uninit", "uninitialised argument passed to %s" % name)
        oids = []
        for a in args:
            a = st.norm(a)
            if a[0] in ("s", "a") and name != "pthread_join":
                try:
                    eng.pointer(st, a)
                except Stop:
                    raise
                a = st.norm(a)
            oids.append(a)
        for a in oids:
            if a[0] == "p" and a[1] in st.heap:
                eng.check_access(st, a[1], a[2], 1, name)
        f = st.copy()
        e = f.fresh("rc." + name, 32, "int")
        f.facts[e] = ((1, 4095),)
        f.event("sysfail", name, eng.curloc, e)
        f.trail = f.trail + ((eng.curloc, name + " fails"),)
        st.event("pt", name, tuple(oids), eng.curloc)
        st.trail = st.trail + ((eng.curloc, name + " succeeds"),)
        return [(st, ZERO), (f, e)]
    return m


def pt_create(eng, st, args):
    tp = st.norm(args[0])
    eng.pointer(st, tp)
    f = st.copy()
    e = f.fresh("rc.pthread_create", 32, "int")
    f.facts[e] = ((1, 4095),)
    f.event("sysfail", "pthread_create", eng.curloc, e)
    f.trail = f.trail + ((eng.curloc, "pthread_create fails"),)
    h = st.fresh("thread", 64, "unsigned long")
    eng.store(st, tp, h, 8)
    st.gset("thread", h, ("running", eng.curloc, st.norm(args[3])))
    st.event("pt", "pthread_create", tuple(st.norm(a) for a in args), eng.curloc)
    return [(st, ZERO), (f, e)]


def cmsg_nxthdr(eng, st, args):
    return out(st, st.fresh("cmsg", 64, "struct cmsghdr*"))


BASE = {
    "allocator_allocate": allocate, "allocator_reclaim": reclaim, "allocator_reallocate": reallocate,
    "resource_release": resource_release,
}
LIBC = {
    "malloc": malloc, "free": free, "realloc": realloc,
    "__errno_location": errno_location,
    "socket": opener("socket"), "accept": opener("accept"), "epoll_create1": opener("epoll_create1"),
    "socketpair": socketpair, "close": close,
    "bind": sys0("bind"), "connect": sys0("connect"), "listen": sys0("listen"), "setsockopt": sys0("setsockopt"),
    "getsockopt": getsockopt, "epoll_ctl": sys0("epoll_ctl"),
    "read": fd_op("read"), "write": fd_op("write"), "recvmsg": recvmsg, "sendmsg": fd_op("sendmsg", False),
    "fcntl": fcntl, "dup2": dup2, "epoll_wait": epoll_wait, "poll": poll,
    "strlen": strlen, "memcmp": memcmp, "htons": htons, "ntohs": htons, "htonl": htonl, "ntohl": htonl,
    "gethostbyname2": gethostbyname2, "getaddrinfo": getaddrinfo, "freeaddrinfo": freeaddrinfo, "mmap": mmap, "munmap": munmap, "__cmsg_nxthdr": cmsg_nxthdr,
    "pthread_mutex_init": pt_init("pthread_mutex_init", "mutex"), "pthread_mutex_destroy": pt_destroy("pthread_mutex_destroy", "mutex"),
    "pthread_cond_init": pt_init("pthread_cond_init", "cond"), "pthread_cond_destroy": pt_destroy("pthread_cond_destroy", "cond"),
    "pthread_attr_init": pt_init("pthread_attr_init", "attr"), "pthread_attr_destroy": pt_destroy("pthread_attr_destroy", "attr"),
    "pthread_attr_setstacksize": pt_call("pthread_attr_setstacksize"),
    "pthread_mutex_lock": pt_call("pthread_mutex_lock"), "pthread_mutex_unlock": pt_call("pthread_mutex_unlock"),
    "pthread_cond_wait": pt_call("pthread_cond_wait"), "pthread_cond_signal": pt_call("pthread_cond_signal"),
    "pthread_cond_broadcast": pt_call("pthread_cond_broadcast"), "pthread_join": pt_call("pthread_join"),
    "pthread_create": pt_create, "fiber_switch": fiber_switch, "fiber_make": fiber_make,
}


def default_models():
    m = dict(BASE)
    m.update(LIBC)
    return m
