"""Contracts used at module boundaries: the red-black tree seen by its clients,
and the operations of a psock whose kind is not known statically."""
from values import *
from engine import Stop, pred_set
import models
import frontend
import rules

CODES = None


def code(name):
    global CODES
    if CODES is None:
        CODES = frontend.status_codes()
    if name not in CODES:
        raise frontend.AnalysisBroken("status code %s is not defined" % name)
    return CODES[name][0]


# ------------------------------------------------------------------ rbtree
def members(st, tree):
    return st.gget("tree", tree) or ()


def captured(st, oid):
    for k, v in st.gget("tree").items():
        if oid in v:
            return k
    return None


def tree_obj(eng, st, t):
    t = st.norm(t)
    if t == ZERO:
        eng.report(st, "null-deref", "operation on a null tree")
    if t[0] == "u":
        eng.report(st, "uninit", "operation on an uninitialised tree")
    oid, off = eng.pointer(st, t)
    eng.check_access(st, oid, off, 8, "tree operation")
    return oid


def member_value(eng, st, oid):
    """an unknown element of the tree"""
    return st.fresh("member", 64, "struct resource*", (oid, "member", "member"))


def nonnull(st, v):
    st.facts[v] = ((1, (1 << 64) - 1),)
    return v


def rb_find(eng, st, args):
    r, t, key = args
    oid = tree_obj(eng, st, t)
    res = []
    f = st.copy()
    eng.store(f, r, ZERO, 8)
    f.trail += ((eng.curloc, "key is not in the tree"),)
    f.event("notfound", oid, eng.curloc)
    res.append((f, ("i", code("ERROR_RBTREE_NOT_FOUND"))))
    for m in members(st, oid):
        s = st.copy()
        eng.store(s, r, ("p", m, 0), 8)
        s.trail += ((eng.curloc, "the element just inserted is found"),)
        res.append((s, ZERO))
    v = nonnull(st, member_value(eng, st, oid))
    eng.store(st, r, v, 8)
    st.event("found", oid, v, eng.curloc)
    st.trail += ((eng.curloc, "key is found"),)
    res.append((st, ZERO))
    return res


def rb_insert(eng, st, args):
    t, r = args
    oid = tree_obj(eng, st, t)
    r = st.norm(r)
    if r[0] == "u":
        eng.report(st, "uninit", "uninitialised resource inserted in a tree")
    if r == ZERO:
        eng.report(st, "null-deref", "null resource inserted in a tree")
    roid, roff = eng.pointer(st, r)
    eng.check_access(st, roid, roff, 8, "insertion")
    rules.has_methods(eng, st, r, "an object is put in a tree")

    def ok(s):
        s.gset("tree", oid, members(s, oid) + (roid,))
        s.event("insert", oid, roid, eng.curloc)
    return eng.fallible(st, "rbtree_insert", ok=ok)


def rb_delete(eng, st, args):
    r, t, key = args
    oid = tree_obj(eng, st, t)
    r = st.norm(r)
    res = []
    f = st.copy()
    f.trail += ((eng.curloc, "key is not in the tree"),)
    f.event("notfound", oid, eng.curloc)
    res.append((f, ("i", code("ERROR_RBTREE_NOT_FOUND"))))
    for m in members(st, oid):
        s = st.copy()
        s.gset("tree", oid, tuple(x for x in members(s, oid) if x != m))
        s.event("delete", oid, ("p", m, 0), eng.curloc)
        s.trail += ((eng.curloc, "the element just inserted is removed"),)
        if r == ZERO:
            res += eng.call_named(s, eng.prog.func("resource_release").name, [("p", m, 0)])
        else:
            eng.store(s, r, ("p", m, 0), 8)
            res.append((s, ZERO))
    v = nonnull(st, member_value(eng, st, oid))
    st.event("delete", oid, v, eng.curloc)
    st.trail += ((eng.curloc, "key is removed"),)
    if r != ZERO:
        eng.store(st, r, v, 8)
    else:
        st.event("release-member", oid, v, eng.curloc)
    f = st.copy()
    e = f.fresh("err.rbtree_delete", 32, "status")
    f.facts[e] = models.ERRSET
    f.event("fail", "rbtree_delete", eng.curloc, e)
    f.trail += ((eng.curloc, "releasing the tree node reports an error"),)
    return res + [(st, ZERO), (f, e)]


def rb_clear(eng, st, args):
    oid = tree_obj(eng, st, args[0])
    ms = members(st, oid)
    st.gset("tree", oid, ())
    st.event("clear", oid, eng.curloc)
    outs = [(st, ZERO)]
    for m in ms:
        nxt = []
        for s, rv in outs:
            for s2, r2 in eng.call_named(s, eng.prog.func("resource_release").name, [("p", m, 0)]):
                nxt.append((s2, rv if rv != ZERO else r2))
        outs = nxt
    final = []
    for s, rv in outs:
        final.append((s, rv))
        if rv == ZERO and not (eng.spec is not None and getattr(eng.spec, "no_unknown_members", False)):
            f = s.copy()
            e = f.fresh("err.rbtree_clear", 32, "status")
            f.facts[e] = models.ERRSET
            f.event("fail", "rbtree_clear", eng.curloc, e)
            final.append((f, e))
    return final


RBTREE = {"rbtree_find": rb_find, "rbtree_insert": rb_insert, "rbtree_delete": rb_delete, "rbtree_clear": rb_clear}


# ------------------------------------------------------------------ sequences
# slist as seen by its clients (queue is analysed through it): front and back
# are the elements put there by the code under analysis, rest says whether
# elements of unknown origin may lie between them.  The contract itself is what
# the slist checks establish about the implementation.
def seq_obj(eng, st, l):
    l = st.norm(l)
    if l == ZERO:
        eng.report(st, "null-deref", "operation on a null list")
    if l[0] == "u":
        eng.report(st, "uninit", "operation on an uninitialised list")
    oid, off = eng.pointer(st, l)
    eng.check_access(st, oid, off, 8, "list operation")
    coff = off + eng.prog.offset("slist", "count")
    cur = st.gget("seq", oid)
    if cur is None:
        c = st.norm(eng.load(st, ("p", oid, coff), 8, "i64"))
        cur = ((), c != ZERO, ())
        st.gset("seq", oid, cur)
    return oid, coff, cur


def seq_set(eng, st, oid, coff, cur, count=None):
    st.gset("seq", oid, cur)
    st.gset("tree", oid, tuple(x[1] for x in cur[0] + cur[2] if x[0] == "p"))
    if count is not None:
        eng.store(st, ("p", oid, coff), count, 8)


def seq_count_val(eng, st, oid, coff):
    return st.norm(eng.load(st, ("p", oid, coff), 8, "i64"))


def seq_insert(where):
    def m(eng, st, args):
        oid, coff, cur = seq_obj(eng, st, args[0])
        r = st.norm(args[1])
        if r[0] == "u":
            eng.report(st, "uninit", "uninitialised resource put in a list")
        if r == ZERO:
            eng.report(st, "null-deref", "null resource put in a list")
        roid, roff = eng.pointer(st, r)
        eng.check_access(st, roid, roff, 8, "list insertion")
        rules.has_methods(eng, st, r, "an object is put in a list")

        def ok(s):
            f, rest, b = cur
            v = ("p", roid, roff)
            new = ((v,) + f, rest, b) if where == "head" else (f, rest, b + (v,))
            c = seq_count_val(eng, s, oid, coff)
            n = eng.binop(s, "add", c, ("i", 1), 64)
            if n[0] != "i":
                s.facts.setdefault(n, ((1, (1 << 64) - 1),)) if n[0] in ("s", "o") else None
            seq_set(eng, s, oid, coff, new, n)
            s.event("seqins", oid, where, v, eng.curloc)
        return eng.fallible(st, "slist_" + ("insert_head" if where == "head" else "append_tail"), ok=ok)
    return m


def seq_pop(eng, st, args):
    oid, coff, cur = seq_obj(eng, st, args[0])
    res = []
    # the node's block can only fail to be released if the allocator refuses it
    can_fail = eng.spec is not None and getattr(eng.spec, "reclaim_can_fail", False)

    def take(s, v, new, c):
        n = eng.binop(s, "sub", c, ("i", 1), 64)
        seq_set(eng, s, oid, coff, new, n)
        fs = []
        if not can_fail:
            eng.store(s, args[1], v, 8)
            s.event("seqpop", oid, v, eng.curloc)
            s.trail += ((eng.curloc, "an element is popped"),)
            return [(s, ZERO)]
        f = s.copy()
        e = f.fresh("err.slist_pop", 32, "status")
        f.facts[e] = models.ERRSET
        f.event("fail", "slist_pop", eng.curloc, e)
        f.trail += ((eng.curloc, "releasing the list node fails; the element is released"),)
        eng.store(f, args[1], ZERO, 8)
        if v[1] in f.heap and f.heap[v[1]].kind == "heap":
            for s2, rv in eng.call_named(f, eng.prog.func("resource_release").name, [v]):
                fs.append((s2, e))
        else:
            fs.append((f, e))
        eng.store(s, args[1], v, 8)
        s.event("seqpop", oid, v, eng.curloc)
        s.trail += ((eng.curloc, "an element is popped"),)
        return [(s, ZERO)] + fs
    f, rest, b = cur
    c = seq_count_val(eng, st, oid, coff)
    if f:
        return take(st, f[0], (f[1:], rest, b), c)
    if rest:
        s = st.copy()
        ge = len(b) + 1
        if eng.assume(s, eng.cmp(s, "uge", c, ("i", ge), 64), True):
            v = nonnull(s, s.fresh("element", 64, "struct resource*", (oid, "member", "member")))
            res += take(s, v, cur, c)
        if not eng.assume(st, eng.cmp(st, "eq", c, ("i", len(b)), 64), True):
            return res
        c = st.norm(c)
    if b:
        return res + take(st, b[0], ((), False, b[1:]), c)
    seq_set(eng, st, oid, coff, ((), False, ()))
    st.event("seqempty", oid, eng.curloc)
    st.trail += ((eng.curloc, "the list is empty"),)
    return res + [(st, ZERO)]


def seq_clear(eng, st, args):
    oid, coff, cur = seq_obj(eng, st, args[0])
    f, rest, b = cur
    seq_set(eng, st, oid, coff, ((), False, ()), ZERO)
    st.event("clear", oid, eng.curloc)
    outs = [(st, ZERO)]
    for v in f + b:
        nxt = []
        for s, rv in outs:
            if v[1] in s.heap and s.heap[v[1]].kind == "heap":
                for s2, r2 in eng.call_named(s, eng.prog.func("resource_release").name, [v]):
                    nxt.append((s2, rv if rv != ZERO else r2))
            else:
                nxt.append((s, rv))
        outs = nxt
    final = []
    for s, rv in outs:
        final.append((s, rv))
        if rv == ZERO and rest:
            g = s.copy()
            e = g.fresh("err.slist_clear", 32, "status")
            g.facts[e] = models.ERRSET
            g.event("fail", "slist_clear", eng.curloc, e)
            final.append((g, e))
    return final


def seq_count(eng, st, args):
    oid, coff, cur = seq_obj(eng, st, args[0])
    c = seq_count_val(eng, st, oid, coff)
    f, rest, b = cur
    k = len(f) + len(b)
    if rest and k and c[0] in ("s", "o", "a"):
        eng.assume(st, eng.cmp(st, "uge", c, ("i", k), 64), True)
    return [(st, c)]


SEQ = {"slist_append_tail": seq_insert("tail"), "slist_insert_head": seq_insert("head"), "slist_pop": seq_pop,
       "slist_clear": seq_clear, "slist_count": seq_count}


def release_cb(eng, st, args, rty):
    """release of a resource whose kind is not known"""
    p = st.norm(args[0])

    def ok(s):
        q = s.norm(p)
        if q[0] == "s":
            eng.pointer(s, q)
            q = s.norm(q)
        if q[0] == "p" and q[1] in s.heap and s.heap[q[1]].kind == "lazy":
            o = s.wobj(q[1])
            o.status = "freed"
            o.meta = dict(o.meta, freed_at=eng.curloc)
        s.event("released", q, eng.curloc)
    return eng.fallible(st, "callback:release", ok=ok)


# ------------------------------------------------------------------ psock slots
def read_slot(eng, st, args, rty):
    sock, ctx, data, size = args[:4]
    n = eng.load(st, size, 8, "i64")
    if n[0] == "u":
        eng.report(st, "uninit", "read with an uninitialised size")

    def eff(s, okay):
        m = s.fresh("got", 64, "unsigned long")
        eng.assume_cmp(s, "ule", m, s.norm(n), 64) if n[0] != "i" else s.facts.__setitem__(m, ((0, n[1]),))
        d = s.norm(data)
        if d[0] == "p" and d[1] in s.heap:
            if n != ZERO:
                o = s.heap[d[1]]
                eng.range_check(s, o, d[2], n, "read into")
                models.havoc_buffer(eng, s, d)
        eng.store(s, size, m, 8)
        s.event("psread", s.norm(sock), d, n, m, okay, eng.curloc)
    return eng.fallible(st, "callback:read_fn", ok=lambda s: eff(s, True), fail=lambda s: eff(s, False))


def write_slot(eng, st, args, rty):
    sock, ctx, data, size = args[:4]
    n = eng.load(st, size, 8, "i64")
    if n[0] == "u":
        eng.report(st, "uninit", "write with an uninitialised size")
    models.outgoing(eng, st, data, n, "a socket's write method")

    def eff(s, okay):
        m = s.fresh("put", 64, "unsigned long")
        eng.assume_cmp(s, "ule", m, s.norm(n), 64) if n[0] != "i" else s.facts.__setitem__(m, ((0, n[1]),))
        eng.store(s, size, m, 8)
        s.event("pswrite", s.norm(sock), s.norm(data), n, m, okay, eng.curloc)
    return eng.fallible(st, "callback:write_fn", ok=lambda s: eff(s, True), fail=lambda s: eff(s, False))


def accept_slot(eng, st, args, rty):
    def ok(s):
        fd = models.new_fd(eng, s, "accept_fn")
        eng.store(s, args[2], fd, 4)
        s.event("psaccept", s.norm(args[0]), fd, eng.curloc)
    return eng.fallible(st, "callback:accept_fn", ok=ok)


def recvmsg_slot(eng, st, args, rty):
    def ok(s):
        models.havoc_msghdr(eng, s, args[2])
        l = s.fresh("msglen", 64, "unsigned long")
        eng.store(s, args[3], l, 8)
        s.event("psrecvmsg", s.norm(args[0]), s.norm(args[2]), eng.curloc)
    return eng.fallible(st, "callback:recvmsg_fn", ok=ok)


def sendmsg_slot(eng, st, args, rty):
    models.outgoing_message(eng, st, args[2], "a socket's sendmsg method")

    def ok(s):
        s.event("pssendmsg", s.norm(args[0]), s.norm(args[2]), eng.curloc)
    return eng.fallible(st, "callback:sendmsg_fn", ok=ok)


def release_slot(eng, st, args, rty):
    def both(s):
        s.event("psrelease", s.norm(args[0]), s.norm(args[1]), eng.curloc)
    return eng.fallible(st, "callback:release_fn", ok=both, fail=both)


SLOTS = {"read_fn": read_slot, "write_fn": write_slot, "accept_fn": accept_slot, "recvmsg_fn": recvmsg_slot,
         "sendmsg_fn": sendmsg_slot, "release_fn": release_slot}


def icall(eng, st, fv, args, org, rty):
    """call through an unknown function pointer: by the slot it was read from"""
    if org is None:
        return None
    fld = str(org[2]).split(".")[-1]
    if fld == "release" and rty == "i32" and len(args) == 1:
        return release_cb(eng, st, args, rty)
    m = SLOTS.get(fld)
    if m is not None and rty == "i32" and len(args) >= 2:
        return m(eng, st, args, rty)
    return None


def release_with_members(eng, st, args):
    """releasing a tree releases its elements first"""
    p = st.norm(args[0])
    if p[0] == "p" and members(st, p[1]) and st.gget("seq", p[1]) is None:
        ms = members(st, p[1])
        st.gset("tree", p[1], ())
        outs = [(st, ZERO)]
        for m in ms:
            nxt = []
            for s, rv in outs:
                for s2, r2 in eng.call_named(s, eng.prog.func("resource_release").name, [("p", m, 0)]):
                    nxt.append((s2, rv if rv != ZERO else r2))
            outs = nxt
        final = []
        for s, rv in outs:
            for s2, r2 in eng.call_named(s, eng.prog.func("resource_release").name, [p]):
                final.append((s2, rv if rv != ZERO else r2))
        return final
    return models.resource_release(eng, st, args)


def client_models(kind_models=None):
    m = models.default_models()
    m["resource_release"] = release_with_members
    m.update(RBTREE)
    m.update(SEQ)
    return m
