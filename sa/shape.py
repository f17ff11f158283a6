"""Symbolic pre-states for containers and the comparison of post-states with
them.  A linked list of any length is a sequence of explicit nodes and gaps;
an operation that touches only the neighbourhood of its argument is decided for
every length by the layouts that enumerate the possible neighbourhoods."""
from values import *
from frontend import ObjectBroken
from engine import AnalysisBroken, State, Engine, width_of
import contracts
import models
import rules

GAP = "..."


class Lists:
    """names of the structures of one list implementation"""

    def __init__(self, lst, node, doubly):
        self.lst, self.node, self.doubly = lst, node, doubly

    def off(self, P, s, f):
        o = P.offset(s, f)
        if o is None:
            raise AnalysisBroken("struct %s has no member %s" % (s, f))
        return o


def found(ty):
    """a lookup that finds something and hands it out through its first argument"""
    def m(E, st, args):
        v = st.fresh("found", 64, ty, None)
        st.facts[v] = ((4096, (1 << 63) - 1),)
        E.store(st, st.norm(args[0]), v, 8)
        return [(st, ZERO)]
    return m


# outcomes assumed while looking for the vtable a constructor installs
STUBS = {"fiber_scheduler_discipline_find": found("struct fiber_scheduler_discipline*")}


def concrete_vtable(P, creator, struct_argidx=0):
    """the vtable a constructor installs, found by interpreting it"""
    E = Engine(P, dict(models.default_models(), **STUBS))
    E.entry = creator
    st = State()
    F = P.func(creator)
    args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
    for s, rv in E.run(st, F, args):
        if s.norm(rv) != ZERO:
            continue
        a = s.norm(args[struct_argidx])
        if a[0] != "p":
            continue
        f = s.heap[a[1]].fields.get(a[2])
        v = s.norm(f[1]) if f else None
        if v and v[0] == "p" and v[1] in s.heap:
            g = s.heap[v[1]].fields.get(0)
            t = s.norm(g[1]) if g else ZERO
            if t[0] == "p" and t[1].startswith("@"):
                return t
    raise ObjectBroken(P, creator, "never hands out an object whose method table is set")


def concrete_fields(P, creator, argidx=0):
    """field values (offset -> value) that are constants or globals in every
    object a constructor hands out"""
    E = Engine(P, models.default_models())
    E.entry = creator
    st = State()
    F = P.func(creator)
    args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
    for s, rv in E.run(st, F, args):
        if s.norm(rv) != ZERO:
            continue
        a = s.norm(args[argidx])
        f = s.heap[a[1]].fields.get(a[2]) if a[0] == "p" else None
        v = s.norm(f[1]) if f else None
        if v and v[0] == "p" and v[1] in s.heap:
            return {k: (z, s.norm(x)) for k, (z, x) in s.heap[v[1]].fields.items()
                    if x[0] != "z" and (s.norm(x)[0] == "f" or (s.norm(x)[0] == "p" and s.norm(x)[1].startswith("@")))}
    raise ObjectBroken(P, creator, "never hands out an object whose method table is set")


VT = {}


def vtable(P, creator):
    k = (id(P), creator)
    if k not in VT:
        VT[k] = concrete_vtable(P, creator)
    return VT[k]


def new_struct(E, st, struct, name, alloc=None, kind="heap", default="lazy"):
    sz = E.prog.sizeof(struct)
    oid = st.new_obj(kind, ("i", sz), default, "struct " + struct, "(%s)" % name, {"alloc": alloc} if alloc else {}, name=name)
    return oid


def setf(E, st, oid, struct, field, val, size=8):
    o = E.prog.offset(struct, field)
    if o is None:
        raise AnalysisBroken("struct %s has no member %s" % (struct, field))
    E.write(st, oid, o, val, size)


def getf(E, st, oid, struct, field, size=8):
    o = E.prog.offset(struct, field)
    if o is None:
        raise AnalysisBroken("struct %s has no member %s" % (struct, field))
    return st.norm(E.read(st, oid, o, size, "p"))


class Shape:
    def __init__(self):
        self.nodes = {}
        self.children = {}
        self.gaps = []
        self.list = None
        self.count = None
        self.pre = None


def build_list(E, st, L, layout, alloc, tag="list", child=True):
    """a list laid out as given; returns its Shape"""
    P = E.prog
    S = Shape()
    S.layout = tuple(layout)
    S.alloc = alloc
    S.L = L
    items = list(layout)
    # what is next to a gap is an unknown node, distinct from the explicit ones
    for i, x in enumerate(items):
        if x == GAP:
            a = st.fresh("first." + tag, 64, "struct %s*" % L.node, None)
            b = st.fresh("last." + tag, 64, "struct %s*" % L.node, None)
            st.facts[a] = st.facts[b] = ((4096, (1 << 63) - 1),)
            S.gaps.append((a, b))
    nex = sum(1 for x in items if x != GAP)
    if S.gaps:
        c = st.fresh("count." + tag, 64, "unsigned long", None)
        st.facts[c] = ((nex + len(S.gaps), (1 << 60)),)
    else:
        c = ("i", nex)
    S.count = c
    lo = new_struct(E, st, L.lst, tag, alloc)
    S.list = lo
    vt_l = vtable(P, L.lst + "_create")
    vt_n = vtable(P, L.node + "_create")
    E.write(st, lo, 0, vt_l, 8)
    setf(E, st, lo, L.lst, "alloc", alloc)
    setf(E, st, lo, L.lst, "count", c)
    for x in items:
        if x != GAP:
            S.children[x] = st.fresh("child.%s" % x, 64, "struct resource*", None)
            st.facts[S.children[x]] = ((4096, (1 << 63) - 1),)
    for x in items:
        if x != GAP:
            S.nodes[x] = new_struct(E, st, L.node, "%s.%s" % (tag, x), alloc)
    gi = 0
    prev = ZERO
    prevnode = None
    head = None
    for x in items:
        if x == GAP:
            a, b = S.gaps[gi]
            gi += 1
            if prevnode is None:
                head = a
            else:
                setf(E, st, prevnode, L.node, "next", a)
            prev, prevnode = b, None
            S.open = True
            pend = True
        else:
            n = S.nodes[x]
            E.write(st, n, 0, vt_n, 8)
            setf(E, st, n, L.node, "alloc", alloc)
            setf(E, st, n, L.node, "parent", ("p", lo, 0))
            setf(E, st, n, L.node, "child", S.children[x])
            setf(E, st, n, L.node, "next", ZERO)
            if L.doubly:
                setf(E, st, n, L.node, "prev", prev)
            if head is None:
                head = ("p", n, 0)
            elif prevnode is not None:
                setf(E, st, prevnode, L.node, "next", ("p", n, 0))
            prev, prevnode = ("p", n, 0), n
    setf(E, st, lo, L.lst, "head", head if head is not None else ZERO)
    setf(E, st, lo, L.lst, "tail", prev)
    S.snapshot = {n: dict(st.heap[o].fields) for n, o in S.nodes.items()}
    return S


def check_list(E, st, S, expect, what, delta=None, list_oid=None, kind="shape"):
    """expect: node tags, GAP, or ("new", child value)"""
    L = S.L
    lo = list_oid or S.list
    bad = []
    nm = lambda v: show(v)

    def rep(m):
        E.report(st, kind, "%s: %s" % (what, m), fatal=False)
        bad.append(m)
    o = st.heap.get(lo)
    if o is None or o.status != "live":
        rep("the list itself is released")
        return False
    cur = getf(E, st, lo, L.lst, "head")
    prev = ZERO
    lastnode = None
    gi = 0
    for x in expect:
        if x == GAP:
            a, b = S.gaps[gi]
            gi += 1
            if st.norm(cur) != st.norm(a):
                rep("the link to the rest of the list is %s" % nm(cur))
                return False
            # the untouched part ends in b, whose next link leads on
            g = st.norm(b)
            if lastnode is not None or True:
                ga = st.norm(a)
                if ga[0] == "p":
                    if L.doubly:
                        f = st.heap[ga[1]].fields.get(E.prog.offset(L.node, "prev"))
                        if f is not None and not E.is_input_cell(st, ga[1], E.prog.offset(L.node, "prev"), f) and st.norm(f[1]) != prev:
                            rep("the backward link into the rest of the list is wrong")
            prev = b
            cur = None
            lastnode = None
            continue
        if cur is None:
            # after a gap the next explicit node follows unless relinked
            gb = st.norm(S.gaps[gi - 1][1])
            f = None
            if gb[0] == "p":
                f = st.heap[gb[1]].fields.get(E.prog.offset(L.node, "next"))
            if f is not None and not E.is_input_cell(st, gb[1], E.prog.offset(L.node, "next"), f):
                cur = st.norm(f[1])
            elif isinstance(x, tuple):
                rep("the new element is not linked after the rest of the list")
                return False
            else:
                cur = ("p", S.nodes[x], 0)
        cur = st.norm(cur)
        if cur[0] != "p" or cur[2] != 0:
            rep("a link is %s where %s is expected" % ("null" if cur == ZERO else nm(cur), label(x)))
            return False
        n = cur[1]
        no = st.heap.get(n)
        if no is None or no.status != "live":
            rep("a released node is linked in the list")
            return False
        if isinstance(x, tuple):
            if n in S.nodes.values() or no.kind != "heap":
                rep("%s is linked where the new element is expected" % n)
                return False
            want = x[1]
            if getf(E, st, n, L.node, "alloc") != st.norm(S.alloc):
                rep("the new node does not record the list's allocator")
            if st.norm(E.read(st, n, 0, 8, "p")) != st.norm(vtable(E.prog, L.node + "_create")):
                rep("the new node has no valid vtable")
        else:
            if n != S.nodes[x]:
                rep("a different node is linked where %s is expected" % label(x))
                return False
            want = S.children[x]
        if getf(E, st, n, L.node, "child") != st.norm(want):
            rep("%s holds the wrong element" % label(x))
        if getf(E, st, n, L.node, "parent") != ("p", lo, 0):
            rep("%s does not refer to its list" % label(x))
        if L.doubly and getf(E, st, n, L.node, "prev") != st.norm(prev):
            rep("the backward link of %s is wrong" % label(x))
        prev = ("p", n, 0)
        lastnode = n
        cur = getf(E, st, n, L.node, "next")
    if cur is not None and st.norm(cur) != ZERO:
        rep("the last link is not null")
    if getf(E, st, lo, L.lst, "tail") != st.norm(prev):
        rep("the tail is wrong")
    if not expect and getf(E, st, lo, L.lst, "tail") != ZERO:
        rep("the tail of the empty list is not null")
    # untouched nodes of gaps
    for a, b in S.gaps:
        for v in (a, b):
            g = st.norm(v)
            if g[0] == "p":
                for k, f in st.heap[g[1]].fields.items():
                    pass
    if delta is not None:
        c = getf(E, st, lo, L.lst, "count")
        want = add(st.norm(S.count), ("i", delta))
        if st.norm(want) != c:
            d = add(c, st.norm(S.count), -1)
            if d is None or st.norm(d) != ("i", delta):
                rep("the element count is %s where %s is expected" % (show(c), show(want)))
    return not bad


def label(x):
    return "the new element" if isinstance(x, tuple) else "element %s" % x
