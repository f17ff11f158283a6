"""Red-black tree: every operation from every valid tree up to a size, with
every outcome of the user's key comparisons."""
import itertools

import contracts
import models
import rules
import shape
from framework import check, AnalysisBroken, ObjectBroken
from sweep import Job
from values import *

BLACK, RED = ZERO, ("i", 1)
KINDS = {"no-progress", "shape", "use-after-free", "double-free", "null-deref", "uninit", "leak", "leak-err", "out-of-bounds", "wrong-allocator",
         "bad-free", "null-free", "bad-deref", "null-call", "bad-call"}


# ------------------------------------------------------- all red-black trees
def trees(n, memo={}):
    """[(color, left, right)] for all red-black trees of n nodes by (red root?, black height)"""
    if n in memo:
        return memo[n]
    res = {}
    if n == 0:
        res[(False, 1)] = [None]
    else:
        for l in range(n):
            L, R = trees(l), trees(n - 1 - l)
            for (lr, lh), ls in L.items():
                for (rr, rh), rs in R.items():
                    if lh != rh:
                        continue
                    for a in ls:
                        for b in rs:
                            res.setdefault((False, lh + 1), []).append((False, a, b))
                            if not lr and not rr:
                                res.setdefault((True, lh), []).append((True, a, b))
    memo[n] = res
    return res


def valid_trees(n):
    """trees with a black root"""
    return [t for (red, h), ts in trees(n).items() if not red for t in ts]


def tname(t):
    if t is None:
        return "."
    return "%s(%s%s)" % ("R" if t[0] else "B", tname(t[1]), tname(t[2]))


class Tree:
    pass


def build(E, st, t, alloc, name="tree"):
    P = E.prog
    T = Tree()
    T.alloc = alloc
    T.t = t
    to = shape.new_struct(E, st, "rbtree", name, alloc)
    T.oid = to
    E.write(st, to, 0, shape.vtable(P, "rbtree_create"), 8)
    for f in ("alloc",):
        shape.setf(E, st, to, "rbtree", f, alloc)
    nilo = P.offset("rbtree", "nil_impl")
    T.nil = ("p", to, nilo)
    T.nodes, T.vals, T.keys = [], [], []

    def setn(where, f, v, size=8):
        o = P.offset("rbtree_node", f)
        if o is None:
            raise AnalysisBroken("struct rbtree_node has no member %s" % f)
        E.write(st, where[1], where[2] + o, v, size)
    # the embedded nil node as the constructor leaves it
    for k, (z, v) in shape_of_new(P).items():
        E.write(st, to, k, ("p", to, v[2]) if v[0] == "p" and v[1] == "self" else v, z)
    shape.setf(E, st, to, "rbtree", "nil", T.nil)

    def count(x):
        return 0 if x is None else 1 + count(x[1]) + count(x[2])
    n = count(t)
    for i in range(n):
        v = st.fresh("value%d" % i, 64, "struct resource*", None)
        st.facts[v] = ((4096, (1 << 63) - 1),)
        k = st.fresh("key%d" % i, 64, "void*", None)
        T.vals.append(v)
        T.keys.append(k)
        st.gset("key", v, k)
    T.n = n
    vt = shape.vtable(P, "rbtree_node_create")
    ctr = [0]

    def rec(x, parent):
        if x is None:
            return T.nil
        o = shape.new_struct(E, st, "rbtree_node", "%s.node" % name, alloc)
        me = ("p", o, 0)
        l = rec(x[1], me)
        i = ctr[0]
        ctr[0] += 1
        T.nodes.append(o)
        r = rec(x[2], me)
        E.write(st, o, 0, vt, 8)
        setn(me, "alloc", alloc)
        setn(me, "parent", parent)
        setn(me, "left", l)
        setn(me, "right", r)
        setn(me, "value", T.vals[i])
        setn(me, "color", RED if x[0] else BLACK, 1)
        return me
    # nodes are appended in order: left subtree, node, right subtree
    root = rec(t, T.nil)
    shape.setf(E, st, to, "rbtree", "root", root)
    shape.setf(E, st, to, "rbtree", "count", ("i", n))
    return T


NEW = {}


def shape_of_new(P):
    """the fields of the nil node in a freshly created tree (offset -> size, value)"""
    if id(P) in NEW:
        return NEW[id(P)]
    from engine import Engine, State, width_of
    E = Engine(P, models.default_models())
    E.entry = "rbtree_create"
    st = State()
    F = P.func("rbtree_create")
    args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
    lo = P.offset("rbtree", "nil_impl")
    hi = lo + P.sizeof("rbtree_node")
    for s, rv in E.run(st, F, args):
        if s.norm(rv) != ZERO:
            continue
        v = s.norm(E.load(s, s.norm(args[0]), 8, "p"))
        o = s.heap[v[1]]
        res = {}
        for f in ("alloc", "parent", "left", "right", "value"):
            k = lo + P.offset("rbtree_node", f)
            x = s.norm(E.read(s, v[1], k, 8, "p"))
            if x[0] == "p" and x[1] == v[1]:
                x = ("p", "self", x[2])
            res[k] = (8, x)
        k = lo + P.offset("rbtree_node", "color")
        res[k] = (1, s.norm(E.read(s, v[1], k, 1, "i8")))
        res[lo] = (8, s.norm(E.read(s, v[1], lo, 8, "p")))
        NEW[id(P)] = res
        return res
    raise ObjectBroken(P, "rbtree_create", "never hands out a tree")


# ---------------------------------------------------------- the user's callbacks
def callbacks(dup):
    """key and compare of the tree's user; the probed key z has an unknown
    position among the tree's n keys: 2i is the gap before key i, 2i+1 is key i"""
    def icall(E, st, fv, args, org, rty):
        fld = str(org[2]).split(".")[-1] if org else None
        if fld == "key" and len(args) == 2:
            chk_ctx(E, st, org, args[0])
            v = st.norm(args[1])
            k = st.gget("key", v)
            if k is None:
                E.report(st, "shape", "the key of %s is taken, which is no element" % show(v))
            return [(st, k)]
        if fld == "compare" and len(args) == 3:
            chk_ctx(E, st, org, args[0])
            return compare(E, st, args[1], args[2], dup)
        return contracts.icall(E, st, fv, args, org, rty)
    return icall


def chk_ctx(E, st, org, c):
    o = E.prog.offset("rbtree", "context")
    if st.norm(E.read(st, org[0], o, 8, "p")) != st.norm(c):
        E.report(st, "shape", "a callback does not receive the tree's context", fatal=False)


def compare(E, st, a, b, dup):
    a, b = st.norm(a), st.norm(b)
    ks = st.gget("rank", "keys")
    z = st.gget("rank", "z")
    if a in ks and b in ks:
        i, j = ks.index(a), ks.index(b)
        return [(st, ("i", (0 if i == j else 1 if i > j else 0xffffffff)))]
    if (a == z and b in ks) or (b == z and a in ks):
        i = ks.index(b if a == z else a)
        sgn = 1 if a == z else -1
        lo, hi = st.gget("rank", "pos")
        outs = []
        for l, h, r in ((lo, min(hi, 2 * i), -1), (max(lo, 2 * i + 1), min(hi, 2 * i + 1), 0), (max(lo, 2 * i + 2), hi, 1)):
            if l > h or (r == 0 and not dup):
                continue
            if not dup and not any(x % 2 == 0 for x in range(l, h + 1)):
                continue
            s = st.copy()
            s.gset("rank", "pos", (l, h))
            v = r * sgn
            if (l, h) != (lo, hi):
                s.trail += ((E.curloc, "the key is %s key %d" % ({-1: "less than", 0: "equal to", 1: "greater than"}[r], i)),)
            outs.append((s, ("i", v & 0xffffffff)))
        return outs
    if a == b:
        return [(st, ZERO)]
    E.report(st, "shape", "compare is given %s and %s, which are not keys of the tree's elements" % (show(a), show(b)))


# ------------------------------------------------------------------ the oracle
def node_get(E, st, p, f, size=8):
    return st.norm(E.read(st, p[1], p[2] + E.prog.offset("rbtree_node", f), size, "p" if size == 8 else "i8"))


def check_tree(E, st, T, expect, what, oid=None, count=None):
    """the tree holds exactly the values in expect, in that order, and is a valid
    red-black tree; returns the node of each value"""
    bad = []
    P = E.prog

    def rep(m):
        E.report(st, "shape", "%s: %s" % (what, m), fatal=False)
        bad.append(m)
    to = oid or T.oid
    o = st.heap.get(to)
    if o is None or o.status != "live":
        rep("the tree is released")
        return {}
    nil = ("p", to, P.offset("rbtree", "nil_impl"))
    if shape.getf(E, st, to, "rbtree", "nil") != nil:
        rep("the tree's nil pointer does not refer to its own nil node")
        return {}
    for k, (z, v) in shape_of_new(P).items():
        w = ("p", to, v[2]) if v[0] == "p" and v[1] == "self" else v
        if st.norm(E.read(st, to, k, z, "p" if z == 8 else "i8")) != w:
            rep("the nil node is not reset (offset %d)" % (k - nil[2]))
    seen = []
    where = {}

    def rec(p, parent, depth):
        """black height, or None"""
        if p == nil:
            return 1
        if p[0] != "p" or p[2] != 0 or p[1] not in st.heap or p[1] == to:
            rep("a link is %s" % show(p))
            return None
        if st.heap[p[1]].status != "live":
            rep("a released node is linked in the tree")
            return None
        if p[1] in where.values() or depth > 40:
            rep("a node is linked twice")
            return None
        if node_get(E, st, p, "parent") != parent:
            rep("a parent link is wrong")
        red = node_get(E, st, p, "color", 1)
        if red not in (RED, BLACK):
            rep("a node's colour is %s" % show(red))
            return None
        pr = node_get(E, st, parent, "color", 1) if parent != nil else BLACK
        if red == RED and pr == RED:
            rep("a red node has a red child")
        if node_get(E, st, p, "alloc") != st.norm(T.alloc):
            rep("a node does not record the tree's allocator")
        if st.norm(E.read(st, p[1], 0, 8, "p")) != st.norm(shape.vtable(P, "rbtree_node_create")):
            rep("a node has no valid vtable")
        where[len(where)] = p[1]
        l = rec(node_get(E, st, p, "left"), p, depth + 1)
        seen.append((node_get(E, st, p, "value"), p[1]))
        r = rec(node_get(E, st, p, "right"), p, depth + 1)
        if l is None or r is None:
            return None
        if l != r:
            rep("paths through a node pass different numbers of black nodes")
            return None
        return l + (red == BLACK)
    root = shape.getf(E, st, to, "rbtree", "root")
    rec(root, nil, 0)
    if bad:
        return {}
    if root != nil and node_get(E, st, root, "color", 1) != BLACK:
        rep("the root is red")
    got = [v for v, n in seen]
    want = [st.norm(v) for v in expect]
    if got != want:
        if sorted(map(str, got)) == sorted(map(str, want)):
            rep("the elements are not in key order")
        elif len(got) < len(want):
            rep("an element is lost")
        elif len(got) > len(want):
            rep("an element remains that should be gone")
        else:
            rep("the tree holds the wrong elements")
    if shape.getf(E, st, to, "rbtree", "count") != ("i", len(want)):
        rep("the element count is %s where %d is expected" % (show(shape.getf(E, st, to, "rbtree", "count")), len(want)))
    return {v: n for v, n in seen}


def alive(st, v):
    v = st.norm(v)
    return v[0] != "p" or v[1] not in st.heap or st.heap[v[1]].status == "live"


def kept(E, st, T, what, skip=()):
    for i, v in enumerate(T.vals):
        if i not in skip and not alive(st, v):
            E.report(st, "shape", "%s: an element that stays in the tree was released" % what, fatal=False)


def positions(st, dup):
    lo, hi = st.gget("rank", "pos")
    return [x for x in range(lo, hi + 1) if dup or x % 2 == 0]


class Case:
    """one operation on one tree"""

    def __init__(self, fn, t, build, expect, dup=True, tag="", t2=None):
        self.fn, self.t, self.build, self.expect, self.dup, self.tag, self.t2 = fn, t, build, expect, dup, tag, t2

    def job(self):
        def setup(E, st, F, ctx):
            alloc = st.fresh("alloc", 64, "struct allocator*", None)
            st.facts[alloc] = ((4096, (1 << 63) - 1),)
            ctx["T"] = T = build(E, st, self.t, alloc)
            z = st.fresh("probe", 64, "void*", None)
            st.gset("rank", "keys", tuple(T.keys))
            st.gset("rank", "z", z)
            st.gset("rank", "pos", (0, 2 * T.n))
            ctx["z"] = z
            args = self.build(E, st, T, ctx)
            if len(args) != len(F.args):
                raise AnalysisBroken("%s takes %d arguments" % (self.fn, len(F.args)))
            return args

        def post(E, st, rv, args, ctx):
            ctx["out_exits"] = ctx.get("out_exits", 0) + 1
            self.expect(E, st, rv, args, ctx)
            T = ctx["T"]
            mine = [("p", n, 0) for n in T.nodes] + [("p", T.oid, 0)]
            if "T2" in ctx:
                mine += [("p", n, 0) for n in ctx["T2"].nodes] + [("p", ctx["T2"].oid, 0)]
            isst = E.stack[-1][0].rettd == "status"
            cls = rules.status_class(st, rv) if isst else "ok"
            rules.leak(E, st, rv, args + mine, cls)
            if isst:
                rules.swallow(E, st, rv, args + mine, cls)
                rules.codes(E, st, rv, args, cls)
        j = Job(self.fn, post, setup, models=models.default_models(), name="%s %s%s" % (self.fn, tname(self.t), self.tag),
                icall=callbacks(self.dup), conf={"max_rec": 64, "max_visits": 400})
        j.conf_run = {"unrolls": (200,), "secs": 120}
        return j


def rep(E, st, m):
    E.report(st, "shape", "%s: %s" % (E.entry.split()[0], m), fatal=False)


# insertion ------------------------------------------------------------------
def b_insert(E, st, T, ctx):
    r = st.fresh("resource", 64, "struct resource*", None)
    st.facts[r] = ((4096, (1 << 63) - 1),)
    st.gset("key", r, ctx["z"])
    ctx["r"] = r
    return [("p", T.oid, 0), r]


def x_insert(E, st, rv, args, ctx):
    T = ctx["T"]
    kept(E, st, T, "rbtree_insert")
    if not alive(st, ctx["r"]):
        rep(E, st, "the element passed in was released")
    if rules.status_class(st, rv) == "err":
        check_tree(E, st, T, T.vals, "rbtree_insert failed but changed the tree")
        if not rules.fail_events(st):
            pos = positions(st, True)
            if len(pos) != 1 or pos[0] % 2 == 0:
                rep(E, st, "fails although nothing it does fails")
            elif st.norm(rv)[0] != "i" or st.norm(rv)[1] & 0xffffffff != contracts.code("ERROR_RBTREE_DUPLICATE"):
                rep(E, st, "an equal key is refused with %s" % show(st.norm(rv)))
        return
    pos = positions(st, True)
    if len(pos) == 1 and pos[0] % 2:
        rep(E, st, "an element is accepted although its key is already in the tree")
        return
    w = T.vals[:pos[0] // 2] + [ctx["r"]] + T.vals[pos[0] // 2:]
    check_tree(E, st, T, w, "rbtree_insert succeeded")
    if len(pos) != 1:
        rep(E, st, "an element is placed without comparing it with its neighbours")


# lookup -----------------------------------------------------------------------
def out(E, st, ctx):
    o = st.new_obj("lazy", ("i", 8), "undef", None, "(caller's variable)", name="out")
    E.write(st, o, 0, ZERO, 8)
    ctx["out"] = o
    return ("p", o, 0)


def outval(E, st, ctx):
    return st.norm(E.read(st, ctx["out"], 0, 8, "p"))


def b_find(E, st, T, ctx):
    return [out(E, st, ctx), ("p", T.oid, 0), ctx["z"]]


def located(E, st, T):
    """index of the element the comparisons single out, None if absent"""
    pos = positions(st, True)
    if len(pos) != 1:
        rep(E, st, "the result is decided without the comparisons that determine it")
        return None, False
    return (pos[0] // 2, True) if pos[0] % 2 else (None, True)


NF = "ERROR_RBTREE_NOT_FOUND"


def x_find(E, st, rv, args, ctx):
    T = ctx["T"]
    kept(E, st, T, "rbtree_find")
    check_tree(E, st, T, T.vals, "rbtree_find changed the tree")
    i, ok = located(E, st, T)
    if not ok:
        return
    if i is None:
        if st.norm(rv) != ("i", contracts.code(NF)):
            rep(E, st, "the key is absent but the result is %s" % show(st.norm(rv)))
        if outval(E, st, ctx) != ZERO:
            rep(E, st, "the key is absent but an element is handed out")
    else:
        if st.norm(rv) != ZERO:
            rep(E, st, "the key is present but the result is %s" % show(st.norm(rv)))
        elif outval(E, st, ctx) != st.norm(T.vals[i]):
            rep(E, st, "an element with a different key is handed out")


def removed(E, st, rv, ctx, i, give):
    T = ctx["T"]
    fn = E.entry.split()[0]
    kept(E, st, T, fn, (i,))
    rest = T.vals[:i] + T.vals[i + 1:]
    err = rules.status_class(st, rv) == "err"
    if err and not rules.fail_events(st):
        rep(E, st, "fails although nothing it does fails")
    check_tree(E, st, T, rest, "%s %s" % (fn, "reported the failed release" if err else "succeeded"))
    if st.heap[T.nodes[i]].status == "live":
        rep(E, st, "the removed node is not released")
    if give:
        if not alive(st, T.vals[i]):
            rep(E, st, "the element handed out was released")
        if outval(E, st, ctx) != st.norm(T.vals[i]):
            rep(E, st, "the removed element is not handed out")
    elif not err and alive(st, T.vals[i]):
        rep(E, st, "the removed element is neither handed out nor released")


def b_delete(give):
    def f(E, st, T, ctx):
        ctx["give"] = give
        return [out(E, st, ctx) if give else ZERO, ("p", T.oid, 0), ctx["z"]]
    return f


def x_delete(E, st, rv, args, ctx):
    T = ctx["T"]
    i, ok = located(E, st, T)
    if not ok:
        return
    if i is None:
        kept(E, st, T, "rbtree_delete")
        check_tree(E, st, T, T.vals, "rbtree_delete of an absent key changed the tree")
        if st.norm(rv) != ("i", contracts.code(NF)):
            rep(E, st, "the key is absent but the result is %s" % show(st.norm(rv)))
        return
    removed(E, st, rv, ctx, i, ctx["give"])


def b_delnode(i, give):
    def f(E, st, T, ctx):
        return [out(E, st, ctx) if give else ZERO, ("p", T.oid, 0), ("p", T.nodes[i], 0)]
    return f


def x_delnode(i, give):
    def f(E, st, rv, args, ctx):
        removed(E, st, rv, ctx, i, give)
    return f


# whole tree -------------------------------------------------------------------
def b_tree(E, st, T, ctx):
    return [("p", T.oid, 0)]


def gone(E, st, T, err):
    for i in range(T.n):
        if st.heap[T.nodes[i]].status == "live":
            rep(E, st, "a node is not released")
        if alive(st, T.vals[i]) and not err:
            rep(E, st, "an element is not released")


def x_clear(E, st, rv, args, ctx):
    T = ctx["T"]
    err = rules.status_class(st, rv) == "err"
    check_tree(E, st, T, [], "rbtree_clear")
    gone(E, st, T, err)


def x_release(E, st, rv, args, ctx):
    T = ctx["T"]
    err = rules.status_class(st, rv) == "err"
    gone(E, st, T, err)
    if st.heap[T.oid].status == "live" and not err:
        rep(E, st, "the tree itself is not released")


def x_count(E, st, rv, args, ctx):
    T = ctx["T"]
    check_tree(E, st, T, T.vals, "rbtree_count changed the tree")
    if st.norm(rv) != ("i", T.n):
        rep(E, st, "yields %s for %d elements" % (show(st.norm(rv)), T.n))


def b_node(i):
    def f(E, st, T, ctx):
        return [("p", T.oid, 0), ("p", T.nodes[i], 0)]
    return f


def x_nav(want):
    def f(E, st, rv, args, ctx):
        T = ctx["T"]
        check_tree(E, st, T, T.vals, "%s changed the tree" % E.entry.split()[0])
        w = want(T)
        w = T.nil if w is None else w
        if st.norm(rv) != st.norm(w):
            rep(E, st, "yields %s where %s is expected" % (show(st.norm(rv)), show(st.norm(w))))
    return f


def nodep(i):
    return lambda T: ("p", T.nodes[i], 0) if 0 <= i < T.n else None


def index(t, base=0, parent=None, acc=None):
    """in-order index -> (parent, left child, right child, first and last of subtree)"""
    def size(x):
        return 0 if x is None else 1 + size(x[1]) + size(x[2])

    def rootof(x, b):
        return None if x is None else b + size(x[1])
    acc = {} if acc is None else acc
    if t is None:
        return acc
    i = base + size(t[1])
    acc[i] = (parent, rootof(t[1], base), rootof(t[2], i + 1), base, base + size(t) - 1)
    index(t[1], base, i, acc)
    index(t[2], i + 1, i, acc)
    return acc


def b_swap(t2):
    def f(E, st, T, ctx):
        ctx["T2"] = build(E, st, t2, T.alloc, "other")
        return [("p", T.oid, 0), ("p", ctx["T2"].oid, 0)]
    return f


def x_swap(E, st, rv, args, ctx):
    A, B = ctx["T"], ctx["T2"]
    check_tree(E, st, A, A.vals, "rbtree_swap: the left tree's elements are now in the right tree", B.oid)
    check_tree(E, st, B, B.vals, "rbtree_swap: the right tree's elements are now in the left tree", A.oid)


def created(E, st, rv, args, ctx):
    if rules.status_class(st, rv) == "err":
        return
    v = st.norm(E.load(st, st.norm(args[0]), 8, "p"))
    if v[0] != "p":
        E.report(st, "shape", "rbtree_create succeeded without handing out a tree", fatal=False)
        return
    T = Tree()
    T.alloc, T.oid = args[1], v[1]
    check_tree(E, st, T, [], "a new tree")
    if shape.getf(E, st, v[1], "rbtree", "alloc") != st.norm(args[1]):
        E.report(st, "shape", "a new tree does not record its allocator", fatal=False)
    for f, a in (("compare", 2), ("key", 3), ("context", 4)):
        if shape.getf(E, st, v[1], "rbtree", f) != st.norm(args[a]):
            E.report(st, "shape", "a new tree does not record its %s argument" % f, fatal=False)


def cases(t, deep):
    res = []
    ix = index(t)
    n = len(ix)
    res.append(Case("rbtree_insert", t, b_insert, x_insert))
    res.append(Case("rbtree_find", t, b_find, x_find))
    res.append(Case("rbtree_delete", t, b_delete(True), x_delete, tag=" handed out"))
    res.append(Case("rbtree_delete", t, b_delete(False), x_delete, tag=" released"))
    for i in range(n):
        res.append(Case("rbtree_delete_node", t, b_delnode(i, True), x_delnode(i, True), tag=" node %d handed out" % i))
        if deep or n <= 4:
            res.append(Case("rbtree_delete_node", t, b_delnode(i, False), x_delnode(i, False), tag=" node %d released" % i))
    if n <= 5:
        res.append(Case("rbtree_clear", t, b_tree, x_clear))
        res.append(Case("resource_release", t, b_tree, x_release))
    if n <= 6 or deep:
        res.append(Case("rbtree_count", t, b_tree, x_count))
        res.append(Case("rbtree_root_node", t, b_tree, x_nav(lambda T: nodep([i for i in ix if ix[i][0] is None][0])(T) if ix else None)))
        res.append(Case("rbtree_nil_node", t, b_tree, x_nav(lambda T: None)))
        for i in range(n):
            p, l, r, lo, hi = ix[i]
            for fn, w in (("rbtree_parent_node", p), ("rbtree_left_node", l), ("rbtree_right_node", r), ("rbtree_minimum_node", lo),
                          ("rbtree_maximum_node", hi), ("rbtree_successor_node", i + 1), ("rbtree_predecessor_node", i - 1)):
                res.append(Case(fn, t, b_node(i), x_nav(nodep(w) if w is not None else (lambda T: None)), tag=" node %d" % i))
            res.append(Case("rbtree_node_value", t, b_node(i), x_nav(lambda T, i=i: T.vals[i]), tag=" node %d" % i))
    return res


def small_jobs():
    """every tree operation on the smallest trees, for the generic rules"""
    return [c.job() for n in range(4) for t in valid_trees(n) for c in cases(t, False)]


@check("C04", 300)
def c04(ctx):
    top = 13 if ctx.thorough else 9
    jobs = [Job("rbtree_create", created, None, models=models.default_models())]
    nt = 0
    for n in range(top + 1):
        for t in valid_trees(n):
            nt += 1
            jobs += [c.job() for c in cases(t, ctx.thorough)]
    small = [t for n in range(4) for t in valid_trees(n)]
    for a in small:
        for b in small:
            jobs.append(Case("rbtree_swap", a, b_swap(b), x_swap, tag=" with " + tname(b)).job())
    R = ctx.sweep(jobs, kinds=KINDS)
    P = ctx.prog()
    for r in R:
        ctx.rule("tree states: " + r["fn"])
        if r["exits"] == 0 and not r["incomplete"] and not r["reports"]:
            F = P.func(r["fn"])
            ctx.finding("no-return", r["fn"], F.file, "the operation never returns from the tree %s" % r["job"].split(" ", 1)[1], entry=r["job"])
    ctx.samples = [r["job"] for r in R[1:400:37]][:12]
    ctx.notes.append("%d red-black trees of at most %d nodes" % (nt, top))
    return ("Abstract interpretation of every tree operation from every valid red-black tree of at most %d nodes and, for keyed operations, from "
            "every position of the probed key among the tree's keys (the user's compare forks on each consistent answer; keys and elements are symbols, so "
            "one case stands for all values); allocation and release outcomes fork. At each exit the links, parents, colours, black heights, nil node, key "
            "order, count and ownership are compared with what the operation promises." % top)
