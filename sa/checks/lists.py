"""Linked lists and the queue: for every operation and every neighbourhood of
its argument, the list afterwards is the one the operation promises."""
import contracts
import models
import rules
import shape
from engine import width_of
from framework import check, AnalysisBroken
from shape import GAP, Lists
from sweep import Job
from values import *

SL = Lists("slist", "slist_node", False)
DL = Lists("list", "list_node", True)

ANY = [[], ["a"], ["a", "b"], ["a", GAP, "b"]]
# positions of the node an operation is applied to
AT = [["n"], ["n", "t"], ["n", "s", "t"], ["n", "s", GAP, "t"],
      ["h", "n"], ["h", "p", "n"], ["h", GAP, "p", "n"],
      ["h", "n", "t"], ["h", "n", "s", GAP, "t"], ["h", GAP, "p", "n", "t"], ["h", "p", "n", "s", "t"],
      ["h", GAP, "p", "n", "s", GAP, "t"]]


def alive(st, v):
    v = st.norm(v)
    return v[0] != "p" or v[1] not in st.heap or st.heap[v[1]].status == "live"


def fmt(layout):
    return "[" + " ".join(layout) + "]"


class Case:
    def __init__(self, L, fn, layout, build, expect):
        self.L, self.fn, self.layout, self.build, self.expect = L, fn, layout, build, expect

    def job(self):
        name = "%s %s" % (self.fn, fmt(self.layout))

        def setup(E, st, F, ctx):
            alloc = st.fresh("alloc", 64, "struct allocator*", None)
            st.facts[alloc] = ((4096, (1 << 63) - 1),)
            ctx["S"] = S = shape.build_list(E, st, self.L, self.layout, alloc)
            args = self.build(E, st, S, ctx)
            if len(args) != len(F.args):
                raise AnalysisBroken("%s takes %d arguments" % (self.fn, len(F.args)))
            ctx["pre"] = st.copy()
            return args

        def post(E, st, rv, args, ctx):
            ctx["out_exits"] = ctx.get("out_exits", 0) + 1
            self.expect(E, st, rv, args, ctx)
            mine = [("p", n, 0) for n in ctx["S"].nodes.values()]
            rules.leak(E, st, rv, args + [("p", ctx["S"].list, 0)] + mine, rules.status_class(st, rv) if rv is not None else "ok")
        return Job(self.fn, post, setup, models=models.default_models(), name=name)


def outptr(E, st, ctx, val=ZERO, name="out"):
    o = st.new_obj("stack", ("i", 8), "undef", None, "(caller's variable)", name=name)
    st.heap[o].kind = "lazy"
    if val is not None:
        E.write(st, o, 0, val, 8)
    ctx["out"] = o
    return ("p", o, 0)


def outval(E, st, ctx):
    return st.norm(E.read(st, ctx["out"], 0, 8, "p"))


def new_res(st):
    r = st.fresh("resource", 64, "struct resource*", None)
    st.facts[r] = ((4096, (1 << 63) - 1),)
    return r


def no_release(E, st, S, what, skip=()):
    for t, c in S.children.items():
        if t not in skip and not alive(st, c):
            E.report(st, "shape", "%s: the element %s was released" % (what, t), fatal=False)


def inserted(where):
    def expect(E, st, rv, args, ctx):
        S = ctx["S"]
        fn = E.entry.split()[0]
        if not alive(st, ctx["r"]):
            E.report(st, "shape", "%s: the element passed in was released" % fn, fatal=False)
        if rules.status_class(st, rv) == "err":
            shape.check_list(E, st, S, S.layout, "%s failed but changed the list" % fn, 0)
            no_release(E, st, S, fn)
            return
        shape.check_list(E, st, S, where(S.layout, ("new", ctx["r"])), "%s succeeded" % fn, 1)
        no_release(E, st, S, fn)
    return expect


def before(lay, x):
    i = lay.index("n")
    return list(lay[:i]) + [x] + list(lay[i:])


def after(lay, x):
    i = lay.index("n")
    return list(lay[:i + 1]) + [x] + list(lay[i + 1:])


def mk_list_arg(E, st, S, ctx):
    ctx["r"] = new_res(st)
    return [("p", S.list, 0), ctx["r"]]


def mk_node_arg(E, st, S, ctx):
    ctx["r"] = new_res(st)
    return [("p", S.nodes["n"], 0), ctx["r"]]


def popped(which):
    """which(layout) -> the tag removed, or None"""
    def expect(E, st, rv, args, ctx):
        S = ctx["S"]
        fn = E.entry.split()[0]
        t = which(S.layout)
        if rules.status_class(st, rv) == "err":
            E.report(st, "shape", "%s fails although every release it makes succeeds" % fn, fatal=False)
            return
        v = outval(E, st, ctx)
        no_release(E, st, S, fn)
        if t is None:
            if v != ZERO:
                E.report(st, "shape", "%s found nothing to remove but handed out %s" % (fn, show(v)), fatal=False)
            shape.check_list(E, st, S, S.layout, "%s found nothing to remove" % fn, 0)
            return
        if v != st.norm(S.children[t]):
            E.report(st, "shape", "%s handed out %s where the element of %s is expected" % (fn, show(v), t), fatal=False)
        exp = [x for x in S.layout if x != t]
        shape.check_list(E, st, S, exp, "%s succeeded" % fn, -1)
        if st.heap[S.nodes[t]].status == "live":
            E.report(st, "shape", "%s: the removed node is not released" % fn, fatal=False)
    return expect


def first(lay):
    return lay[0] if lay else None


def nextof(lay):
    i = lay.index("n")
    return lay[i + 1] if i + 1 < len(lay) else None


def getter(value):
    """status fn(T** out, node/list): *out is value(S)"""
    def expect(E, st, rv, args, ctx):
        S = ctx["S"]
        fn = E.entry.split()[0]
        if rv is not None and st.norm(rv) != ZERO:
            E.report(st, "shape", "%s reports failure" % fn, fatal=False)
        v = outval(E, st, ctx)
        w = st.norm(value(E, st, S))
        if v != w:
            E.report(st, "shape", "%s yields %s where %s is expected" % (fn, show(v), show(w)), fatal=False)
        shape.check_list(E, st, S, S.layout, "%s changed the list" % fn, 0)
    return expect


def node_or_null(S, t):
    return ("p", S.nodes[t], 0) if t else ZERO


def link(S, d):
    i = S.layout.index("n") + d
    if i < 0 or i >= len(S.layout):
        return ZERO
    if S.layout[i] == GAP:
        g = [j for j, x in enumerate(S.layout) if x == GAP].index(i)
        return S.gaps[g][0 if d > 0 else 1]
    return ("p", S.nodes[S.layout[i]], 0)


def endof(S, last):
    return ("p", S.nodes[S.layout[-1 if last else 0]], 0) if S.layout else ZERO


def mk_out_list(E, st, S, ctx):
    return [outptr(E, st, ctx, None), ("p", S.list, 0)]


def mk_out_node(E, st, S, ctx):
    return [outptr(E, st, ctx, None), ("p", S.nodes["n"], 0)]


def mk_list_out(E, st, S, ctx):
    return [("p", S.list, 0), outptr(E, st, ctx)]


def mk_node_out(E, st, S, ctx):
    return [("p", S.nodes["n"], 0), outptr(E, st, ctx)]


def counted(E, st, rv, args, ctx):
    S = ctx["S"]
    if st.norm(rv) != st.norm(S.count):
        E.report(st, "shape", "%s yields %s where %s is expected" % (E.entry.split()[0], show(rv), show(S.count)), fatal=False)
    shape.check_list(E, st, S, S.layout, "%s changed the list" % E.entry.split()[0], 0)


def mk_only_list(E, st, S, ctx):
    return [("p", S.list, 0)]


def mk_swap(E, st, S, ctx):
    ctx["old"] = st.norm(S.children["n"])
    ctx["r"] = new_res(st)
    return [("p", S.nodes["n"], 0), outptr(E, st, ctx, ctx["r"])]


def child_swapped(E, st, rv, args, ctx):
    S = ctx["S"]
    fn = E.entry.split()[0]
    if st.norm(rv) != ZERO:
        E.report(st, "shape", "%s reports failure" % fn, fatal=False)
    if outval(E, st, ctx) != st.norm(ctx["old"]):
        E.report(st, "shape", "%s does not hand out the old element" % fn, fatal=False)
    S2 = S
    keep = S.children["n"]
    S.children = dict(S.children, n=ctx["r"])
    shape.check_list(E, st, S, S.layout, "%s succeeded" % fn, 0)
    S.children = dict(S.children, n=keep)
    no_release(E, st, S, fn)


def mk_clear(E, st, S, ctx):
    return [("p", S.list, 0)]


def cleared(E, st, rv, args, ctx):
    S = ctx["S"]
    fn = E.entry.split()[0]
    if rules.status_class(st, rv) == "err":
        # some elements remain: what remains must be a well-formed list
        lo, L = S.list, S.L
        if st.heap[lo].status != "live":
            return
        h = shape.getf(E, st, lo, L.lst, "head")
        t = shape.getf(E, st, lo, L.lst, "tail")
        if h == ZERO and t != ZERO:
            E.report(st, "shape", "%s failed and left an empty list whose tail refers to a removed node" % fn, fatal=False)
        if h[0] == "p" and st.heap[h[1]].status != "live":
            E.report(st, "shape", "%s failed and left a released node in the list" % fn, fatal=False)
        if h[0] == "p" and L.doubly and h[1] in S.nodes.values():
            if shape.getf(E, st, h[1], L.node, "prev") != ZERO:
                E.report(st, "shape", "%s failed and left a backward link to a removed node" % fn, fatal=False)
        return
    shape.check_list(E, st, S, [], "%s succeeded" % fn)
    if shape.getf(E, st, S.list, S.L.lst, "count") != ZERO:
        E.report(st, "shape", "%s succeeded: the element count is not 0" % fn, fatal=False)
    gone(E, st, S, fn)


def gone(E, st, S, fn):
    for t, n in S.nodes.items():
        if st.heap[n].status == "live":
            E.report(st, "shape", "%s succeeded: the node of %s is not released" % (fn, t), fatal=False)
        if alive(st, S.children[t]):
            E.report(st, "shape", "%s succeeded: the element %s is not released" % (fn, t), fatal=False)


def released(E, st, rv, args, ctx):
    S = ctx["S"]
    if rules.status_class(st, rv) == "err":
        return
    gone(E, st, S, "release")
    if st.heap[S.list].status == "live":
        E.report(st, "shape", "release succeeded: the list itself is not released", fatal=False)


def created(L):
    def post(E, st, rv, args, ctx):
        a = st.norm(args[0])
        fn = E.entry
        if rules.status_class(st, rv) == "err":
            return
        v = st.norm(E.load(st, a, 8, "p"))
        if v[0] != "p":
            E.report(st, "shape", "%s succeeded without handing out a list" % fn, fatal=False)
            return
        for f in ("head", "tail", "count"):
            x = shape.getf(E, st, v[1], L.lst, f)
            if x != ZERO:
                E.report(st, "shape", "%s: a new list has %s %s" % (fn, f, show(x)), fatal=False)
        if shape.getf(E, st, v[1], L.lst, "alloc") != st.norm(args[1]):
            E.report(st, "shape", "%s: a new list does not record its allocator" % fn, fatal=False)
    return Job(L.lst + "_create", post, None, models=models.default_models())


def cases(L):
    p = L.lst
    res = []

    def add(fn, layouts, build, expect):
        for lay in layouts:
            res.append(Case(L, p + fn, lay, build, expect))
    add("_append_tail", ANY, mk_list_arg, inserted(lambda l, x: list(l) + [x]))
    add("_insert_head", ANY, mk_list_arg, inserted(lambda l, x: [x] + list(l)))
    add("_append", AT, mk_node_arg, inserted(after))
    if L.doubly:
        add("_insert", AT, mk_node_arg, inserted(before))
    add("_pop", [[], ["a"], ["a", "b"], ["a", GAP, "b"], ["a", "b", GAP, "c"]], mk_list_out, popped(first))
    if not L.doubly:
        add("_node_next_pop", [l for l in AT if nextof(l) != GAP], mk_node_out, popped(nextof))
    add("_head", ANY, mk_out_list, getter(lambda E, st, S: endof(S, False)))
    add("_tail", ANY, mk_out_list, getter(lambda E, st, S: endof(S, True)))
    add("_count", ANY, mk_only_list, counted)
    add("_node_child", AT, mk_out_node, getter(lambda E, st, S: S.children["n"]))
    add("_node_next", AT, mk_out_node, getter(lambda E, st, S: link(S, 1)))
    if L.doubly:
        add("_node_prev", AT, mk_out_node, getter(lambda E, st, S: link(S, -1)))
    add("_node_child_swap", AT, mk_swap, child_swapped)
    add("_clear", [[], ["a"], ["a", "b"], ["a", "b", "c"]], mk_clear, cleared)
    return res


def release_cases(L):
    res = []
    for lay in [[], ["a"], ["a", "b"], ["a", "b", "c"]]:
        c = Case(L, "resource_release", lay, mk_only_list, released)
        res.append(c)
    return res


def swap_job(L, la, lb, extra):
    """swap two lists, then append after the last node of the left one"""
    fn = L.lst + "_swap"

    def setup(E, st, F, ctx):
        alloc = st.fresh("alloc", 64, "struct allocator*", None)
        st.facts[alloc] = ((4096, (1 << 63) - 1),)
        ctx["A"] = shape.build_list(E, st, L, la, alloc, "left")
        ctx["B"] = shape.build_list(E, st, L, lb, alloc, "right")
        return [("p", ctx["A"].list, 0), ("p", ctx["B"].list, 0)]

    def post(E, st, rv, args, ctx):
        A, B = ctx["A"], ctx["B"]
        shape.check_list(E, st, A, A.layout, "%s: the left list's elements are now in the right list" % fn, 0, list_oid=B.list)
        shape.check_list(E, st, B, B.layout, "%s: the right list's elements are now in the left list" % fn, 0, list_oid=A.list)
    return Job(fn, post, setup, models=models.default_models(), name="%s %s %s" % (fn, fmt(la), fmt(lb)))


KINDS = {"no-progress", "shape", "use-after-free", "double-free", "null-deref", "uninit", "leak", "leak-err", "out-of-bounds", "wrong-allocator", "bad-free", "null-free"}


def run_lists(ctx, L, who):
    P = ctx.prog()
    jobs = [c.job() for c in cases(L)] + [c.job() for c in release_cases(L)] + [created(L)]
    for la, lb in (([], []), (["a"], []), ([], ["c"]), (["a", "b"], ["c"]), (["a"], ["c", "d"])):
        jobs.append(swap_job(L, la, lb, None))
    R = ctx.sweep(jobs, kinds=KINDS)
    for r in R:
        ctx.rule("%s: neighbourhoods of %s" % (who, r["job"].split()[0]))
        if r["exits"] == 0 and not r["incomplete"] and not r["reports"]:
            raise AnalysisBroken("%s has no exit" % r["job"])
    for r in R[:6]:
        ctx.sample(r["job"])
    return ("Abstract interpretation of every operation of the list from each possible neighbourhood of its argument (explicit nodes next to "
            "head, tail and the argument; the rest of the list an opaque segment, so the result holds for every length); the state at each exit is "
            "compared link by link with the sequence the operation promises.")


@check("C01", 60)
def c01(ctx):
    return run_lists(ctx, DL, "list")


@check("C02", 60)
def c02(ctx):
    return run_lists(ctx, SL, "slist")


# --------------------------------------------------------------------- queue
def queue_of(E, st, S, ctx):
    q = shape.new_struct(E, st, "queue", "queue", S.alloc)
    E.write(st, q, 0, shape.vtable(E.prog, "queue_create"), 8)
    shape.setf(E, st, q, "queue", "list", ("p", S.list, 0))
    ctx["queue"] = q
    return ("p", q, 0)


def q_in(E, st, S, ctx):
    ctx["r"] = new_res(st)
    return [queue_of(E, st, S, ctx), ctx["r"]]


def q_out(E, st, S, ctx):
    return [queue_of(E, st, S, ctx), outptr(E, st, ctx)]


def q_only(E, st, S, ctx):
    return [queue_of(E, st, S, ctx)]


def keeps_queue(expect):
    def f(E, st, rv, args, ctx):
        if shape.getf(E, st, ctx["queue"], "queue", "list") != ("p", ctx["S"].list, 0):
            E.report(st, "shape", "%s: the queue no longer refers to its elements" % E.entry.split()[0], fatal=False)
        expect(E, st, rv, args, ctx)
    return f


def q_released(E, st, rv, args, ctx):
    if rules.status_class(st, rv) == "err":
        return
    gone(E, st, ctx["S"], "release")
    for o, w in ((ctx["S"].list, "list"), (ctx["queue"], "queue")):
        if st.heap[o].status == "live":
            E.report(st, "shape", "release succeeded: the %s itself is not released" % w, fatal=False)


@check("C03", 15)
def c03(ctx):
    jobs = []
    for lay in ANY:
        jobs.append(Case(SL, "queue_append", lay, q_in, keeps_queue(inserted(lambda l, x: list(l) + [x]))).job())
        jobs.append(Case(SL, "queue_insert", lay, q_in, keeps_queue(inserted(lambda l, x: [x] + list(l)))).job())
        jobs.append(Case(SL, "queue_count", lay, q_only, keeps_queue(counted)).job())
    for lay in [[], ["a"], ["a", "b"], ["a", "b", GAP, "c"]]:
        jobs.append(Case(SL, "queue_pop", lay, q_out, keeps_queue(popped(first))).job())
    for lay in [[], ["a"], ["a", "b"], ["a", "b", "c"]]:
        jobs.append(Case(SL, "resource_release", lay, q_only, q_released).job())
    R = ctx.sweep(jobs, kinds=KINDS)
    for r in R:
        ctx.rule("queue: states of " + r["job"].split()[0])
        if r["exits"] == 0 and not r["incomplete"] and not r["reports"]:
            raise AnalysisBroken("%s has no exit" % r["job"])
    return ("Abstract interpretation of append, insert, pop, count and release from every queue state (empty, one, several, any number of elements); "
            "the element order, the element handed out, the count and the links are compared with first-in first-out order.")
