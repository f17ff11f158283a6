"""What a failed call leaves in the caller's output variable."""
import models
import rules
from checks.generic import OWN
from checks.psockio import must, outcell
from framework import check, AnalysisBroken
from sweep import Job, lazy_args
from values import *

NULLED = {              # function -> position of the pointer that is NULL after a failure
    "malloc_allocator_create": 0, "bump_allocator_create": 0,
    "bigint_create_zero": 0, "bigint_clone": 0,
    "fiber_create": 0, "fiber_create_for_thread": 0, "fiber_scheduler_create": 0, "fiber_scheduler_create_with_disciplines": 0,
    "fiber_scheduler_discipline_create": 0,
    "list_create": 0, "list_head": 0, "list_tail": 0, "list_node_child": 0, "list_node_next": 0, "list_node_prev": 0,
    "slist_create": 0, "slist_head": 0, "slist_tail": 0, "slist_node_child": 0, "slist_node_next": 0,
    "queue_create": 0, "rbtree_create": 0, "rbtree_find": 0,
    "psock_create_from_descriptor": 0, "psock_create_from_hostname_and_port": 0, "psock_create_from_listen_address": 0,
    "psock_create_from_buffer": 0, "psock_create_from_user_methods": 0, "psock_br_create_from_psock": 0,
    "stack_create": 0, "thread_create": 0, "thread_mutex_create": 0, "thread_cond_create": 0, "thread_mutex_lock_acquire": 0,
    "allocator_allocate": 1, "rcpr_uuid_to_string": 0, "auto_reset_trigger_create": 0,
}
POPPED = ("list_pop", "queue_pop", "slist_pop", "slist_node_next_pop")     # asked with a NULL in position 1
KEPT = {                # function -> position and size of what a failure leaves alone
    "allocator_reallocate": [(1, 8)], "list_node_child_swap": [(1, 8)], "slist_node_child_swap": [(1, 8)],
    "psock_create_wrap_async": [(0, 8)], "thread_cond_wait": [(0, 8)],
    "psock_read_boxed_string": [(2, 8), (3, 8)], "psock_read_boxed_data": [(2, 8), (3, 8)], "psock_read_raw_data": [(2, 8)],
    "psock_from_buffer_get_output_buffer": [(2, 8), (3, 8)],
    "rcpr_uuid_parse_string": [(0, 16)], "rcpr_uuid_parse_raw_string": [(0, 16)],
}
for kind in ("boxed", "raw"):
    for t, n in (("int64", 8), ("uint64", 8), ("int32", 4), ("uint32", 4), ("int16", 2), ("uint16", 2), ("int8", 1), ("uint8", 1), ("bool", 1)):
        KEPT["psock_read_%s_%s" % (kind, t)] = [(1, n)]


def method(E, st, fv, args, org, rty):
    """the method of some allocator, which keeps its contract"""
    f = st.copy()
    for t, v in ((st, st.fresh("block", 64, "void*", None)), (f, ZERO)):
        E.write(t, st.norm(args[1])[1], st.norm(args[1])[2], v, 8)
    return [(st, ZERO), (f, ("i", models.ERRSET[0][0]))]


def job(fn):
    outs = [(1, 8)] if fn in POPPED else KEPT.get(fn) or [(NULLED[fn], 8)]

    def setup(E, st, F, ctx):
        args = lazy_args(E, st, F)
        ctx["cells"] = []
        for i, n in outs:
            o = outcell(st, "caller's %s" % F.args[i][3], n)
            step = min(n, 8)
            old = [ZERO if fn in POPPED else st.fresh("old", 8 * step, F.args[i][2], None) for k in range(0, n, step)]
            for k, v in enumerate(old):
                E.write(st, o, k * step, v, step)
            args[i] = ("p", o, 0)
            ctx["cells"].append((F.args[i][3], o, step, old))
        return args

    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) != "err":
            return
        ctx["out_failures"] = ctx.get("out_failures", 0) + 1
        for nm, o, step, old in ctx["cells"]:
            for k, was in enumerate(old):
                v = st.norm(E.read(st, o, k * step, step, "i%d" % (8 * step)))
                if fn in KEPT:
                    if v != st.norm(was):
                        E.report(st, "output", "%s fails and leaves %s changed" % (fn, nm), fatal=False)
                        break
                elif v != ZERO:
                    E.report(st, "output", "%s fails and does not leave NULL in %s" % (fn, nm), fatal=False)
    return Job(fn, post, setup, models=models.default_models() if fn.split("_")[0] in OWN + ("queue",) else {} if fn == "allocator_allocate" else None, conf=dict(ghost_exact=False), **({"icall": method} if fn == "allocator_allocate" else {}))


@check("N01", 150)
def n01(ctx):
    for cfg in ("epoll", "guard") + (("poll",) if ctx.thorough else ()):
        P = ctx.prog(cfg)
        if cfg == "guard":          # with the run-time checks on: a refused allocator, too
            R = ctx.sweep([job("allocator_allocate")], cfg, {"output"})
            ctx.rule("failing exits [%s]" % cfg, R[0]["ctx"].get("out_failures", 0))
            continue
        names = [n for n in [n for n in NULLED if n != "allocator_allocate"] + list(POPPED) + list(KEPT) if n in P.by_short]
        if len(names) < 50:
            raise AnalysisBroken("only %d of the operations with documented outputs are defined" % len(names))
        R = ctx.sweep([job(n) for n in names], cfg, {"output"})
        for r in R:
            ctx.rule("failing exits [%s]" % cfg, r["ctx"].get("out_failures", 0))
        ctx.notes.append("operations without a failing exit: " + ", ".join(sorted(r["fn"] for r in R if not r["ctx"].get("out_failures"))))
    return "Abstract interpretation of every operation with a documented failure result, from an unconstrained caller state, every exit that returns an error."
