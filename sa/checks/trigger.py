"""The auto-reset trigger: every signal reaches exactly one registered listener."""
import contracts
import models
import rules
from checks import osapi, psockbuf
from checks.psockio import outcell, finish
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "trigger", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
OPS = ["signal", "step", "register a", "register b"]
NESTED = [None, "signal", "register a", "register b", "signal, register a"]


def rep(E, st, m):
    E.report(st, "trigger", m, fatal=False)


def do(E, st, P, obj, op, ref):
    """-> [(state, reference)]; a reference is (signalled, listener)"""
    sig, lis = ref
    if op == "signal":
        return [(s, (True, s.gget("tr", "ref")[1] if s.gget("tr", "ref") else lis)) for s, _ in E.call_named(st, P.func("auto_reset_trigger_signal").name, [obj])]
    if op.startswith("register"):
        who = op[-1]
        res = []
        for s, rv in E.call_named(st, P.func("auto_reset_trigger_register").name, [obj, st.gget("tr", "fn" + who), st.gget("tr", "cx" + who)], "i32"):
            if lis is None:
                if rules.status_class(s, rv) != "ok":
                    rep(E, s, "a listener cannot register although none is registered")
                    continue
                res.append((s, (sig, who)))
            else:
                if s.norm(rv) != ("i", contracts.code("ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED")):
                    rep(E, s, "a second listener can register while one is registered")
                    continue
                res.append((s, ref))
        return res
    raise AnalysisBroken(op)


def hook(P):
    def icall(E, st, fv, args, org, rty):
        who = next((w for w in "ab" if st.norm(fv) == st.norm(st.gget("tr", "fn" + w))), None)
        if who is None:
            return None
        ref, plan = st.gget("tr", "ref"), st.gget("tr", "plan")
        if ref is None or not ref[0] or ref[1] != who:
            rep(E, st, "listener %s is notified although %s" % (who, "no signal is pending" if not ref or not ref[0] else "it is not registered"))
            return []
        if st.norm(args[0]) != st.norm(st.gget("tr", "cx" + who)):
            rep(E, st, "a listener is notified with %s instead of its own context" % show(st.norm(args[0])))
            return []
        st.gset("tr", "ref", (False, None))
        st.gset("tr", "told", True)
        if not plan:
            return [(st, None)]
        obj, states = st.gget("tr", "obj"), [st]
        for op in plan.split(", "):
            nxt = []
            for s in states:
                for t, r in do(E, s, P, obj, op, s.gget("tr", "ref")):
                    t.gset("tr", "ref", r)
                    nxt.append(t)
            states = nxt
        return [(s, None) for s in states]
    return icall


def key(st, obj, ref):
    o = st.heap[obj[1]]
    return (ref, o.status, tuple(sorted((k, z, st.norm(v)) for k, (z, v) in o.fields.items() if isinstance(k, int))))


def trigger_job(P, limit):
    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's trigger")
        for w in "ab":
            f = st.fresh("callback." + w, 64, "void*", None)
            st.facts[f] = ((4096, (1 << 63) - 1),)
            st.gset("tr", "fn" + w, f)
            st.gset("tr", "cx" + w, st.fresh("context." + w, 64, "void*", None))
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        return [("p", c, 0), a]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            if rules.status_class(st, rv) == "ok" or psockbuf.live(st):
                rep(E, st, "creating a trigger succeeds although no memory was available")
            if st.norm(E.read(st, ctx["out"], 0, 8, "p")) != ZERO:
                rep(E, st, "creating a trigger fails and does not set the caller's pointer to NULL")
            return
        obj = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if rules.status_class(st, rv) != "ok" or obj[0] != "p":
            rep(E, st, "creating a trigger hands out %s" % show(obj))
            return
        st.gset("tr", "obj", obj)
        fa, fb = (st.gget("tr", "fn" + w) for w in "ab")
        E.assume(st, E.cmp(st, "ne", fa, fb, 64), True)
        for t, r in osapi.release(E, st.copy(), obj):
            if psockbuf.live(t):
                rep(E, t, "releasing a trigger leaves memory behind")
        seen, work, n = set(), [(st, (False, None), ())], 0
        while work:
            s, ref, path = work.pop(0)
            if key(s, obj, ref) in seen:
                continue
            seen.add(key(s, obj, ref))
            n += 1
            if n > limit:
                rep(E, s, "the trigger's states do not close after %d steps: it remembers more than a signal and a listener" % n)
                return
            for op in OPS[:1] + OPS[2:]:
                for t, r in do(E, s.copy(), P, obj, op, ref):
                    work.append((t, r, path + (op,)))
            for plan in NESTED if ref[0] and ref[1] else [None]:
                t = s.copy()
                t.gset("tr", "ref", ref)
                t.gset("tr", "plan", plan)
                t.trail += (("", "after %s" % (", ".join(path) or "nothing")),)
                for u, _ in E.call_named(t, P.func("auto_reset_trigger_step").name, [obj]):
                    now = u.gget("tr", "ref")
                    if ref[0] and ref[1] and not u.gget("tr", "told"):
                        rep(E, u, "a step notifies nobody although a signal is pending and a listener registered")
                        continue
                    u.gset("tr", "plan", None)
                    u.gset("tr", "told", None)
                    u.gset("tr", "ref", None)
                    work.append((u, now, path + ("step (%s)" % plan if plan else "step",)))
        ctx["n"] = n
    m = psockbuf.buf_models()
    return Job("auto_reset_trigger_create", post, setup, models=m, icall=hook(P), conf={"join_states": False}, name="trigger")


@check("C05", 1)
def c05(ctx):
    P = ctx.prog()
    finish(ctx, ctx.sweep([trigger_job(P, 60)], kinds=KINDS), "trigger")
    return "Closure of the trigger's reachable states under signal, step and register, with listeners that signal or register again, against a reference of one pending signal and one listener."
