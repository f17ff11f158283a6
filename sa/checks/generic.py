"""Properties decided by interpreting every public operation and every
callback from an unconstrained caller state."""
import json
import os

import contracts
import frontend
import models
import rules
from checks import tree
from engine import Stop
from framework import check, AnalysisBroken, HERE
from sweep import Job

ENTRIES = json.load(open(os.path.join(HERE, "entries.json")))
OWN = ("slist", "list")         # analysed over their own implementation
SKIP = ("rbtree",)              # analysed by the dedicated tree checks

MEM_KINDS = {"use-after-free", "double-free", "dangling", "bad-free", "wrong-allocator", "use-after-scope", "bad-unmap"}
VAL_KINDS = {"sent-uninit", "null-deref", "null-call", "null-free", "uninit", "bad-deref", "bad-call", "div-zero"}
BOUND_KINDS = {"out-of-bounds", "const-write"}
FD_KINDS = {"leak-fd", "leak-fd-err", "double-close", "use-after-close"}
OS_KINDS = {"double-destroy", "double-init", "leak-os", "leak-os-err"}


def out_resources(eng, st, args):
    """heap resources handed to the caller through an output argument"""
    for a in args:
        a = st.norm(a)
        if a[0] != "p" or not isinstance(a[2], int):
            continue
        o = st.heap.get(a[1])
        if o is None or o.kind != "lazy" or o.status != "live":
            continue
        f = o.fields.get(a[2])
        if f is None or f[1][0] == "z":
            continue
        v = st.norm(f[1])
        if v[0] != "p" or v[2] != 0:
            continue
        h = st.heap.get(v[1])
        if h is None or h.kind != "heap" or h.status != "live":
            continue
        g = h.fields.get(0)
        if g is None or g[1][0] == "z":
            continue
        vt = st.norm(g[1])
        if vt[0] == "p" and vt[1].startswith("@"):
            yield (a, v)


def resource_type(P, di):
    """is it a pointer to a pointer to something that begins with a resource?"""
    if not di.startswith("struct ") or not di.endswith("**"):
        return False
    n = di[7:-2].strip()
    for _ in range(4):
        if n == "resource":
            return True
        m = P.structs.get(n, {}).get("members")
        if not m or m[0][0] != 0 or not m[0][3].startswith("struct "):
            return False
        n = m[0][3][7:]
    return False


def methods(eng, st, args):
    F = eng.stack[-1][0]
    for a, d in zip(args, F.args):
        if not resource_type(eng.prog, d[2]):
            continue
        a = st.norm(a)
        o = st.heap.get(a[1]) if a[0] == "p" and isinstance(a[2], int) else None
        f = o.fields.get(a[2]) if o is not None else None
        if f is not None and f[1][0] != "z":
            rules.has_methods(eng, st, f[1], "an object is handed out")


def then_release(eng, st, rv, args, ctx):
    for a, v in out_resources(eng, st, args):
        # an object that something else also refers to is not the caller's alone
        s = st.copy()
        s.wobj(a[1]).fields.pop(a[2], None)
        if v[1] in rules.reachable(s, [r for r in rules.roots_of(s, args, None)]):
            continue
        before = rules.reachable(s, rules.roots_of(s, args, None))
        mine = set(rules.reachable(s, [v[1]])) - set(before)
        ctx["out_released"] = ctx.get("out_released", 0) + 1
        old = eng.entry
        eng.entry = old + " then release"
        try:
            s.trail += ((eng.curloc, "the object handed out is released"),)
            for s2, r2 in eng.call_named(s, eng.prog.func("resource_release").name, [v]):
                if rules.status_class(s2, r2) != "ok":
                    continue        # a release that reports failure may be tried again
                for oid in mine:
                    o = s2.heap.get(oid)
                    if o is None or o.kind != "heap" or o.status != "live":
                        continue
                    if oid in rules.reachable(s2, rules.roots_of(s2, args, None)):
                        continue
                    eng.report(s2, "leak-release", "block allocated here belongs to the object handed out but is not released with it", loc=o.site, fatal=False)
                for k, x in (s2.ghost.get("fd") or {}).items():
                    if x[0] == "open" and not rules.fd_kept(s2, k, None, rules.reachable(s2, rules.roots_of(s2, args, None))):
                        eng.report(s2, "leak-fd", "descriptor opened here belongs to the object handed out but is not closed with it", loc=x[1], fatal=False)
        except Stop:
            pass
        finally:
            eng.entry = old


KNOWN_CODES = None


def generic_post(eng, st, rv, args, ctx):
    global KNOWN_CODES
    F = eng.stack[-1][0]
    isst = F.rettd == "status"
    cls = rules.status_class(st, rv) if isst else "ok"
    rules.leak(eng, st, rv, args, cls)
    rules.dangling(eng, st, rv, args, cls)
    if isst:
        rules.swallow(eng, st, rv, args, cls)
        if KNOWN_CODES is None:
            KNOWN_CODES = {v for v, h in frontend.status_codes().values()}
        rules.codes(eng, st, rv, args, cls, KNOWN_CODES)
    if cls == "ok":
        methods(eng, st, args)
        then_release(eng, st, rv, args, ctx)


def entries(P):
    have = [n for n in ENTRIES if n in P.by_short]
    if len(have) < 0.8 * len(ENTRIES):
        raise AnalysisBroken("only %d of %d known operations are defined" % (len(have), len(ENTRIES)))
    return [n for n in have if n.split("_")[0] not in SKIP]


def jobs(P):
    frontend.status_codes()
    return [Job(n, generic_post, models=models.default_models() if n.split("_")[0] in OWN else None, conf=dict(ghost_exact=False)) for n in entries(P)] + tree.small_jobs()


class Reclaims:
    """returning memory to the allocator may fail as well"""
    reclaim_can_fail = True


def run(ctx, kinds, rule):
    for cfg in ("epoll", "poll") if ctx.thorough else ("epoll",):
        P = ctx.prog(cfg)
        R = ctx.sweep(jobs(P), cfg, kinds, cache="generic")
        ctx.rule(rule + " [%s]" % cfg, sum(r["exits"] for r in R))
        ctx.compositions = getattr(ctx, "compositions", 0) + sum(r["ctx"].get("out_released", 0) for r in R)
        if sum(1 for r in R if r["exits"]) < 250:
            raise AnalysisBroken("only %d operations could be interpreted to an exit" % sum(1 for r in R if r["exits"]))
    return R


HOW = ("Abstract interpretation (disjunctive, field-sensitive heap; intervals and linear relations; loops to a widened fixpoint) "
       "of every public operation and every function installed in a vtable, callback table or psock slot, each from an unconstrained "
       "caller state, over the LLVM IR compiled from the current source; calls are followed into their definitions, and every outcome "
       "of each allocation, system call and callback is explored. ")


@check("M01", 500)
def m01(ctx):
    run(ctx, {"leak-err", "leak-os-err"}, "exit states with an error: nothing acquired is lost")
    return HOW + "At each exit that returns an error, every block and OS object acquired by the call must be released or reachable from the caller."


@check("M02", 500)
def m02(ctx):
    run(ctx, {"leak", "leak-os", "leak-release", "no-methods"}, "exit states with success: everything acquired is handed over")
    ctx.rule("objects handed out and then released", ctx.compositions)
    return HOW + ("At each exit that returns success every acquired block must be reachable from the caller, and each resource handed "
                  "out is then released (abstractly) and must give back every block it owned.")


@check("M03", 500)
def m03(ctx):
    run(ctx, MEM_KINDS, "exit states: no released block used, released twice or left reachable")
    return HOW + "Typestate of every block: each access, release and reallocation is checked, and at each exit no caller-visible cell may refer to a released block."


@check("M05", 500)
def m05(ctx):
    run(ctx, VAL_KINDS, "exit states: no null or uninitialised value used")
    return HOW + "Every load, store, call, branch and comparison is checked for null or never-initialised operands."


@check("M04", 500)
def m04(ctx):
    run(ctx, BOUND_KINDS, "exit states: every access inside its object")
    return HOW + "Every access, memcpy, memset, memmove and buffer-taking system call is checked against the symbolic size of the object it addresses."


@check("M06", 500)
def m06(ctx):
    run(ctx, FD_KINDS, "exit states: descriptors closed exactly once or kept")
    return HOW + "Typestate of every descriptor opened by the analysed code."


@check("E01", 500)
def e01(ctx):
    run(ctx, {"swallowed"}, "exit states with success: no unreported failure")
    P = ctx.prog()
    J = jobs(P)
    for j in J:
        if j.spec is None:
            j.spec = Reclaims
    R = ctx.sweep(J, "epoll", {"swallowed"}, cache="generic-reclaim")
    ctx.rule("exit states with success, where reclaiming memory may fail: no unreported failure", sum(r["exits"] for r in R))
    return HOW + ("A second pass also lets every return of memory to the allocator fail. Every failing outcome is recorded on its path; at each exit that returns success no failure may be outstanding unless it was told apart "
                  "by its code, stored where its receiver reads it, or is in the table of documented exceptions.")


@check("E04", 500)
def e04(ctx):
    run(ctx, {"no-progress"}, "loops: never back in a state they were in")
    return HOW + ("At each loop head the complete state (variables, reachable memory, path conditions) is compared with the states of the "
                  "same path; a path that returns to one with nothing decided and nothing obtained from outside in between never leaves the loop.")


@check("K01", 500)
def k01(ctx):
    P = ctx.prog()
    run(ctx, {"input-write"}, "exit states: nothing written to what was handed in for reading")
    n = [(f, P.func(f).args[i][3]) for f in entries(P) for i in P.func(f).readonly]
    ctx.rule("arguments declared for reading only", len(n))
    for f, a in n[:6]:
        ctx.sample("%s: %s" % (f, a))
    if len(n) < 35:
        raise AnalysisBroken("only %d arguments are declared for reading only" % len(n))
    return HOW + ("The objects behind arguments declared as pointers to const are marked, and every store, copy or fill reached from the "
                  "operation that lands in one of them, whatever casts lie in between, is reported.")


@check("E02", 300)
def e02(ctx):
    sc = frontend.status_codes()
    by = {}
    for n, (v, h) in sorted(sc.items()):
        if n.startswith("ERROR_"):
            ctx.rule("error codes: error bit set, distinct")
            if not v & 0x80000000:
                ctx.finding("no-error-bit", n, "include/rcpr/" + h, "%s = %#x has no error bit" % (n, v))
            if v in by:
                ctx.finding("duplicate-code", n, "include/rcpr/" + h, "%s and %s are both %#x" % (by[v], n, v))
            by[v] = n
        elif n == "STATUS_SUCCESS" and v != 0:
            ctx.finding("success-code", n, "include/rcpr/" + h, "STATUS_SUCCESS is %#x" % v)
    run(ctx, {"raw-code"}, "exit states: status is success or an error code")
    return HOW + "The returned value of each exit must be success, a defined error code, or an error passed on; all code macros are evaluated by the compiler."


@check("W01", 500)
def w01(ctx):
    P = ctx.prog()
    run(ctx, {"narrowed"}, "exit states: no size lost its upper part")
    n = 0
    for f in sorted(P.funcs):
        F = P.funcs[f]
        for b in F.blocks or ():
            for line, file, ins in b:
                if ins[0] == "cast" and len(ins) > 6:
                    n += 1
                    ctx.sample("%s:%d cuts a size down to %s" % (F.short, line, ins[5]))
    ctx.rule("places where a size is cut down", n)
    return HOW + ("Values of type size_t or ssize_t are recognised by the declared types of variables, members and results and through arithmetic; "
                  "wherever one is converted to a narrower type, the range it can have there must fit the narrower type. The four-byte length of boxed "
                  "data and the four-byte callback codes, which their interfaces prescribe, are the two places where 32 bits suffice.")
