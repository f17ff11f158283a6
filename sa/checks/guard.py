"""V01: no method runs through a vtable that has not been found genuine."""
import copy
import json

import contracts
import frontend
import models
import rules
from checks import generic
from engine import Engine
from framework import check, AnalysisBroken
from sweep import Job

START, STOP, SIZE = 0x100000, 0x200000, 8


def reach(P, stop=()):
    """functions from which a call through a function pointer can be reached
    without passing a function that has its own job"""
    ind, callers = set(), {}
    for F in P.funcs.values():
        defs = {i[2][1]: i[2] for b in F.blocks or () for i in b if i[2][0] in ("gep", "load")}
        for b in F.blocks or ():
            for i in b:
                if i[2][0] == "call":
                    cal = i[2][2]
                    if isinstance(cal, list) and cal[0] == "g":
                        callers.setdefault(cal[1][1:], set()).add(F.name)
                    else:
                        d = defs.get(cal, [None] * 6)
                        d = defs.get(d[2], [None] * 6) if d[0] == "load" and isinstance(d[2], int) else d
                        if d[0] != "gep" or not d[5] or d[5].endswith("vtable"):
                            ind.add(F.name)
    sites = len(ind)
    todo = list(ind)
    while todo:
        n = todo.pop()
        if P.funcs[n].short in stop:
            continue
        for c in callers.get(n, ()):
            if c not in ind:
                ind.add(c)
                todo.append(c)
    return {P.funcs[n].short for n in ind}, sites


def header_vtable(st, oid):
    """does the resource header of some object point at this one"""
    for o in st.heap.values():
        if o.kind in ("lazy", "heap") and 0 in o.fields:
            v = o.fields[0][1]
            if v[0] in "ps" and v[0] != "z":
                v = st.norm(v)
                if v[0] == "p" and v[1] == oid and v[2] == 0:
                    return True
    return False


def hook(eng, st, fv, args, org, rty):
    if org is not None and header_vtable(st, org[0]):
        n = st.gget("guard", "calls") or 0
        st.gset("guard", "calls", n + 1)
        verdict = st.gget("vt", org[0])
        if verdict != "genuine":
            eng.report(st, "unchecked-vtable", "method %s is called through a vtable %s" % (
                org[2], "found not to be genuine" if verdict == "forged" else "that was not checked"), fatal=False)
    return contracts.icall(eng, st, fv, args, org, rty)


def range_valid(eng, st, args):
    """outcome of the check of a vtable, recorded with the vtable"""
    v = st.norm(args[0])
    if v[0] == "s":
        eng.materialise(st, v)
        v = st.norm(v)
    if v[0] == "i":
        return [(st, ("i", 0))]
    if v[0] != "p":
        return None
    if v[1].startswith("@"):        # installed by the code analysed: see the section rule
        st.gset("vt", v[1], "genuine")
        return [(st, ("i", 1))]
    was = st.gget("vt", v[1])
    res = []
    for ok in (1, 0):
        if was is not None and (was == "genuine") != bool(ok):
            continue
        s = st.copy()
        if v[2] == 0:
            s.gset("vt", v[1], "genuine" if ok else "forged")
        res.append((s, ("i", ok)))
    return res


def post(eng, st, rv, args, ctx):
    F = eng.stack[-1][0]
    ctx["out_calls"] = max(ctx.get("out_calls", 0), st.gget("guard", "calls") or 0)
    forged = [k for k, v in (st.ghost.get("vt") or {}).items() if v == "forged"]
    ctx["out_forged"] = ctx.get("out_forged", 0) + len(forged)
    if forged and F.rettd == "status" and rules.status_class(st, rv) == "ok":
        eng.report(st, "forged-accepted", "success is returned although the vtable of an object was found not to be genuine", loc="%s:%s" % (F.file, F.line), fatal=False)


def run_models():
    m = contracts.client_models()
    d = models.default_models()
    for k in ("allocator_allocate", "allocator_reclaim", "allocator_reallocate", "allocator_control", "resource_release"):
        d.pop(k, None)
    m["vtable_range_valid"] = range_valid
    return m


def own(name):
    m = run_models()
    m.pop(name, None)
    return m


def section(ctx):
    """every vtable is constant and lies in the section that is tested for"""
    P = ctx.prog("guard")
    n = 0
    for name, g in sorted(P.globals.items()):
        if not str(g.get("type", "")).endswith("_vtable") or "init" not in g:
            continue
        n += 1
        loc = "%s:%s" % (Engine.relfile(g.get("file", "")), g.get("line", 0))
        nm = g.get("diname", name)
        if not g["const"]:
            ctx.finding("vtable-writable", nm, loc, "the vtable %s can be overwritten" % nm, config="guard")
        if g["section"] != "rcpr_vtable":
            ctx.finding("vtable-section", nm, loc, "the vtable %s does not lie in the vtable section, so its objects are refused" % nm, config="guard")
    ctx.rule("vtables constant and inside the vtable section", n)
    return n


def constant(x):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "g" and "_rcpr_vtable" in str(x[1]):
            return ["i", (START if "__start_" in x[1] else STOP) + x[2], 64]
        return [constant(y) for y in x]
    return x


REGIONS = ((0, 0, 0), (1, START - 1, 0), (START, STOP - SIZE, 1), (STOP, STOP, 0), (STOP + 1, (1 << 63) - 1, 0))


def range_jobs(P):
    """the test itself, once per distinct body, for addresses below, in and
    above the section"""
    res, seen = [], {}
    for F in sorted((f for f in P.funcs.values() if f.short == "vtable_range_valid" and f.blocks), key=lambda f: f.name):
        body = json.dumps([[i[2] for i in b] for b in F.blocks])
        if body in seen:
            continue
        seen[body] = 1
        G = copy.copy(F)
        G.name = G.short = "vtable_range_valid!%d" % len(seen)
        G.blocks = constant(F.blocks)
        P.funcs[G.name] = P.by_short[G.name] = G
        for lo, hi, want in REGIONS:
            def setup(E, st, F, ctx, lo=lo, hi=hi):
                v = st.fresh("address", 64)
                for pred, b in (("uge", lo), ("ule", hi)):
                    E.assume(st, E.cmp(st, pred, v, ("i", b), 64), True)
                return [v]

            def post(E, st, rv, args, ctx, lo=lo, hi=hi, want=want):
                if st.norm(rv) != ("i", want):
                    E.report(st, "range-test", "a pointer %s the vtable section %s" % (
                        "inside" if want else "below" if hi < START else "at or past the end of",
                        "may be refused" if want else "may be accepted"), fatal=False)
            res.append(Job(G.name, post, setup, {}, name="vtable_range_valid[%#x..%#x]" % (lo, hi)))
    return res


@check("V01", 100)
def v01(ctx):
    P = ctx.prog("guard")
    section(ctx)
    rj = range_jobs(P)
    if not rj:
        raise AnalysisBroken("the vtable check is not defined in the current source")
    ctx.sweep(rj, "guard", {"range-test"}, "membership test of the vtable section by address region")
    names, sites = reach(P, set(generic.entries(P)))
    todo = [n for n in generic.entries(P) if n in names]
    R = ctx.sweep([Job(n, post, models=own(n), icall=hook) for n in todo], "guard", {"unchecked-vtable", "forged-accepted", "uninit", "bad-call", "null-call"},
                  "operations that call a method of an object")
    calls = sum(r["ctx"].get("out_calls", 0) for r in R)
    ctx.rule("method calls reached with the vtable found genuine", calls)
    ctx.rule("exits after the vtable was found not to be genuine", sum(r["ctx"].get("out_forged", 0) for r in R))
    if calls < 40:
        raise AnalysisBroken("only %d method calls were reached" % calls)
    return ("Abstract interpretation of every operation that calls through an object's vtable, compiled with the run-time vtable checks "
            "switched on, from an unconstrained caller state; the outcome of each check is recorded with the vtable, and each call "
            "through a resource header's vtable requires that this very vtable was found genuine. The membership test itself is "
            "interpreted for addresses below, inside and above the section, and every vtable global must be constant and in it.")
