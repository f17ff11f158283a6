"""Allocators and method dispatch: the ground every other operation stands on."""
import os
import re

import contracts
import frontend
import models
import rules
import shape
from checks import generic
from checks.psockio import slot_of, must, same, outcell, finish, POS, new_ptr
from engine import width_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "core", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "bad-free", "double-free", "use-after-free"}


def rep(E, st, m):
    E.report(st, "core", m, fatal=False)


def macro(header, name):
    m = re.search(r"^#define\s+%s\s+(0[xX][0-9a-fA-F]+|\d+)\s*$" % name, open(os.path.join(frontend.REPO, header)).read(), re.M)
    if m is None:
        raise AnalysisBroken("%s is not defined in %s" % (name, header))
    return int(m.group(1), 0)


def lazy(F, st):
    res = []
    for aid, ty, di, nm in F.args:
        v = st.fresh(nm, width_of(ty), di, None)
        if ty in ("p", "ptr"):
            st.facts[v] = POS
        res.append(v)
    return res


# ------------------------------------------------------------ A01: allocators
BUMP = "bump_allocator"


def bump(E, st, ctx, i, j):
    """a bump allocator at the start of its region (address = i mod 16) whose
    next free offset is j mod 16"""
    P = E.prog
    hdr = P.sizeof(BUMP)
    M = st.fresh("region_size", 64, "unsigned long")
    st.facts[M] = ((hdr, 1 << 62),)
    o = st.new_obj("lazy", M, "lazy", None, "(region)", {"root": True, "residue": (i, 16)}, name="region")
    b = st.fresh("used16", 64, "unsigned long")
    st.facts[b] = ((0, 1 << 58),)
    O = affine(j, {b: 16})
    E.assume(st, E.cmp(st, "uge", O, ("i", hdr), 64), True)
    E.assume(st, E.cmp(st, "ule", O, M, 64), True)
    shape.setf(E, st, o, BUMP, "region", ("p", o, 0))
    shape.setf(E, st, o, BUMP, "offset", O)
    shape.setf(E, st, o, BUMP, "max_size", M)
    ctx.update(region=o, off=O, max=M, hdr=hdr)
    return o


def unchanged(E, st, ctx, what, offset=True):
    o = ctx["region"]
    for f, v in (("region", ("p", o, 0)), ("max_size", ctx["max"])) + ((("offset", ctx["off"]),) if offset else ()):
        got = shape.getf(E, st, o, BUMP, f)
        if not same(E, st, got, v):
            rep(E, st, "%s leaves %s where the allocator's %s was" % (what, show(got), f))


def bump_alloc_job(P, i, j, how):
    fn = slot_of(P, "bump_allocator_create", "allocate_fn", "allocator_vtable")

    def setup(E, st, F, ctx):
        o = bump(E, st, ctx, i, j)
        pad = -(i + j) % 16
        ctx["at"] = at = add(ctx["off"], ("i", pad))
        if how == "any size":
            n = st.fresh("size", 64, "unsigned long")
            st.facts[n] = ((0, 1 << 63),)
        else:                       # the end of the block, taken modulo 2^64, is q
            q = st.fresh("wrapped_end", 64, "unsigned long")
            st.facts[q] = ((0, 1 << 62),)
            E.assume(st, E.cmp(st, "ult", q, at, 64), True)
            n = add(add(q, at, -1), ("i", 1 << 64))
        ctx["size"] = n
        ctx["out"] = c = outcell(st, "caller's pointer")
        return [("p", o, 0), ("p", c, 0), n]

    def post(E, st, rv, args, ctx):
        o, n, at = ctx["region"], ctx["size"], ctx["at"]
        got = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        cls = rules.status_class(st, rv)
        if cls == "err":
            if got != ZERO:
                rep(E, st, "a failing allocation leaves the caller's pointer %s instead of NULL" % show(got))
            if how == "any size" and not must(E, st, "uge", at, ctx["max"]) and not must(E, st, "uge", add(at, n), ctx["max"]):
                rep(E, st, "an allocation that fits the region is refused")
            unchanged(E, st, ctx, "a failing allocation")
            return
        if cls != "ok":
            rep(E, st, "an allocation ends with a status that is neither success nor an error")
            return
        if how != "any size":
            rep(E, st, "an allocation that exceeds the address space succeeds")
            return
        if got[0] != "p" or got[1] != o:
            rep(E, st, "the block returned (%s) is not in the region" % show(got))
            return
        off = off_val(got[2])
        if not must(E, st, "ule", ctx["off"], off):
            rep(E, st, "the block overlaps one handed out before")
        if E.residue(st, "urem", got, 16, 64) != ZERO:
            rep(E, st, "the block is not aligned to 16 bytes")
        end = add(off, n)
        if not must(E, st, "ule", end, ctx["max"]):
            rep(E, st, "the block ends behind the region")
        new = shape.getf(E, st, o, BUMP, "offset")
        if not must(E, st, "ule", end, new):
            rep(E, st, "the next block may overlap the one handed out")
        if not must(E, st, "ule", new, ctx["max"]):
            rep(E, st, "the allocator counts more bytes as used than the region has")
        unchanged(E, st, ctx, "an allocation", False)
    return Job(fn, post, setup, conf={"join_states": False}, name="bump allocate, %s, region %d mod 16, used %d mod 16" % (how, i, j))


def bump_other_job(P, slot):
    fn = slot_of(P, "bump_allocator_create", slot, "allocator_vtable")
    reset_key = macro("include/rcpr/allocator.h", "RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET")

    def setup(E, st, F, ctx):
        o = bump(E, st, ctx, 0, 0)
        a = lazy(F, st)
        a[0] = ("p", o, 0)
        if slot == "reclaim_fn":
            a[1] = ("p", o, val_off(ctx["hdr"] and ("i", -(-ctx["hdr"] // 16) * 16)))
        if slot == "reallocate_fn":
            ctx["out"] = c = outcell(st, "caller's pointer")
            ctx["old"] = ("p", o, -(-ctx["hdr"] // 16) * 16)
            E.write(st, c, 0, ctx["old"], 8)
            a[1] = ("p", c, 0)
        ctx["key"] = a[1]
        return a

    def post(E, st, rv, args, ctx):
        cls = rules.status_class(st, rv)
        if slot == "control_fn":
            key = st.norm(ctx["key"])
            reset = key == ("i", reset_key)
            if reset:
                if cls != "ok":
                    rep(E, st, "resetting the bump allocator fails")
                new = shape.getf(E, st, ctx["region"], BUMP, "offset")
                if not must(E, st, "uge", new, ("i", ctx["hdr"])) or not must(E, st, "ule", new, ctx["max"]):
                    rep(E, st, "after a reset the next block may overlap the allocator or lie outside the region")
                if new[0] != "i" or new[1] > ctx["hdr"] + 15:
                    rep(E, st, "a reset does not make the region available again")
            elif cls != "err":
                rep(E, st, "an unknown control key is accepted")
            unchanged(E, st, ctx, "a control operation", not reset)
            return
        if slot == "reclaim_fn" and cls != "ok":
            rep(E, st, "reclaiming a block of the bump allocator fails")
        if slot == "reallocate_fn":
            got = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
            if cls != "err" or got != ctx["old"]:
                rep(E, st, "a failing reallocation changes the caller's pointer" if cls == "err" else "the bump allocator claims to resize a block")
        unchanged(E, st, ctx, "reclaiming or resizing", slot != "reclaim_fn")
    return Job(fn, post, setup, name="bump %s" % slot)


def bump_create_job(P):
    def setup(E, st, F, ctx):
        M = st.fresh("region_size", 64, "unsigned long")
        st.facts[M] = ((0, 1 << 62),)
        o = st.new_obj("lazy", M, "lazy", None, "(region)", {"root": True}, name="region")
        c = outcell(st, "caller's allocator")
        ctx.update(region=o, max=M, out=c, hdr=E.prog.sizeof(BUMP))
        return [("p", c, 0), ("p", o, 0), M]

    def post(E, st, rv, args, ctx):
        got = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        o, fits = ctx["region"], E.cmp(st, "uge", ctx["max"], ("i", ctx["hdr"]), 64)
        if rules.status_class(st, rv) == "err":
            if got != ZERO:
                rep(E, st, "a failing creation leaves the caller's pointer %s instead of NULL" % show(got))
            if E.assume(st.copy(), fits, True):
                rep(E, st, "a region that can hold the allocator is refused")
            return
        if got != ("p", o, 0):
            rep(E, st, "the allocator is not at the start of its region")
            return
        unchanged(E, st, ctx, "creation", False)
        new = shape.getf(E, st, o, BUMP, "offset")
        if not must(E, st, "uge", new, ("i", ctx["hdr"])) or not must(E, st, "ule", new, ctx["max"]):
            rep(E, st, "the first block may overlap the allocator or lie outside the region")
    return Job("bump_allocator_create", post, setup, name="bump create")


# the C library's allocator, with every call recorded
def heap_models():
    m = contracts.client_models()

    def call(st, *c):
        st.gset("heap", "calls", (st.gget("heap", "calls") or ()) + (c,))

    def malloc(E, st, args):
        n = st.norm(args[0])
        f = st.copy()
        call(f, "malloc", n, ZERO)
        o = st.new_obj("heap", n, "undef", None, E.curloc, {}, name="block")
        call(st, "malloc", n, ("p", o, 0))
        return [(st, ("p", o, 0)), (f, ZERO)]

    def free(E, st, args):
        call(st, "free", st.norm(args[0]), None)
        p = st.norm(args[0])
        if p[0] == "p":
            st.wobj(p[1]).status = "freed"
        return [(st, ZERO)]

    def realloc(E, st, args):
        p, n = st.norm(args[0]), st.norm(args[1])
        res = []
        z = st.copy()
        if E.assume(z, E.cmp(z, "eq", n, ZERO, 64), True):
            call(z, "realloc", p, ZERO)
            z.gset("heap", "gone", p)
            res.append((z, ZERO))
        if E.assume(st, E.cmp(st, "ugt", n, ZERO, 64), True):
            f = st.copy()
            call(f, "realloc", p, ZERO)
            res.append((f, ZERO))
            o = st.new_obj("heap", n, "lazy", None, E.curloc, {}, name="block")
            call(st, "realloc", p, ("p", o, 0))
            st.gset("heap", "gone", p)
            res.append((st, ("p", o, 0)))
        return res
    m.update(malloc=malloc, free=free, realloc=realloc)
    return m


def malloc_job(P, slot):
    fn = slot_of(P, "malloc_allocator_create", slot, "allocator_vtable")

    def setup(E, st, F, ctx):
        al = shape.new_struct(E, st, "allocator", "allocator", kind="lazy")
        ctx["old"] = ("p", st.new_obj("heap", ("i", 64), "lazy", None, "(block)", {}, name="oldblock"), 0)
        a = lazy(F, st)
        a[0] = ("p", al, 0)
        if slot in ("allocate_fn", "reallocate_fn"):
            ctx["out"] = c = outcell(st, "caller's pointer")
            if slot == "reallocate_fn":
                E.write(st, c, 0, ctx["old"], 8)
            a[1] = ("p", c, 0)
            st.facts[a[2]] = ((0, 1 << 63),)
        if slot == "reclaim_fn":
            a[1] = ctx["old"]
        ctx["args"] = list(a)
        return a

    def post(E, st, rv, args, ctx):
        calls = st.gget("heap", "calls") or ()
        cls = rules.status_class(st, rv)
        if slot == "control_fn":
            if calls or cls != "err":
                rep(E, st, "an unknown control key is accepted")
            return
        if slot == "reclaim_fn":
            if [c[:2] for c in calls] != [("free", ctx["old"])] or cls != "ok":
                rep(E, st, "reclaiming a block does not free exactly this block")
            return
        got = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        n = ctx["args"][2]
        live = [c for c in calls if c[0] in ("malloc", "realloc") and c[2] != ZERO]
        freed = [c[1] for c in calls if c[0] == "free"]
        gone = st.gget("heap", "gone")
        if cls == "ok":
            blocks = [c[2] for c in live if c[2] not in freed]
            if slot == "reallocate_fn" and gone != ctx["old"] and ctx["old"] not in freed and got == ctx["old"]:
                blocks = [got]
            if blocks != [got]:
                rep(E, st, "the operation succeeds and yields %s, but holds %s" % (show(got), [show(b) for b in blocks]))
                return
            if got != ctx["old"] and not must(E, st, "uge", st.heap[got[1]].size, n):
                rep(E, st, "the block obtained is smaller than asked for")
            if got == ctx["old"] and not must(E, st, "ule", n, ("i", 64)):
                rep(E, st, "the block is not resized")
            if slot == "reallocate_fn" and got != ctx["old"] and gone != ctx["old"] and ctx["old"] not in freed:
                rep(E, st, "the previous block is lost")
            return
        if cls != "err":
            rep(E, st, "the operation ends with a status that is neither success nor an error")
            return
        if [c for c in live if c[2] not in freed]:
            rep(E, st, "the operation fails and loses a block")
        if slot == "allocate_fn" and got != ZERO:
            rep(E, st, "a failing allocation leaves the caller's pointer %s instead of NULL" % show(got))
        if slot == "reallocate_fn" and (got != ctx["old"] or gone == ctx["old"] or ctx["old"] in freed):
            rep(E, st, "a failing reallocation %s" % ("changes the caller's pointer" if got != ctx["old"] else "frees the block the caller keeps"))
        if not any(c[2] == ZERO for c in calls):
            rep(E, st, "the operation fails although memory was available")
    return Job(fn, post, setup, models=heap_models(), name="malloc %s" % slot)


def malloc_life_job(P):
    """an allocator over the C library's heap: made, and ended"""
    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's allocator")
        return [("p", c, 0)]

    def held(st):
        calls = st.gget("heap", "calls") or ()
        return [c[2] for c in calls if c[0] in ("malloc", "realloc") and c[2] != ZERO and not any(d[0] == "free" and d[1] == c[2] for d in calls)]

    def post(E, st, rv, args, ctx):
        calls, got = st.gget("heap", "calls") or (), st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        cls, mine = rules.status_class(st, rv), held(st)
        if cls != "ok":
            if cls != "err" or mine or got != ZERO or not any(c[2] == ZERO for c in calls):
                rep(E, st, "the failing constructor gives status %s, holds %d blocks and hands out %s" % (show(st.norm(rv)), len(mine), show(got)))
            return
        if got[0] != "p" or got[2] or mine != [got]:
            rep(E, st, "the constructor hands out %s and holds %s" % (show(got), [show(b) for b in mine]))
            return
        if st.norm(E.read(st, got[1], 0, 8, "p")) != shape.vtable(P, "malloc_allocator_create"):
            rep(E, st, "the allocator is handed out without its methods")
            return
        for t, h in E.call_named(st, P.func("allocator_resource_handle").name, [got]):
            for t2, r in E.call_named(t, P.func("resource_release").name, [h]):
                if held(t2) or rules.status_class(t2, r) != "ok":
                    rep(E, t2, "releasing the allocator leaves %d blocks and gives %s" % (len(held(t2)), show(t2.norm(r))))
    return Job("malloc_allocator_create", post, setup, models=heap_models(), name="malloc allocator made and released", icall=None)


@check("A01", 70)
def a01(ctx):
    P = ctx.prog()
    jobs = [bump_create_job(P)] + [bump_other_job(P, s) for s in ("reclaim_fn", "reallocate_fn", "control_fn")]
    for how in ("any size", "a size that wraps"):
        for i in range(16) if ctx.thorough else (0, 8):
            jobs += [bump_alloc_job(P, i, j, how) for j in range(16)]
    jobs += [malloc_life_job(P)] + [malloc_job(P, s) for s in ("allocate_fn", "reclaim_fn", "reallocate_fn", "control_fn")]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "allocator")
    return ("Abstract interpretation of both allocators' methods over a symbolic region, fill state and size (split by the residues of the "
            "region's address and fill state modulo 16, and by whether the block's end wraps around), and against a malloc, realloc and "
            "free that record each call and may fail.")


# ------------------------------------------------------- R01: method dispatch
# operation -> method, positions of the caller's arguments the method receives
DISPATCH = {
    "resource_release": ("release", ("0",)),
    "allocator_allocate": ("allocate_fn", ("0", "1", "2")),
    "allocator_reclaim": ("reclaim_fn", ("0", "1")),
    "allocator_reallocate": ("reallocate_fn", ("0", "1", "2")),
    "allocator_control": ("control_fn", ("0", "1", "2", "3")),
    "psock_accept": ("accept_fn", ("0", "context", "1", "2", "3")),
    "psock_setsockopt": ("setsockopt_fn", ("0", "context", "1", "2", "3", "4")),
}
OPTIONAL = {"control_fn": "ERROR_GENERAL_CONTROL_KEY_INVALID", "accept_fn": "ERROR_PSOCK_METHOD_UNDEFINED",
            "setsockopt_fn": "ERROR_PSOCK_METHOD_UNDEFINED", "sendmsg_fn": "ERROR_PSOCK_METHOD_UNDEFINED", "recvmsg_fn": "ERROR_PSOCK_METHOD_UNDEFINED"}


def recording(eng, st, fv, args, org, rty):
    fld = str(org[2]).split(".")[-1] if org else "?"
    st.gset("d", "calls", (st.gget("d", "calls") or ()) + ((fld, fv, tuple(st.norm(a) for a in args)),))
    r = st.fresh("result", 32, "status")
    st.gset("d", "result", r)
    return [(st, r)]


def plain_models(*own):
    m = contracts.client_models()
    d = models.default_models()
    for k in ("allocator_allocate", "allocator_reclaim", "allocator_reallocate", "allocator_control", "resource_release"):
        m.pop(k, None)
    return m


def dispatch_job(P, fn, slot, want, table):
    """one call of the object's own method with the caller's arguments"""
    def setup(E, st, F, ctx):
        a = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
        vt = shape.new_struct(E, st, table, "vtable", kind="lazy")
        f = st.fresh("method", 64, "fn", None)
        if slot not in OPTIONAL:
            st.facts[f] = POS
        field = "release" if slot == "release" else slot
        shape.setf(E, st, vt, table, field, f)
        o = None
        di = F.args[0][2].replace("struct ", "").rstrip("*").strip()
        o = shape.new_struct(E, st, di, "object", kind="lazy")
        E.write(st, o, 0, ("p", vt, 0), 8)
        a[0] = ("p", o, 0)
        ctx.update(args=list(a), f=f, o=o, di=di)
        return a

    def post(E, st, rv, args, ctx):
        calls = st.gget("d", "calls") or ()
        f = st.norm(ctx["f"])
        if not calls:
            if slot not in OPTIONAL:
                rep(E, st, "%s returns without calling the object's %s" % (fn, slot))
            elif not E.assume(st.copy(), E.cmp(st, "eq", f, ZERO, 64), True) or E.assume(st.copy(), E.cmp(st, "ne", f, ZERO, 64), True):
                rep(E, st, "%s does not call the object's %s although it has one" % (fn, slot))
            elif low32(st, rv) != ("i", contracts.code(OPTIONAL[slot])):
                rep(E, st, "%s reports %s where the object has no %s" % (fn, show(st.norm(rv)), slot))
            return
        if len(calls) != 1 or st.norm(calls[0][1]) != f:
            rep(E, st, "%s calls %s where one call of the object's %s is due" % (fn, [c[0] for c in calls], slot))
            return
        got = calls[0][2]
        exp = [ctx["args"][int(w)] if w.isdigit() else shape.getf(E, st, ctx["o"], ctx["di"], w) for w in want]
        if len(got) != len(exp) or any(not same(E, st, g, e) for g, e in zip(got, exp)):
            rep(E, st, "%s passes %s where its caller's arguments are due" % (fn, [show(g) for g in got]))
        if st.norm(rv) != st.norm(st.gget("d", "result")):
            rep(E, st, "%s returns %s instead of its method's result" % (fn, show(st.norm(rv))))
    return Job(fn, post, setup, models=plain_models(), icall=recording, name=fn)


def low32(st, v):
    v = st.norm(v)
    return ("i", v[1] & 0xffffffff) if v[0] == "i" else v


def handle_job(P, fn):
    def setup(E, st, F, ctx):
        a = lazy(F, st)
        ctx["a"] = a[0]
        return a

    def post(E, st, rv, args, ctx):
        di = E.stack[-1][0].args[0][2].replace("struct ", "").rstrip("*").strip()
        v, a = st.norm(rv), st.norm(ctx["a"])
        if not same(E, st, v, a):
            rep(E, st, "%s yields %s, which is not the object's resource" % (fn, show(v)))
    return Job(fn, post, setup, name=fn)


def init_job(P):
    def setup(E, st, F, ctx):
        a = lazy(F, st)
        o = shape.new_struct(E, st, "resource", "resource", kind="lazy", default="undef")
        a[0] = ("p", o, 0)
        ctx.update(o=o, vt=a[1])
        return a

    def post(E, st, rv, args, ctx):
        if st.norm(E.read(st, ctx["o"], 0, 8, "p")) != st.norm(ctx["vt"]):
            rep(E, st, "the resource does not get the vtable given")
    return Job("resource_init", post, setup, name="resource_init")


def read_job(P):
    def setup(E, st, F, ctx):
        o = shape.new_struct(E, st, "resource", "resource", kind="lazy")
        ctx["vt"] = v = st.fresh("vtable", 64, "resource_vtable*", None)
        E.write(st, o, 0, v, 8)
        ctx["out"] = c = outcell(st, "caller's vtable")
        return [("p", c, 0), ("p", o, 0)]

    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) == "ok" and st.norm(E.read(st, ctx["out"], 0, 8, "p")) != st.norm(ctx["vt"]):
            rep(E, st, "the vtable read is not the resource's")
    return Job("resource_vtable_read", post, setup, name="resource_vtable_read")


def user_job(P, slot):
    """the psock over user-supplied methods passes everything on"""
    fn = slot_of(P, "psock_create_from_user_methods", slot)
    if fn is None:
        return None

    def setup(E, st, F, ctx):
        a = lazy(F, st)
        so = shape.new_struct(E, st, "psock_from_user_methods", "psock", kind="lazy")
        vt = shape.new_struct(E, st, "psock_vtable", "user vtable", kind="lazy")
        f = st.fresh("method", 64, "fn", None)
        if slot == "release":
            shape.setf(E, st, vt, "psock_vtable", "hdr.release" if P.offset("psock_vtable", "hdr.release") is not None else "release", f)
        else:
            shape.setf(E, st, vt, "psock_vtable", slot, f)
        shape.setf(E, st, so, "psock_from_user_methods", "user_vtable", ("p", vt, 0))
        a[0] = ("p", so, 0)
        E.write(st, so, P.offset("psock", "context"), a[1], 8)
        ctx.update(args=list(a), f=f)
        return a

    def post(E, st, rv, args, ctx):
        calls = st.gget("d", "calls") or ()
        f = st.norm(ctx["f"])
        if not calls:
            if E.assume(st.copy(), E.cmp(st, "ne", f, ZERO, 64), True):
                rep(E, st, "the user's %s is not called" % slot)
            elif rules.status_class(st, rv) != "err":
                rep(E, st, "success is reported although the user supplied no %s" % slot)
            return
        if len(calls) != 1 or st.norm(calls[0][1]) != f:
            rep(E, st, "%s is called where one call of the user's %s is due" % ([c[0] for c in calls], slot))
            return
        got = calls[0][2]
        if len(got) != len(ctx["args"]) or any(not same(E, st, g, e) for g, e in zip(got, ctx["args"])):
            rep(E, st, "the user's %s gets %s where the caller's arguments are due" % (slot, [show(g) for g in got]))
        if st.norm(rv) != st.norm(st.gget("d", "result")):
            rep(E, st, "%s is returned instead of the result of the user's %s" % (show(st.norm(rv)), slot))
    return Job(fn, post, setup, models=plain_models(), icall=recording, name="user psock %s" % slot)


def user_release_job(P):
    """the psock over user-supplied methods is released through the user's release method, if there is one"""
    vt = shape.vtable(P, "psock_create_from_user_methods")
    what = "releasing a user psock"

    def icall(E, st, fv, args, org, rty):
        if st.norm(fv) != st.norm(st.gget("d", "f")):
            return contracts.icall(E, st, fv, args, org, rty)
        so = st.gget("d", "o")
        if E.assume(st.copy(), E.cmp(st, "eq", st.norm(fv), ZERO, 64), True):
            rep(E, st, "%s: the user's release method is called although there may be none" % what)
        if len(args) != 2 or st.norm(args[0]) != ("p", so, 0) or not same(E, st, args[1], st.gget("d", "ctx")):
            rep(E, st, "%s: the user's release method gets %s" % (what, [show(st.norm(x)) for x in args]))
        if st.heap[so].status != "live":
            rep(E, st, "%s: the memory is reclaimed before the user's release method runs" % what)
        elif not same(E, st, E.read(st, so, P.offset("psock", "context"), 8, "p"), st.gget("d", "ctx")):
            rep(E, st, "%s: the psock is cleared before the user's release method runs" % what)
        st.gset("d", "calls", (st.gget("d", "calls") or 0) + 1)
        return E.fallible(st, "callback:release_fn")

    def setup(E, st, F, ctx):
        so = ctx["o"] = shape.new_struct(E, st, "psock_from_user_methods", "psock")
        uv = shape.new_struct(E, st, "psock_vtable", "user vtable", kind="lazy")
        f = ctx["f"] = st.fresh("method", 64, "fn", None)
        al, cx = new_ptr(st, "alloc", "struct allocator*"), st.fresh("context", 64, "void*", None)
        shape.setf(E, st, uv, "psock_vtable", "release_fn", f)
        shape.setf(E, st, so, "psock_from_user_methods", "user_vtable", ("p", uv, 0))
        E.write(st, so, P.offset("psock", "alloc"), al, 8)
        E.write(st, so, P.offset("psock", "context"), cx, 8)
        E.write(st, so, 0, vt, 8)
        st.wobj(so).meta = dict(st.heap[so].meta, alloc=al)
        for k, v in (("o", so), ("f", f), ("ctx", cx)):
            st.gset("d", k, v)
        return [("p", so, 0)]

    def post(E, st, rv, args, ctx):
        n = st.gget("d", "calls") or 0
        if n > 1 or n == 0 and E.assume(st.copy(), E.cmp(st, "ne", st.norm(ctx["f"]), ZERO, 64), True):
            rep(E, st, "%s: the user's release method is called %d times" % (what, n))
        if st.heap[ctx["o"]].status != "freed":
            rep(E, st, "%s: its memory is not reclaimed" % what)
        bad = rules.fail_events(st)
        if (rules.status_class(st, rv) == "ok") == bool(bad):
            rep(E, st, "%s: %s" % (what, "succeeds although its method failed" if bad else "fails although nothing went wrong"))
    m = contracts.client_models()
    m.pop("resource_release", None)
    return Job("resource_release", post, setup, models=m, icall=icall, name=what, conf=dict(join_states=False))


@check("R01", 25)
def r01(ctx):
    P = ctx.prog()
    jobs = [dispatch_job(P, fn, slot, want, "resource_vtable" if slot == "release" else "allocator_vtable" if fn.startswith("alloc") else "psock_vtable")
            for fn, (slot, want) in DISPATCH.items()]
    jobs += [handle_job(P, n) for n in generic.entries(P) if n.endswith("resource_handle")]
    jobs += [init_job(P), read_job(P)]
    jobs += [j for j in (user_job(P, s) for s in ("read_fn", "write_fn", "accept_fn", "recvmsg_fn", "sendmsg_fn")) if j]
    jobs += [user_release_job(P)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "dispatch")
    return ("Abstract interpretation of every operation that runs a method of an object, from an object with an unknown method: the calls "
            "made, their arguments and the status returned are compared with the caller's; resource handles and vtable access likewise.")
