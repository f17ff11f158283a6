"""Exit rules: what must hold of the abstract state whenever an analysed
function returns.  Every rule reports through the engine, at the location of the
construct responsible (allocation site, failing call, ...)."""
from values import *
from engine import M64, Stop
import re

ERRBIT = 1 << 31


def status_class(st, rv):
    """'ok', 'err', 'any' or None"""
    if rv is None:
        return None
    rv = st.norm(rv)
    if rv[0] == "i":
        return "ok" if rv[1] & 0xffffffff == 0 else "err"
    h = st.hull(rv)
    if h and h[0] > 0:
        return "err"
    iv = st.ivals(rv)
    if iv and not any(lo <= 0 <= hi for lo, hi in iv):
        return "err"
    return "any"


def val_objs(st, v):
    v = st.norm(v)
    k = v[0]
    if k == "p":
        yield v[1]
        if not isinstance(v[2], int):
            pass
    elif k == "a":
        for t, c in v[2]:
            yield from val_objs(st, t)
    elif k == "o":
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in "pao":
                yield from val_objs(st, x)


def reachable(st, roots, skip=()):
    """objects reachable from roots through live memory and tree membership;
    maps object -> (holder, offset)"""
    seen = {}
    todo = []
    for r in roots:
        if r not in seen:
            seen[r] = None
            todo.append(r)
    trees = st.ghost.get("tree") or {}
    while todo:
        x = todo.pop()
        o = st.heap.get(x)
        if o is None or o.status != "live":
            continue
        if x in skip:
            continue
        for k, (z, v) in o.fields.items():
            if v[0] == "z":
                continue
            for y in val_objs(st, v):
                if y not in seen:
                    seen[y] = (x, k)
                    todo.append(y)
        for y in trees.get(x, ()):
            if y not in seen:
                seen[y] = (x, "member")
                todo.append(y)
    return seen


def roots_of(st, args, rv):
    r = [oid for oid, o in st.heap.items() if o.kind in ("lazy", "global") and o.status == "live"]
    for a in list(args) + ([rv] if rv is not None else []):
        r += list(val_objs(st, a))
    # blocks handed to the scheduler / threads as callback context
    for e in st.events:
        if e[0] == "escape":
            r += list(val_objs(st, e[1]))
    return r


def fail_events(st):
    return [e for e in st.events if e[0] == "fail"]


def leak(eng, st, rv, args, cls):
    reach = reachable(st, roots_of(st, args, rv))
    for oid, o in st.heap.items():
        if o.kind == "heap" and o.status == "live" and oid not in reach:
            why = "on return of success" if cls == "ok" else "on return of an error" if cls == "err" else "on return"
            fe = fail_events(st)
            if fe:
                why += " after %s failed at %s" % (fe[-1][1], fe[-1][2])
            eng.report(st, "leak-err" if cls == "err" else "leak", "block allocated here is neither released nor reachable %s" % why, loc=o.site, fatal=False)
    for k, v in (st.ghost.get("fd") or {}).items():
        if v[0] == "open":
            if not fd_kept(st, k, rv, reach):
                eng.report(st, "leak-fd-err" if cls == "err" else "leak-fd", "descriptor opened here is neither closed nor stored on return", loc=v[1], fatal=False)
    for k, v in (st.ghost.get("os") or {}).items():
        if v[0] == "live" and k[1] not in reach:
            o = st.heap.get(k[1])
            if o is not None and o.kind == "stack":
                eng.report(st, "leak-os-err" if cls == "err" else "leak-os", "%s initialised here is never destroyed" % k[0], loc=v[1], fatal=False)
            elif o is not None and o.kind == "heap" and o.status == "live":
                pass        # reported as a leaked block
    return reach


def has_methods(eng, st, v, what):
    """an object made by the library must be releasable when it is handed on"""
    v = st.norm(v)
    if v[0] != "p" or not isinstance(v[2], int):
        return
    o = st.heap.get(v[1])
    if o is None or o.kind != "heap" or o.status != "live":
        return
    kinds, eng.kinds_off = eng.kinds_off, set(eng.kinds_off) | {"uninit", "out-of-bounds"}
    try:
        m = st.norm(eng.read(st.copy(), v[1], v[2], 8, "p"))
    except Stop:
        return
    finally:
        eng.kinds_off = kinds
    if m[0] in "iu":
        eng.report(st, "no-methods", "%s without a method table, so it cannot be released" % what, fatal=False)


def fd_kept(st, fd, rv, reach):
    if rv is not None and st.norm(rv) == fd:
        return True
    for x in reach:
        o = st.heap.get(x)
        if o is None or o.status != "live":
            continue
        for k, (z, v) in o.fields.items():
            if v[0] != "z" and st.norm(v) == fd:
                return True
    return False


def dangling(eng, st, rv, args, cls):
    """a released block must not stay reachable from live caller-visible memory"""
    roots = []
    for oid, o in st.heap.items():
        if o.kind in ("lazy", "global") and o.status == "live":
            roots.append(oid)
    seen = reachable(st, roots)
    for oid, how in seen.items():
        o = st.heap.get(oid)
        if o is not None and o.status == "freed" and how is not None:
            h = st.heap[how[0]]
            if is_input(eng, st, how[0], how[1]):
                continue
            eng.report(st, "dangling", "%s still refers to %s, which was released at %s" %
                       (field_name(eng, h, how[1]), eng.describe(o), o.meta.get("freed_at")),
                       loc=o.meta.get("freed_at"), fatal=False)


def is_input(eng, st, oid, k):
    """the cell still holds what it held when the analysed function was called"""
    f = st.heap[oid].fields.get(k)
    return f is not None and eng.is_input_cell(st, oid, k, f)


def field_name(eng, o, k):
    if isinstance(k, int) and o.dtype:
        m = eng.prog.member_at(o.dtype, k)
        if m:
            return "%s.%s" % (o.dtype.replace("struct ", ""), m[0])
    return "a caller-visible cell"


def mentions(v, e):
    if v == e:
        return True
    if isinstance(v, tuple):
        return any(mentions(x, e) for x in v if isinstance(x, tuple))
    return False


def delivered(st, e, roots):
    """the error value is stored where the caller (or the fiber it is meant for)
    will find it"""
    for x in reachable(st, roots):
        o = st.heap.get(x)
        if o is None or o.status != "live" or o.kind == "stack":
            continue
        for k, (z, v) in o.fields.items():
            if mentions(v, e) or mentions(st.norm(v), e):
                return True
    return False


# failures that are not reported to the caller by design: (function analysed,
# operation) -> reason.  Each was confirmed by reading the code and its headers.
BY_DESIGN = {
    ("fiber_entry", "callback:fn"): "the scheduler callback's status is handed back through the yield parameter",
    ("psock_idle_fiber_entry", "callback:fn"): "the idle fiber stops when the scheduler refuses to resume it",
    ("condition_discipline_notify_all_callback_handler", "slist_append_tail"): "a waiter that cannot be made runnable is skipped, the others are woken",
    ("condition_discipline_notify_one_callback_handler", "slist_append_tail"): "a waiter that cannot be made runnable is skipped",
    ("condition_discipline_notify_one_callback_handler", "slist_pop"): "a waiter that cannot be taken off the list is skipped",
    ("condition_discipline_notify_all_callback_handler", "slist_pop"): "the waiters that can be reached are woken, whatever becomes of the list's own nodes",
    ("psock_wrap_async_read", "callback:read_fn"): "a non-blocking read hands out the bytes it has; the next read reports the error",
    ("psock_br_psock_read", "callback:read_fn"): "a non-blocking read hands out the bytes it has; the next read reports the error",
    ("psock_br_read_line", "callback:read_fn"): "an unterminated last line is returned when the socket ends; the next read reports the error",
}


def blocking_read(st, args):
    """a read method (sock, ctx, data, size, block) that may have been asked to block"""
    return len(args) == 5 and st.norm(args[4]) != ("i", 0)


def swallow(eng, st, rv, args, cls, exempt=None):
    if cls != "ok":
        return
    roots = None
    evs = fail_events(st)
    told = None
    for i, e in enumerate(evs):
        if e[3] is not None:
            # told apart from every other error on this path: handled
            if st.norm(e[3])[0] == "i":
                continue
            if told is None:
                # the error's receiver finds it: a failure before it on the same
                # path, or of the clean-up that follows, is superseded by it
                roots = roots_of(st, args, rv)
                told = max((k for k, f in enumerate(evs) if f[3] is not None and delivered(st, f[3], roots)), default=-1)
            if i <= told or told >= 0 and e[1] == "allocator_reclaim":
                continue
        if (eng.entry, e[1]) in BY_DESIGN and not (e[1] == "callback:read_fn" and blocking_read(st, args)):
            continue
        if exempt and exempt(eng, st, e):
            continue
        eng.report(st, "swallowed", "the failure of %s here is reported as success" % e[1], loc=e[2], fatal=False)


def from_input(st, v):
    """the value was read from memory the caller (or the resuming fiber)
    provided: its range is that of what was stored there"""
    if v[0] == "s":
        si = st.sym.get(v[1])
        return si is not None and (si[2] is not None or v[1].startswith("resume."))
    if v[0] in ("o", "a"):
        return any(from_input(st, x) for x in leaves(v))
    return False


def leaves(v):
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and x[0] == "s" and len(x) == 2:
                yield x
            else:
                yield from leaves(x)


def codes(eng, st, rv, args, cls, known=None):
    rv = st.norm(rv)
    if rv[0] == "i":
        v = rv[1] & 0xffffffff
        if v and not v & ERRBIT:
            eng.report(st, "raw-code", "returns %#x, which is not an error status" % v, fatal=False)
        elif v and known is not None and v not in known:
            eng.report(st, "raw-code", "returns %#x, which is not a defined status code" % v, fatal=False)
        return
    iv = st.ivals(rv)
    if iv is None:
        return
    if from_input(st, rv):
        return
    for lo, hi in iv:
        lo2 = max(lo, 1)
        if lo2 <= hi and lo2 < ERRBIT:
            eng.report(st, "raw-code", "may return %s, a value without the error bit that is not success" % show(rv), fatal=False)
            return
