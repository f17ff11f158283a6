"""Sockets backed by memory: what is written is what get_output_buffer returns, what was given is what is read."""
import contracts
import models
import rules
from checks import core, osapi
from checks.psockio import must, same, outcell, finish, slot_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

KINDS = {"no-progress", "psockbuf", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope", "overlap"}
CONF = {"copy_limit": 60000, "unroll": 40, "max_counted": 40, "join_states": False}


def rep(E, st, m):
    E.report(st, "psockbuf", m, fatal=False)


def block(E, st, args):
    """allocation: at most one failure in a history"""
    o = st.new_obj("heap", st.norm(args[2]), "undef", None, E.curloc, {}, name="block")
    outs = []
    if not st.gget("pb", "oom"):
        f = st.copy()
        E.store(f, args[1], ZERO, 8)
        e = f.fresh("err.allocate", 32, "status")
        f.facts[e] = models.ERRSET
        f.gset("pb", "oom", True)
        f.trail += ((E.curloc, "the allocation fails"),)
        outs = [(f, e)]
    E.store(st, args[1], ("p", o, 0), 8)
    st.gset("blk", o, ("live", st.norm(args[0])))
    return [(st, ZERO)] + outs


def buf_models():
    m = contracts.client_models()
    for n in [n for n in m if n.startswith("slist") or n in ("resource_release", "resource_init", "resource_handle")]:
        m.pop(n)
    m["allocator_allocate"], m["allocator_reclaim"] = block, osapi.reclaim_once
    return m


def live(st):
    return {o for o, b in (st.ghost.get("blk") or {}).items() if b[0] == "live"}


def pattern(E, st, n, name):
    """n bytes: zero but for symbols at telling positions -> (object, {position: symbol})"""
    o = st.new_obj("lazy", ("i", n), "zero", None, "(data)", {"root": True}, name=name)
    pr = {}
    for k in POINTS(n):
        v = st.fresh("%s[%d]" % (name, k), 8, "char")
        E.write(st, o, k, v, 1)
        pr[k] = v
    return o, pr


def POINTS(n):
    B = size()
    s = {0, 1, 2, n // 2, n - 2, n - 1} | {x + d for m in range(B, n + B, B) for x in (m, n - m) for d in (-2, -1, 0, 1)}
    return sorted(k for k in s if 0 <= k < n)


def size():
    try:
        return core.macro("src/psock/psock_internal.h", "PSOCK_BUFFER_SIZE")
    except AnalysisBroken:
        return 4096


def byte(E, st, src, k):
    return src[1].get(k, ZERO)


def compare(E, st, got, n, want, what):
    """the n bytes at object got are the pieces [(pattern, from, length)] in order"""
    base = 0
    for src, lo, ln in want:
        for k in sorted(set(src[1]) | set(POINTS(ln)) | {k for k in (lo, lo + ln - 1)}):
            if not lo <= k < lo + ln:
                continue
            v = st.norm(E.read(st, got, base + k - lo, 1, "i8"))
            if v != st.norm(byte(E, st, src, k)):
                rep(E, st, "%s: byte %d is %s where %s, byte %d of what was written, is due" % (what, base + k - lo, show(v), show(byte(E, st, src, k)), k))
                return False
        base += ln
    return True


def create(P, writes, then):
    """a job that creates an output socket and goes on"""
    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's socket")
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        return [("p", c, 0), a, ZERO, ZERO]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            if rules.status_class(st, rv) == "ok" or live(st):
                rep(E, st, "creating a socket over a buffer fails to allocate, and %s" % ("succeeds" if not live(st) else "loses memory"))
            return
        s = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if rules.status_class(st, rv) != "ok" or s[0] != "p":
            rep(E, st, "creating a socket over a buffer hands out %s although nothing failed" % show(s))
            return
        then(E, st, s, ctx)
    return Job("psock_create_from_buffer", post, setup, models=buf_models(), icall=None, conf=CONF, name="write %s bytes" % (writes,))


def output_job(P, writes):
    W, GET = slot_of(P, "psock_create_from_buffer", "write_fn"), P.func("psock_from_buffer_get_output_buffer").name

    def then(E, st, sock, ctx):
        states = [(st, [], True)]
        for i, n in enumerate(writes):
            nxt = []
            for s, parts, clean in states:
                o, pr = pattern(E, s, n, "data%d" % i)
                cell = outcell(s, "caller's size")
                E.write(s, cell, 0, ("i", n), 8)
                was = bool(s.gget("pb", "oom"))
                for t, rv in E.call_named(s, P.func(W).name, [sock, ZERO, ("p", o, 0), ("p", cell, 0)]):
                    cls = rules.status_class(t, rv)
                    hit = bool(t.gget("pb", "oom")) and not was
                    if cls == "any" or (cls == "ok") == hit:
                        rep(E, t, "a write %s although %s" % ("fails" if cls != "ok" else "succeeds", "an allocation failed" if hit else "nothing failed"))
                        continue
                    if cls == "ok" and t.norm(E.read(t, cell, 0, 8, "i64")) != ("i", n):
                        rep(E, t, "a write of %d bytes reports %s bytes written" % (n, show(t.norm(E.read(t, cell, 0, 8, "i64")))))
                        continue
                    for k, v in pr.items():
                        if t.norm(E.read(t, o, k, 1, "i8")) != t.norm(v):
                            rep(E, t, "a write changes the caller's data")
                    nxt.append((t, parts + [((o, pr), n, cls == "ok")], clean and cls == "ok"))
            states = nxt
        for s, parts, clean in states:
            fetch(E, s, sock, parts, ctx)

    def fetch(E, st, sock, parts, ctx):
        a2 = st.fresh("other.alloc", 64, "struct allocator*", None)
        out, cnt = outcell(st, "caller's buffer"), outcell(st, "caller's size")
        b0, c0 = st.fresh("buffer.before", 64, "void*", None), st.fresh("size.before", 64, "unsigned long", None)
        E.write(st, out, 0, b0, 8)
        E.write(st, cnt, 0, c0, 8)
        was, before = bool(st.gget("pb", "oom")), live(st)
        for s, rv in E.call_named(st, GET, [sock, a2, ("p", out, 0), ("p", cnt, 0)]):
            cls = rules.status_class(s, rv)
            hit = bool(s.gget("pb", "oom")) and not was
            if cls == "any" or (cls == "ok") == hit:
                rep(E, s, "reading the output %s although %s" % ("fails" if cls != "ok" else "succeeds", "an allocation failed" if hit else "nothing failed"))
                continue
            b, n = s.norm(E.read(s, out, 0, 8, "p")), s.norm(E.read(s, cnt, 0, 8, "i64"))
            if cls != "ok":
                if live(s) != before:
                    rep(E, s, "reading the output fails and loses memory")
                if b != s.norm(b0) or n != s.norm(c0):
                    rep(E, s, "reading the output fails and changes the caller's buffer or size")
                continue
            if b[0] != "p" or b[2] != 0 or n[0] != "i" or s.gget("blk", b[1]) != ("live", s.norm(a2)) or b[1] in before:
                rep(E, s, "the output is %s with %s bytes, which is no new block of the caller's allocator" % (show(b), show(n)))
                continue
            sure = sum(k for _, k, ok in parts if ok)
            lost = [k for _, k, ok in parts if not ok]
            if not sure <= n[1] <= sure + sum(lost):
                rep(E, s, "%d bytes are returned where %d were written" % (n[1], sure))
                continue
            rest, want = n[1] - sure, []
            for src, k, ok in parts:            # a failed write may have left its beginning
                want.append((src, 0, k if ok else min(rest, k)))
            if compare(E, s, b[1], n[1], want, "output"):
                end(E, s, sock, {b[1]})

    return create(P, list(writes), then)


def end(E, st, sock, keep):
    for s, rv in osapi.release(E, st, sock):
        if live(s) != keep:
            rep(E, s, "releasing the socket leaves %d of its blocks behind" % len(live(s) - keep) if live(s) > keep else "releasing the socket reclaims a block that is not its own")
        if rules.status_class(s, rv) != "ok":
            rep(E, s, "releasing the socket fails although nothing failed")


def input_job(P, n, reads):
    R = slot_of(P, "psock_create_from_buffer", "read_fn")
    EOF = contracts.code("ERROR_PSOCK_READ_EOF")

    def setup(E, st, F, ctx):
        ctx["out"] = c = outcell(st, "caller's socket")
        ctx["alloc"] = a = st.fresh("alloc", 64, "struct allocator*", None)
        if n is None:
            ctx["src"] = None
            return [("p", c, 0), a, ZERO, ZERO]
        ctx["src"] = src = pattern(E, st, n, "input")
        return [("p", c, 0), a, ("p", src[0], 0), ("i", n)]

    def post(E, st, rv, args, ctx):
        if st.gget("pb", "oom"):
            if rules.status_class(st, rv) == "ok" or live(st):
                rep(E, st, "creating a socket over a buffer fails to allocate, and %s" % ("succeeds" if not live(st) else "loses memory"))
            return
        sock = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if rules.status_class(st, rv) != "ok" or sock[0] != "p":
            rep(E, st, "creating a socket over a buffer hands out %s although nothing failed" % show(sock))
            return
        if n:                                   # the caller may reuse its buffer
            st.wobj(ctx["src"][0]).status = "freed"
        pos, states = 0, [st]
        for want in reads:
            left = (n or 0) - pos
            take = min(want, left)
            nxt = []
            for s in states:
                d = s.new_obj("lazy", ("i", want + 4), "undef", None, "(buffer)", {"root": True}, name="caller's data")
                guard = s.fresh("beyond", 32, "int")
                E.write(s, d, want, guard, 4)
                cell = outcell(s, "caller's size")
                E.write(s, cell, 0, ("i", want), 8)
                for t, r in E.call_named(s, P.func(R).name, [sock, ZERO, ("p", d, 0), ("p", cell, 0), s.fresh("block", 1, "bool")]):
                    cls = rules.status_class(t, r)
                    if left <= 0:
                        if t.norm(r) != ("i", EOF):
                            rep(E, t, "a read at the end of the input does not report the end of file")
                    elif cls != "ok":
                        rep(E, t, "a read with %d bytes left fails" % left)
                    elif t.norm(E.read(t, cell, 0, 8, "i64")) != ("i", take):
                        rep(E, t, "a read of %d with %d bytes left reports %s bytes" % (want, left, show(t.norm(E.read(t, cell, 0, 8, "i64")))))
                    elif take and not compare(E, t, d, take, [(ctx["src"], pos, take)], "input from %d" % pos):
                        pass
                    elif t.norm(E.read(t, d, want, 4, "i32")) != t.norm(guard):
                        rep(E, t, "a read of %d bytes writes beyond them" % want)
                    else:
                        nxt.append(t)
                    if left <= 0:
                        nxt.append(t)
            states = nxt
            pos += max(take, 0)
        for s in states:
            if n is not None:
                refuse(E, s.copy(), sock, ctx)
            end(E, s, sock, set())

    def refuse(E, st, sock, ctx):
        """an input socket takes no output"""
        before = live(st)
        cell = outcell(st, "caller's size")
        E.write(st, cell, 0, ("i", 1), 8)
        o, _ = pattern(E, st, 1, "data")
        for t, r in E.call_named(st.copy(), P.func(slot_of(P, "psock_create_from_buffer", "write_fn")).name, [sock, ZERO, ("p", o, 0), ("p", cell, 0)]):
            if t.norm(r) != ("i", contracts.code("ERROR_PSOCK_UNSUPPORTED_TYPE")):
                rep(E, t, "a write to an input socket gives %s" % show(t.norm(r)))
        b = outcell(st, "caller's buffer")
        for t, r in E.call_named(st, P.func("psock_from_buffer_get_output_buffer").name, [sock, ctx["alloc"], ("p", b, 0), ("p", cell, 0)]):
            if t.norm(r) != ("i", contracts.code("ERROR_PSOCK_UNSUPPORTED_TYPE")) or live(t) != before:
                rep(E, t, "the output of an input socket gives %s" % show(t.norm(r)))
    return Job("psock_create_from_buffer", post, setup, models=buf_models(), icall=None, conf=CONF, name="input of %s bytes, reads of %s" % (n, list(reads)))


def accept_job(P):
    def post(E, st, rv, args, ctx):
        if rules.status_class(st, rv) != "err":
            rep(E, st, "a socket over a buffer accepts a connection")

    def setup(E, st, F, ctx):
        return core.lazy(F, st)
    return Job(slot_of(P, "psock_create_from_buffer", "accept_fn"), post, setup, models=buf_models(), icall=None, name="accept")


@check("P07", 12)
def p07(ctx):
    P = ctx.prog()
    B = size()
    ws = [(), (1,), (B - 1,), (B,), (B + 1,), (2 * B - 1,), (2 * B,), (2 * B + 1,), (3 * B + 5,), (B - 1, 1), (B - 1, 2), (B - 2, 1), (3, B - 3), (3, B - 2),
          (3, 2 * B - 4), (3, 2 * B - 3), (3, 2 * B - 2), (2 * B + 3, B), (B, B), (0, 5), (B + 7, 2 * B, 9), (1, 2, 3), (B - 1, 1, 4)]
    if ctx.thorough:
        e = [1, 2, B - 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1]
        ws += [(x, y) for x in e for y in e] + [(x, y, z) for x in (1, B - 1, B + 1) for y in (1, B - 1, B, 2 * B) for z in (1, B)]
    ws = list(dict.fromkeys(ws))
    jobs = [output_job(P, w) for w in ws]
    ins = [(3, (0, 1, 2, 1)), (3, (3, 1)), (3, (5, 1)), (3, (2, 5, 1, 0)), (3, (1, 1, 1, 1)), (1, (4, 4)), (B + 2, (B, B)), (0, (1,)), (None, (1, 0))]
    jobs += [input_job(P, n, r) for n, r in ins] + [accept_job(P)]
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "psockbuf")
    return "Abstract interpretation of create, writes, get_output_buffer and release (and of create, reads, release) with symbolic bytes at every buffer boundary, one allocation failing anywhere."
