"""The psock wire format: what each typed writer puts on the stream, what each
typed reader makes of it, and that nothing short of a full transfer succeeds."""
import contracts
import models
import rules
from engine import width_of
from framework import check, AnalysisBroken
from sweep import Job
from values import *

# published type tags (include/rcpr/psock.h at the pinned commit)
TAGS = {"int64": 0x10, "uint64": 0x11, "int32": 0x12, "uint32": 0x13, "int16": 0x14, "uint16": 0x15, "int8": 0x16, "uint8": 0x17,
        "bool": 0x18, "string": 0x20, "data": 0x22}
SIZES = {"int64": 8, "uint64": 8, "int32": 4, "uint32": 4, "int16": 2, "uint16": 2, "int8": 1, "uint8": 1, "bool": 1}
BAD_TYPE = "ERROR_PSOCK_READ_BOXED_INVALID_TYPE"


def be(v, n):
    return [("i", (v >> (8 * (n - 1 - i))) & 255) for i in range(n)]


def bytes_of(E, st, v, n):
    """n bytes, least significant first"""
    v = st.norm(v)
    return [st.norm(E.byte_of(st, v, n, k)) for k in range(n)]


def rep(E, st, m):
    E.report(st, "wire", m, fatal=False)


def stream(st):
    return st.gget("stream", "bytes") or ()


def small(E, st, data, n):
    """a transfer of a few bytes that is not part of the payload"""
    return n[0] == "i" and n[1] <= 8 and not is_payload(E, st, data)


def is_payload(E, st, p):
    w = st.gget("stream", "payload")
    return w is not None and p[0] == "p" and p[1] == w[1]


def wire_cells(E, st):
    """the payload counter, as a memory cell so that loops widen it"""
    o = st.gget("stream", "cell")
    return o, st.norm(E.read(st, o, 0, 8, "i64"))


def prov_eq(E, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        return True
    if a[0] == "p" or b[0] == "p":
        if a[0] != "p" or b[0] != "p" or a[1] != b[1]:
            return False
        a, b = off_val(a[2]), off_val(b[2])
    d = add(a, b, -1)
    if d is None:
        return False
    d = st.norm(d)
    return d == ZERO or E.diff_range(st, d) == (0, 0)


class Spec:
    def loop_key(self, st):
        return (stream(st) and len(stream(st)), st.gget("stream", "bad"), st.gget("stream", "blocked"), st.gget("stream", "ended"))


def transfer(kind):
    name = "callback:%s_fn" % kind

    def slot(E, st, args):
        sock, ctx, data, size = args[:4]
        S = st.gget("stream", "sock")
        if st.norm(sock) != st.norm(S):
            rep(E, st, "the %s is not addressed to the psock passed in" % kind)
        so = st.norm(S)
        co = E.prog.offset("psock", "context")
        if so[0] == "p" and st.norm(E.read(st, so[1], so[2] + co, 8, "p")) != st.norm(ctx):
            rep(E, st, "the %s does not pass the psock's context" % kind)
        if kind == "read" and len(args) > 4:
            if st.norm(args[4]) != ("i", 1):
                rep(E, st, "a typed read does not wait for all its bytes")
        n = st.norm(E.load(st, size, 8, "i64"))
        d = st.norm(data)
        res = []
        if st.gget("stream", "ended"):
            # the peer is gone: no further transfer moves anything
            E.store(st, size, ZERO, 8)
            return [(st, ZERO)]
        e = st.copy()
        code = e.fresh("err." + name, 32, "status")
        e.facts[code] = models.ERRSET
        e.event("fail", name, E.curloc, code)
        e.trail += ((E.curloc, "the %s fails" % kind),)
        e.gset("stream", "bad", True)
        if kind == "read" and d[0] == "p":
            models.havoc_buffer(E, e, d)
        E.store(e, size, e.fresh("part", 64, "unsigned long"), 8)
        if small(E, st, d, n):
            # short
            if n[1] > 0:
                s = st.copy()
                m = s.fresh("short", 64, "unsigned long")
                s.facts[m] = ((0, n[1] - 1),)
                s.trail += ((E.curloc, "only part of the bytes are transferred"),)
                s.gset("stream", "bad", True)
                if kind == "read":
                    models.havoc_buffer(E, s, d)
                E.store(s, size, m, 8)
                res.append((s, ZERO))
            if st.gget("stream", "bad"):
                rep(E, st, "the %s continues after a transfer that failed or was short" % kind)
            if wire_cells(E, st)[1] != ZERO:
                rep(E, st, "a header field is transferred after payload")
            if kind == "write":
                bs = tuple(st.norm(E.read(st, d[1], d[2] + i, 1, "i8")) for i in range(n[1]))
            else:
                bs = []
                for i in range(n[1]):
                    b = st.fresh("in%d" % (len(stream(st)) + i), 8, "unsigned char")
                    E.write(st, d[1], d[2] + i, b, 1)
                    bs.append(b)
            st.gset("stream", "bytes", stream(st) + tuple(bs))
            E.store(st, size, n, 8)
            res.append((st, ZERO))
        else:
            if st.gget("stream", "bad"):
                rep(E, st, "the %s continues after a transfer that failed" % kind)
            cell, sent = wire_cells(E, st)
            if kind == "read" and st.gget("stream", "payload") is None:
                st.gset("stream", "payload", d)
            base = st.norm(st.gget("stream", "payload"))
            if d[0] != "p" or base[0] != "p" or not prov_eq(E, st, d, ("p", base[1], val_off(add(off_val(base[2]), sent)))):
                rep(E, st, "a transfer does not continue where the previous one ended (%s after %s bytes)" % (show(d), show(sent)))
            if kind == "read" and d[0] == "p":
                E.range_check(st, st.heap[d[1]], d[2], n, "read into")
                keep = dict(st.heap[d[1]].fields)
                models.havoc_buffer(E, st, d)
                # what lies behind the range read into is not touched
                end = add(off_val(d[2]), n)
                for k, f in keep.items():
                    x = add(off_val(k), end, -1) if end is not None else None
                    r = E.diff_range(st, st.norm(x)) if x is not None else None
                    if r and r[0] >= 0:
                        st.wobj(d[1]).fields[k] = f
            z = st.copy()
            z.trail += ((E.curloc, "nothing is transferred"),)
            z.gset("stream", "ended", True)
            E.store(z, size, ZERO, 8)
            if n != ZERO and E.assume(z, E.cmp(z, "ne", n, ZERO, 64), True):
                res.append((z, ZERO))
            m = st.fresh("moved", 64, "unsigned long")
            st.facts[m] = ((1, M63),)
            if E.assume(st, E.cmp(st, "ule", m, n, 64), True):
                E.write(st, cell, 0, st.norm(add(sent, m)), 8)
                E.store(st, size, m, 8)
                res.append((st, ZERO))
            elif n == ZERO:
                pass
        # an empty payload
        if n == ZERO and not res:
            E.store(st, size, ZERO, 8)
            res.append((st, ZERO))
        return res + [(e, code)]
    return slot


M63 = (1 << 62)
RD, WR = transfer("read"), transfer("write")


def icall(E, st, fv, args, org, rty):
    fld = str(org[2]).split(".")[-1] if org else None
    if fld == "read_fn" and len(args) >= 4:
        return RD(E, st, args)
    if fld == "write_fn" and len(args) >= 4:
        return WR(E, st, args)
    return contracts.icall(E, st, fv, args, org, rty)


def begin(E, st, F):
    args = [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]
    st.gset("stream", "sock", args[0])
    o = st.new_obj("lazy", ("i", 8), "undef", None, "(bytes transferred)", name="wire")
    st.heap[o].meta = {"root": True}
    E.write(st, o, 0, ZERO, 8)
    st.gset("stream", "cell", o)
    return args


def job(fn, setup, post):
    j = Job(fn, post, setup, models=contracts.client_models(), icall=icall, spec=Spec())
    j.conf_run = {"unrolls": (3,)}
    return j


def is_err(st, rv):
    return rules.status_class(st, rv) == "err"


def failed(st):
    return bool(rules.fail_events(st))


# ------------------------------------------------------------ integers and bool
def w_int(t, boxed):
    fn = "psock_write_%s_%s" % ("boxed" if boxed else "raw", t)
    n = SIZES[t]

    def setup(E, st, F, ctx):
        return begin(E, st, F)

    def post(E, st, rv, args, ctx):
        if is_err(st, rv):
            if not failed(st) and not st.gget("stream", "bad"):
                rep(E, st, "%s fails although every byte was written" % fn)
            return
        if st.gget("stream", "bad"):
            rep(E, st, "%s reports success although a write failed or was short" % fn)
            return
        bs = list(stream(st))
        head = be(TAGS[t], 4) if boxed else []
        if bs[:len(head)] != head:
            rep(E, st, "%s writes the tag %s where %s is published" % (fn, [show(b) for b in bs[:4]], [b[1] for b in head]))
        body = bs[len(head):]
        if len(body) != n or wire_cells(E, st)[1] != ZERO:
            rep(E, st, "%s writes %d value bytes where %d are expected" % (fn, len(body), n))
            return
        if t == "bool":
            for want in (0, 1):
                s = st.copy()
                if not E.assume(s, E.cmp(s, "eq", s.norm(args[1]), ("i", want), 8), True):
                    continue
                s2 = s.copy()
                if E.assume(s2, E.cmp(s2, "ne", s2.norm(body[0]), ("i", want), 8), True):
                    rep(E, st, "%s does not encode %d as the byte %d" % (fn, want, want))
            return
        want = bytes_of(E, st, args[1], n)[::-1]
        if body != want:
            rep(E, st, "%s writes %s; the value in network byte order is %s" % (fn, [show(b) for b in body], [show(b) for b in want]))
    return job(fn, setup, post)


def value_of(bs):
    """the value whose big-endian bytes are bs, least significant byte first"""
    return list(bs)[::-1]


def r_int(t, boxed):
    fn = "psock_read_%s_%s" % ("boxed" if boxed else "raw", t)
    n = SIZES[t]

    def setup(E, st, F, ctx):
        args = begin(E, st, F)
        o = st.new_obj("lazy", ("i", n), "undef", None, "(caller's variable)", name="out")
        ctx["o"] = o
        st.heap[o].meta = {"root": True}
        args[1] = ("p", o, 0)
        return args

    def post(E, st, rv, args, ctx):
        bs = stream(st)
        tagok = tag_check(E, st, rv, bs, t, fn) if boxed else None
        if is_err(st, rv):
            if not failed(st) and not st.gget("stream", "bad") and tagok is not False:
                rep(E, st, "%s fails although every byte was read" % fn)
            if st.heap[ctx["o"]].fields:
                rep(E, st, "%s fails but changes the caller's variable" % fn)
            return
        if st.gget("stream", "bad"):
            rep(E, st, "%s reports success although a read failed or was short" % fn)
            return
        if tagok is False:
            rep(E, st, "%s accepts a value of a different type" % fn)
            return
        body = bs[4:] if boxed else bs
        if len(body) != n or wire_cells(E, st)[1] != ZERO:
            rep(E, st, "%s reads %d value bytes where %d are expected" % (fn, len(body), n))
            return
        got = [st.norm(E.read(st, ctx["o"], i, 1, "i8")) for i in range(n)]
        if t == "bool":
            for zero in (True, False):
                s = st.copy()
                if not E.assume(s, E.cmp(s, "eq" if zero else "ne", s.norm(body[0]), ZERO, 8), True):
                    continue
                s2 = s.copy()
                if E.assume(s2, E.cmp(s2, "ne", s2.norm(got[0]), ("i", 0 if zero else 1), 8), True):
                    rep(E, st, "%s does not decode a %s byte as %s" % (fn, "zero" if zero else "non-zero", "false" if zero else "true"))
            return
        if got != [st.norm(b) for b in value_of(body)]:
            rep(E, st, "%s yields %s from the bytes %s" % (fn, [show(b) for b in got], [show(st.norm(b)) for b in body]))
    return job(fn, setup, post)


def tag_check(E, st, rv, bs, t, fn):
    """was the tag read on this path the published one? None if it was not read"""
    if len(bs) < 4 or (st.gget("stream", "bad") and len(bs) < 4):
        return None
    want = be(TAGS[t], 4)
    s = st.copy()
    is_it = all(E.assume(s, E.cmp(s, "eq", s.norm(b), w, 8), True) for b, w in zip(bs, want))
    word = E.from_bytes(st, [st.norm(b) for b in value_of(bs[:4])])
    if is_it:
        s = st.copy()
        is_it = E.assume(s, E.cmp(s, "eq", s.norm(word), ("i", TAGS[t]), 32), True)
    s = st.copy()
    other = E.assume(s, E.cmp(s, "ne", s.norm(word), ("i", TAGS[t]), 32), True)
    if is_it and other and st.norm(word)[0] == "o":
        # undecided: neither test was made
        if not is_err(st, rv):
            rep(E, st, "%s succeeds without testing the type tag against the published value" % fn)
        return None
    if not is_it:
        if is_err(st, rv) and st.norm(rv) != ("i", contracts.code(BAD_TYPE)) and not st.gget("stream", "bad"):
            rep(E, st, "%s reports %s for a value of a different type" % (fn, show(st.norm(rv))))
        if len(bs) > 4 or wire_cells(E, st)[1] != ZERO:
            rep(E, st, "%s reads on after a tag of a different type" % fn)
        return False
    return True


# ------------------------------------------------------------------- bulk data
def w_bulk(fn, t):
    """writers of a payload: (sock, data[, size])"""
    def setup(E, st, F, ctx):
        args = begin(E, st, F)
        d = st.new_obj("lazy", None, "lazy", None, "(caller's data)", name="payload")
        st.heap[d].meta = {"root": True}
        args[1] = ("p", d, 0)
        st.gset("stream", "payload", args[1])
        if t == "string":
            ctx["len"] = n = st.fresh("strlen", 64, "unsigned long")
            st.facts[n] = ((0, M63),)
        else:
            ctx["len"] = args[2]
            st.facts[args[2]] = ((0, 0xffffffff if t == "data" else M63),)
        return args

    def post(E, st, rv, args, ctx):
        if is_err(st, rv):
            if not failed(st) and not st.gget("stream", "bad") and prov_eq(E, st, wire_cells(E, st)[1], ctx["len"]) and wire_cells(E, st)[1] != ZERO:
                rep(E, st, "%s fails although every byte was written" % fn)
            return
        if st.gget("stream", "bad"):
            rep(E, st, "%s reports success although a write failed or was short" % fn)
            return
        n = st.norm(ctx["len"])
        if not prov_eq(E, st, wire_cells(E, st)[1], n):
            rep(E, st, "%s reports success after %s of %s bytes" % (fn, show(wire_cells(E, st)[1]), show(n)))
        bs = list(stream(st))
        if t == "raw":
            if bs:
                rep(E, st, "%s writes bytes that are not the caller's" % fn)
            return
        if bs[:4] != be(TAGS[t], 4):
            rep(E, st, "%s writes the tag %s where %s is published" % (fn, [show(b) for b in bs[:4]], [b[1] for b in be(TAGS[t], 4)]))
        h = st.hull(n)
        if h is None or h[1] > 0xffffffff:
            rep(E, st, "%s sends a length field that cannot hold the payload length" % fn)
        got = bs[4:]
        want = bytes_of(E, st, n, 8)[:4][::-1]
        if len(got) != 4 or not all(same_byte(E, st, a, b, n) for a, b in zip(got, want)):
            rep(E, st, "%s sends the length field %s" % (fn, [show(b) for b in got]))
    m = contracts.client_models()
    if t == "string":
        def strlen(E, st, args):
            p, w = st.norm(args[0]), st.gget("stream", "payload")
            if p == w:
                n = [v for k, v in st.sym.items() if k.startswith("strlen#")]
                return [(st, ("s", [k for k in st.sym if k.startswith("strlen#")][0]))]
            return models.strlen(E, st, args)
        m["strlen"] = strlen
    j = Job(fn, post, setup, models=m, icall=icall, spec=Spec())
    j.conf_run = {"unrolls": (3,)}
    return j


def same_byte(E, st, a, b, n):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        return True
    # byte k of the value itself, or of a value cut to 32 bits
    def core(x):
        if x[0] == "o" and x[1] == "byte":
            v, k = x[2], x[3]
            while v[0] == "o" and v[1] in ("trunc",):
                v = v[2]
            return v, k
        return x, 0
    return core(a) == core(b)


def r_bulk(fn, t):
    """readers of a payload into a new block: raw (sock, a, &data, size), boxed (sock, a, &data, &size)"""
    def setup(E, st, F, ctx):
        args = begin(E, st, F)
        if t == "raw":
            st.facts[args[3]] = ((0, M63),)
            outs = (2,)
        else:
            outs = (2, 3)
        for i in outs:
            o = st.new_obj("lazy", ("i", 8), "undef", None, "(caller's variable)", name="out%d" % i)
            st.heap[o].meta = {"root": True}
            args[i] = ("p", o, 0)
            ctx[i] = o
        return args

    def post(E, st, rv, args, ctx):
        bs = stream(st)
        tagok = tag_check(E, st, rv, bs, t, fn) if t != "raw" else None
        if is_err(st, rv):
            for i in (2, 3):
                if i in ctx and st.heap[ctx[i]].fields:
                    rep(E, st, "%s fails but changes the caller's variable" % fn)
            return
        if st.gget("stream", "bad"):
            rep(E, st, "%s reports success although a read failed or was short" % fn)
            return
        if tagok is False:
            rep(E, st, "%s accepts a value of a different type" % fn)
            return
        sent = wire_cells(E, st)[1]
        if t == "raw":
            n = st.norm(args[3])
            if bs:
                rep(E, st, "%s reads bytes that are not handed out" % fn)
        else:
            if len(bs) != 8:
                rep(E, st, "%s reads %d header bytes where 8 are expected" % (fn, len(bs)))
                return
            n = st.norm(E.from_bytes(st, [st.norm(b) for b in value_of(bs[4:8])] + [ZERO] * 4))
            g = [st.norm(E.read(st, ctx[3], i, 1, "i8")) for i in range(8)]
            if g != bytes_of(E, st, n, 8):
                rep(E, st, "%s yields the size %s; the length field is %s" % (fn, [show(x) for x in g], show(n)))
                return
            n = st.norm(E.read(st, ctx[3], 0, 8, "i64"))
        if not prov_eq(E, st, sent, n):
            rep(E, st, "%s reports success after %s of %s bytes" % (fn, show(sent), show(n)))
        v = st.norm(E.read(st, ctx[2], 0, 8, "p"))
        if v[0] != "p" or v[1] not in st.heap or st.heap[v[1]].kind != "heap" or v[2] != 0:
            rep(E, st, "%s hands out %s instead of a new block" % (fn, show(v)))
            return
        base = st.gget("stream", "payload")
        if base is not None and st.norm(base) != v:
            rep(E, st, "%s does not hand out the block the payload was read into" % fn)
        if base is None and n != ZERO and not prov_eq(E, st, n, ZERO):
            rep(E, st, "%s hands out a block no payload was read into" % fn)
        if t == "string":
            off = val_off(st.norm(n))
            z = st.norm(E.read(st, v[1], off, 1, "i8"))
            if z != ZERO:
                rep(E, st, "%s does not terminate the string (the byte after it is %s)" % (fn, show(z)))
    j = Job(fn, post, setup, models=contracts.client_models(), icall=icall, spec=Spec())
    j.conf_run = {"unrolls": (3,)}
    return j


KINDS = {"no-progress", "wire", "null-deref", "uninit", "out-of-bounds"}


@check("P01", 36)
def p01(ctx):
    jobs = []
    for t in SIZES:
        for boxed in (False, True):
            jobs += [w_int(t, boxed), r_int(t, boxed)]
    R = ctx.sweep(jobs, kinds=KINDS)
    done(ctx, R, "typed value")
    return ("Abstract interpretation of every raw and boxed integer and boolean writer and reader over a byte-provenance domain: the psock's read and "
            "write methods are modelled as full, short or failing transfers; the bytes written are compared with the tag and the big-endian bytes of the "
            "argument, the value read with the bytes received, for every value at once.")


def done(ctx, R, what):
    for r in R:
        ctx.rule("%s operations" % what)
        if r["exits"] == 0 and not r["reports"]:
            raise AnalysisBroken("%s has no exit: %s" % (r["job"], r["incomplete"]))
        if r["incomplete"]:
            raise AnalysisBroken("%s: %s" % (r["job"], r["incomplete"]))


@check("P02", 6)
def p02(ctx):
    jobs = [w_bulk("psock_write_raw_data", "raw"), w_bulk("psock_write_boxed_data", "data"), w_bulk("psock_write_boxed_string", "string"),
            r_bulk("psock_read_raw_data", "raw"), r_bulk("psock_read_boxed_data", "data"), r_bulk("psock_read_boxed_string", "string")]
    from checks import descriptors
    jobs.append(descriptors.read_raw_job(ctx.prog()))
    R = ctx.sweep(jobs, kinds=KINDS | descriptors.KINDS)
    done(ctx, R, "payload")
    return ("Abstract interpretation of the payload writers and readers to a loop fixpoint with a transfer counter as ghost state: every transfer starts "
            "where the previous one ended, the header holds the published tag and the payload length, and success is only reached when the counter equals "
            "the payload length, whatever the sequence of full, short, empty and failing transfers. The partial raw read is compared with its psock's "
            "read: same buffer, size, result and count, without waiting.")
