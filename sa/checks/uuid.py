"""UUIDs and their text."""
import contracts
import rules
import sweep
from checks import psockbuf, strings
from checks.psockio import outcell, finish
from framework import check
from sweep import Job
from values import *

KINDS = {"no-progress", "uuid", "osapi", "null-deref", "uninit", "out-of-bounds", "bad-call", "null-call", "use-after-free", "bad-free", "double-free", "use-after-scope"}
CONF = {"join_states": False, "unroll": 80, "max_counted": 80}
DASH = (8, 13, 18, 23)
HEX = "0123456789abcdefABCDEF"
S, R = "rcpr_uuid_parse_string", "rcpr_uuid_parse_raw_string"
GOOD = "01234567-89ab-cdef-0123-456789abcdef"


def rep(E, st, m):
    E.report(st, "uuid", m, fatal=False)


def bytes_of(text):
    h = text.replace("-", "")
    return [int(h[i:i + 2], 16) for i in range(0, 32, 2)]


def parse_job(fn, chars, want, why, length=None, end=True):
    """chars: characters, numbers or ranges; want: the bytes, or None for a refusal"""
    def setup(E, st, F, ctx):
        ctx["u"] = u = outcell(st, "caller's uuid", 16)
        ctx["old"] = old = [st.fresh("old%d" % i, 8, "uint8_t", None) for i in range(16)]
        for i, v in enumerate(old):
            E.write(st, u, i, v, 1)
        if chars is None:
            return [("p", u, 0), ZERO] + ([] if length is None else [("i", length)])
        o = st.new_obj("lazy", ("i", len(chars) + (1 if end else 0)), "undef", None, "(text)", {"root": True}, name="text")
        for i, c in enumerate(chars):
            if isinstance(c, tuple):
                v = st.fresh("c%d" % i, 8, "char")
                st.facts[v] = c
            else:
                v = ("i", ord(c) if isinstance(c, str) else c)
            E.write(st, o, i, v, 1)
        if end:
            E.write(st, o, len(chars), ZERO, 1)
        return [("p", u, 0), ("p", o, 0)] + ([] if length is None else [("i", length)])

    def post(E, st, rv, args, ctx):
        now = [st.norm(E.read(st, ctx["u"], i, 1, "i8")) for i in range(16)]
        if want is None:
            if st.norm(rv) != ("i", contracts.code("ERROR_UUID_PARSING_FAILED")):
                rep(E, st, "%s gives %s for a text with %s" % (fn, show(st.norm(rv)), why))
            elif now != [st.norm(v) for v in ctx["old"]]:
                rep(E, st, "%s refuses a text with %s and changes the caller's uuid" % (fn, why))
            return
        if rules.status_class(st, rv) != "ok":
            rep(E, st, "%s refuses %s" % (fn, why))
        else:
            for i, (v, w) in enumerate(zip(now, want)):
                if v != ("i", w):
                    rep(E, st, "%s of %s: byte %d is %s where %02x is due" % (fn, why, i, show(v), w))
                    return
    return Job(fn, post, setup, models=strings.str_models(), icall=None, conf=CONF, name="%s of %s" % (fn, why))


def text_job(data):
    want = "".join("%02x" % b for b in data)
    want = "-".join((want[:8], want[8:12], want[12:16], want[16:20], want[20:]))

    def setup(E, st, F, ctx):
        u = outcell(st, "caller's uuid", 16)
        for i, b in enumerate(data):
            E.write(st, u, i, ("i", b), 1)
        ctx["out"] = outcell(st, "caller's string")
        ctx["alloc"] = st.fresh("alloc", 64, "struct allocator*", None)
        return [("p", ctx["out"], 0), ctx["alloc"], ("p", u, 0)]

    def post(E, st, rv, args, ctx):
        r = st.norm(E.read(st, ctx["out"], 0, 8, "p"))
        if st.gget("pb", "oom"):
            if rules.status_class(st, rv) != "err" or r != ZERO:
                rep(E, st, "without memory, rcpr_uuid_to_string gives %s and %s" % (show(st.norm(rv)), show(r)))
            return
        if rules.status_class(st, rv) != "ok" or r[0] != "p" or r[2] or st.gget("blk", r[1]) != ("live", st.norm(ctx["alloc"])):
            rep(E, st, "rcpr_uuid_to_string hands out %s, no new block of the caller's allocator" % show(r))
            return
        for i, c in enumerate(want + "\0"):
            v = st.norm(E.read(st, r[1], i, 1, "i8"))
            if v != ("i", ord(c)):
                rep(E, st, "the text of %s has %s at position %d" % (want, show(v), i))
                return
    return Job("rcpr_uuid_to_string", post, setup, models=strings.str_models(), icall=None, conf=CONF, name="text of %s" % want)


NOHEX = [(1, 44), (45, 45), (46, 47), (58, 64), (71, 96), (103, 255)]
NODASH = [(1, 44), (46, 255)]


def refusals(p, lo, hi):
    t = list(GOOD)
    t[p] = ((lo, hi),) if lo < hi else lo
    why = "%s to %s at position %d" % (lo, hi, p)
    return [parse_job(S, t, None, why), parse_job(R, t, None, why, 36, end=False)]


@check("U01", 200)
def u01(ctx):
    P = ctx.prog()
    jobs = []
    for k in range(22):
        t = "".join("-" if p in DASH else HEX[(k + 5 * p) % 22] for p in range(36))
        jobs += [parse_job(S, t, bytes_of(t), t), parse_job(R, t, bytes_of(t), t, 36, end=False)]
    # a class of wrong characters that cannot be decided as a whole is decided character by character
    classes = [(p, lo, hi) for p in range(36) for lo, hi in (NODASH if p in DASH else NOHEX)]
    first = sweep.sweep(P, [j for c in classes for j in refusals(*c)])
    bad = [any(r["incomplete"] or any(x.kind in KINDS for x in r["reports"]) for r in first[2 * i:2 * i + 2]) for i in range(len(classes))]
    for (p, lo, hi), b in zip(classes, bad):
        for v in [(c, c) for c in range(lo, hi + 1)] if b else [(lo, hi)]:
            jobs += refusals(p, *v)
    for p in range(36):
        t = list(GOOD)
        t[p] = 0
        jobs += [parse_job(S, GOOD[:p], None, "only %d characters" % p), parse_job(R, t, None, "a zero at position %d" % p, 36, end=False)]
    for n in (0, 1, 35):
        jobs.append(parse_job(R, GOOD[:n], None, "length %d" % n, n, end=False))
    jobs += [parse_job(S, list(GOOD) + [((1, 255),)], None, "37 characters"), parse_job(R, list(GOOD) + ["0"], None, "length 37", 37, end=False),
             parse_job(R, list(GOOD), None, "length 2^32+36", (1 << 32) + 36), parse_job(S, None, None, "no string"), parse_job(R, None, None, "no string", 36)]
    for k in range(16):
        jobs.append(text_job([(((k + p) & 15) << 4) | ((7 * k + 3 * p) & 15) for p in range(16)]))
    finish(ctx, ctx.sweep(jobs, kinds=KINDS), "uuid")
    return "Abstract interpretation of parsing with every hexadecimal digit at every position and every class of wrong character, missing or surplus character at every position, and of formatting with every nibble at every position."
