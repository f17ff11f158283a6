"""Abstract values.

("i", n)                integer / null constant (unsigned, in its own width)
("p", obj, off)         pointer into abstract object `obj`; off is an int or an
                        affine value
("f", name)             address of a function
("s", id)               an unknown (scalar or pointer)
("a", c, ((t, k), ...)) affine combination  c + sum k*t  of unknown terms
("o", name, args...)    uninterpreted operation (term)
("u",)                  uninitialised
"""

ZERO = ("i", 0)
UNDEF = ("u",)


def is_int(v):
    return v[0] == "i"


def mask(n, w):
    return n & ((1 << w) - 1)


def signed(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def terms(v):
    """-> (const, {term: coef}) or None"""
    if v[0] == "i":
        return v[1], {}
    if v[0] in ("s", "o"):
        return 0, {v: 1}
    if v[0] == "a":
        return v[1], dict(v[2])
    return None


def atoms(v):
    """the symbols a value is made of"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "s" and isinstance(v[1], str):
            yield v
        else:
            for x in v:
                yield from atoms(x)


def affine(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return ("i", c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("a", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, kb=1):
    ta, tb = terms(a), terms(b)
    if ta is None or tb is None:
        return None
    c = ta[0] + kb * tb[0]
    d = dict(ta[1])
    for t, k in tb[1].items():
        d[t] = d.get(t, 0) + kb * k
    return affine(c, d)


def scale(a, k):
    t = terms(a)
    if t is None:
        return None
    return affine(t[0] * k, {x: y * k for x, y in t[1].items()})


def off_val(o):
    return ("i", o) if isinstance(o, int) else o


def val_off(v):
    return v[1] if v[0] == "i" else v


def show(v):
    k = v[0]
    if k == "i":
        return str(v[1]) if v[1] < 1 << 31 else hex(v[1])
    if k == "p":
        o = v[2]
        return "&%s%s" % (v[1], "" if o == 0 else "+%s" % (o if isinstance(o, int) else show(o)))
    if k == "f":
        return v[1]
    if k == "s":
        return str(v[1])
    if k == "a":
        s = " + ".join(("%d*" % c if c != 1 else "") + show(t) for t, c in v[2])
        return "(%s%+d)" % (s, v[1]) if v[1] else "(%s)" % s
    if k == "o":
        return "%s(%s)" % (v[1], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[2:]))
    return "?" + str(v)
