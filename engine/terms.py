"""Hash-consed terms: the value domain of the analysis.

Sorts:  'i' mathematical integers (polynomials over atoms), 'b' booleans,
        'v' typed element values.
"""
from math import gcd

_tab = {}


class T:
    __slots__ = ("op", "a", "sort", "id", "fv")

    def __repr__(self):
        return show(self)


_n = [0]


def mk(op, a, sort):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.sort = sort
        t.id = _n[0]
        t.fv = None
        _n[0] += 1
        _tab[k] = t
    return t


BOUNDS = {}  # symbol term -> (lo, hi)

_fresh = [0]


def fresh(name, lo=None, hi=None, sort="i"):
    _fresh[0] += 1
    return sym("%s!%d" % (name, _fresh[0]), lo, hi, sort)


PINS = {}


def sym(name, lo=None, hi=None, sort="i"):
    if PINS and name in PINS:
        return C(PINS[name])
    if PINS and name.startswith("glob:"):
        return C(PINS["glob:*"])
    t = mk("sym", (name, sort), sort)
    if lo is not None or hi is not None:
        BOUNDS[t] = (lo, hi)
    return t


# ---------------------------------------------------------------- integers
def C(n):
    return mk("c", (int(n),), "i")


ZERO = C(0)
ONE = C(1)


def isc(t):
    return t.op == "c"


def pd(t):
    """term -> {monomial(tuple of atoms): coef}"""
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a)
    return {(t,): 1}


def frompd(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda x: tuple(y.id for y in x[0]))), "i")


def add(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a[0] + b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = pd(a)
    for m, c in pd(b).items():
        d[m] = d.get(m, 0) + c
    return frompd(d)


def neg(a):
    if a.op == "c":
        return C(-a.a[0])
    return frompd({m: -c for m, c in pd(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.a[0] * b.a[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    d = {}
    pb = pd(b)
    for m, c in pd(a).items():
        for m2, c2 in pb.items():
            k = tuple(sorted(m + m2, key=lambda x: x.id))
            d[k] = d.get(k, 0) + c * c2
    return frompd(d)


def cdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def cmod(x, y):
    return x - y * cdiv(x, y)


def div(a, b):
    if b is ONE:
        return a
    if a.op == "c" and b.op == "c":
        if b.a[0] == 0:
            return mk("div", (a, b), "i")
        return C(cdiv(a.a[0], b.a[0]))
    q = exact_div(a, b)
    if q is not None:
        return q
    return mk("div", (a, b), "i")


def mod(a, b):
    if b is ONE:
        return ZERO
    if a.op == "c" and b.op == "c" and b.a[0] != 0:
        return C(cmod(a.a[0], b.a[0]))
    if exact_div(a, b) is not None:
        return ZERO
    return mk("mod", (a, b), "i")


def exact_div(a, b):
    """a / b when b is one monomial dividing every monomial of a (b != 0 assumed:
    the quotient is only used where the division is defined)."""
    pb = pd(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    if cb == 0:
        return None
    out = {}
    for m, c in pd(a).items():
        if c % cb:
            return None
        l = list(m)
        for x in mb:
            if x in l:
                l.remove(x)
            else:
                return None
        out[tuple(l)] = c // cb
    return frompd(out)


def iabs(a):
    if a.op == "c":
        return C(abs(a.a[0]))
    return mk("abs", (a,), "i")


def imin(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return C(min(a.a[0], b.a[0]))
    if b.id < a.id:
        a, b = b, a
    return mk("min", (a, b), "i")


def imax(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return C(max(a.a[0], b.a[0]))
    if b.id < a.id:
        a, b = b, a
    return mk("max", (a, b), "i")


def wrapc(n, bits, signed):
    n &= (1 << bits) - 1
    if signed and n >> (bits - 1):
        n -= 1 << bits
    return n


def wrap(p, bits, signed, known=False):
    """conversion of p to an integer type; exact for constants"""
    if p.op == "c":
        return C(wrapc(p.a[0], bits, signed))
    if known:
        return p
    if p.op == "wrap":
        if p.a[0] >= bits:  # inner conversion is transparent modulo 2**bits
            return wrap(p.a[2], bits, signed)
    return mk("wrap", (bits, signed, p), "i")


_m64 = {}


def mod64(p):
    """the representative of p modulo 2**64 with small coefficients: conversion to
    a signed 64-bit integer, for magnitudes that fit"""
    r = _m64.get(p)
    if r is None:
        r = _m64[p] = _mod64(p)
    return r


def _mod64(p):
    if p.op == "c":
        return C(wrapc(p.a[0], 64, True))
    if p.op == "wrap" and p.a[0] >= 64:
        return mod64(p.a[2])
    if p.op == "ite":
        return ite(p.a[0], mod64(p.a[1]), mod64(p.a[2]))
    if p.op != "poly":
        return p
    d = pd(p)
    lim = 1 << 63
    if all(-lim <= c < lim for c in d.values()) and \
            not any(f.op in ("wrap", "ite") for m in d for f in m):
        return p
    r = ZERO
    for m, c in d.items():
        x = C(wrapc(c, 64, True))
        for f in m:
            x = mul(x, mod64(f))
        r = add(r, x)
    return r


# ---------------------------------------------------------------- booleans
TRUE = mk("T", (), "b")
FALSE = mk("F", (), "b")


def B(x):
    return TRUE if x else FALSE


def _lin_norm(p):
    """divide by the gcd of the coefficients (integers)."""
    d = pd(p)
    return d


def le0(p):
    if p.op == "c":
        return B(p.a[0] <= 0)
    it = _push(p, le0)
    if it is not None:
        return it
    d = pd(p)
    k = d.get((), 0)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        # g*q + k <= 0  <=>  q <= floor(-k/g)
        q = {m: c // g for m, c in d.items() if m != ()}
        q[()] = -((-k) // g)
        p = frompd(q)
    return mk("le0", (p,), "b")


def eq0(p):
    if p.op == "c":
        return B(p.a[0] == 0)
    it = _push(p, eq0)
    if it is not None:
        return it
    d = pd(p)
    k = d.get((), 0)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        if k % g:
            return FALSE
        d = {m: c // g for m, c in d.items()}
    # product of atoms == 0 (monomial)
    lead = min((m for m in d if m != ()), key=lambda m: tuple(x.id for x in m))
    if d[lead] < 0:
        d = {m: -c for m, c in d.items()}
    p = frompd(d)
    return mk("eq0", (p,), "b")


def _push(p, f):
    """distribute a comparison over a single ite atom that occurs linearly"""
    its = None
    for m, c in pd(p).items():
        for x in m:
            if x.op == "ite":
                if its is not None and its is not x:
                    return None
                if len(m) != 1:
                    return None
                its = x
    if its is None:
        return None
    d = pd(p)
    k = d.pop((its,))
    rest = frompd(d)
    c, x, y = its.a
    return bite(c, f(add(rest, mul(C(k), x))), f(add(rest, mul(C(k), y))))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


_neg = {}


def bnot(c):
    r = _neg.get(c)
    if r is None:
        r = _bnot(c)
        _neg[c] = r
        _neg.setdefault(r, c)
    return r


def _bnot(c):
    if c.op == "T":
        return FALSE
    if c.op == "F":
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "le0":
        return le0(sub(ONE, c.a[0]))
    if c.op == "and":
        return bor(*[bnot(x) for x in c.a])
    if c.op == "or":
        return band(*[bnot(x) for x in c.a])
    return mk("not", (c,), "b")


def band(*xs):
    s = set()
    for x in xs:
        if x.op == "T":
            continue
        if x.op == "F":
            return FALSE
        if x.op == "and":
            s.update(x.a)
        else:
            s.add(x)
    if not s:
        return TRUE
    # absorption: x & (x | y) = x ; x & (~x | y) = x & y
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if bnot(x) in s:
                return FALSE
            if x.op == "or":
                if any(y in s for y in x.a):
                    s.discard(x)
                    ch = True
                    break
                r = tuple(y for y in x.a if bnot(y) not in s)
                if len(r) != len(x.a):
                    s.discard(x)
                    y = bor(*r)
                    if y.op == "F":
                        return FALSE
                    if y.op == "and":
                        s.update(y.a)
                    elif y.op != "T":
                        s.add(y)
                    ch = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda x: x.id)), "b")


def bor(*xs):
    s = set()
    for x in xs:
        if x.op == "F":
            continue
        if x.op == "T":
            return TRUE
        if x.op == "or":
            s.update(x.a)
        else:
            s.add(x)
    if not s:
        return FALSE
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if bnot(x) in s:
                return TRUE
            if x.op == "and":
                if any(y in s for y in x.a):
                    s.discard(x)
                    ch = True
                    break
                r = tuple(y for y in x.a if bnot(y) not in s)
                if len(r) != len(x.a):
                    s.discard(x)
                    y = band(*r)
                    if y.op == "T":
                        return TRUE
                    if y.op == "or":
                        s.update(y.a)
                    elif y.op != "F":
                        s.add(y)
                    ch = True
                    break
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # complementary conjunctions: (g & A) | (~g & A) = A
    l = sorted(s, key=lambda x: x.id)
    for i in range(len(l)):
        for j in range(i + 1, len(l)):
            x, y = l[i], l[j]
            sx = set(x.a) if x.op == "and" else {x}
            sy = set(y.a) if y.op == "and" else {y}
            dx, dy = sx - sy, sy - sx
            if len(dx) == 1 and len(dy) == 1:
                p, = dx
                q, = dy
                if bnot(p) is q:
                    return bor(band(*(sx & sy)), *[z for z in l if z is not x and z is not y])
    return mk("or", tuple(l), "b")


def bite(c, a, b):
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if a is b:
        return a
    if a.op == "T":
        return bor(c, b)
    if a.op == "F":
        return band(bnot(c), b)
    if b.op == "T":
        return bor(bnot(c), a)
    if b.op == "F":
        return band(c, a)
    return bor(band(c, a), band(bnot(c), b))


def ite(c, a, b):
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if a is b:
        return a
    if a.sort == "b":
        return bite(c, a, b)
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if b.op == "ite" and b.a[1] is a:
        return ite(bor(c, b.a[0]), a, b.a[2])
    if a.sort == "i" and b.sort == "i":
        # keep a common constant-difference shape simple
        return mk("ite", (c, a, b), "i")
    return mk("ite", (c, a, b), "v" if "v" in (a.sort, b.sort) else a.sort)


def b2i(c):
    return ite(c, ONE, ZERO)


def i2b(t):
    if t.sort == "b":
        return t
    return ne(t, ZERO)


# ---------------------------------------------------------------- values
# element types
ETYPES = {
    "i8": (8, True, False), "i16": (16, True, False), "i32": (32, True, False),
    "i64": (64, True, False), "f32": (32, True, True), "f64": (64, True, True),
    "u8": (8, False, False), "u16": (16, False, False), "u32": (32, False, False),
    "u64": (64, False, False), "b1": (8, False, False), "f80": (80, True, True),
}
ESIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8,
         "u8": 1, "u16": 2, "u32": 4, "u64": 8, "b1": 1, "f80": 16}


def vconst(ety, x):
    return mk("vc", (ety, x), "v")


def ety_of(v):
    if v.op in ("vc", "vop", "vun", "vcast", "i2v", "vsym"):
        return v.a[0]
    if v.op == "ld":
        return v.a[2]
    if v.op == "ite":
        return ety_of(v.a[1]) if v.a[1].sort == "v" else ety_of(v.a[2])
    if v.op == "lv":
        return v.a[2]
    return None


def vcast(to, v):
    if v.sort == "b":
        v = b2i(v)
    if v.sort == "i":
        return mk("i2v", (to, v), "v")
    fr = ety_of(v)
    if fr == to:
        return v
    if v.op == "vc":
        return vconst(to, conv_const(v.a[1], to))
    return mk("vcast", (to, v), "v")


def rnd32(x):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def conv_const(x, to):
    bits, sg, fl = ETYPES[to]
    if to == "b1":
        return 1 if x else 0
    if fl:
        try:
            x = float(x)
        except OverflowError:
            x = float("inf")
        return rnd32(x) if to == "f32" else x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return 0
        x = int(x)
    return wrapc(x, bits, sg)


def vop(op, ety, a, b):
    if a.op == "vc" and b.op == "vc":
        r = eval_vop(op, ety, a.a[1], b.a[1])
        if r is not None:
            return vconst(ety, r)
    return mk("vop", (ety, op, a, b), "v")


def vun(op, ety, a):
    return mk("vun", (ety, op, a), "v")


def vcmp(op, a, b):
    if a.op == "vc" and b.op == "vc":
        return B(eval_cmp(op, a.a[1], b.a[1]))
    return mk("vcmp", (op, a, b), "b")


def eval_cmp(op, x, y):
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


def eval_vop(op, ety, x, y):
    bits, sg, fl = ETYPES[ety]
    try:
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if fl:
                if y == 0:
                    if x == 0 or x != x:
                        r = float("nan")
                    else:
                        import math
                        s = math.copysign(1, x) * math.copysign(1, y)
                        r = float("inf") * s
                else:
                    r = x / y
            else:
                if y == 0:
                    return None
                r = cdiv(x, y)
        elif op == "%":
            if y == 0:
                return None
            r = cmod(x, y)
        elif op == "&":
            r = x & y
        elif op == "|":
            r = x | y
        elif op == "^":
            r = x ^ y
        elif op == "<<":
            r = x << y
        elif op == ">>":
            r = x >> y
        elif op == "max":
            r = y if x < y else x
        elif op == "min":
            r = y if y < x else x
        else:
            return None
    except Exception:
        return None
    return conv_const(r, ety)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "..."
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "poly":
        out = []
        for m, c in a:
            f = [show(x, d + 1) for x in m]
            if c != 1 or not f:
                f = [str(c)] + f
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")"
    if o == "le0":
        return show(a[0], d + 1) + "<=0"
    if o == "eq0":
        return show(a[0], d + 1) + "==0"
    if o == "not":
        return "!(" + show(a[0], d + 1) + ")"
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(show(x, d + 1) for x in a) + ")"
    return o + "(" + ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a) + ")"


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """m: {term: term}; rebuilds with simplification"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        o, a = t.op, t.a
        if o in ("c", "sym", "T", "F", "vc", "vsym"):
            r = t
        elif o == "poly":
            r = ZERO
            for mono, c in a:
                x = C(c)
                for y in mono:
                    x = mul(x, _subst(y, m, memo))
                r = add(r, x)
        else:
            na = tuple(_subst(x, m, memo) for x in a)
            if all(x is y for x, y in zip(na, a)):
                r = t
            else:
                r = rebuild(o, na, t.sort)
    memo[t] = r
    return r


def rebuild(o, a, sort):
    f = REB.get(o)
    if f:
        return f(*a)
    return mk(o, a, sort)


def _vt(f):
    return f


REB = {
    "div": div, "mod": mod, "abs": iabs, "min": imin, "max": imax,
    "wrap": lambda b, s, p: wrap(p, b, s),
    "le0": le0, "eq0": eq0, "not": bnot, "and": band, "or": bor,
    "ite": ite, "vop": lambda e, o, x, y: vop(o, e, x, y),
    "vun": lambda e, o, x: vun(o, e, x), "vcast": vcast, "i2v": vcast,
    "vcmp": vcmp,
}


def atoms(t, acc=None, seen=None):
    """all sub-terms"""
    if acc is None:
        acc = set()
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t:
                atoms(x, acc)
        return acc
    if t in acc:
        return acc
    acc.add(t)
    if t.op == "poly":
        for m, c in t.a:
            for x in m:
                atoms(x, acc)
    else:
        for x in t.a:
            atoms(x, acc)
    return acc


def free(t):
    """symbols occurring in t"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            s = frozenset()
            for x in t:
                s = s | free(x)
            return s
        return frozenset()
    if t.fv is None:
        if t.op == "sym":
            t.fv = frozenset((t,))
        elif t.op == "poly":
            s = set()
            for m, c in t.a:
                for x in m:
                    s |= free(x)
            t.fv = frozenset(s)
        else:
            s = set()
            for x in t.a:
                s |= free(x)
            t.fv = frozenset(s)
    return t.fv


# ---------------------------------------------------------------- entailment
class Facts:
    """conjunction of boolean terms; cheap, incomplete entailment"""

    __slots__ = ("lits", "bnd", "pols", "eqs", "memo")

    def __init__(self, lits):
        s = set()
        for l in lits:
            if l.op == "and":
                s.update(l.a)
            else:
                s.add(l)
        self.lits = s
        self.bnd = {}
        self.pols = []
        self.eqs = []
        self.memo = {}
        for l in s:
            self._bound(l)
        ch = 0
        while ch < 3:
            ch += 1
            for l in s:
                if l.op == "not" and l.a[0].op == "eq0":
                    p = l.a[0].a[0]
                    d = pd(p)
                    ms = [m for m in d if m != ()]
                    if len(ms) == 1 and len(ms[0]) == 1 and abs(d[ms[0]]) == 1:
                        x = ms[0][0]
                        v = -d.get((), 0) * d[ms[0]]
                        lo, hi = self.get(x)
                        if lo == v:
                            self.bnd[x] = (lo + 1, hi)
                        elif hi == v:
                            self.bnd[x] = (lo, hi - 1)

    def get(self, x):
        b = self.bnd.get(x)
        if b is None:
            b = BOUNDS.get(x, (None, None))
            if x.op == "mod" or x.op == "div":
                lo, hi = self.interval(x.a[0])
                l2, h2 = self.interval(x.a[1])
                if lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
                    b = (0, (h2 - 1 if h2 is not None else None) if x.op == "mod" else hi)
            elif x.op == "abs":
                lo, hi = self.interval(x.a[0])
                b = (0, None if lo is None or hi is None else max(abs(lo), abs(hi)))
            elif x.op in ("min", "max"):
                l1, h1 = self.interval(x.a[0])
                l2, h2 = self.interval(x.a[1])
                if x.op == "min":
                    b = (None if l1 is None or l2 is None else min(l1, l2),
                         h1 if h2 is None else h2 if h1 is None else min(h1, h2))
                else:
                    b = (l1 if l2 is None else l2 if l1 is None else max(l1, l2),
                         None if h1 is None or h2 is None else max(h1, h2))
            elif x.op == "ite":
                l1, h1 = self.interval(x.a[1])
                l2, h2 = self.interval(x.a[2])
                b = (None if l1 is None or l2 is None else min(l1, l2),
                     None if h1 is None or h2 is None else max(h1, h2))
            elif x.op == "wrap":
                bits, sg, _ = x.a
                b = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        return b

    def _bound(self, l):
        if l.op in ("le0", "eq0"):
            p = l.a[0]
            d = pd(p)
            ms = [m for m in d if m != ()]
            if l.op == "le0":
                self.pols.append(d)
            else:
                self.eqs.append(d)
            if len(ms) == 1 and len(ms[0]) == 1:
                x = ms[0][0]
                c = d[ms[0]]
                k = d.get((), 0)
                lo, hi = self.get(x)
                if l.op == "eq0":
                    if k % c == 0:
                        v = -k // c
                        self.bnd[x] = (v, v)
                elif c > 0:  # c*x + k <= 0
                    v = (-k) // c
                    if hi is None or v < hi:
                        hi = v
                    self.bnd[x] = (lo, hi)
                else:  # x >= k/(-c)
                    v = -((-k) // (-c)) if False else -(-k // -c)
                    # ceil(k / -c)
                    v = -((-k) // (-c))
                    if lo is None or v > lo:
                        lo = v
                    self.bnd[x] = (lo, hi)

    def interval(self, p):
        if p.op == "c":
            return p.a[0], p.a[0]
        lo = hi = 0
        for m, c in pd(p).items():
            ml = mh = 1
            for x in m:
                xl, xh = self.get(x)
                if xl is not None and xl >= 0 and ml is not None and ml >= 0:
                    ml, mh = ml * xl, (None if mh is None or xh is None else mh * xh)
                elif None not in (xl, xh, ml, mh):
                    v = [ml * xl, ml * xh, mh * xl, mh * xh]
                    ml, mh = min(v), max(v)
                else:
                    ml = mh = None
            if c < 0:
                ml, mh = (None if mh is None else mh * c), (None if ml is None else ml * c)
            else:
                ml, mh = (None if ml is None else ml * c), (None if mh is None else mh * c)
            lo = None if lo is None or ml is None else lo + ml
            hi = None if hi is None or mh is None else hi + mh
        return lo, hi

    def decide(self, c):
        r = self.memo.get(c, 0)
        if r == 0:
            r = self._decide(c)
            self.memo[c] = r
        return r

    def _decide(self, c):
        o = c.op
        if o == "T":
            return True
        if o == "F":
            return False
        if c in self.lits:
            return True
        if bnot(c) in self.lits:
            return False
        if o == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if o == "and":
            res = True
            for x in c.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if o == "or":
            res = False
            for x in c.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if o == "le0":
            p = c.a[0]
            lo, hi = self.interval(p)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            r = self._lin(p)
            if r is not None:
                return r
        elif o == "eq0":
            p = c.a[0]
            lo, hi = self.interval(p)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            if self._le(p) and self._le(neg(p)):
                return True
            if self._le(add(p, ONE)) or self._le(sub(ONE, p)):
                return False
            # product of factors, each of them non-zero
            d = pd(p)
            if len(d) == 1 and () not in d:
                (m, _), = d.items()
                fs = set(m)
                rs = [self.decide(eq0(x)) for x in fs if mk("eq0", (p,), "b") is not eq0(x)]
                if len(rs) == len(fs):
                    if any(r is True for r in rs):
                        return True
                    if all(r is False for r in rs):
                        return False
        return None

    def _lin(self, p):
        if self._le(p):
            return True
        if self._le(sub(ONE, p)):
            return False
        return None

    def _le(self, p):
        """p <= 0 by combination with at most two recorded facts"""
        lo, hi = self.interval(p)
        if hi is not None and hi <= 0:
            return True
        vs = {m for m in pd(p) if m != ()}
        cand = []
        for q in self.pols:
            if vs & q.keys():
                cand.append(frompd(q))
        for q in self.eqs:
            if vs & q.keys():
                cand.append(frompd(q))
                cand.append(neg(frompd(q)))
        for q in cand:
            r = sub(p, q)  # q<=0 ; p = r + q
            lo, hi = self.interval(r)
            if hi is not None and hi <= 0:
                return True
        if len(cand) <= 12:
            for i, q in enumerate(cand):
                r = sub(p, q)
                for q2 in cand:
                    lo, hi = self.interval(sub(r, q2))
                    if hi is not None and hi <= 0:
                        return True
        return False
