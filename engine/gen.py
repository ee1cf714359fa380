"""Random multi-operation sessions with constant extents (layouts and elements stay symbolic)."""
import random
from model import FLT, ORDER, bshape, Throw
import ops as O

INTS = [d for d in ORDER if d not in FLT]
PRE = ("mark", "pre")


def numel(s):
    p = 1
    for n in s:
        p *= n
    return p


def factor(g, n):
    """a random shape with n elements"""
    if n == 0:
        return [0, g.choice([1, 2])][:g.choice([1, 2])]
    out = []
    while n > 1 and len(out) < 3:
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = g.choice(ds)
        out.append(d)
        n //= d
    if n > 1:
        out[-1:] = [out[-1] * n] if out else [n]
    if g.random() < .2 and len(out) < 4:
        out.insert(g.randrange(len(out) + 1), 1)
    return out


class T:
    def __init__(self, name, dt, sz, req=False, inex=False):
        self.name, self.dt, self.sz, self.req = name, dt, list(sz), req
        self.inex = inex        # rounding may show: kept away from discontinuous operations


def part(g, n):
    """one slice part for extent n >= 1 and the extent it leaves (None: dropped)"""
    z = g.random()
    if z < .3:
        i = g.randrange(-n, n)
        return "text:%d" % i, None
    b = None if g.random() < .4 else g.randint(-n - 1, n)
    e = None if g.random() < .4 else g.randint(-n - 1, n + 1)
    s = None if g.random() < .5 else g.choice([1, 2, -1, -2, 3])
    k = len(range(n)[slice(b, e, s)])
    f = lambda x: None if x is None else "text:%d" % x
    return ((f(b), f(e), f(s)) if s is not None or g.random() < .3 else (f(b), f(e))), k


def program(seed, nops=(2, 6), track=0.5, bw=False, dts=ORDER, empty=0.05):
    g = random.Random("prog|%s" % (seed,))
    st, live = [], []
    if bw:
        dts = ["f64", "f64", "f32"] + (["i8", "i32"] if g.random() < .3 else [])
    for i in range(g.choice([1, 2, 2, 3])):
        dt = g.choice(dts)
        r = g.choice([0, 1, 1, 2, 2, 2, 3])
        sz = [0 if g.random() < empty and not bw else g.choice([1, 2, 2, 3, 3, 4]) for _ in range(r)]
        if live and g.random() < .5:
            sz = list(live[0].sz)
            if g.random() < .3 and sz:
                sz[g.randrange(len(sz))] = 1
        while numel(sz) > 30:
            sz[sz.index(max(sz))] = 1
        req = dt in FLT and (bw and (i == 0 or g.random() < .6) or g.random() < track)
        if bw and i == 0 and dt not in FLT:
            dt, req = "f64", True
        n = "abc"[i]
        st.append(("in", n, dt, sz, (("req", req),)))
        live.append(T(n, dt, sz, req))
    k = 0
    want = g.randint(*nops)
    muls = 0
    guard = 0
    while k < want and guard < 60:
        guard += 1
        a = g.choice(live[-3:] if g.random() < .7 else live)
        dst = "t%d" % k
        z = g.random()
        if z < .38:
            b = g.choice(live)
            try:
                sz = bshape(a.sz, b.sz)
            except Throw:
                continue
            if numel(sz) > 40:
                continue
            o = g.choice(O.ARITH if bw else O.ARITH + O.CMP)
            dt = ORDER[max(ORDER.index(a.dt), ORDER.index(b.dt))]
            if o == "/" and dt not in FLT:
                continue
            inex = a.inex or b.inex
            if o in O.CMP and inex:
                continue
            if o in ("*", "/"):
                muls += 1
                if muls > 4:
                    o = "+"
            if o in O.CMP:
                new = T(dst, "i8", sz, False)
            else:
                new = T(dst, dt, sz, a.req or b.req, inex or o == "/")
            x, y = (a, b) if g.random() < .5 else (b, a)
            s = ("op", dst, o, [x.name, y.name], None)
        elif z < .56:
            o = g.choice(["neg", "abs", "sum", "mean", "max", "min", "clone", "contiguous", "pos"] + (["detach"] if g.random() < .4 else []))
            if o in ("mean", "max", "min") and numel(a.sz) == 0:
                continue
            if o in ("max", "min", "abs") and a.inex:
                continue
            red = o in ("sum", "mean", "max", "min")
            dt = a.dt
            if o in ("sum", "mean"):
                dt = "f64" if a.dt in FLT else "i64"
            new = T(dst, dt, [] if red else a.sz, a.req and o != "detach", a.inex or o == "mean" and dt == "f64")
            s = ("op", dst, o, [a.name], None)
        elif z < .62:
            dt = g.choice([d for d in FLT] if a.req else dts)
            if a.inex and dt not in FLT:
                continue
            new = T(dst, dt, a.sz, a.req, a.inex)
            s = ("op", dst, "type", [a.name], dt)
        elif z < .74:
            if not a.sz or 0 in a.sz:
                continue
            ps, sz = [], []
            m = g.randint(1, len(a.sz))
            for d, n in enumerate(a.sz):
                if d < m:
                    p, q = part(g, n)
                    ps.append(p)
                    if q is not None:
                        sz.append(q)
                else:
                    sz.append(n)
            if bw and numel(sz) == 0:
                continue
            new = T(dst, a.dt, sz, a.req, a.inex)
            s = ("op", dst, "slice", [a.name], tuple(ps))
        elif z < .82:
            if len(a.sz) < 2:
                continue
            i, j = g.sample(range(len(a.sz)), 2)
            sz = list(a.sz)
            sz[i], sz[j] = sz[j], sz[i]
            new = T(dst, a.dt, sz, a.req, a.inex)
            s = ("op", dst, g.choice(["transpose", "transpose_s"]), [a.name], (i, j))
        elif z < .92:
            n = numel(a.sz)
            sz = factor(g, n)
            if not sz and n != 1:
                continue
            tgt = list(sz)
            if sz and n and g.random() < .3:
                tgt[g.randrange(len(tgt))] = -1
            new = T(dst, a.dt, sz, a.req, a.inex)
            s = ("op", dst, "reshape", [a.name], tuple(tgt))
        else:
            if not a.sz:
                continue
            d = g.randrange(len(a.sz))
            ok = [x for x in live if len(x.sz) == len(a.sz) and all(p == q for i, (p, q) in enumerate(zip(x.sz, a.sz)) if i != d)]
            xs = [a] + [g.choice(ok) for _ in range(g.choice([0, 1, 1, 2]))]
            g.shuffle(xs)
            sz = list(a.sz)
            sz[d] = sum(x.sz[d] for x in xs)
            if numel(sz) > 40:
                continue
            dt = xs[0].dt
            for x in xs:
                dt = ORDER[max(ORDER.index(dt), ORDER.index(x.dt))]
            new = T(dst, dt, sz, any(x.req for x in xs), any(x.inex for x in xs))
            s = ("op", dst, "cat", [x.name for x in xs], d)
        st.append(s)
        live.append(new)
        k += 1
    body = [i for i, s in enumerate(st) if s[0] == "op"]
    if not body:
        return None
    if not bw:
        st.insert(body[-1], PRE)
        return st
    y = live[-1]
    if not y.req or numel(y.sz) == 0:
        return None
    same = set()        # may be one tensor under two names
    for q in st:
        if q[0] == "op" and q[2] in ("pos", "contiguous", "type"):
            same |= {q[1]} | set(q[3])
    for x in live:
        if x.req and x.name not in "abc" and x.name not in same and g.random() < .25:
            st.append(("retain", x.name))
    if g.random() < .2 and numel(y.sz) == 1:
        st.append(("bw", y.name))
        return st
    st += [("weight", "w", y.name, g.choice(["f64", "f64", "f32", "i8"]), ()), ("op", "m", "*", [y.name, "w"], None),
           ("op", "r", g.choice(["sum", "sum", "mean"]), ["m"], None), ("bw", "r")]
    return st


def programs(J, n, seed, bw=False, tag="", **o):
    k = 0
    i = 0
    while k < n and i < n * 8:
        st = program("%s|%s|%d|%s" % (tag, seed, i, bw), bw=bw)
        i += 1
        if st is None:
            continue
        k += 1
        yield (st, J, dict({"n": 3, "grid": [{}], "pins": 3, "tol": 1e-3 if bw else 1e-6}, **o))
