"""For each property: the sessions that are analysed and the rules applied."""
import itertools
import gen
import random
import ops as O
from model import FLT, ORDER

DT = ["i8", "i16", "i32", "i64", "f32", "f64"]
INTS = DT[:4]
ARITH, CMP = O.ARITH, O.CMP
DIFF1 = ["neg", "pos", "abs", "sum", "mean", "max", "min", "clone", "contiguous"]


def IN(n, dt, sz, **k):
    return ("in", n, dt, list(sz), tuple(k.items()))


def op(dst, name, srcs, var=None):
    return ("op", dst, name, list(srcs), var)


PRE = ("mark", "pre")
LET = "abcdefghijklm"


def names(p, r):
    return ["%s%d" % (p, i) for i in range(r)]


def rnd(*key):
    return random.Random("|".join(map(str, key)))


# ---------------------------------------------------------------- grids
def bgrid(ra, rb, n, bad=0.15, lo=0, hi=3, seed=0, zeros=0.08):
    """extents of two operands, mostly compatible"""
    g = rnd("bgrid", ra, rb, seed)
    out = []
    for _ in range(n):
        a, b = [], []
        for i in range(max(ra, rb)):
            x = 0 if g.random() < zeros and lo == 0 else g.randint(1, hi)
            y = x
            z = g.random()
            if z < 0.3:
                x, y = (1, x) if x else (x, y)
            elif z < 0.5:
                x, y = (x, 1) if x else (x, y)
            elif z < 0.5 + bad:
                y = g.randint(lo, hi)
            a.append(x)
            b.append(y)
        d = {}
        for k, (p, r, l) in enumerate((("a", ra, a), ("b", rb, b))):
            for i in range(r):
                d["%s%d" % (p, i)] = l[len(l) - r + i]
        out.append(d)
    if n > 1 and max(ra, rb):
        # a larger instance: thresholds, unrolled loops
        m = max(ra, rb)
        l = {1: [g.choice([9, 17, 33, 70])], 2: [g.choice([5, 7, 9]), g.choice([6, 8, 11])], 3: [4, g.choice([3, 5]), g.choice([2, 6])]}.get(m, [2] * m)
        a, b = list(l), list(l)
        if m > 1:
            z = g.randrange(m + 1)
            if z < m:
                (a if g.random() < .5 else b)[z] = 1
        d = {}
        for p, r, w in (("a", ra, a), ("b", rb, b)):
            for i in range(r):
                d["%s%d" % (p, i)] = w[len(w) - r + i]
        out[-1] = d
    return out


def sgrid(ns, n, lo=0, hi=3, seed=0, zeros=0.1):
    g = rnd("sgrid", ns, seed)
    out = []
    for _ in range(n):
        out.append({k: (0 if lo == 0 and g.random() < zeros else g.randint(max(1, lo), hi)) for k in ns})
    if n > 1 and ns:
        l = {1: [g.choice([9, 17, 33, 70])], 2: [g.choice([5, 7, 9]), g.choice([6, 8, 11])], 3: [4, g.choice([3, 5]), g.choice([2, 6])]}.get(len(ns), [2] * len(ns))
        out[-1] = dict(zip(ns, l))
    return out


def catgrid(ranks, dim, n, seed=0, bad=0.0):
    g = rnd("cat", ranks, dim, seed)
    out = []
    for _ in range(n):
        base = [g.choice([1, 2, 3, 0]) if g.random() < .4 else g.choice([1, 2, 3]) for _ in range(max(ranks, default=0))]
        d = {}
        for k, r in enumerate(ranks):
            for i in range(r):
                x = base[i]
                if i == dim:
                    x = g.choice([0, 1, 2, 3])
                elif g.random() < bad:
                    x = g.choice([0, 1, 2, 3])
                d["%s%d" % (LET[k], i)] = x
        out.append(d)
    if n > 1 and max(ranks, default=0) and not bad:
        base = [g.choice([4, 5]) if max(ranks) > 1 else 1 for _ in range(max(ranks))]
        out[-1] = {"%s%d" % (LET[k], i): (g.choice([5, 6, 9] if max(ranks) > 1 else [9, 17, 33]) if i == dim else base[i]) for k, r in enumerate(ranks) for i in range(r)}
    return out


def rsgrid(rank, var, n, seed=0, bad=0.3, ref=None):
    """extents of the operand and of the target of a reshape"""
    g = rnd("reshape", rank, var, seed)
    tn = [x for x in var if isinstance(x, str)] if ref is None else names("b", ref)
    fixed = [x for x in var if isinstance(x, int)] if ref is None else []
    out = []
    tries = 0
    while len(out) < n and tries < 4000:
        tries += 1
        sz = [g.randint(1, 4) for _ in range(rank)]
        tv = [g.choice([1, 2, 3, 4, 6, 8, 9, 12]) for _ in tn]
        if g.random() < bad:
            if tn and ref is None:
                tv[g.randrange(len(tv))] = g.choice([-3, -2, -1, 0])
            if g.random() < .2 and sz:
                sz[g.randrange(len(sz))] = 0
            good = True
        else:
            if tn and ref is None and g.random() < .25 and -1 not in fixed:
                tv[g.randrange(len(tv))] = -1
            n0 = 1
            for k in sz:
                n0 *= k
            p = 1
            neg = 0
            for k in list(tv) + fixed:
                if k < 0:
                    neg += 1
                else:
                    p *= k
            good = (neg == 0 and p == n0) or (neg == 1 and p and n0 % p == 0)
        if good:
            d = dict(zip(names("a", rank), sz))
            d.update(zip(tn, tv))
            out.append(d)
    return out


def slgrid(rank, var, n, seed=0, inside=0.75):
    """extents and slice numbers, mostly near the valid range"""
    g = rnd("slice", rank, var, seed)
    ints = []
    for d, p in enumerate(var):
        for j, x in enumerate(p if isinstance(p, tuple) else (p,)):
            if isinstance(x, str) and not x.startswith("text:"):
                ints.append((x, d, "idx" if not isinstance(p, tuple) else "bes"[j]))
    out = []
    for _ in range(n):
        sz = [g.choice([0, 1, 2, 3, 4, 5]) if g.random() < .3 else g.randint(2, 5) for _ in range(rank)]
        e = dict(zip(names("a", rank), sz))
        for x, d, kind in ints:
            m = sz[d] if d < rank else 2
            if kind == "s":
                e[x] = g.choice([1, 1, 2, 3, -1, -1, -2, -3, 0]) if g.random() < .9 else g.randint(-6, 6)
            elif g.random() < inside:
                e[x] = g.randint(-m, max(0, m - 1) if kind == "idx" else m)
            else:
                e[x] = g.randint(-m - 3, m + 3)
        out.append(e)
    return out


# ---------------------------------------------------------------- forward sessions
def binary(J, ops, pairs, ranks, n, reqs=((False, False),), extra=(), **o):
    for o_ in ops:
        for (x, y) in pairs:
            for ra, rb in ranks:
                for qa, qb in reqs:
                    if qa and x not in FLT or qb and y not in FLT:
                        continue
                    st = [IN("a", x, names("a", ra), req=qa), IN("b", y, names("b", rb), req=qb), PRE] + list(extra) + \
                        [op("y", o_, ["a", "b"])]
                    gk = {k: v for k, v in o.items() if k in ("bad", "lo", "zeros")}
                    yield (st, J, dict({"n": n, "grid": bgrid(ra, rb, n, seed=o_ + x + y, **gk)},
                                       **{k: v for k, v in o.items() if k not in gk}))


def unary(J, ops, dts, ranks, n, reqs=(False,), lo=0, **o):
    for o_ in ops:
        for x in dts:
            for r in ranks:
                for q in reqs:
                    if q and x not in FLT:
                        continue
                    st = [IN("a", x, names("a", r), req=q), PRE, op("y", o_, ["a"])]
                    l = max(lo, 1) if o_ in ("mean", "max", "min") else lo
                    yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, lo=l, seed=o_ + x)}, **o))


def totype(J, pairs, ranks, n, reqs=(False,), **o):
    for x, y in pairs:
        for r in ranks:
            for q in reqs:
                if q and x not in FLT:
                    continue
                st = [IN("a", x, names("a", r), req=q), PRE, op("y", "type", ["a"], y)]
                yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, seed=x + y)}, **o))


def cats(J, dts, ranks, n, reqs=(False,), bad=0.0, **o):
    """dts: tuples of dtypes"""
    for ds in dts:
        for r in ranks:
            for d in range(r):
                for q in reqs:
                    rq = q if isinstance(q, tuple) else (q,) * len(ds)
                    if len(rq) != len(ds):
                        continue
                    if any(x and y not in FLT for x, y in zip(rq, ds)):
                        continue
                    st = [IN(LET[i], x, names(LET[i], r), req=rq[i]) for i, x in enumerate(ds)]
                    st += [PRE, op("y", "cat", list(LET[:len(ds)]), d)]
                    yield (st, J, dict({"n": n, "grid": catgrid([r] * len(ds), d, n, seed="".join(ds), bad=bad)}, **o))


def slices(J, dts, specs, n, reqs=(False,), **o):
    for x in dts:
        for r, var in specs:
            for q in reqs:
                if q and x not in FLT:
                    continue
                st = [IN("a", x, names("a", r), req=q), PRE, op("y", "slice", ["a"], var)]
                yield (st, J, dict({"n": n, "grid": slgrid(r, var, n)}, **o))


SL1 = [(1, ("i",)), (1, (("b", "e"),)), (1, (("b", "e", "s"),)), (1, (("b", None),)), (1, ((None, "e"),)),
       (1, ((None, None),)), (1, ((None, None, "s"),)), (1, (("b", None, "s"),)), (1, ((None, "e", "s"),)),
       (1, (("b", "e", None),)), (1, ((None, None, None),)), (1, (("b", None, None),)), (1, ((None, "e", None),))]
SL2 = [(2, ("i",)), (2, (("b", "e", "s"),)), (2, ("i", "j")), (2, (("b", "e", "s"), ("c", "f", "t"))),
       (2, ("i", ("c", "f", "t"))), (2, (("b", "e", "s"), "j")), (2, ((None, None), "j")),
       (2, ((None, None, "s"), ("c", None, "t"))), (2, (("b", None), ("c", "f")))]
SL3 = [(3, (("b", "e", "s"), "j")), (3, ("i", ("c", "f", "t"), "k")), (3, ((None, None), "j", ("c", "f", "t"))),
       (3, ("i", "j", "k")), (3, ((None, "e"), ("c", None), (None, None, "s"))), (3, ("i",))]
SLC = [(1, (("text:1", "text:3"),)), (1, ("text:-1",)), (1, ("text:0",)), (1, ((None, None, "text:-1"),)),
       (1, ((None, None, "text:2"),)), (1, (("text:-2", None),)), (1, ((None, "text:-1"),)),
       (1, (("text:3", "text:0", "text:-1"),)), (2, ((None, None), "text:1")), (2, ("text:1", (None, None, "text:-2"))),
       (1, (("text: 1", "text: 3"),)), (2, ("text:0", "text: 1")), (2, ((None, "text:2"), ("text:1 ", None))),
       (1, (("text:10", None),)), (1, (("text:-12", "text:12"),)), (1, ("text:12",)), (1, ("text:+1",)),
       (1, (("text:100", None, "text:-1"),)),
       (1, (("text:0", "text:3000000000"),)), (1, (("text:-4294967297", None),)), (1, ("text:4294967296",)), (1, ("text:-4294967297",)),
       (1, ((None, None, "text:4294967297"),)), (1, (("text:9223372036854775807", None, "text:-1"),)), (1, (("text:1", "text:9000000000", "text:2"),)),
       (1, ((None, None, "text:9223372036854775807"),)), (1, (("text:-1", None, "text:-9223372036854775807"),)), (1, (("text:-9223372036854775808", "text:9223372036854775807"),)),
       (1, (("text:9223372036854775807", "text:-9223372036854775808", "text:-1"),)), (1, ("text:9223372036854775807",)), (1, ("text:-9223372036854775808",)),
       (1, ((None, None, "text:-9000000000"),)), (2, (("text:-9000000000", "text:4294967297"), (None, None, "text:-1"))), (1, ("text:300",)), (1, (("text:-300", "text:300"),)),
       (1, (("text:", "text:", "text:"),)), (1, (("text: ", "text:2"),)), (1, ("text:65536",)), (1, (("text:0", "text:65537"),)), (1, (("text:0", "text:257"),)),
       (1, ((None, None, "text:-3"),)), (1, (("text:-1", "text:-100", "text:-2"),)), (3, ("text:1", "text:-1", "text:0")), (3, ((None, None), (None, None), "text:1")),
       (3, ("text:0", (None, None, "text:-1"), ("text:1", None))), (4, ("text:0", (None, None), "text:-1", (None, None, "text:2"))), (4, ("text:1",)),
       (1, (("text:1", "text:1"),)), (1, (("text:2", "text:1"),)), (1, (("text:1", "text:2", "text:-1"),)), (2, (("text:1", "text:-1", "text:1"), (None, None, "text:-1")))]

RS = [(1, ("p",)), (1, ("p", "q")), (2, ("p",)), (2, ("p", "q")), (2, (-1,)), (2, ("p", -1)), (2, (-1, "p")),
      (2, ("p", "q", "r")), (1, (-1,)), (0, (1,)), (0, ()), (0, (1, 1)), (1, ()), (2, ()), (0, (-1,)), (1, (1, "p"))]
RS3 = [(3, ("p",)), (3, ("p", "q")), (3, (-1,)), (3, ("p", -1)), (3, ("p", "q", "r")), (3, ("p", -1, "q"))]


def reshapes(J, dts, specs, n, reqs=(False,), ops=("reshape",), bad=0.3, **o):
    for x in dts:
        for r, var in specs:
            for o_ in ops:
                for q in reqs:
                    if q and x not in FLT:
                        continue
                    st = [IN("a", x, names("a", r), req=q), PRE, op("y", o_, ["a"], var)]
                    g = rsgrid(r, var, n, bad=bad)
                    if g:
                        yield (st, J, dict({"n": n, "grid": g, "pins": n}, **o))


def reshape_as(J, dts, ranks, n, reqs=(False,), bad=0.3, **o):
    for x in dts:
        for ra, rb in ranks:
            for q in reqs:
                if q and x not in FLT:
                    continue
                st = [IN("a", x, names("a", ra), req=q), IN("b", "i16", names("b", rb)), PRE,
                      op("y", "reshape_as", ["a", "b"])]
                g = rsgrid(ra, (), n, bad=bad, ref=rb)
                if g:
                    yield (st, J, dict({"n": n, "grid": g, "pins": n}, **o))


def transposes(J, dts, ranks, n, reqs=(False,), ops=("transpose", "transpose_s"), bad=False, **o):
    for x in dts:
        for r in ranks:
            for i in range(r + (2 if bad else 0)):
                for j in range(r + (2 if bad else 0)):
                    if not bad and i == j:
                        continue
                    for o_ in ops:
                        for q in reqs:
                            if q and x not in FLT:
                                continue
                            st = [IN("a", x, names("a", r), req=q), PRE, op("y", o_, ["a"], (i, j))]
                            yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, seed=x)}, **o))


def makers(J, dts, ranks, n, kinds=("zeros", "ones", "full_i", "full_d", "randn", "from_blob", "ctor"), **o):
    for k in kinds:
        for x in dts:
            if k == "randn" and x not in FLT and o.get("noint"):
                continue
            for r in ranks:
                yield ([PRE, op("y", k, [], (r, x))], J, dict({"n": n}, **{a: b for a, b in o.items() if a != "noint"}))
    if "ones" in kinds:
        for x in dts:
            yield ([PRE, op("y", "eye1", [], x)], J, {"n": max(n, 6)})
            yield ([PRE, op("y", "eye2", [], x)], J, {"n": max(n, 24)})
            yield ([PRE, op("y", "scalar", [], x)], J, {"n": n})


def likes(J, dts, ranks, n, reqs=(False,), **o):
    for k in ("zeros_like", "ones_like", "randn_like"):
        for x in dts:
            for r in ranks:
                for q in reqs:
                    if q and x not in FLT:
                        continue
                    st = [IN("a", x, names("a", r), req=q), PRE, op("y", k, ["a"])]
                    yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, seed=x)}, **o))


def inits(J, good=True, bad=False, dts=("i8", "i16", "i32", "i64", "f32", "f64"), n=2):
    for x in dts:
        y = "f32" if x != "f32" else "i32"
        if good:
            for nest in [("p",), ("p", "q", "r"), (("p", "q"), ("r", "s"), ("t", "u")), ((("p",), ("q",)), (("r",), ("s",))),
                         ((("p", "q", "r"),),), (("p", "q", "r", "s"),)]:
                yield ([PRE, ("init", "y", x, nest)], J, {"n": n})
        if bad:
            for nest in [(("p", "q"), ("r",)), (("p",), ("r", "s")), (("p", "q"), ("@" + y, 1, 2)),
                         ((("p",), ("q",)), (("r",),)), ((("p", "q"),), (("r",), ("s",))),
                         ((("p", "q"), ("r", "s")), (("p", "q"), ("@" + y, 1, 2)))]:
                yield ([PRE, ("init", "y", x, nest)], J, {"n": n})


def iadds(J, pairs, ranks, n, **o):
    for x, y in pairs:
        for ra, rb in ranks:
            g = rnd("iadd", x, y, ra, rb)
            grid = []
            for _ in range(n):
                a = [g.randint(0 if g.random() < .1 else 1, 3) for _ in range(ra)]
                b = [(1 if g.random() < .3 and z else z) for z in (a[ra - rb:] if rb else [])]
                d = dict(zip(names("a", ra), a))
                d.update(zip(names("b", rb), b))
                grid.append(d)
            st = [IN("a", x, names("a", ra)), IN("b", y, names("b", rb)), PRE, ("iadd", "a", "b")]
            yield (st, J, dict({"n": n, "grid": grid}, **o))


# ---------------------------------------------------------------- backward sessions
def close_over(y, wdt="f64", tail=True):
    """sum(y*w): an arbitrary incoming gradient for y"""
    st = [("weight", "w", y, wdt, ()), op("m", "*", [y, "w"]), op("r", "sum", ["m"])]
    if tail:
        st.append(("bw", "r"))
    return st


def bwbin(J, ops, pairs, ranks, n, reqs=((True, True),), wdt="f64", pre=(), **o):
    for o_ in ops:
        for x, y in pairs:
            for ra, rb in ranks:
                for qa, qb in reqs:
                    if qa and x not in FLT or qb and y not in FLT or not (qa or qb):
                        continue
                    st = [IN("a", x, names("a", ra), req=qa), IN("b", y, names("b", rb), req=qb)] + list(pre)
                    st += [op("y", o_, ["a", "b"])] + close_over("y", wdt)
                    yield (st, J, dict({"n": n, "grid": bgrid(ra, rb, n, bad=0, lo=1, seed=o_)}, **o))


def bwun(J, ops, dts, ranks, n, wdt="f64", **o):
    for o_ in ops:
        for x in dts:
            for r in ranks:
                st = [IN("a", x, names("a", r), req=True), op("y", o_, ["a"])] + close_over("y", wdt)
                yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, lo=1, seed=o_)}, **o))


def bwview(J, dts, n, wdt="f64", thorough=False, **o):
    A = "a"
    for x in dts:
        for r, var in ([(1, (("b", "e", "s"),)), (2, ("i", ("c", "f", "t"))), (2, (("b", "e", "s"), "j")), (1, ("i",)),
                        (2, (("b", "e"), (None, None, "t")))] + (SL3[:3] if thorough else [])):
            st = [IN(A, x, names("a", r), req=True), op("y", "slice", [A], var)] + close_over("y", wdt)
            g = slgrid(r, var, n * 3, inside=0.95)
            yield (st, J, dict({"n": n * 3, "grid": g, "pins": n}, **o))
        for r, i, j in [(2, 0, 1), (3, 0, 2), (3, 2, 1)]:
            st = [IN(A, x, names("a", r), req=True), op("y", "transpose", [A], (i, j))] + close_over("y", wdt)
            yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, lo=1)}, **o))
        for r, var in RS[:8] + (RS3[:3] if thorough else []):
            if r == 0:
                continue
            st = [IN(A, x, names("a", r), req=True), op("y", "reshape", [A], var)] + close_over("y", wdt)
            g = rsgrid(r, var, n, bad=0)
            if g:
                yield (st, J, dict({"n": n, "grid": g, "pins": n}, **o))
        # views of views, and a copying reshape of a transposed tensor
        st = [IN(A, x, ["a0", "a1"], req=True), op("t", "transpose", [A], (0, 1)), op("y", "reshape", ["t"], (-1,))] + close_over("y", wdt)
        yield (st, J, dict({"n": n, "grid": sgrid(["a0", "a1"], n, lo=1), "pins": n}, **o))
        st = [IN(A, x, ["a0", "a1"], req=True), op("t", "transpose", [A], (0, 1)), op("y", "slice", ["t"], (("text:0", None, "text:2"), "text:-1"))] + close_over("y", wdt)
        yield (st, J, dict({"n": n, "grid": sgrid(["a0", "a1"], n, lo=1), "pins": n}, **o))
        st = [IN(A, x, ["a0", "a1"], req=True), op("s", "slice", [A], ((None, None, "text:-1"),)), op("t", "transpose", ["s"], (1, 0)), op("y", "clone", ["t"])] + close_over("y", wdt)
        yield (st, J, dict({"n": n, "grid": sgrid(["a0", "a1"], n, lo=1), "pins": n}, **o))


def bwcat(J, dts, n, wdt="f64", reqs=((True, True),), ranks=(1, 2), **o):
    for ds in dts:
        for r in ranks:
            for d in range(r):
                for rq in reqs:
                    rq = rq[:len(ds)] if len(rq) >= len(ds) else rq + (True,) * (len(ds) - len(rq))
                    if any(q and z not in FLT for q, z in zip(rq, ds)) or not any(rq):
                        continue
                    st = [IN(LET[i], z, names(LET[i], r), req=rq[i]) for i, z in enumerate(ds)]
                    st += [op("y", "cat", list(LET[:len(ds)]), d)] + close_over("y", wdt)
                    g = [e for e in catgrid([r] * len(ds), d, n * 3, seed="b") if all(v for v in e.values())][:n]
                    yield (st, J, dict({"n": n, "grid": g, "pins": n}, **o))


# ---------------------------------------------------------------- the properties
ALLP = [(x, y) for x in DT for y in DT]
DIAG = [(x, x) for x in DT] + [("i8", "f64"), ("f32", "i64"), ("i64", "i32"), ("f64", "f32"), ("i16", "f32"), ("i32", "i8")]
FF = [("f32", "f32"), ("f64", "f64"), ("f32", "f64"), ("f64", "f32")]
R2 = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0)]
R3 = R2 + [(3, 3), (3, 2), (2, 3), (3, 1), (1, 3), (0, 3), (3, 0)]
VIEWOPS = ["slice", "transpose", "reshape", "detach"]


def forward_all(J, th, n=4, reqs=(False,), breq=((False, False),), dts=DT, pairs=None, bad=0.0, sl=None):
    """every operation, a few ranks"""
    pairs = pairs or (ALLP if th else DIAG)
    yield from binary(J, ARITH + CMP, pairs, R3 if th else [(2, 1), (1, 2), (2, 2)], n, breq, bad=bad)
    yield from unary(J, DIFF1 + ["detach"], dts, (0, 1, 2, 3) if th else (1, 2), n, reqs)
    yield from totype(J, [(x, y) for x, y in ALLP if not (True in reqs and len(reqs) == 1 and y not in FLT)], (0, 2) if th else (2,), n, reqs)
    fl = [x for x in dts]
    yield from cats(J, [(x,) for x in dts], (1, 2), n, reqs)
    yield from cats(J, [(x, y) for x, y in pairs] + [(x, y, "f64" if x in FLT else "i8") for x, y in pairs[:6]], (1, 2, 3) if th else (2,), n, reqs)
    yield from slices(J, dts if th else ("i16", "f32", "f64"), (SL1 + SL2 + SL3) if th else (SL1[2:3] + SL2[2:6] + SL3[:1]), n * 2, reqs)
    yield from transposes(J, dts if th else ("i16", "f64"), (2, 3), n, reqs)
    yield from reshapes(J, dts if th else ("i16", "f64"), (RS + RS3) if th else (RS[2:6] + RS3[:1]), n, reqs, bad=bad)
    yield from reshape_as(J, dts if th else ("f32",), [(2, 1), (1, 2), (2, 2)], n, reqs, bad=bad)
    yield from likes(J, dts, (0, 2), n, reqs)


def backward_all(J, th, n=4, bpairs=FF, **o):
    yield from bwbin(J, ARITH, bpairs, R3 if th else [(1, 1), (2, 1), (1, 2), (2, 2), (0, 1)], n,
                     ((True, True), (True, False), (False, True)), **o)
    yield from bwun(J, DIFF1, FLT, (0, 1, 2, 3) if th else (1, 2), n, **o)
    for x, y in FF:
        for r in (0, 1, 2) if th else (2,):
            st = [IN("a", x, names("a", r), req=True), op("y", "type", ["a"], y)] + close_over("y")
            yield (st, J, dict({"n": n, "grid": sgrid(names("a", r), n, lo=1)}, **o))
    yield from bwview(J, FLT if th else ("f32",), n, thorough=th, **o)
    yield from bwcat(J, [("f32", "f32"), ("f64", "f32"), ("f32", "f64", "f32")], n, **o)


def C01(th):
    J = ["etypes", "allocation"]
    R = [(1, 1)] if not th else [(0, 0), (1, 1), (2, 1), (1, 2)]
    n = 2
    yield from binary(J, ARITH + CMP, ALLP, R, n, bad=0)
    yield from iadds(J, ALLP, [(1, 1), (2, 1)] if th else [(1, 1)], n)
    yield from unary(J, DIFF1 + ["detach"], DT, (1, 2) if th else (1,), n)
    yield from totype(J, ALLP, (1, 2) if th else (1,), n)
    yield from cats(J, [(x, y) for x, y in ALLP] + ([(x, y, z) for x, y in ALLP for z in DT] if th else
                                                    [(x, y, DT[(i * 5 + 3) % 6]) for i, (x, y) in enumerate(ALLP)]), (1,), n)
    yield from slices(J, DT, [(1, (("b", "e", "s"),))], 4)
    yield from transposes(J, DT, (2,), n)
    yield from reshapes(J, DT, [(2, (-1,)), (1, ("p", "q"))], 4, bad=0)
    yield from makers(J, DT, (0, 1, 2) if th else (1,), n, noint=True)
    yield from likes(J, DT, (1,), n)
    yield from inits(J)
    for x in DT:
        yield ([IN("a", x, ["a0", "a1"]), ("all", "r", "a")], J, {"n": n, "sizes": (1, 2, 3)})
    # gradient accumulation, with constants of any dtype
    bp = [(x, y) for x, y in ALLP if x in FLT or y in FLT]
    yield from bwbin(J, ARITH, bp, [(1, 1), (2, 1), (1, 2)] if th else [(1, 1)], n, ((True, True), (True, False), (False, True)))
    for w in DT:
        yield from bwbin(J, ARITH, FF, [(1, 1)], n, wdt=w)
        yield from bwun(J, DIFF1, FLT, (1,), n, wdt=w)
        yield from bwcat(J, [("f32", "f64")], n, wdt=w, ranks=(1,))
    yield from bwview(J, FLT, 2, thorough=th)
    for x, y in FF:
        st = [IN("a", x, ["a0"], req=True), op("y", "type", ["a"], y)] + close_over("y")
        yield (st, J, {"n": n, "sizes": (1, 2)})


def C02(th):
    J = ["dtype"]
    yield from binary(J, ARITH + CMP, ALLP, R3 if th else [(1, 1), (0, 1), (1, 0), (0, 0)], 2, bad=0)
    yield from unary(J, DIFF1 + ["detach"], DT, (0, 1, 2), 2)
    yield from totype(J, ALLP, (0, 1, 2), 2)
    yield from cats(J, [(x,) for x in DT] + ALLP + [(x, y, z) for x, y in ALLP for z in DT], (1, 2) if th else (1,), 1)
    yield from slices(J, DT, [(1, (("b", "e", "s"),)), (2, ("i", "j"))], 3)
    yield from transposes(J, DT, (2, 3) if th else (2,), 1)
    yield from reshapes(J, DT, [(2, (-1,)), (1, ("p", "q")), (2, ())], 4, bad=0)
    yield from reshape_as(J, DT, [(2, 1)], 2, bad=0)
    yield from makers(J, DT, (0, 1, 2), 1, noint=True)
    yield from likes(J, DT, (0, 1, 2), 1)
    yield from inits(J)
    yield from binary(J, ARITH, FF + [("i64", "f32"), ("f64", "i8")], [(1, 1)], 2, ((True, True), (True, False), (False, True)), bad=0)
    yield from unary(J, DIFF1 + ["detach"], FLT, (0, 1, 2), 2, (True,))
    yield from cats(J, FF, (1,), 2, (True, (True, False)))


def C03(th):
    J = ["values"]
    yield from binary(J, ARITH + CMP, ALLP, [(1, 1)], 4, bad=0, modes=("small", "ties"))
    yield from binary(J, ARITH + CMP, ALLP, [(1, 1)], 3, bad=0, modes=("big",))
    yield from binary(J, ARITH + CMP, [("f32", "f32"), ("i32", "i32"), ("i8", "f64"), ("f64", "i16")] if not th else ALLP,
                      R3, 8, bad=0, modes=("small", "ties"))
    yield from binary(J, ARITH, FF, [(1, 2), (2, 1), (2, 2)], 4, ((True, True), (True, False), (False, True)), bad=0)
    yield from iadds(J, ALLP if th else DIAG, [(1, 1), (2, 1), (2, 2), (2, 0), (0, 0), (1, 0)], 4)
    FP = [p for p in ALLP if p[0] in FLT or p[1] in FLT]
    yield from binary(J, ARITH + CMP, FP, [(1, 1)], 4, bad=0, lo=1, modes=("nan",))
    yield from binary(J, ARITH + CMP, ALLP, [(1, 1)], 4, bad=0, lo=1, modes=("mixb", "ext"))


def C04(th):
    J = ["values"]
    rk = (0, 1, 2, 3)
    yield from unary(J, DIFF1 + ["detach"], DT, rk, 6, modes=("small", "ties"))
    yield from unary(J, ["sum", "max", "min", "neg", "abs", "clone"], DT, (1, 2), 4, modes=("big",))
    yield from unary(J, [o for o in DIFF1 if o != "mean"], FLT, (0, 1), 6, modes=("nan",))
    yield from unary(J, [o for o in DIFF1 if o != "mean"] + ["detach"], DT, (1, 2), 6, modes=("ext", "mixb"))
    yield from unary(J, ["mean"], [x for x in DT if x not in FLT], (1, 2), 6, modes=("ext", "mixb"))
    yield from totype(J, ALLP, (1,), 4, modes=("ext", "mixb"))
    yield from cats(J, ALLP, (1,), 3, modes=("ext",))
    yield from totype(J, [(x, y) for x in FLT for y in DT], (1,), 4, modes=("nan",))
    # element counts that do not fit in the element type
    for o_ in ("mean", "sum", "max", "min"):
        for x, k in (("i8", 200), ("i8", 300), ("i16", 33000), ("f32", 257), ("i32", 129), ("i64", 130), ("f64", 256)):
            yield ([IN("a", x, ["a0"]), PRE, op("y", o_, ["a"])], J, {"n": 2, "grid": [{"a0": k}]})
        yield ([IN("a", "i8", ["a0", "a1"]), PRE, op("y", o_, ["a"])], J, {"n": 2, "grid": [{"a0": 16, "a1": 17}]})
    yield from unary(J, DIFF1, FLT, (1, 2), 4, (True,))
    yield from totype(J, ALLP, (0, 1, 2, 3) if th else (0, 2), 4, modes=("small", "big"))
    yield from cats(J, [(x,) for x in DT] + ALLP, (1, 2), 5)
    yield from cats(J, [("f32", "i8", "i64"), ("f64", "f64", "f64"), ("i16", "f32", "i8"), ("i32",) * 3], (1, 2, 3), 6)
    yield from makers(J, DT, (0, 1, 2, 3) if th else (0, 1, 2), 4, kinds=("zeros", "ones", "from_blob"))
    yield from makers(J, DT, (0, 1, 2), 8, kinds=("full_i", "full_d"))
    yield from likes(J, DT, (0, 1, 2), 4)
    yield from inits(J, n=3)
    for x in DT:
        for r in rk:
            g = sgrid(names("a", r), 16, zeros=0.05)
            yield ([IN("a", x, names("a", r)), ("all", "r", "a")], ["boolean"], {"n": 16, "grid": g, "modes": ("ties", "small", "rare0", "rare0")})


def C05(th):
    J = ["shape", "throws"]
    n = 40 if th else 14
    yield from binary(J, ARITH + CMP, [("f32", "f32"), ("i8", "f64")], R3, n, bad=0.35, zeros=0.12)
    yield from binary(J, ARITH, FF[:1], R3, 6, ((True, True), (True, False), (False, True)), bad=0.3)
    if th:
        yield from binary(J, ARITH + CMP, ALLP, [(1, 1), (2, 1), (1, 2)], 8, bad=0.35, zeros=0.12)


def C06(th):
    J = ["alias"]
    yield from forward_all(J, th, 4)
    yield from forward_all(J, False, 3, (True,), ((True, True), (True, False)), FLT, FF)
    yield from makers(J, DT, (0, 1, 2), 2, noint=True)
    yield from inits(J)
    yield from unary(J, DIFF1 + ["detach"], DT, (0, 1, 2, 3), 5)


def C07(th):
    J = ["operands", "rng"]
    yield from forward_all(J, th, 3)
    yield from forward_all(J, False, 3, (True,), ((True, True), (True, False), (False, True)), FLT, FF)
    for k in ("zeros", "ones", "full_i", "from_blob"):
        yield from makers(["rng"], ("i8", "f64"), (1, 2), 2, kinds=(k,))
    # operands that already have a gradient
    body = [op("z", "*", ["a", "a"]), op("r", "sum", ["z"]), ("bw", "r"), PRE]
    for x in FLT:
        for o_ in DIFF1 + ["detach", "zeros_like", "ones_like", "randn_like"]:
            yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", o_, ["a"])], J, {"n": 3, "sizes": (1, 2, 3)})
        for o_ in ARITH + CMP:
            yield ([IN("a", x, ["a0", "a1"], req=True), IN("b", x, ["a1"], req=True)] + body + [op("y", o_, ["a", "b"])], J, {"n": 3, "sizes": (1, 2, 3)})
            yield ([IN("a", x, ["a0", "a1"], req=True), IN("b", x, ["a1"], req=True)] + body + [op("y", o_, ["b", "a"])], J, {"n": 3, "sizes": (1, 2, 3)})
        yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", "transpose", ["a"], (0, 1))], J, {"n": 3, "sizes": (1, 2, 3)})
        yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", "slice", ["a"], (("text:0", "text:1"),))], J, {"n": 3, "sizes": (1, 2, 3)})
        yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", "reshape", ["a"], (-1,))], J, {"n": 3, "sizes": (1, 2, 3)})
        yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", "type", ["a"], "f64" if x == "f32" else "f32")], J, {"n": 3, "sizes": (1, 2, 3)})
        yield ([IN("a", x, ["a0", "a1"], req=True)] + body + [op("y", "cat", ["a", "a"], 0)], J, {"n": 3, "sizes": (1, 2, 3)})
    for x in DT:
        yield ([IN("a", x, ["a0", "a1"]), PRE, ("all", "r", "a")], ["operands"], {"n": 3, "sizes": (1, 2, 3)})
    for x, y in DIAG:
        yield ([IN("a", x, ["a0", "a1"]), IN("b", y, ["a1"]), PRE, ("iadd", "a", "b")], ["others"], {"n": 3, "sizes": (1, 2, 3)})
    # a backward pass changes nothing but gradients and its own bookkeeping
    yield from backward_all(["unchanged"], th, 3)


def C08(th):
    J = ["bounds", "allocation"]
    yield from forward_all(J, th, 6)
    yield from binary(J, ARITH + CMP, ALLP, [(1, 1)], 3, bad=0.2)
    yield from makers(J, DT, (0, 1, 2), 3)
    yield from inits(J, bad=True)
    yield from iadds(J, DIAG, [(1, 1), (2, 1), (2, 2), (1, 2), (0, 1), (0, 0)], 6)
    for x in DT:
        yield ([IN("a", x, ["a0", "a1"]), ("all", "r", "a")], J, {"n": 8})
    yield from cats(J, DIAG, (1, 2), 6)
    yield from slices(J, ("f32",), SL1 + SL2 + SL3 + SLC, 16)
    yield from transposes(J, ("f32",), (0, 1, 2), 2, bad=True)
    yield from backward_all(J, th, 4)


def C09(th):
    J = ["shape", "values", "alias", "throws", "bounds"]
    sp = SL1 + SL2 + SL3
    n = 80 if th else 40
    yield from slices(J, DT if th else ("f32", "i8"), sp, n)
    yield from slices(J, ("f32", "i16"), SLC, 16)
    yield from slices(J, ("f64",), SL1[:4] + SL2[:4], 12, (True,))


def C10(th):
    J = ["shape", "values", "alias", "throws", "layout"]
    n = 40 if th else 16
    yield from transposes(J, DT if th else ("f32", "i8"), (2, 3), 6)
    yield from transposes(J, ("f64",), (2, 3), 3, (True,))
    yield from reshapes(J, DT if th else ("f32", "i16"), RS + RS3, n, ops=("reshape", "reshape_s"))
    yield from reshapes(J, ("f64",), RS + RS3[:2], n, (True,))
    yield from reshape_as(J, ("f32",), [(1, 1), (1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (3, 2), (2, 3)], n)
    A = IN("a", "f32", ["a0", "a1"])
    for pre in ([op("t", "transpose", ["a"], (0, 1))], [op("t", "slice", ["a"], (("text:1", None), (None, None, "text:2")))],
                [op("t", "slice", ["a"], ((None, None, "text:-1"), (None, None, "text:-1")))]):
        for var in ((-1,), ("p", -1)):
            yield ([A] + pre + [op("y", "reshape", ["t"], var)], ["shape", "values", "throws"],
                   {"n": n, "grid": [dict(e, a0=e["a0"] + 1, a1=e["a1"] + 1) for e in rsgrid(2, var, n)], "pins": n})


def flags(k):
    return list(itertools.product((False, True), repeat=k))


def C11(th):
    J = ["tracking"]
    yield from binary(J, ARITH + CMP, FF + [("i8", "f32"), ("f64", "i64"), ("i32", "i16")], R3 if th else [(0, 0), (1, 1), (2, 1), (1, 2)], 3, flags(2), bad=0)
    yield from unary(J, DIFF1 + ["detach"], DT, (0, 1, 2), 3, (False, True))
    yield from totype(J, ALLP, (0, 2), 2, (False,))
    yield from totype(J, FF, (0, 1, 2), 2, (True,))
    yield from cats(J, FF + [("i8", "f32"), ("f32", "i64")], (1, 2), 3, flags(2))
    yield from cats(J, [("f32", "f64", "f32"), ("i8", "f32", "f64")], (1,), 3, flags(3))
    yield from slices(J, FLT + ("i8",), SL1 + SL2 + SL3[:2], 6, (False, True))
    yield from transposes(J, FLT + ("i8",), (2, 3), 2, (False, True))
    yield from reshapes(J, FLT + ("i8",), RS + RS3[:2], 8, (False, True), ops=("reshape", "reshape_s"), bad=0)
    yield from reshape_as(J, FLT, [(1, 2), (2, 1), (2, 2)], 6, (False, True), bad=0)
    yield from likes(J, DT, (0, 1, 2), 2, (False, True))
    yield from makers(J, DT, (0, 1, 2), 2, noint=True)
    yield from inits(J)
    # the same tensor twice, and results of tracked results
    for x in FLT:
        for o_ in ARITH:
            yield ([IN("a", x, ["a0"], req=True), op("y", o_, ["a", "a"])], J, {"n": 2, "sizes": (1, 2)})
        A = IN("a", x, ["a0", "a1"], req=True)
        for chain in ([op("t", "transpose", ["a"], (0, 1))], [op("t", "*", ["a", "a"])], [op("t", "slice", ["a"], (("text:0", None),))],
                      [op("t", "reshape", ["a"], (-1,))], [op("t", "sum", ["a"])], [op("t", "detach", ["a"])],
                      [op("t", "a", ["a"])][:0]):
            src = "t" if chain else "a"
            for o_ in DIFF1 + ["detach"]:
                yield ([A] + chain + [op("y", o_, [src])], J, {"n": 3, "sizes": (1, 2, 3)})
            for o_ in ARITH + CMP:
                yield ([A] + chain + [op("y", o_, [src, src])], J, {"n": 3, "sizes": (1, 2, 3)})
    # switching the flag off and on
    for b in (False, True):
        for x in FLT:
            yield ([IN("a", x, ["a0"], req=not b), ("setreq", "a", b), op("y", "*", ["a", "a"])], J, {"n": 2, "sizes": (1, 2)})


def bwretained(J, dts, n):
    """the gradients of intermediate results that are kept"""
    o = {"n": n, "sizes": (1, 2, 3)}
    for x in dts:
        for sh in (["n", "m"], ["m"], [1, "m"]):
            A = [IN("a", x, ["n", "m"], req=True), IN("b", x, sh, req=True), op("p", "*", ["a", "a"]), op("q", "abs", ["b"])]
            for o_ in ARITH:
                for l, r in (("p", "q"), ("q", "p")):
                    yield (A + [op("y", o_, [l, r]), ("retain", "p"), ("retain", "q"), ("retain", "y")] + close_over("y"), J, o)
        A = [IN("a", x, ["n", "m"], req=True), op("p", "*", ["a", "a"])]
        for o_ in DIFF1:
            yield (A + [op("y", o_, ["p"]), ("retain", "p"), ("retain", "y")] + close_over("y"), J, o)
        for d in (0, 1):
            yield (A + [op("q", "neg", ["p"]), op("y", "cat", ["p", "a", "q", "p"], d), ("retain", "p"), ("retain", "q"), ("retain", "y")] + close_over("y"), J, o)


def C12(th):
    J = ["grads"]
    n = 8 if th else 4
    yield from bwretained(["grads", "intermediates"], FLT, n if th else 2)
    yield from backward_all(J, th, n)
    yield from bwcat(J, FF, n, reqs=((True, True), (True, False), (False, True)))
    yield from bwcat(J, [("f32", "f64", "f32"), ("f64", "f64", "f64")], n, reqs=flags(3)[1:])
    yield from bwcat(J, [("f32", "f32", "f32")], n, reqs=((True, False, True), (False, True, True)), ranks=(3,))
    yield from bwbin(J, ARITH, FF, R3, n)
    yield from bwun(J, ["abs", "max", "min"], FLT, (1, 2, 3), 8, modes=("small", "ties"))
    for w in ("f32", "i8", "i32"):
        yield from bwbin(J, ARITH, FF, [(1, 1), (2, 1)], n, wdt=w)
        yield from bwun(J, DIFF1, FLT, (1, 2), n, wdt=w)


def C13(th):
    J = ["untracked", "grads"]
    n = 4
    P = [(x, y) for x in FLT for y in DT]
    Q = [(y, x) for x, y in P]
    R = [(1, 1), (2, 1), (1, 2), (0, 1), (1, 0)]
    yield from bwbin(J, ARITH, P, R3 if th else R, n, ((True, False),))
    yield from bwbin(J, ARITH, Q, R3 if th else R, n, ((False, True),))
    yield from bwcat(J, [("f32", y) for y in DT] + [("f64", "i8"), ("f64", "f32")], n, reqs=((True, False),))
    yield from bwcat(J, [(y, "f32") for y in DT] + [("i8", "f64"), ("f32", "f64")], n, reqs=((False, True),))
    yield from bwcat(J, [("f32", "i8", "f64"), ("f32", "f32", "f32")], n, reqs=((True, False, True), (False, False, True)))
    # an untracked operand shared by several nodes, views of an untracked tensor, detached uses
    for x in FLT:
        for o_ in ARITH:
            A, B = IN("a", x, ["a0"], req=True), IN("b", x, ["a0"])
            yield ([A, B, op("t", o_, ["a", "b"]), op("y", o_, ["t", "b"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})
            yield ([A, IN("b", x, ["a0", "a1"]), op("t", "slice", ["b"], ((None, None), "text:0")), op("y", o_, ["a", "t"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})
            yield ([A, op("d", "detach", ["a"]), op("y", o_, ["a", "d"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})
            yield ([A, op("d", "detach", ["a"]), op("y", o_, ["d", "a"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})
            # switched off between the forward and the backward pass
            C_ = IN("c", x, ["a0"], req=True)
            for k in ("t", "y", "c"):
                yield ([A, C_, op("t", o_, ["a", "c"]), op("y", "*", ["t", "c"]), op("u", "+", ["y", "c"]), op("r", "sum", ["u"]), ("setreq", k, False), ("bw", "r")],
                       J, {"n": n, "sizes": (1, 2, 3), "kinds": ["dense"]})
            yield ([A, B, ("setreq", "b", True), ("setreq", "b", False), op("y", o_, ["a", "b"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})
        for o_ in CMP[:2]:
            yield ([IN("a", x, ["a0"], req=True), IN("b", x, ["a0"]), op("c", o_, ["a", "b"]), op("y", "*", ["a", "c"])] + close_over("y"), J, {"n": n, "sizes": (1, 2, 3)})


def bw2(*body):
    return list(body)


def C14(th):
    J = ["grads", "viewgrads", "allocation"]
    n = 5
    o = {"n": n, "sizes": (1, 2, 3), "pins": n}

    def close(y, k):
        return [("weight", "w" + k, y, "f64", ()), op("m" + k, "*", [y, "w" + k]), op("r" + k, "sum", ["m" + k]), ("bw", "r" + k)]
    for x in FLT:
        A = IN("a", x, ["n", "m"], req=True)
        B = IN("b", x, ["m"], req=True)
        uses = {
            "*": [op("y", "*", ["a", "a"])], "+": [op("y", "+", ["a", "a"])], "-": [op("y", "-", ["a", "a"])], "/": [op("y", "/", ["a", "a"])],
            "mix": [op("t", "*", ["a", "b"]), op("y", "+", ["t", "a"])],
            "mix2": [op("t", "neg", ["a"]), op("u", "abs", ["a"]), op("y", "/", ["t", "u"])],
            "cat": [op("y", "cat", ["a", "a"], 0)], "cat1": [op("y", "cat", ["a", "a", "a"], 1)],
            "t": [op("t", "transpose", ["a"], (0, 1)), op("u", "transpose", ["t"], (0, 1)), op("y", "*", ["u", "a"])],
            "s": [op("t", "slice", ["a"], ("text:0",)), op("y", "*", ["a", "t"])],
            "ss": [op("t", "slice", ["a"], ("text:0",)), op("u", "slice", ["a"], ("text:-1",)), op("y", "*", ["u", "t"])],
            "sr": [op("t", "slice", ["a"], ((None, None, "text:-1"),)), op("y", "*", ["a", "t"])],
            "r": [op("t", "reshape", ["a"], (-1,)), op("u", "sum", ["a"]), op("y", "*", ["t", "u"])],
            "c": [op("t", "clone", ["a"]), op("u", "contiguous", ["a"]), op("y", "*", ["t", "u"])],
            "p": [op("t", "pos", ["a"]), op("y", "*", ["t", "a"])],
            "sum": [op("t", "sum", ["a"]), op("y", "*", ["t", "a"])],
            "mean": [op("t", "mean", ["a"]), op("u", "max", ["a"]), op("y", "*", ["t", "u"])],
            "type": [op("t", "type", ["a"], "f64" if x == "f32" else "f32"), op("y", "*", ["t", "a"])],
        }
        for k, u in uses.items():
            yield ([A, B] + u + close("y", "1"), J, o)
        # several passes over separate graphs
        for k1, k2 in itertools.product(["*", "mix", "s", "t", "sum", "cat"], ["+", "ss", "/"]) if th else [("*", "+"), ("mix", "ss"), ("s", "/"), ("t", "s"), ("cat", "*"), ("sum", "t")]:
            u1 = [tuple(["op", "1" + s[1], s[2], ["1" + z if z not in ("a", "b") else z for z in s[3]], s[4]]) for s in uses[k1]]
            u2 = [tuple(["op", "2" + s[1], s[2], ["2" + z if z not in ("a", "b") else z for z in s[3]], s[4]]) for s in uses[k2]]
            yield ([A, B] + u1 + close("1y", "1") + u2 + close("2y", "2"), J, o)
            yield ([A, B] + u1 + close("1y", "1") + [("zero", "a")] + u2 + close("2y", "2"), J, o)
            yield ([A, B] + u1 + close("1y", "1") + [("zero", "b")] + u2 + close("2y", "2"), J, o)
            yield ([A, B] + u1 + close("1y", "1") + u2 + close("2y", "2") + [("zero", "a")], J, o)
        yield ([A, B, ("zero", "a"), ("zero", "b")] + uses["mix"] + close("y", "1"), J, o)
        yield from bwretained(["grads", "intermediates"], (x,), 2)
        # views with retained gradients
        for v in ([op("v", "transpose", ["a"], (0, 1))], [op("v", "slice", ["a"], (("text:0", None, "text:2"),))], [op("v", "slice", ["a"], ((None, None), "text:-1"))],
                  [op("v", "reshape", ["a"], (-1,))], [op("q", "transpose", ["a"], (0, 1)), op("v", "slice", ["q"], ("text:0",))],
                  [op("q", "slice", ["a"], ((None, None, "text:-1"),)), op("v", "transpose", ["q"], (0, 1))]):
            yield ([A] + v + [("retain", "v"), op("y", "*", ["v", "v"])] + close("y", "1"), J, o)
            yield ([A] + v + [("retain", "v"), op("u", "sum", ["a"]), op("y", "*", ["v", "u"])] + close("y", "1"), J, o)
            yield ([A] + v + [op("u", "sum", ["v"]), ("bw", "u")], J, o)
            for zero in ("a", "v"):
                yield ([A] + v + [("retain", "v"), op("y", "*", ["v", "v"])] + close("y", "1") + [("zero", zero)], ["zeroed"], o)
        # a view as the root: its one element's gradient joins what the base has
        for v in ([op("v", "slice", ["c"], ("text:1",))], [op("v", "slice", ["c"], (("text:1", "text:2"),))], [op("v", "slice", ["c"], ("text:-1",))],
                  [op("q", "slice", ["c"], (("text:0", "text:1"),)), op("v", "reshape", ["q"], (1, 1))], [op("q", "slice", ["c"], (("text:1", None, "text:-1"),)), op("v", "slice", ["q"], ("text:0",))]):
            Cc = IN("c", x, [3], req=True)
            pas = [op("y", "*", ["c", "c"])] + close("y", "1")
            for st in ([Cc] + v + [("bw", "v")], [Cc] + pas + v + [("bw", "v")], [Cc] + v + pas + [("bw", "v")], [Cc] + v + [("bw", "v")] + pas,
                       [Cc] + pas + [("zero", "c")] + v + [("bw", "v")], [Cc, ("zero", "c")] + v + pas + [("bw", "v")],
                       [Cc] + v + [op("z", "slice", ["c"], ("text:0",)), ("bw", "v"), ("bw", "z")] + pas):
                yield (st, J, o)
        # a view leaf: a tensor that starts to require grad when it is a view
        yield ([IN("b", x, ["n", "m"])] + [op("v", "slice", ["b"], (("text:0", None), "text:0")), ("setreq", "v", True), op("y", "*", ["v", "v"])] + close("y", "1"), ["leafview"], o)


def C15(th):
    J = ["grads", "intermediates"]
    n = 4
    o = {"n": n, "sizes": (1, 2, 3), "pins": n}

    def close(y="y"):
        return [("weight", "w", y, "f64", ()), op("m", "*", [y, "w"]), op("r", "sum", ["m"]), ("bw", "r")]
    G = {
        "chain": [op("p", "neg", ["a"]), op("q", "*", ["p", "b"]), op("y", "abs", ["q"])],
        "diamond": [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("s", "abs", ["p"]), op("y", "*", ["q", "s"])],
        "skip": [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("s", "abs", ["q"]), op("y", "*", ["s", "p"])],
        "skip2": [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("s", "abs", ["q"]), op("y", "*", ["p", "s"])],
        "twice": [op("p", "+", ["a", "b"]), op("y", "*", ["p", "p"])],
        "thrice": [op("p", "+", ["a", "b"]), op("q", "*", ["p", "p"]), op("y", "*", ["q", "p"])],
        "depth": [op("p", "*", ["a", "b"]), op("q", "+", ["p", "a"]), op("s", "*", ["q", "p"]), op("y", "-", ["s", "a"])],
        "dd": [op("p", "*", ["a", "b"]), op("q", "+", ["p", "p"]), op("s", "*", ["q", "q"]), op("y", "-", ["s", "p"])],
        "view": [op("p", "*", ["a", "b"]), op("q", "transpose", ["p"], (0, 1)), op("s", "transpose", ["q"], (1, 0)), op("y", "*", ["s", "p"])],
        "view2": [op("p", "*", ["a", "b"]), op("q", "slice", ["p"], ("text:0",)), op("s", "slice", ["p"], ("text:-1",)), op("y", "*", ["q", "s"])],
        "view3": [op("q", "slice", ["a"], ("text:0",)), op("s", "neg", ["q"]), op("y", "*", ["q", "s"])],
        "viewskip": [op("p", "*", ["a", "b"]), op("q", "transpose", ["p"], (0, 1)), op("s", "neg", ["q"]), op("u", "transpose", ["s"], (0, 1)), op("y", "*", ["u", "p"])],
        "untr": [op("p", "*", ["c", "c"]), op("q", "*", ["a", "p"]), op("s", "*", ["q", "c"]), op("y", "+", ["s", "p"])],
        "det": [op("p", "*", ["a", "b"]), op("q", "detach", ["p"]), op("y", "*", ["p", "q"])],
        "cat": [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("y", "cat", ["p", "q", "a"], 1)],
        "catself": [op("p", "*", ["a", "b"]), op("y", "cat", ["p", "p"], 0)],
        "sum": [op("p", "*", ["a", "b"]), op("q", "sum", ["p"]), op("s", "mean", ["p"]), op("u", "*", ["q", "s"]), op("y", "*", ["p", "u"])],
        "max": [op("p", "*", ["a", "b"]), op("q", "max", ["p"]), op("y", "*", ["p", "q"])],
        "wide": [op("p", "*", ["a", "b"]), op("q1", "neg", ["p"]), op("q2", "abs", ["p"]), op("q3", "+", ["p", "a"]), op("s", "+", ["q1", "q2"]), op("y", "+", ["s", "q3"])],
        "late": [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("s", "neg", ["q"]), op("u", "neg", ["s"]), op("v", "*", ["u", "a"]), op("y", "+", ["v", "p"])],
        "reshape": [op("p", "*", ["a", "b"]), op("q", "reshape", ["p"], (-1,)), op("s", "sum", ["q"]), op("y", "*", ["p", "s"])],
        "type": [op("p", "*", ["a", "b"]), op("q", "type", ["p"], "f64"), op("y", "*", ["q", "p"])],
    }
    ret = ["p", "q", "s", "u", "y", "m"]
    for x in (FLT if th else ("f32",)):
        INS = [IN("a", x, ["n", "m"], req=True), IN("b", x, ["m"], req=True), IN("c", x, ["n", "m"])]
        for k, g in G.items():
            yield (INS + g + close(), J, o)
            dsts = [s[1] for s in g]
            yield (INS + g + [("retain", d) for d in dsts] + close(), J, o)
            for d in dsts if th else dsts[:1]:
                yield (INS + g + [("retain", d)] + close(), J, o)
        # more consumers than a byte counts
        for k in (257,) if not th else (256, 257, 300):
            yield ([IN("a", x, [1], req=True), op("p", "*", ["a", "a"]), op("y", "cat", ["p"] * k, 0), op("r", "sum", ["y"]), ("bw", "r")], J, {"n": 1, "pins": 1})
        # roots that are not sums, roots that are views
        O1 = [IN("a", x, [1], req=True), IN("b", x, [1, 1], req=True)]
        for g in ([op("r", "*", ["a", "b"])], [op("r", "neg", ["a"])], [op("p", "*", ["a", "b"]), op("r", "reshape", ["p"], (1,))],
                  [op("p", "*", ["a", "b"]), op("r", "transpose", ["p"], (0, 1))], [op("p", "*", ["a", "b"]), op("r", "slice", ["p"], ("text:0", "text:0"))],
                  [op("p", "*", ["a", "b"]), op("q", "+", ["p", "p"]), op("r", "clone", ["q"])], [op("r", "slice", ["b"], ("text:0",))],
                  [op("r", "max", ["a"])], [op("r", "mean", ["b"])], [op("r", "type", ["a"], "f64")]):
            yield (O1 + g + [("bw", "r")], J, o)


def C16(th):
    J = ["floatonly"]
    for x in DT:
        for b in (False, True):
            yield ([IN("a", x, ["n"]), ("setreq", "a", b)], J, {"n": 2})
            yield ([IN("a", x, ["n", "m"]), op("y", "slice", ["a"], ("text:0",)), ("setreq", "y", b)], J, {"n": 3, "sizes": (1, 2)})
            yield ([IN("a", x, ["n", "m"]), op("y", "transpose", ["a"], (0, 1)), ("setreq", "y", b)], J, {"n": 3, "sizes": (1, 2)})
        for o_ in CMP + ARITH:
            for y in DT:
                yield ([IN("a", x, ["n"]), IN("b", y, ["n"]), op("y", o_, ["a", "b"]), ("setreq", "y", True)], J, {"n": 1, "sizes": (1, 2)})
        for o_ in DIFF1 + ["detach", "zeros_like", "ones_like"]:
            yield ([IN("a", x, ["n"]), op("y", o_, ["a"]), ("setreq", "y", True)], J, {"n": 1, "sizes": (1, 2)})
    yield from totype(J, [(x, y) for x in FLT for y in DT], (0, 1, 2), 2, (True,))
    for x in FLT:
        for y in DT:
            for chain in ([op("t", "*", ["a", "a"])], [op("t", "transpose", ["a"], (0, 1))], [op("t", "sum", ["a"])], [op("t", "detach", ["a"])],
                          [op("t", "reshape", ["a"], (-1,))], [op("t", "slice", ["a"], ("text:0",))], [op("t", "cat", ["a", "a"], 0)]):
                yield ([IN("a", x, ["n", "m"], req=True)] + chain + [op("y", "type", ["t"], y)], J, {"n": 3, "sizes": (1, 2)})
    B = FF + [(x, y) for x in FLT for y in INTS] + [(y, x) for x in FLT for y in INTS]
    yield from binary(J, ARITH + CMP, B, [(1, 1), (0, 1)], 2, ((True, True), (True, False), (False, True)), bad=0)
    yield from unary(J, DIFF1 + ["detach", "zeros_like", "ones_like"], FLT, (0, 1, 2), 2, (True,))
    yield from cats(J, B + [("i8", "f32", "f64"), ("f32", "i64", "i8")], (1,), 2, flags(2) + flags(3))
    yield from slices(J, FLT, SL1[:2] + SL2[:2], 3, (True,))
    yield from transposes(J, FLT, (2,), 2, (True,))
    yield from reshapes(J, FLT, RS[:6], 4, (True,), bad=0)
    yield from backward_all(J, False, 2)


def C17(th):
    J = ["illegal"]
    o = {"n": 6, "sizes": (0, 1, 2, 3)}
    for x in FLT:
        A = IN("a", x, ["n"], req=True)
        U = IN("b", x, ["n"])
        sh = (["n"], ["n", "m"], []) if th else (["n"], ["n", "m"])
        for s in sh:
            for q in (True, False):
                yield ([IN("a", x, s, req=q), PRE, ("bw", "a")], J, o)          # no history
            for o_ in ("neg", "clone", "abs", "sum"):
                yield ([IN("a", x, s), op("y", o_, ["a"]), PRE, ("bw", "y")], J, o)   # untracked
                if o_ != "sum":
                    yield ([IN("a", x, s, req=True), op("y", o_, ["a"]), PRE, ("bw", "y")], J, o)   # several elements
                    yield ([IN("a", x, s, req=True), op("z", "*", ["a", "a"]), op("k", "sum", ["z"]), ("bw", "k"),
                            op("y", o_, ["a"]), PRE, ("bw", "y")], J, o)   # gradients already there
        for o_ in ARITH:
            yield ([A, IN("b", x, ["m"], req=True), op("y", o_, ["a", "b"]), PRE, ("bw", "y")], J, dict(o, sizes=(0, 1, 2)))
            yield ([U, IN("a", x, ["n"]), op("y", o_, ["a", "b"]), PRE, ("bw", "y")], J, o)
        yield ([IN("a", x, ["n", "m"], req=True), op("y", "transpose", ["a"], (0, 1)), PRE, ("bw", "y")], J, o)
        yield ([IN("a", x, ["n", "m"], req=True), op("p", "*", ["a", "a"]), op("y", "transpose", ["p"], (0, 1)), PRE, ("bw", "y")], J, o)
        yield ([IN("a", x, ["n", "m"], req=True), op("y", "slice", ["a"], (("text:0", "text:2"),)), PRE, ("bw", "y")], J, o)
        yield ([IN("a", x, ["n", "m"], req=True), op("y", "reshape", ["a"], (-1,)), PRE, ("bw", "y")], J, o)
        yield ([A, op("y", "cat", ["a", "a"], 0), PRE, ("bw", "y")], J, o)
        yield ([A, op("z", "sum", ["a"]), op("y", "detach", ["z"]), PRE, ("bw", "y")], J, o)
        yield ([A, op("y", "sum", ["a"]), ("setreq", "y", False), PRE, ("bw", "y")], J, o)
    for x in INTS:
        yield ([IN("a", x, ["n"]), op("y", "sum", ["a"]), PRE, ("bw", "y")], J, o)


def C18(th):
    J = ["throws", "accepts"]
    n = 40 if th else 20
    for x in (DT if th else ("f32", "i8")):
        yield from slices(J, (x,), SL1 + SL2 + SL3[:3] + SLC, n)
        yield from slices(J, (x,), [(1, ("i", "j")), (0, ("i",)), (1, (("b", "e"), ("c", "f"))), (2, ("i", "j", "k")), (2, (("b", "e"), (None, None), (None, None, None))),
                                    (0, ((None, None),))], 8)
        yield from transposes(J, (x,), (0, 1, 2, 3), 3, bad=True)
        yield from reshapes(J, (x,), RS + RS3 + [(2, (-1, -1)), (1, ("p", -1, -1)), (2, (-2,)), (2, (-1, -2)), (1, (-1, -1, -1)), (2, ("p", "q", -1)), (2, (0, -1)), (2, (0,)), (1, (-2, -2)), (2, (-1, "p", -1))], n, bad=0.5)
        yield from reshape_as(J, (x,), [(1, 1), (1, 2), (2, 1), (2, 2)], n, bad=0.6)
        yield ([op("y", "cat", [], 0)], J, {"n": 1})
        yield ([op("y", "cat", [], 1)], J, {"n": 1})
        yield from cats(J, [(x, x), (x, "f64"), (x, "i16", x)], (1, 2, 3), n, bad=0.25)
        for ra, rb, d in [(1, 2, 0), (2, 1, 0), (2, 1, 1), (1, 2, 1), (0, 0, 0), (1, 1, 1), (2, 2, 2), (2, 2, 3), (0, 1, 0), (1, 0, 0), (3, 2, 1), (1, 1, 2), (1, 1, 100)]:
            st = [IN("a", x, names("a", ra)), IN("b", x, names("b", rb)), op("y", "cat", ["a", "b"], d)]
            yield (st, J, {"n": 8, "sizes": (0, 1, 2)})
        for r, d in [(0, 0), (1, 1), (1, 2), (2, 2)]:
            yield ([IN("a", x, names("a", r)), op("y", "cat", ["a"], d)], J, {"n": 3})
    yield from makers(J, DT, (0, 1, 2), 2, kinds=("randn",))
    yield from likes(J, DT, (0, 1, 2), 2)
    for x in FLT:
        for y in DT:
            yield ([IN("a", x, ["n"], req=True), IN("b", y, ["n"]), PRE, ("iadd", "a", "b")], J + ["operands"], {"n": 2})
        yield ([IN("a", x, ["n"], req=True), IN("b", x, ["n"]), op("y", "*", ["a", "b"]), ("iadd", "y", "b")], J, {"n": 2})
        yield ([IN("a", x, ["n", "m"], req=True), IN("b", x, ["m"]), op("y", "slice", ["a"], ("text:0",)), ("iadd", "y", "b")], J, {"n": 3, "sizes": (1, 2)})
        yield ([IN("a", x, ["n", "m"], req=True), IN("b", x, ["n"]), op("y", "transpose", ["a"], (0, 1)), ("iadd", "y", "b")], J, {"n": 3, "sizes": (1, 2)})
    yield from iadds(J, DIAG, [(1, 1), (2, 1)], 3)
    yield from inits(J, True, True)
    # rejected before anything else happened
    yield from slices(["operands"], ("f32",), SL1[:3] + SL2[:3], n)
    yield from transposes(["operands"], ("f32",), (1, 2), 2, bad=True)
    yield from reshapes(["operands"], ("f32",), RS, n, bad=0.7)
    yield from cats(["operands"], [("f32", "i8"), ("i16", "i16", "f64")], (1, 2), n, bad=0.4)


def C19(th):
    J = ["ownership"]
    yield from forward_all(J, False, 2, (True,), ((True, True), (True, False), (False, True)), FLT, FF)
    yield from unary(J, DIFF1, FLT, (0, 1, 2, 3), 4, (True,))
    yield from cats(J, [("f32", "f64", "f32"), ("i8", "f32", "f64")], (1,), 3, flags(3))
    yield from backward_all(J, th, 2)
    for c in C14(th):
        yield (c[0], J, c[2])
    for c in C15(th):
        yield (c[0], J, c[2])


def C20(th):
    J = ["grads"]
    n = 4
    o = {"n": n, "sizes": (1, 2, 3), "pins": n}
    for x in (FLT if th else ("f32",)):
        A = IN("a", x, ["n", "m"], req=True)
        B = IN("b", x, ["m"], req=True)
        pre = [A, B]
        # graphs that share only leaves
        yield (pre + [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), ("bw", "r"), op("q", "/", ["a", "b"]), op("s", "sum", ["q"]), ("bw", "s")], J, o)
        yield (pre + [op("p", "*", ["a", "b"]), op("q", "/", ["a", "b"]), op("s", "sum", ["q"]), op("r", "sum", ["p"]), ("bw", "s"), ("bw", "r")], J, o)
        yield (pre + [op("p", "*", ["a", "b"]), op("q", "/", ["a", "b"]), op("s", "sum", ["q"]), op("r", "sum", ["p"]), ("bw", "r"), ("bw", "s")], J, o)
        # three passes
        yield (pre + [op("p", "*", ["a", "b"]), op("q", "/", ["a", "b"]), op("u", "-", ["b", "a"]), op("s", "sum", ["q"]), op("r", "mean", ["p"]), op("t", "max", ["u"]),
                      ("bw", "r"), ("bw", "s"), ("bw", "t")], J, o)
        # nodes with several consumers, after any number of earlier passes elsewhere
        yield (pre + [op("p", "*", ["a", "b"]), op("q", "+", ["p", "p"]), op("u", "*", ["q", "p"]), op("r", "sum", ["u"]), ("bw", "r")], J, dict(o, n=7, pins=7))
        yield (pre + [op("p", "*", ["a", "b"]), op("q", "neg", ["p"]), op("u", "/", ["q", "p"]), op("w", "-", ["u", "q"]), op("v", "*", ["w", "p"]), op("r", "mean", ["v"]), ("bw", "r")], J, dict(o, n=7, pins=7))
        yield (pre + [op("p", "*", ["a", "b"]), op("v", "transpose", ["p"], (0, 1)), op("u", "clone", ["v"]), op("w", "*", ["u", "v"]), op("r", "sum", ["w"]), ("bw", "r"),
                      op("q", "*", ["a", "a"]), op("x", "-", ["q", "q"]), op("y", "*", ["x", "q"]), op("s", "sum", ["y"]), ("bw", "s")], J, dict(o, n=7, pins=7))
        # shared nodes
        shared = {
            "sum twice": [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), ("bw", "r"), ("bw", "r")],
            "two roots": [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), op("s", "mean", ["p"]), ("bw", "r"), ("bw", "s")],
            "root in graph": [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), op("s", "*", ["r", "r"]), ("bw", "r"), ("bw", "s")],
            "root twice": [op("r", "sum", ["a"]), ("bw", "r"), ("bw", "r")],
            "view": [op("v", "transpose", ["a"], (0, 1)), op("r", "sum", ["v"]), op("s", "mean", ["v"]), ("bw", "r"), ("bw", "s")],
            "clone": [op("v", "clone", ["a"]), op("r", "sum", ["v"]), op("s", "mean", ["v"]), ("bw", "r"), ("bw", "s")],
            "later": [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), ("bw", "r"), op("q", "neg", ["p"]), op("s", "sum", ["q"]), ("bw", "s")],
            "thrice": [op("p", "*", ["a", "b"]), op("r", "sum", ["p"]), op("s", "mean", ["p"]), op("t", "max", ["p"]), ("bw", "r"), ("bw", "s"), ("bw", "t")],
        }
        for k, g in shared.items():
            yield (pre + g, J, dict(o, name=k))
        # retained gradients of an earlier pass do not enter the next one
        for k, o_ in (("sum", "sum"), ("mean", "mean"), ("max", "max"), ("min", "min")):
            yield ([A, op("r", o_, ["a"]), ("retain", "r"), ("bw", "r"), ("bw", "r")], J, dict(o, name="retained root " + k))
        yield ([IN("a", x, [1], req=True), op("r", "*", ["a", "a"]), ("retain", "r"), ("bw", "r"), ("bw", "r")], J, dict(o, name="retained root *"))
        yield ([IN("a", x, [1], req=True), op("r", "neg", ["a"]), ("retain", "r"), ("bw", "r"), ("bw", "r"), ("bw", "r")], J, dict(o, name="retained root neg"))


def C21(th):
    """full-mantissa operands: an f64 result that passed through a narrower
    intermediate is off by far more than double rounding"""
    n = 5 if th else 3
    o = {"modes": ("frac",), "prec": True}
    P = [("f64", y) for y in DT] + [(y, "f64") for y in DT if y != "f64"]
    yield from binary(["values"], ARITH, P, [(1, 1), (0, 1), (2, 1), (2, 2), (0, 0)], n, **o)
    for x in FLT:
        for r in (0, 1, 2, 3):
            for k in DIFF1:
                yield ([IN("a", x, names("a", r)), PRE, op("y", k, ["a"])], ["values"], dict({"n": n, "grid": sgrid(names("a", r), n, lo=1, seed=k)}, **o))
    for x in DT:
        for y in DT:
            if "f64" in (x, y):
                yield ([IN("a", x, ["n", "m"]), PRE, op("y", "type", ["a"], y)], ["values"], dict({"n": n, "sizes": (1, 2, 3)}, **o))
                yield ([IN("a", x, ["n", "m"]), IN("b", y, ["n", "m"]), PRE, op("y", "cat", ["a", "b"], 1)], ["values"], dict({"n": n, "sizes": (1, 2, 3)}, **o))
                yield ([IN("a", x, ["n", "m"]), IN("b", y, ["m"]), PRE, ("iadd", "a", "b")], ["values"], dict({"n": n, "sizes": (1, 2, 3)}, **o))
    G = ["grads"]
    D = ["f64"]
    yield from bwbin(G, ARITH, [("f64", "f64")], [(1, 1), (2, 1), (0, 1), (2, 2)], n, **o)
    yield from bwbin(G, ARITH, [("f64", y) for y in INTS], [(1, 1)], n, ((True, False),), **o)
    yield from bwbin(G, ARITH, [(y, "f64") for y in INTS], [(1, 1)], n, ((False, True),), **o)
    yield from bwun(G, DIFF1, D, (0, 1, 2), n, **o)
    yield from bwview(G, D, n, **o)
    yield from bwcat(G, [("f64", "f64"), ("f64", "f64", "f64")], n, **o)
    for k, (st, J, oo) in enumerate(cap(C15(False), 200 if th else 30, "C21")):
        if not any(s[0] in ("in", "weight") and "f32" in s for s in st) and not any(s[0] == "op" and s[2] == "type" for s in st):
            yield (st, G, dict(oo, **o))


def C22(th):
    J = ["draws"]
    for x in FLT:
        for r in (0, 1, 2, 3):
            for m in (1, 2, 3):
                for sz in ([3] * r, [4, 1, 2][:r], [2, 5, 3][:r]) + (([7, 2, 4][:r], [1, 6, 5][:r]) if th else ()):
                    yield ([op("x%d" % i, "randn", [], (sz, x)) for i in range(m)], J, {"n": 1, "pins": 9})
        yield ([op("x", "randn", [], ([33 if not th else 200], x))], J, {"n": 1, "pins": 9})
        yield ([op("x", "randn", [], ([0, 3], x)), op("y", "randn", [], ([3], x))], J, {"n": 1, "pins": 9})
        for y in FLT:
            yield ([op("x", "randn", [], ([4], x)), op("y", "randn", [], ([2, 2], y)), op("z", "randn_like", ["x"])], J, {"n": 1, "pins": 9})
            A = IN("a", x, ["n", "m"])
            yield ([A, op("x", "randn_like", ["a"]), op("y", "randn_like", ["a"])], J, {"n": 4, "sizes": (1, 2, 3), "pins": 9})
            for r in (0, 1, 3, 4):
                yield ([IN("a", x, names("a", r)), op("x", "randn_like", ["a"]), op("y", "randn_like", ["x"])], J, {"n": 3 if r else 1, "sizes": (1, 2, 3), "pins": 9})
            yield ([A, op("b", "transpose", ["a"], (0, 1)), op("x", "randn_like", ["b"]), op("y", "randn", [], ([2], y))], J, {"n": 4, "sizes": (1, 2, 3), "pins": 9})


def C23(th):
    J = ["printed"]
    for x in DT:
        for r in (0, 1, 2, 3) + ((4,) if th else ()):
            ns = names("a", r)
            n = 6 if not th else 20
            yield ([IN("a", x, ns), ("str", "s", "a")], J, {"n": n if r else 2, "grid": sgrid(ns, n, seed=("str", x)), "pins": 30, "modes": ("small", "ext", "big", "mixb", "ties")})
        A = IN("a", x, ["n", "m"], req=x in FLT)
        B = IN("a", x, ["n", "m", "k"])
        for chain in ([op("y", "transpose", ["a"], (0, 1))], [op("y", "slice", ["a"], ("text:0",))],
                      [op("y", "slice", ["a"], (("text:0", None), (None, None, "text:2")))],
                      [op("y", "slice", ["a"], ("text:-1", "text:-1"))],
                      [op("w", "slice", ["a"], ("text:-1",)), op("y", "slice", ["w"], ("text:-1",))],
                      [op("w", "transpose", ["a"], (0, 1)), op("y", "slice", ["w"], (("text:1", None),))],
                      [op("y", "reshape", ["a"], (-1,))], [op("y", "reshape", ["a"], (1, -1, 1))],
                      [op("w", "transpose", ["a"], (0, 1)), op("y", "reshape", ["w"], (-1,))],
                      [op("y", "sum", ["a"])], [op("y", "+", ["a", "a"])], [op("y", "detach", ["a"])],
                      [op("w", "transpose", ["a"], (0, 1)), op("y", "contiguous", ["w"])], [op("w", "transpose", ["a"], (0, 1)), op("y", "clone", ["w"])],
                      [op("y", "<", ["a", "a"])], [op("y", "cat", ["a", "a"], 1)], [op("w", "sum", ["a"]), op("y", "reshape", ["w"], (1,))]):
            yield ([A] + chain + [("str", "s", "y")], J, {"n": 4, "sizes": (1, 2, 3), "pins": 30, "modes": ("small", "ext", "mixb")})
        for chain in ([op("y", "transpose", ["a"], (0, 2))], [op("w", "transpose", ["a"], (1, 2)), op("y", "slice", ["w"], ((None, None, "text:2"), "text:0"))]):
            yield ([B] + chain + [("str", "s", "y")], J, {"n": 4, "sizes": (1, 2, 3), "pins": 30})
        yield ([A, ("str", "q", "a"), op("y", "transpose", ["a"], (0, 1)), ("str", "s", "y"), ("str", "u", "a")], J, {"n": 3, "sizes": (1, 2, 3), "pins": 30})
        yield ([A, ("acc", "g", "grad", "a"), ("str", "s", "g")], J, {"n": 2, "sizes": (1, 2), "pins": 9})
    for x in FLT:
        A = IN("a", x, ["n", "m"], req=True)
        yield ([A, op("p", "*", ["a", "a"]), op("r", "sum", ["p"]), ("bw", "r"), ("str", "s", "a"), ("str", "u", "r"),
                ("acc", "g", "grad", "a"), ("str", "z", "g")], J, {"n": 3, "sizes": (1, 2, 3), "pins": 30})
    # texts of the tensors that the other properties' sessions compute
    seen = set()
    for k in ("C03", "C04", "C06", "C09", "C10"):
        for st, _, o in cap(CHECKS[k](False), 400 if th else 40, "C23" + k):
            if any(s[0] in ("bw", "iadd", "str", "release") for s in st):
                continue
            z = [s[1] for s in st if s[0] in ("op", "init")]
            if z:
                yield (list(st) + [("str", "txt", z[-1])], J, dict(o, n=2, pins=30))


def C24(th):
    J = ["accessors"]
    acc = ["size", "stride", "numel", "type", "requires_grad", "retain_grad", "is_contiguous"]
    for w in acc:
        for x in DT:
            for r in (0, 1, 2, 3):
                for q in (False, True):
                    if q and x not in FLT:
                        continue
                    yield ([IN("a", x, names("a", r), req=q), ("acc", "r", w, "a")], J, {"n": 10, "grid": sgrid(names("a", r), 10)})
        for x in ("f32", "i16"):
            A = IN("a", x, ["n", "m"], req=x in FLT)
            for chain in ([op("y", "transpose", ["a"], (0, 1))], [op("y", "slice", ["a"], ("text:0",))], [op("y", "slice", ["a"], (("text:0", None), (None, None, "text:2")))],
                          [op("y", "reshape", ["a"], (-1,))], [op("y", "sum", ["a"])], [op("y", "*", ["a", "a"])], [op("y", "detach", ["a"])],
                          [op("y", "contiguous", ["a"])], [op("y", "clone", ["a"])], [op("y", "<", ["a", "a"])], [op("y", "cat", ["a", "a"], 1)]):
                yield ([A] + chain + [("acc", "r", w, "y")], J, {"n": 6, "sizes": (1, 2, 3), "pins": 6})
                if w == "retain_grad" and x in FLT:
                    for b in (True, False):
                        yield ([A] + chain + [("retain", "y", b), ("acc", "r", w, "y")], J, {"n": 3, "sizes": (1, 2, 3), "pins": 3})
    for x in FLT:
        A = IN("a", x, ["n", "m"], req=True)
        for b in (True, False):
            yield ([A, ("setreq", "a", b), ("acc", "r", "requires_grad", "a")], J, {"n": 2})
        yield ([A, ("acc", "g", "grad", "a")], J, {"n": 2})
        # sequences of the two setters, on leaves and on results: each flag is
        # what was last asked for, whatever happened to the other
        F = [("setreq", False), ("setreq", True), ("retain", False), ("retain", True)]
        for k in ("a", "p"):
            for seq in itertools.product(F, repeat=2 if not th else 3):
                for first in ((), (("retain", True),)):
                    for w in ("requires_grad", "retain_grad"):
                        yield ([A, op("p", "*", ["a", "a"])] + [(f, k, b) for f, b in first + seq] + [("acc", "r", w, k)], J, {"n": 1, "sizes": (1, 2)})
        for w in ("requires_grad", "retain_grad", "size", "stride", "numel", "type", "is_contiguous"):
            for k in ("a", "p", "r"):
                for ret in (True, False):
                    yield ([A, op("p", "*", ["a", "a"]), ("retain", "p", ret), op("r", "sum", ["p"]), ("bw", "r"), ("acc", "q", w, k)], J, {"n": 2, "sizes": (1, 2)})
        yield ([A, op("p", "*", ["a", "a"]), op("r", "sum", ["p"]), ("bw", "r"), ("acc", "g", "grad", "a")], J, {"n": 3, "sizes": (1, 2)})
        yield ([A, op("p", "*", ["a", "a"]), ("retain", "p"), op("r", "sum", ["p"]), ("bw", "r"), ("acc", "g", "grad", "p")], J, {"n": 3, "sizes": (1, 2)})


def C25(th):
    J = ["rebound", "bindings"]
    o = {"n": 4, "sizes": (0, 1, 2, 3), "pins": 4}
    for x in DT:
        for y in DT if th else (x, DT[(DT.index(x) + 3) % 6]):
            A, B, Cc = IN("a", x, ["n", "m"], req=x in FLT), IN("b", y, ["n", "m"]), IN("c", x, ["m"])
            for how in ("copy", "move"):
                # same shape, other shape, other dtype; either side tracked
                yield ([A, B, Cc, ("assign", "b", "a", how)], J, o)
                yield ([A, B, Cc, ("assign", "a", "b", how)], J, o)
                yield ([A, B, Cc, ("assign", "c", "a", how)], J, o)
                yield ([A, B, Cc, ("assign", "a", "c", how)], J, o)
                yield ([A, B, Cc, ("assign", "a", "b", "copy"), ("assign", "b", "c", how)], J, o)
                # views of a rebound handle stay on the old tensor
                for v in ([op("v", "transpose", ["b"], (0, 1))], [op("v", "detach", ["b"])], [op("v", "reshape", ["b"], (-1,))]):
                    yield ([A, B, Cc] + v + [("assign", "b", "c", how)], J, o)
                    yield ([A, B, Cc] + v + [("assign", "b", "v", how)], J, o)
                    yield ([A, B, Cc] + v + [("assign", "v", "c", how)], J, o)
                    yield ([A, B, Cc] + v + [("assign", "v", "b", how)], J, o)
            yield ([A, B, Cc, ("assign", "a", "a", "copy")], J, o)
            yield ([A, B, Cc, ("ctor", "d", "a")], J, o)
            yield ([A, B, Cc, op("v", "transpose", ["a"], (0, 1)), ("ctor", "d", "v")], J, o)
        for nest in ((1, 2), ((1, 2), (3, 4)), ((1, 2, 3),), ()):
            for y in DT:
                yield ([IN("a", y, [2, 2], req=y in FLT), op("v", "reshape", ["a"], (-1,)), op("k", "clone", ["a"]), op("e", "detach", ["a"]),
                        ("assign", "e", "k", "copy"), ("assigninit", "a", x, nest)], J, {"n": 2})
                yield ([IN("a", y, [2]), op("v", "detach", ["a"]), ("assigninit", "v", x, nest)], J, {"n": 2})
        # a copied handle and in-place addition: the addition shows in both
        yield ([IN("a", x, ["n"]), IN("b", x, ["n"]), IN("c", x, ["n"]), ("assign", "c", "a", "copy"), ("iadd", "a", "b")], J, o)
        yield ([IN("a", x, ["n"]), IN("b", x, ["n"]), IN("c", x, ["n"]), ("assign", "c", "a", "copy"), ("iadd", "c", "b")], J, o)
        yield ([IN("a", x, ["n"]), IN("b", x, ["n"]), IN("c", x, ["n"]), op("k", "clone", ["a"]), ("assign", "c", "a", "copy"), ("assign", "a", "b", "copy"), ("iadd", "c", "b")], J, o)
        for k in ARITH:
            yield ([IN("a", x, ["n"]), IN("b", x, ["n"]), ("assignop", "a", k, ["a", "b"], None)], J, dict(o, lo=1))
    # rebinding inside a graph: gradients go to the tensors, not to the names
    G = J + ["grads"]
    g = {"n": 4, "sizes": (1, 2, 3), "pins": 4}
    for x in FLT:
        A, B = IN("a", x, ["n", "m"], req=True), IN("b", x, ["m"], req=True)
        end = [op("r", "sum", ["y"]), ("bw", "r")]
        for k in ARITH:
            yield ([A, B, op("y", k, ["a", "b"]), ("assignop", "y", "*", ["y", "a"], None)] + end, G, g)
            yield ([A, B, op("y", "*", ["a", "b"]), ("assignop", "a", k, ["a", "b"], None), ("assignop", "y", "*", ["y", "a"], None)] + end, G, g)
            yield ([A, B, op("y", k, ["a", "b"]), ("assign", "a", "y", "copy"), ("assign", "b", "y", "copy"), ("assignop", "y", "*", ["a", "b"], None)] + end, G, g)
            yield ([A, B, op("y", k, ["a", "b"]), ("assigninit", "a", x, (1, 2)), ("assigninit", "b", x, (1, 2))] + end, G, g)
            yield ([A, B, op("y", k, ["a", "b"]), ("ctor", "z", "y"), op("y", "*", ["z", "z"])] + end, G, g)
        for k in ("neg", "abs", "clone", "sum", "mean", "max", "min"):
            yield ([A, B, op("y", "*", ["a", "b"]), ("assignop", "y", k, ["y"], None), ("assignop", "y", "*", ["y", "b"], None)] + end, G, g)
        for v in (("transpose", (0, 1)), ("reshape", (-1,)), ("slice", ("text:0",))):
            yield ([A, B, op("y", v[0], ["a"], v[1]), ("assignop", "a", v[0], ["a"], v[1]), ("assignop", "y", "*", ["y", "a"], None)] + end, G, g)
        # an optimiser step: new leaves, then another pass
        yield ([A, B, op("y", "*", ["a", "b"])] + end + [("assignop", "a", "clone", ["a"], None), ("assignop", "a", "detach", ["a"], None), op("y2", "*", ["a", "b"]), op("r2", "sum", ["y2"]), ("bw", "r2")], G, g)


# ---------------------------------------------------------------- many dimensions, many pieces
def wide(J, bw=False):
    """ranks 4 to 6, up to nine pieces in cat, longer extents"""
    q = (False, True)
    if not bw:
        for r in (4, 5):
            yield from binary(J, ARITH + CMP, [("f32", "i16"), ("i64", "f64")], [(r, r), (r, 2), (1, r), (2, r), (r, 0)], 3, bad=0.15)
            yield from unary(J, DIFF1 + ["detach"], ("f32", "i8"), (r,), 3)
            yield from unary(J, DIFF1 + ["detach"], ("f64",), (r,), 2, (True,))
            yield from totype(J, [("f32", "i64"), ("i8", "f64")], (r,), 3)
            yield from cats(J, [("i16", "f32")], (r,), 3)
            yield from transposes(J, ("i16",), (r,), 2)
            yield from transposes(J, ("f32",), (r,), 1, (True,))
            yield from likes(J, ("f32", "i16"), (r,), 2)
            yield from makers(J, ("f64", "i8"), (r,), 2, noint=True)
        yield from binary(J, ARITH + CMP, [("f32", "f32")], [(6, 6), (6, 3)], 2, bad=0)
        yield from unary(J, DIFF1 + ["detach"], ("f32",), (6,), 2)
        yield from transposes(J, ("f32",), (6,), 1)
        for k in (4, 5, 9):
            yield from cats(J, [tuple(DT[(i * 5 + k) % 6] for i in range(k)), ("f32",) * k], (1, 2) if k < 9 else (1,), 3)
            yield from cats(J, [("f64",) * k], (1,), 2, (tuple(i % 3 == 1 for i in range(k)),))
        S = [(4, ("i", "j", "k", "l")), (4, ("i", ("b", "e", "s"), "k", (None, None, "t"))), (4, ((None, None), (None, None), (None, None), "l")), (5, ("i",)),
             (5, ((None, None), "j", (None, None), "l", ("b", "e"))), (5, ((None, None, "text:-1"),) * 5), (4, ("text:0", "text:-1", (None, None, "text:2"))),
             (6, ((None, None), (None, None), (None, None), (None, None), "text:0", "text:-1"))]
        yield from slices(J, ("f32", "i8"), S, 6)
        yield from slices(J, ("f64",), S[:5], 3, (True,))
        R = [(4, (-1,)), (4, ("p", "q")), (4, ("p", "q", "r", "u")), (3, ("p", "q", "r", "u")), (5, ("p", -1)), (2, ("p", "q", "r", "u", -1)), (5, ("p", "q", "r")), (4, ("p", -1, "q", "r", 1))]
        yield from reshapes(J, ("f32", "i16"), R, 6, ops=("reshape", "reshape_s"), bad=0.1)
        yield from reshapes(J, ("f64",), R, 4, (True,), bad=0)
        for A, t in ((["a0", "a1", "a2", "a3"], (0, 2)), (["a0", "a1", "a2", "a3"], (1, 3)), (["a0", "a1", "a2", "a3", "a4"], (0, 1)), (["a0", "a1", "a2", "a3", "a4", "a5"], (0, 1))):
            for x in ("f32", "i16"):
                a = IN("a", x, A)
                for z in ([op("y", "reshape", ["t"], (-1,))], [op("y", "contiguous", ["t"])], [op("y", "clone", ["t"])], [op("y", "+", ["t", "t"])]):
                    yield ([a, PRE, op("t", "transpose", ["a"], t)] + z, J, {"n": 3, "sizes": (1, 2, 3), "pins": 3})
        return
    for r in (4, 5):
        yield from bwbin(J, ARITH, [("f32", "f64")], [(r, r), (r, 2), (2, r)], 2, ((True, True),))
        yield from bwun(J, DIFF1, ("f32",), (r,), 2)
    yield from bwcat(J, [("f32", "f64", "f32", "f64"), ("f32",) * 5], 2, reqs=((True,) * 4, (True, False, True, True), (True,) * 5, (False, True, True, False, True)), ranks=(1, 2))
    yield from bwcat(J, [("f32",) * 9], 2, reqs=(tuple(i % 2 == 0 for i in range(9)),), ranks=(1,))
    yield from bwcat(J, [("f32", "f32")], 2, ranks=(4,))
    A4 = IN("a", "f32", ["a0", "a1", "a2", "a3"], req=True)
    for v in ([op("y", "transpose", ["a"], (0, 3))], [op("y", "transpose", ["a"], (1, 2))], [op("y", "reshape", ["a"], (-1,))],
              [op("y", "slice", ["a"], ((None, None), "text:0", (None, None, "text:-1"), "text:-1"))], [op("t", "transpose", ["a"], (0, 2)), op("y", "reshape", ["t"], (-1,))],
              [op("t", "slice", ["a"], ("text:0",)), op("y", "*", ["a", "t"])]):
        yield ([A4] + v + close_over("y"), J, {"n": 3, "sizes": (1, 2, 3), "pins": 3})


# ---------------------------------------------------------------- shared sessions
FWD = ("C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C16", "C18")
BWD = ("C12", "C13", "C14", "C15")
SHARE = {
    # property: (rules for forward sessions, rules for backward sessions)
    "C01": (["etypes", "allocation"], ["etypes", "allocation"]),
    "C02": (["dtype"], []),
    "C03": (["values"], []),
    "C04": (["values"], []),
    "C05": (["shape", "throws"], []),
    "C06": (["alias"], []),
    "C07": (["operands", "rng"], ["unchanged"]),
    "C08": (["bounds", "allocation"], ["bounds", "allocation"]),
    "C09": (["shape", "values", "alias", "throws"], []),
    "C10": (["shape", "values", "alias", "throws"], []),
    "C11": (["tracking"], []),
    "C12": ([], ["grads"]),
    "C13": ([], ["untracked", "grads"]),
    "C14": ([], ["grads", "allocation"]),
    "C15": ([], ["grads", "intermediates"]),
    "C16": (["floatonly"], ["floatonly"]),
    "C17": ([], []),
    "C18": (["throws", "accepts"], []),
    "C19": (["ownership"], ["ownership"]),
}
LAST = {   # the sessions a property is about, by their last operation
    "C03": lambda o: o in ARITH + CMP or o == "iadd",
    "C04": lambda o: o not in ARITH + CMP and o != "iadd",
    "C05": lambda o: o in ARITH + CMP,
    "C09": lambda o: o == "slice",
    "C10": lambda o: o in ("transpose", "transpose_s", "reshape", "reshape_s", "reshape_as"),
}


def lastop(st):
    for s in reversed(st):
        if s[0] == "op":
            return s[2]
        if s[0] in ("iadd", "init"):
            return s[0]
        if s[0] in ("all", "acc", "setreq", "retain", "zero", "bw"):
            return None
    return None


def cap(it, k, key):
    """a fixed sample of at most k sessions"""
    xs = list(it)
    if len(xs) <= k:
        return xs
    g = random.Random("%s|%s" % (key, SEED))
    return [xs[i] for i in sorted(g.sample(range(len(xs)), k))]


def forward_shared(pid, jf):
    for k in FWD:
        if k == pid:
            continue
        for st, J, o in CHECKS[k](False):
            z = lastop(st)
            if z is None or pid in LAST and not LAST[pid](z):
                continue
            if any(s[0] == "bw" for s in st):
                continue
            j = jf
            if z in ("iadd", "init"):
                j = [x for x in jf if x not in ("alias", "operands")] + (["others"] if "operands" in jf and z == "iadd" else [])
            if j:
                yield (st, j, o)


def backward_shared(pid, jb):
    for k in BWD:
        if k == pid:
            continue
        for st, J, o in CHECKS[k](False):
            ins = [s[1] for s in st if s[0] in ("in", "weight")]
            if not any(s[0] == "bw" for s in st):
                continue
            if any(s[0] in ("zero", "setreq") and s[1] not in ins for s in st):
                continue
            yield (st, jb, o)


def shared(pid, th):
    if pid not in SHARE:
        return
    jf, jb = SHARE[pid]
    if jf:
        for st, J, o in wide(jf):
            if pid not in LAST or LAST[pid](lastop(st)):
                yield (st, jf, o)
        yield from cap(forward_shared(pid, jf), 10 ** 6 if th else 2500, pid)
        for st, J, o in gen.programs(jf, 2500 if th else 160, SEED, False, "f"):
            if pid not in LAST or LAST[pid](lastop(st)):
                yield (st, jf, o)
    if jb:
        yield from wide(jb, True)
        yield from cap(backward_shared(pid, jb), 10 ** 6 if th else 200, pid)
        yield from gen.programs(jb, 2500 if th else 50, SEED, True, "b")


SEED = 1
CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
