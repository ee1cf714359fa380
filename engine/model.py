"""The specification: what each public operation means, on abstract tensors
(dtype, extents, element function)."""
import itertools
import terms as t

ORDER = ["i8", "i16", "i32", "i64", "f32", "f64"]
FLT = ("f32", "f64")
SKIP = object()      # the specification leaves this value open


class Throw(Exception):
    pass


class Open(Exception):
    """the specification says nothing about this call"""


class RT:
    """reference tensor"""
    __slots__ = ("dtype", "sizes", "f")

    def __init__(self, dtype, sizes, f):
        self.dtype = dtype
        self.sizes = list(sizes)
        self.f = f

    def __getitem__(self, i):
        return self.f(tuple(i))

    def idx(self):
        return itertools.product(*[range(n) for n in self.sizes])

    def numel(self):
        p = 1
        for n in self.sizes:
            p *= n
        return p


def larger(a, b):
    return ORDER[max(ORDER.index(a), ORDER.index(b))]


def bshape(u, v):
    n = max(len(u), len(v))
    out = []
    for i in range(1, n + 1):
        a = u[-i] if i <= len(u) else None
        b = v[-i] if i <= len(v) else None
        if a is None or b is None:
            out.append(b if a is None else a)
            continue
        if a != b and not (a == 1 and b != 0 or b == 1 and a != 0):
            raise Throw("broadcast")
        out.append(max(a, b))
    return out[::-1]


def bidx(idx, sizes):
    if not sizes:
        return ()
    k = idx[len(idx) - len(sizes):]
    return tuple(0 if n == 1 else i for i, n in zip(k, sizes))


def conv(x, ety):
    if x is SKIP:
        return SKIP
    return t.conv_const(x, ety)


def arith(op, a, b):
    dt = larger(a.dtype, b.dtype)
    sz = bshape(a.sizes, b.sizes)
    wide = dt if dt in ("i64", "f32", "f64") else "i32"

    def f(i):
        x, y = a[bidx(i, a.sizes)], b[bidx(i, b.sizes)]
        if x is SKIP or y is SKIP:
            return SKIP
        x, y = conv(x, wide), conv(y, wide)
        if op == "/" and y == 0 and dt not in FLT:
            return SKIP
        if dt not in FLT:
            r = {"+": x + y, "-": x - y, "*": x * y}.get(op)
            if r is not None and not -(1 << (t.ETYPES[wide][0] - 1)) <= r < 1 << (t.ETYPES[wide][0] - 1):
                return SKIP
            if op == "/" and y == -1 and x == -(1 << (t.ETYPES[wide][0] - 1)):
                return SKIP
        return conv(t.eval_vop(op, wide, x, y), dt)
    return RT(dt, sz, f)


def compare(op, a, b):
    dt = larger(a.dtype, b.dtype)
    sz = bshape(a.sizes, b.sizes)

    def f(i):
        x, y = a[bidx(i, a.sizes)], b[bidx(i, b.sizes)]
        if x is SKIP or y is SKIP:
            return SKIP
        r = t.eval_cmp(op, x, y)
        if r != t.eval_cmp(op, conv(x, dt), conv(y, dt)):
            return SKIP
        return int(r)
    return RT("i8", sz, f)


def total(a):
    s = 0
    for i in a.idx():
        if a[i] is SKIP:
            return SKIP
        s += a[i]
    if a.dtype not in FLT and not -(1 << 63) <= s < 1 << 63:
        return SKIP
    return s


def rsum(a):
    dt = "i64" if a.dtype not in FLT else "f64"
    s = total(a)
    return RT(dt, [], lambda i: conv(s, dt))


def rmean(a):
    dt = "i64" if a.dtype not in FLT else "f64"
    n = a.numel()
    if n == 0:
        return RT(dt, [], lambda i: SKIP)
    s = total(a)
    if s is SKIP:
        return RT(dt, [], lambda i: SKIP)
    return RT(dt, [], lambda i: t.cdiv(s, n) if dt == "i64" else s / n)


def extremum(which):
    def f(a):
        if a.numel() == 0:
            return RT(a.dtype, [], lambda i: SKIP)
        vs = [a[i] for i in a.idx()]
        if SKIP in [v for v in vs if v is SKIP]:
            return RT(a.dtype, [], lambda i: SKIP)
        if any(v != v for v in vs):
            return RT(a.dtype, [], lambda i: SKIP)
        r = max(vs) if which == "max" else min(vs)
        return RT(a.dtype, [], lambda i: r)
    return f


def pointwise(fn):
    def f(a):
        low = {"i32": -(1 << 31), "i64": -(1 << 63)}.get(a.dtype)

        def g(i):
            x = a[i]
            return SKIP if x is SKIP or x == low and fn(x) != x else conv(fn(x), a.dtype)
        return RT(a.dtype, a.sizes, g)
    return f


def astype(a, dt):
    def f(i):
        x = a[i]
        if x is SKIP:
            return SKIP
        if dt not in FLT:
            bits = t.ETYPES[dt][0]
            if isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))):
                return SKIP
            if isinstance(x, float) and not -(1 << (bits - 1)) <= int(x) < (1 << (bits - 1)):
                return SKIP
        return conv(x, dt)
    return RT(dt, a.sizes, f)


def transpose(a, i, j):
    if not (0 <= i < len(a.sizes) and 0 <= j < len(a.sizes)):
        raise Throw("dimension")
    if i == j:
        raise Throw("same dimension")

    def p(x):
        x = list(x)
        x[i], x[j] = x[j], x[i]
        return tuple(x)
    return RT(a.dtype, p(a.sizes), lambda k: a[p(k)])


def linear(i, sizes):
    r = 0
    for k, n in zip(i, sizes):
        r = r * n + k
    return r


def unlinear(r, sizes):
    out = []
    for n in reversed(sizes):
        out.append(r % n)
        r //= n
    return tuple(reversed(out))


def reshape(a, target):
    target = list(target)
    if any(x < -1 for x in target) or target.count(-1) > 1:
        raise Throw("reshape")
    n = a.numel()
    if -1 in target:
        p = 1
        for x in target:
            if x != -1:
                p *= x
        if p == 0:
            if n != 0:
                raise Throw("reshape")
            raise Open()
        if n % p:
            raise Throw("reshape")
        target[target.index(-1)] = n // p
    p = 1
    for x in target:
        p *= x
    if p != n:
        raise Throw("reshape")
    return RT(a.dtype, target, lambda i: a[unlinear(linear(i, target), a.sizes)])


def slices(a, parts):
    """parts: list of ints or (b, e, s) with None for omitted parts"""
    if len(parts) > len(a.sizes):
        raise Throw("too many parts")
    maps = []
    sizes = []
    for d, n in enumerate(a.sizes):
        if d < len(parts):
            p = parts[d]
            if isinstance(p, int):
                if not -n <= p < n:
                    raise Throw("index")
                maps.append((p % n, None))
                continue
            if p[2] == 0:
                raise Throw("step")
            r = range(n)[slice(*p)]
        else:
            r = range(n)
        maps.append((r, len(sizes)))
        sizes.append(len(r))

    def f(i):
        return a[tuple(m if k is None else m[i[k]] for m, k in maps)]
    return RT(a.dtype, sizes, f)


def cat(ts, dim):
    if not ts:
        raise Throw("nothing")
    dt = ts[0].dtype
    for x in ts[1:]:
        dt = larger(dt, x.dtype)
    r = len(ts[0].sizes)
    if not 0 <= dim < r:
        raise Throw("dim")
    for x in ts[1:]:
        if len(x.sizes) != r or any(i != dim and p != q for i, (p, q) in enumerate(zip(ts[0].sizes, x.sizes))):
            raise Throw("shape")
    sizes = list(ts[0].sizes)
    sizes[dim] = sum(x.sizes[dim] for x in ts)

    def f(i):
        i = list(i)
        for x in ts:
            if i[dim] < x.sizes[dim]:
                return conv(x[i], dt)
            i[dim] -= x.sizes[dim]
        raise IndexError
    return RT(dt, sizes, f)


def full(sizes, v, dt):
    x = RT("f64" if isinstance(v, float) else "i64", sizes, lambda i: v)
    return astype(x, dt)


def eye(n, m, dt):
    return RT(dt, [n, m], lambda i: conv(int(i[0] == i[1]), dt))
