"""The public operations: how a session invokes them and what they mean."""
import itertools
import random
import terms as t
import model as M
from model import Throw, Open, SKIP, RT, FLT, ORDER
from terms import C, ZERO, T
from interp import P, L, BP, Vec, Str, St, Blk, NULL
from harness import SV, SGV, TR, STR, TY, UL, Sess, valuations, KINDS
from ctx import Anchor

ARITH = ["+", "-", "*", "/"]
CMP = ["<", ">", "<=", ">=", "==", "!="]


class Op:
    def __init__(self, name, build, ref, nin=1, own="own", diff=False, grid=None, q=None, fixed=None):
        self.name = name
        self.build = build
        self.ref = ref
        self.nin = nin
        self.own = own        # own | view | open | callable(v, ins, ref)
        self.diff = diff
        self.grid = grid
        self.fixed = fixed


OPS = {}


def op(name, nin=1, own="own", diff=False, grid=None):
    def d(cls):
        OPS[name] = Op(name, cls.build, cls.ref, nin, own, diff, grid)
        return cls
    return d


def _bin(o, f, diff):
    OPS[o] = Op(o, lambda s, h, var: s.bin(o, h[0], h[1]), lambda v, r, var: f(o, r[0], r[1]), 2, "own", diff)


for _o in ARITH:
    _bin(_o, M.arith, True)
for _o in CMP:
    _bin(_o, M.compare, False)


def _un(name, ref, own="own", diff=False, meth=None):
    OPS[name] = Op(name, lambda s, h, var: s.mt(meth or name, h[0]), lambda v, r, var: ref(r[0]), 1, own, diff)


_un("neg", M.pointwise(lambda x: -x), diff=True, meth="operator-")
_un("pos", M.pointwise(lambda x: x), own="open", diff=True, meth="operator+")
_un("abs", M.pointwise(abs), diff=True)
_un("sum", M.rsum, diff=True)
_un("mean", M.rmean, diff=True)
_un("max", M.extremum("max"), diff=True)
_un("min", M.extremum("min"), diff=True)
_un("clone", M.pointwise(lambda x: x), diff=True)
_un("contiguous", M.pointwise(lambda x: x), diff=True)
_un("detach", M.pointwise(lambda x: x), own="view")

OPS["type"] = Op("type", lambda s, h, var: s.mt("type", h[0], [TY], [s.dt(var)]),
                 lambda v, r, var: M.astype(r[0], var), 1,
                 lambda ins, var: "own" if ins[0].dtype != var else "open", True)
OPS["transpose"] = Op("transpose", lambda s, h, var: s.mt("transpose", h[0], [UL, UL], [C(var[0]), C(var[1])]),
                      lambda v, r, var: M.transpose(r[0], *var), 1, "view", True)
OPS["transpose_s"] = Op("transpose_s", lambda s, h, var: s.st("transpose", [TR, UL, UL], [h[0], C(var[0]), C(var[1])]),
                        lambda v, r, var: M.transpose(r[0], *var), 1, "view", True)


def _slice_text(var, s=None):
    """var: tuple of parts; part: int-name / int / (b, e, st, colons)"""
    out = []
    for i, p in enumerate(var):
        if i:
            out.append(",")
        if isinstance(p, tuple):
            n = len(p)
            for j, x in enumerate(p):
                if j:
                    out.append(":")
                out += _num(x, s)
        else:
            out += _num(p, s)
    return out


def _num(x, s):
    if x is None:
        return []
    if isinstance(x, int):
        return list(str(x))
    if x.startswith("text:"):
        return list(x[5:])
    return [s.int(x, -6, 6)]


def _sl_build(s, h, var):
    cells = []
    for x in _slice_text(var, s):
        if isinstance(x, T):
            cells += [("num", x, 0, 2), ("num", x, 1, 2)]
        else:
            cells.append(x)
    k = s.c.put("str:%d" % s.nh, Str(tuple(cells)))
    return s.mt("operator[]", h[0], [STR], [L(k)])


def _sl_ref(v, r, var):
    parts = []
    for p in var:
        if isinstance(p, tuple):
            q = [_numval(v, x) for x in p]
            q += [None] * (3 - len(q))
            parts.append(tuple(q))
        else:
            parts.append(_numval(v, p))
    return M.slices(r[0], parts)


def _numval(v, x):
    if x is None or isinstance(x, int):
        return x
    if x.startswith("text:"):
        z = x[5:].strip()
        return int(z) if z else None
    return v.E.ev(v.s.intmap[x])


OPS["slice"] = Op("slice", _sl_build, _sl_ref, 1, "view", True)


def _rs_vec(s, var):
    out = []
    for x in var:
        out.append(C(x) if isinstance(x, int) else s.int(x, -2, 7))
    return Vec(out)


def _rs_own(ins, var):
    return _reshape_alias


def _rs_ref(v, r, var):
    return M.reshape(r[0], [_numval(v, x) for x in var])


def _reshape_alias(v, x):
    """'view' / 'own' / 'open' for a reshape of input x at valuation v"""
    sz = [n if isinstance(n, int) else v.E.ev(n) for n in x.sizes]
    st = [n if isinstance(n, int) else v.E.ev(n) for n in x.strides]
    n = 1
    for k in sz:
        n *= k
    if n == 1:
        return "view"
    if n == 0:
        return "open"
    if all(st[i - 1] == st[i] * sz[i] for i in range(1, len(sz))):
        return "view"
    pos = [sum(a * b for a, b in zip(i, st)) for i in itertools.product(*[range(k) for k in sz])]
    d = pos[1] - pos[0]
    if all(q - p == d for p, q in zip(pos, pos[1:])):
        return "open"
    return "own"


def _rs_grid(s, var, seed):
    """valuations with matching and non-matching targets"""
    rng = random.Random(seed)
    x = s.ins[0]
    syms = [z for z in x.sizes if z.op == "sym"]
    ts = [i[0] for i in s.ints]
    out = []
    choices = [0, 1, 2, 3, 4]
    for sz in itertools.product([1, 2, 3], repeat=len(syms)):
        n = 1
        for k in sz:
            n *= k
        for tv in itertools.product([-2, -1, 0, 1, 2, 3, 4, 6, 9], repeat=len(ts)):
            p = 1
            neg = 0
            for k in tv:
                if k < 0:
                    neg += 1
                else:
                    p *= k
            good = neg == 0 and p == n or neg == 1 and p and n % p == 0
            w = 1.0 if good else (0.25 if abs(p - n) <= 1 else 0.06)
            if rng.random() < w * 0.6:
                out.append(dict(zip(syms + ts, list(sz) + list(tv))))
    rng.shuffle(out)
    out.append(dict(zip(syms + ts, [0] * len(syms) + [0] * len(ts))))
    return out


OPS["reshape"] = Op("reshape", lambda s, h, var: s.mt("reshape", h[0], [SGV], [_rs_vec(s, var)]),
                    _rs_ref, 1, "reshape", True, _rs_grid)
OPS["reshape_s"] = Op("reshape_s", lambda s, h, var: s.st("reshape", [TR, SGV], [h[0], _rs_vec(s, var)]),
                      _rs_ref, 1, "reshape", True, _rs_grid)


def _ra_grid(s, var, seed):
    rng = random.Random(seed)
    a, b = s.ins[0], s.ins[1]
    out = []
    for sz in itertools.product([1, 2, 3], repeat=len(a.sizes)):
        n = 1
        for k in sz:
            n *= k
        for tz in itertools.product([1, 2, 3, 4, 6], repeat=len(b.sizes)):
            p = 1
            for k in tz:
                p *= k
            if rng.random() < (0.7 if p == n else 0.1):
                out.append(dict(zip(list(a.sizes) + list(b.sizes), sz + tz)))
    rng.shuffle(out)
    return out


OPS["reshape_as"] = Op("reshape_as", lambda s, h, var: s.mt("reshape_as", h[0], [TR], [h[1]]),
                       lambda v, r, var: M.reshape(r[0], r[1].sizes), 2, "reshape", True, _ra_grid)

VECT = "const std::vector<INNC::Tensor, std::allocator<INNC::Tensor>> &"


def _cat_build(s, h, var):
    k = s.c.put("vec:%d" % s.nh, Vec([s.I.load(x) for x in h]))
    return s.st("cat", [VECT, "const unsigned long"], [L(k), C(var)])


def _cat_grid(s, var, seed):
    rng = random.Random(seed)
    out = []
    r = max(len(x.sizes) for x in s.ins) if s.ins else 0
    for n in range(40):
        base = [rng.choice([0, 1, 2, 3]) for _ in range(r)]
        env = {}
        for x in s.ins:
            for d, z in enumerate(x.sizes):
                v = base[d]
                if d == var:
                    v = rng.choice([0, 1, 2, 3])
                elif rng.random() < 0.08:
                    v = rng.choice([0, 1, 2, 3])
                env[z] = v
        out.append(env)
    return out


OPS["cat"] = Op("cat", _cat_build, lambda v, r, var: M.cat(r, var), None, "own", True, _cat_grid)


# ---------------------------------------------------------------- constructors
def _szvec(s, n):
    if isinstance(n, (list, tuple)):
        return Vec([C(i) for i in n])
    return Vec([s.int("d%d" % i, 0, 3) for i in range(n)])


def _szval(v, n):
    if isinstance(n, (list, tuple)):
        return list(n)
    return [_numval(v, "d%d" % i) for i in range(n)]


def _mk(name, build, ref):
    OPS[name] = Op(name, build, ref, 0, "own", False)


_mk("zeros", lambda s, h, var: s.st("zeros", [SV, TY], [_szvec(s, var[0]), s.dt(var[1])]),
    lambda v, r, var: M.full(_szval(v, var[0]), 0, var[1]))
_mk("ones", lambda s, h, var: s.st("ones", [SV, TY], [_szvec(s, var[0]), s.dt(var[1])]),
    lambda v, r, var: M.full(_szval(v, var[0]), 1, var[1]))


def _fi_build(s, h, var):
    return s.st("full", [SV, "long", TY], [_szvec(s, var[0]), s.int("num", -(1 << 63), (1 << 63) - 1), s.dt(var[1])])


_mk("full_i", _fi_build, lambda v, r, var: M.full(_szval(v, var[0]), _numval(v, "num"), var[1]))


def _fd_build(s, h, var):
    x = t.mk("vsym", ("f64", "num"), "v")
    s.ints.append((x, -40, 40))
    return s.st("full", [SV, "double", TY], [_szvec(s, var[0]), x, s.dt(var[1])])


def _fd_ref(v, r, var):
    x = next(v.env[a[0]] for a in v.s.ints if a[0].op == "vsym")
    return M.full(_szval(v, var[0]), x, var[1])


_mk("full_d", _fd_build, _fd_ref)
_mk("eye2", lambda s, h, var: s.st("eye", [UL, UL, TY], [s.int("d0", 0, 4), s.int("d1", 0, 4), s.dt(var)]),
    lambda v, r, var: M.eye(_numval(v, "d0"), _numval(v, "d1"), var))
_mk("eye1", lambda s, h, var: s.st("eye", [UL, TY], [s.int("d0", 0, 4), s.dt(var)]),
    lambda v, r, var: M.eye(_numval(v, "d0"), _numval(v, "d0"), var))


def _rn_ref(v, r, var):
    if var[1] not in FLT:
        raise Throw("randn")
    return RT(var[1], _szval(v, var[0]), lambda i: SKIP)


_mk("randn", lambda s, h, var: s.st("randn", [SV, TY], [_szvec(s, var[0]), s.dt(var[1])]), _rn_ref)


def _fb_build(s, h, var):
    sz = _szvec(s, var[0])
    k = s.c.buffer("ext", t.sym("ext.bytes", 0, 1 << 40), var[1])
    s.ext = k
    return s.st("from_blob", ["void *", SV, TY], [BP(k, ZERO, "u8"), sz, s.dt(var[1])])


def _fb_ref(v, r, var):
    sz = _szval(v, var[0])
    es = t.ESIZE[var[1]]
    return RT(var[1], sz, lambda i: v.E.elem("ext", var[1], M.linear(i, sz) * es))


_mk("from_blob", _fb_build, _fb_ref)


def _ctor(s, pts, args):
    """Tensor constructor -> handle"""
    k = s.c.put("ct:%d" % s.nh, St("INNC::Tensor", {}))
    s.nh += 1
    f = s.c.fn("INNC::Tensor::Tensor", *pts)
    from interp import Dead
    from harness import Ended
    try:
        s.I.ctor_on(f, args, L(k))
    except Dead:
        s.dead = True
        raise Ended()
    return L(k)


IRANGE = {d: (-(1 << b), (1 << b) - 1) for d, b in (("i8", 7), ("i16", 15), ("i32", 31), ("i64", 63))}
CT = {"i8": "signed char", "i16": "short", "i32": "int", "i64": "long", "f32": "float", "f64": "double"}


def _sc_build(s, h, var):
    if var in FLT:
        x = t.mk("vsym", (var, "num"), "v")
        s.ints.append((x, -40, 40))
    else:
        x = s.int("num", *IRANGE[var])
    return _ctor(s, [CT[var]], [x])


def _sc_ref(v, r, var):
    x = v.s.ints[0][0]
    x = v.env[x] if x.op == "vsym" else v.E.ev(x)
    return RT(var, [], lambda i: M.conv(x, var))


_mk("scalar", _sc_build, _sc_ref)
_mk("ctor", lambda s, h, var: _ctor(s, [SV, TY], [_szvec(s, var[0]), s.dt(var[1])]),
    lambda v, r, var: RT(var[1], _szval(v, var[0]), lambda i: SKIP))


def _like(name, val):
    def ref(v, r, var):
        a = r[0]
        if name == "randn_like":
            if a.dtype not in FLT:
                raise Throw("randn")
            return RT(a.dtype, a.sizes, lambda i: SKIP)
        return M.full(a.sizes, val, a.dtype)
    OPS[name] = Op(name, lambda s, h, var: s.st(name, [TR], [h[0]]), ref, 1, "own", False)


_like("zeros_like", 0)
_like("ones_like", 1)
_like("randn_like", None)


# ---------------------------------------------------------------- initializer lists
class Ragged(Exception):
    pass


def init_value(s, dt, nest):
    """Tensor{...}: nest is a nested tuple of integers / names"""
    from interp import Dead
    from harness import Ended

    def mk(x):
        k = s.c.put("ti:%d" % s.nh, St("INNC::TensorInit", {}))
        s.nh += 1
        d = dt
        if x and isinstance(x[0], str) and x[0].startswith("@"):
            d, x = x[0][1:], x[1:]
        if all(not isinstance(y, tuple) for y in x) and not (len(x) == 0 and d is None):
            items = [(C(y) if d not in FLT else t.mk("vc", (d, float(y)), "v")) if isinstance(y, int) else num(y, d) for y in x]
            if d in FLT:
                items = [y for y in items]
            f = s.c.fn("INNC::TensorInit::TensorInit", "std::initializer_list<%s>" % CT[d])
            s.I.ctor_on(f, [Vec(items)], L(k))
        else:
            items = [s.I.load(L(mk(y))) for y in x]
            f = s.c.fn("INNC::TensorInit::TensorInit", "std::initializer_list<INNC::TensorInit>")
            s.I.ctor_on(f, [Vec(items)], L(k))
        return k

    def num(name, d):
        if d in FLT:
            x = t.mk("vsym", (d, name), "v")
            s.ints.append((x, -40, 40))
            return x
        return s.int(name, *IRANGE[d])
    try:
        k = mk(nest)
        o = s.I.load(L(k))
    except Dead:
        s.dead = True
        raise Ended()
    return o


def init_build(s, dt, nest):
    o = init_value(s, dt, nest)
    return _ctor(s, ["INNC::TensorInit"], [o])


def init_ref(v, dt, nest):
    def shape(x):
        d = dt
        if x and isinstance(x[0], str) and x[0].startswith("@"):
            d, x = x[0][1:], x[1:]
        if all(not isinstance(y, tuple) for y in x):
            return [len(x)], d, [_initval(v, y) for y in x]
        subs = [shape(y) for y in x]
        if any(z[0] != subs[0][0] or z[1] != subs[0][1] for z in subs):
            raise Throw("ragged initializer")
        return [len(x)] + subs[0][0], subs[0][1], [e for z in subs for e in z[2]]
    sz, d, flat = shape(nest)
    return RT(d, sz, lambda i: M.conv(flat[M.linear(i, sz)], d))


def _initval(v, y):
    if isinstance(y, int):
        return y
    if y in v.s.intmap:
        return v.E.ev(v.s.intmap[y])
    for sy, lo, hi in v.s.ints:
        if sy.op == "vsym" and sy.a[1] == y:
            return v.env[sy]
    raise KeyError(y)
