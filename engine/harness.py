"""Sessions (a straight-line program over the public API, analysed once) and
valuations of their summaries."""
import hashlib
import itertools
import random
import terms as t
import loops
import model as M
from terms import C, ZERO, ONE, T
from interp import P, L, BP, BL, Vec, Str, St, Blk, Alt, NULL, Top, UNDEF, Dead, Unsupported, State
from ctx import Ctx, Anchor, DT
from evalu import Eval, Garbage, Undecided, Uninit

SV = "const INNC::SizeVec &"
SGV = "const INNC::SignedVec &"
TR = "const INNC::Tensor &"
STR = "const std::basic_string<char, std::char_traits<char>, std::allocator<char>> &"
TY = "INNC::types"
UL = "unsigned long"


class Ended(Exception):
    """every path of the session has thrown"""


class Sess:
    def __init__(self, prog):
        self.c = Ctx(prog)
        self.I = self.c.I
        self.ins = []
        self.handles = {}
        self.marks = {}
        self.nh = 0
        self.dead = False
        self.sizesyms = []
        self.ints = []
        self.initheap = {}
        self.intmap = {}

    def tin(self, name, dtype, rank, **kw):
        x = self.c.tensor(name, dtype, rank, **kw)
        self.ins.append(x)
        for k in (x.impl, x.view, x.store, x.blk):
            self.initheap[k] = self.I.S.heap[k]
        return L(x.tensor)

    def int(self, name, lo, hi):
        s = t.sym(name, lo, hi)
        self.ints.append((s, lo, hi))
        self.intmap[name] = s
        return s

    def handle(self, v):
        """keep a returned Tensor alive under its own cell"""
        if isinstance(v, L):
            v2 = self.I.load(v)
        else:
            v2 = v
        self.nh += 1
        k = "H%d" % self.nh
        self.I.S.heap[k] = v2
        return L(k)

    def call(self, q, pts, args, this=None):
        if self.dead:
            raise Ended()
        f = self.c.fn(q, *pts)
        try:
            return self.I.call(f, args, this=P(this.cell, this.path) if this is not None else None)
        except Dead:
            self.dead = True
            raise Ended()

    # ---- the public API
    def m(self, name, this, pts=(), args=()):
        r = self.call("INNC::Tensor::" + name, list(pts), list(args), this)
        return r

    def mt(self, name, this, pts=(), args=()):
        return self.handle(self.m(name, this, pts, args))

    def st(self, name, pts, args):
        return self.handle(self.call("INNC::Tensor::" + name, pts, args))

    def bin(self, op, a, b):
        return self.handle(self.call("INNC::operator" + op, [TR, TR], [a, b]))

    def slice(self, a, text):
        """text: sequence of characters and integer terms"""
        cells = []
        for x in text:
            if isinstance(x, T):
                cells.append(("num", x, 0, 1))
            else:
                cells.append(x)
        k = self.c.put("str%d" % len(self.I.S.heap), Str(tuple(cells)))
        return self.mt("operator[]", a, [STR], [L(k)])

    def mark(self, name):
        """remember the abstract heap at this point"""
        if self.I.S is not None:
            self.marks[name] = State(dict(self.I.S.heap), self.I.S.pc, None)

    def dt(self, d):
        return C(self.c.dt[d])


def layout(sizes, kind, es, rng):
    """(strides, offset, bytes) of a valid layout"""
    r = len(sizes)
    m = [max(1, n) for n in sizes]
    if kind == "col":
        st, acc = [], 1
        for n in m:
            st.append(acc)
            acc *= n
    else:
        st, acc = [0] * r, 1
        for i in reversed(range(r)):
            st[i] = acc
            acc *= m[i]
    off, slack = 0, 0
    if kind == "off":
        off, slack = 2, 3
    elif kind == "pad":
        st = [s * 2 + (1 if i == 0 and r > 1 else 0) for i, s in enumerate(st)]
        off, slack = 1, 2
    elif kind == "neg":
        off = sum(s * (n - 1) for s, n in zip(st, m))
        st = [-s for s in st]
    elif kind == "mix" and r:
        # first dimension reversed
        off = st[0] * (m[0] - 1) + 1
        st[0] = -st[0]
        slack = 1
    hi = off + sum(max(0, s * (n - 1)) for s, n in zip(st, m)) + 1 + slack
    if kind == "dense":
        p = 1
        for n in sizes:
            p *= n
        hi = p
    return st, off, hi * es


KINDS = ["dense", "off", "col", "neg", "pad", "mix"]


LITS = []     # numbers in the analysed source


def elem_fn(seed, mode="small"):
    def elem(name, ety, off):
        h = hashlib.blake2b(("%d|%s|%d" % (seed, name, off // t.ESIZE[ety])).encode(), digest_size=8).digest()
        n = int.from_bytes(h, "little")
        fl = ety in ("f32", "f64")
        if mode == "frac":
            v = (n % 99991 + 1) / 7.0 if fl else (n % 999983 | 1) * {"i8": 0, "i16": 0, "i32": 1, "i64": 4294967311}[ety] + n % 97 + 1
            if ety == "f32":
                v = t.conv_const(v, ety)
        elif mode == "lit":
            c = [x for x in LITS if fl or isinstance(x, int)] or [1]
            v = c[n % len(c)]
            z = n >> 12 & 7
            v = (v, -v, v + 1, v - 1, v * 2, v / 2 if fl else v // 2, v, 1)[z]
            if fl:
                v = t.conv_const(float(v), ety)
            else:
                b = 1 << (t.ESIZE[ety] * 8 - 1)
                v = min(max(v, -b), b - 1)
        elif mode == "rare0":
            v = 0 if n % 9 == 0 else (n // 9) % 5 - 6 if n >> 24 & 1 else (n // 9) % 5 + 1
            if fl and v:
                v = v / 8.0
        elif mode == "nan":
            v = ((float("nan"), 1.5, float("inf"), -2.0, -float("inf"), float("nan"), 0.0, 1.5) if fl else (1, 0, -2, 2, 1, 3, -1, 0))[n % 8]
        elif mode == "ties":
            v = (-1, 0, 1, 2)[n % 4]
        elif mode == "ext":
            if fl:
                big = 3.0e38 if ety == "f32" else 1.5e308
                v = (big, -big, 0.0, -0.0, 1e-30, 1.0, -1.0, 0.1, 16777217.0, -0.7)[n % 10]
                v = t.conv_const(v, ety)
            else:
                b = 1 << (t.ESIZE[ety] * 8 - 1)
                v = (b - 1, -b, -b + 1, 0, 1, -1, 2, -3, b // 2, b - 2)[n % 10]
        elif mode == "mixb":
            if n >> 20 & 1:
                lim = {"i8": 100, "i16": 30000, "i32": (1 << 30) + 1, "i64": (1 << 62) + 1, "f32": 1 << 23,
                       "f64": (1 << 52) + 1}[ety]
                v = lim + n % 7
            else:
                v = n % 3 + 1
            if n >> 21 & 1:
                v = -v
        elif mode == "big":
            lim = {"i8": 100, "i16": 20000, "i32": (1 << 24) + 1, "i64": (1 << 53) + 1, "f32": 1 << 20,
                   "f64": 1 << 40}[ety]
            v = lim - (n % 7) * 2
            if n >> 20 & 1:
                v = -v
            if ety == "f64":
                v += 0.375
        else:
            v = (n % 6) + 1
            if n >> 20 & 1:
                v = -v
            if fl:
                v = v + (0.5 if n >> 21 & 1 else 0.0)
        return float(v) if fl else int(v)
    return elem


class Val:
    """a session at one valuation"""

    def __init__(self, s, env, elem, desc):
        self.s = s
        self.I = s.I
        self.env = env
        self.desc = desc
        self.E = Eval(s.I, env, elem)
        self._out = None

    def outcome(self):
        if self._out is None:
            self._out = self.E.outcome()
        return self._out

    @property
    def S(self):
        return self.I.S

    def inref(self, x):
        """reference tensor of an input"""
        sizes = [self.E.ev(n) for n in x.sizes]
        st = [self.E.ev(n) for n in x.strides]
        off = self.E.ev(x.offset)
        es = t.ESIZE[x.dtype]

        def f(i):
            return self.E.elem(x.name if not x.blk.startswith("B:") else x.blk[2:], x.dtype,
                               (off + sum(a * b for a, b in zip(i, st))) * es)
        return M.RT(x.dtype, sizes, f)

    def impl_of(self, h, S=None):
        S = S or self.S
        p = self.E.at(S, h.cell, "fptr")
        if not isinstance(p, P):
            raise Undecided("tensor handle %r" % (p,))
        return p

    def tens(self, h, S=None):
        return self.timpl(self.impl_of(h, S), S)

    def timpl(self, p, S=None):
        S = S or self.S
        if p.cell is None:
            return None
        return Obs(self, p, S)


class Obs:
    """an observed tensor (TensorImpl) at a valuation"""

    def __init__(self, v, p, S):
        self.v = v
        self.p = p
        self.S = S
        E = v.E
        self.o = E.val(S.heap[p.cell])
        for k in p.path:
            self.o = E.val(self.o.f[k])
        if not isinstance(self.o, St):
            raise Undecided("object %r" % (self.o,))

    def fld(self, n):
        return self.v.E.val(self.o.f.get(n, UNDEF))

    def sc(self, n):
        x = self.fld(n)
        if x is UNDEF:
            return Garbage("uninitialised")
        if not isinstance(x, T):
            raise Undecided("field %s: %r" % (n, x))
        return self.v.E.ev(x)

    @property
    def dtype(self):
        n = self.sc("dtype")
        for k, i in self.v.s.c.dt.items():
            if i == n and k != "Count":
                return k
        return "?%s" % n

    def view(self):
        p = self.fld("view")
        if not isinstance(p, P) or p.cell is None:
            raise Undecided("view %r" % (p,))
        return p

    def vec(self, n):
        x = self.v.E.at(self.S, self.view().cell, *self.view().path, n)
        if not isinstance(x, Vec):
            raise Undecided("layout field %s: %r" % (n, x))
        out = []
        for y in x.items:
            y = self.v.E.val(y)
            if not isinstance(y, T):
                raise Undecided("layout entry %r" % (y,))
            out.append(self.v.E.ev(y))
        return out

    @property
    def sizes(self):
        return self.vec("sizes")

    @property
    def strides(self):
        return self.vec("strides")

    @property
    def offset(self):
        x = self.v.E.at(self.S, self.view().cell, *self.view().path, "offset")
        return self.v.E.ev(x)

    def store(self):
        p = self.fld("data_")
        if not isinstance(p, P):
            raise Undecided("storage %r" % (p,))
        return p

    def blob(self):
        p = self.store()
        if p.cell is None:
            return None
        b = self.v.E.at(self.S, p.cell, *p.path, "blob")
        if isinstance(b, BP):
            return b
        if isinstance(b, P) and b.cell is None:
            return None
        raise Undecided("blob %r" % (b,))

    def bytes(self):
        p = self.store()
        return self.v.E.ev(self.v.E.at(self.S, p.cell, *p.path, "size"))

    def blksize(self):
        b = self.blob()
        return self.v.E.ev(self.S.heap[b.blk].size)

    def image(self):
        b = self.blob()
        if b is None:
            return None
        blk = self.S.heap.get(b.blk)
        if not isinstance(blk, Blk):
            raise Undecided("buffer %r" % (blk,))
        return self.v.E.top.image(blk.layers)

    def values(self, dtype=None):
        """[(index, value)] in row-major order"""
        dt = dtype or self.dtype
        es = t.ESIZE[dt]
        img = self.image()
        sz, st, off = self.sizes, self.strides, self.offset
        base = self.v.E.ev(self.blob().off) if img is not None else 0
        out = []
        tot = 1
        for n in sz:
            tot *= n
        if tot > 5000 or len(st) < len(sz):
            return None
        for i in itertools.product(*[range(n) for n in sz]):
            o = off + sum(a * b for a, b in zip(i, st))
            o = t.wrapc(o, 64, True)
            out.append((i, self.v.E.top.read(img, dt, base + o * es) if img is not None
                        else Garbage("no buffer")))
        return out

    @property
    def requires_grad(self):
        return bool(self.sc("requires_grad"))

    @property
    def retain_grad(self):
        return bool(self.sc("retain_grad"))

    @property
    def grad(self):
        p = self.fld("grad")
        if not isinstance(p, P):
            raise Undecided("grad %r" % (p,))
        return None if p.cell is None else Obs(self.v, p, self.S)

    @property
    def grad_fn(self):
        p = self.fld("grad_fn")
        if not isinstance(p, P):
            raise Undecided("grad_fn %r" % (p,))
        return None if p.cell is None else p


def close(x, y, dt, v=None):
    if y is M.SKIP:
        return True
    if isinstance(x, Garbage):
        return False
    if dt in ("f32", "f64"):
        if x != x and y != y:
            return True
        if x == y:
            return True
        tol = 2e-5 if dt == "f32" else 1e-9
        if v is not None and v.opts.get("prec") and dt == "f64":
            return abs(x - y) <= 4e-13 * max(1.0, abs(y))
        if v is not None:
            tol = max(tol, v.opts.get("tol", 0))
            if y != y or abs(y) in (float("inf"),):
                return v.opts.get("tol", 0) > 0
        return abs(x - y) <= tol * max(1.0, abs(y))
    return x == y


NUMS = [0, 1, -1, 3, 77, -128, 127, 128, 300, -32768, 40000, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, -(1 << 31) - 5,
        (1 << 53) + 1, -(1 << 53) - 1, (1 << 62) + 5, (1 << 63) - 1, -(1 << 63)]
FNUMS = [0.0, 1.0, -1.0, 0.5, -2.75, 40.25, -7.0, 100.0, float(1 << 20), -1.5 * (1 << 30)]


def pick(rng, sy, lo, hi):
    """a value of an integer or floating argument"""
    if sy.op == "vsym" and sy.a[0] in ("f32", "f64"):
        return rng.choice(FNUMS + ([(1 << 40) + 0.375, 1 / 3, float("nan"), float("inf")] if sy.a[0] == "f64" else []))
    if hi - lo > 50:
        return rng.choice([x for x in NUMS + [y + z for y in LITS if isinstance(y, int) for z in (-1, 0, 1)] if lo <= x <= hi])
    return rng.randint(lo, hi)


def valuations(s, n, seed, sizes=(0, 1, 2, 3), modes=("small",), kinds=KINDS, sizegrid=None, extra=None, maxgrid=64):
    """valuations of the symbols of session s"""
    rng = random.Random(seed * 7919 + 17)
    syms = []
    for x in s.ins:
        for z in x.sizes:
            for a in t.free(z):
                if a not in syms:
                    syms.append(a)
    ext = list(s.ints)
    if sizegrid is not None:
        grid = sizegrid
    else:
        full = len(sizes) ** len(syms)
        if full <= maxgrid:
            grid = list(itertools.product(sizes, repeat=len(syms)))
        else:
            grid = [tuple(rng.choice(sizes) for _ in syms) for _ in range(maxgrid)]
            for v in sizes:
                grid.append((v,) * len(syms))
            grid = list(dict.fromkeys(grid))
    rng.shuffle(grid)
    k = 0
    used = 0
    while used < n:
        g = grid[used % len(grid)]
        env = {}
        desc = {}
        if isinstance(g, dict):
            env.update(g)
        else:
            env.update(zip(syms, g))
        mode = modes[used % len(modes)]
        for sy, lo, hi in ext:
            if sy.op != "c" and sy not in env:
                env[sy] = pick(rng, sy, lo, hi)
        skip = False
        for x in s.ins:
            es = t.ESIZE[x.dtype]
            sz = []
            try:
                for z in x.sizes:
                    if z.op == "c":
                        sz.append(z.a[0])
                    elif z in env:
                        sz.append(env[z])
                    else:
                        sz.append(Eval(s.I, env, None).ev(z))
            except (Undecided, Uninit):
                skip = True
                break
            kind = "dense" if x.contig else kinds[rng.randrange(len(kinds))]
            st, off, nb = layout(sz, kind, es, rng)
            for a, b in zip(x.strides, st):
                if a.op == "sym":
                    env[a] = b
            if x.offset.op == "sym":
                env[x.offset] = off
            if x.bytes.op == "sym":
                env[x.bytes] = max(env.get(x.bytes, 0), nb)
            desc[x.name] = "%s%s %s" % (x.dtype, sz, kind)
        for sy, lo, hi in ext:
            if sy.op != "c":
                desc[sy.a[0] if sy.op == "sym" else sy.a[1]] = env[sy]
        used += 1
        if skip:
            continue
        yield Val(s, env, elem_fn(seed * 131 + used, mode), desc)
        if sizegrid is None and used >= n:
            break
