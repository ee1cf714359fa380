"""Valuations of summaries.

A summary (guards, closed forms, buffer layers, loop transition systems) denotes
a function of the symbols of its context.  This module computes that function at
one valuation of the symbols; the checks use it to look for a valuation at which
the summary and the specification disagree.
"""
import math
import terms as t
from terms import T
import loops
import stdmodel
from interp import P, L, BP, BL, Vec, Str, St, Blk, Alt, Fn, Lam, It, Top, UNDEF, Opq


# what earlier, unrelated passes left in the library's counters
HISTORIES = (0, 1000, (1 << 33) + 7, 255, 65536, 3, (1 << 31) - 1)
HIST = [0]


class Undecided(Exception):
    pass


class Garbage:
    """an indeterminate element value"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<%s>" % self.why


class Uninit(Exception):
    """a decision depends on an indeterminate value"""


MAXIT = 40000

NONE = frozenset()


class Scopes:
    """which enclosing loops a term, a layer sequence or a loop refers to"""

    def __init__(self, I):
        self.I = I
        self.tm = {}
        self.lm = {}
        self.pm = {}
        self.busy = set()

    def term(self, x):
        r = self.tm.get(x)
        if r is None:
            r = self.tm[x] = self._term(x)
        return r

    def _term(self, x):
        o = x.op
        if o in ("sym", "vsym"):
            w = loops.OWNER.get(x)
            return NONE if w is None else frozenset((w,))
        if o in ("c", "T", "F", "vc"):
            return NONE
        if o == "ld":
            return self.layers(self.I.vers.get(x.a[1]) or ()) | self.term(x.a[3])
        if o == "lv":
            return self.loop(x.a[0]) | self.many(x.a[3])
        if o == "lx":
            return self.loop(x.a[0]) | self.many(x.a[2])
        r = NONE
        if o == "poly":
            for m, c in x.a:
                for y in m:
                    r = r | self.term(y)
            return r
        return self.many(x.a)

    def many(self, xs):
        r = NONE
        for y in xs:
            if isinstance(y, T):
                r = r | self.term(y)
            elif isinstance(y, tuple):
                r = r | self.many(y)
        return r

    def layers(self, ls):
        k = tuple(map(id, ls))
        r = self.lm.get(k)
        if r is None:
            r = NONE
            for l in ls:
                r = r | self.layer(l)
            self.lm[k] = r
            self.lm[("keep",) + k] = ls
        return r

    def layer(self, l):
        if l[0] == "cur":
            return frozenset((l[1],))
        if l[0] in ("in", "undef"):
            return NONE
        r = self.many(l[1:])
        if l[0] == "loop":
            r = r | self.loop(l[3])
        if l[0] == "cpy":
            r = r | self.layers(self.I.vers[l[4]])
        return r

    def loop(self, lid):
        r = self.pm.get(lid)
        if r is not None:
            return r
        if lid in self.busy:
            return NONE
        self.busy.add(lid)
        lp = loops.LOOPS[lid]
        r = self.many(lp.params)
        for _, _, s, init, step in lp.leaves:
            r = r | self.many((init, step))
        r = r | self.many(lp.exits) | self.many((lp.conts,))
        r = r | self.events(lp.events, lp.nbase)
        for i, y in lp.outs:
            r = r | self.many((y,))
        for d in [lp.entry, lp.steps] + list(lp.xlayers):
            for ls in d.values():
                r = r | self.layers(ls)
        r = r - {lid}
        self.busy.discard(lid)
        self.pm[lid] = r
        return r

    def events(self, evs, n):
        r = NONE
        for e in evs:
            r = r | self.many(e.pc[n:]) | self.many(e.d)
            if e.kind == "loop":
                r = r | self.loop(e.d[0])
        return r


class Img:
    __slots__ = ("bg", "d")

    def __init__(self, bg, d):
        self.bg = bg
        self.d = d


class LoopRun:
    __slots__ = ("frames", "exit", "images", "thrown", "ub")


class Frame:
    """bindings of the symbols of one loop iteration (or of the whole context)"""

    def __init__(self, E, parent, lid, env, images):
        self.E = E
        self.parent = parent
        self.lid = lid
        self.env = env
        self.images = images
        self.memo = {}
        self.imemo = {}
        self.runs = {}
        self.syms = frozenset(env) if lid is not None else None
        self.depth = 0 if parent is None else parent.depth + 1

    def ev(self, x):
        r = self.memo.get(x, self)
        if r is not self:
            return r
        if self.parent is not None and self.lid not in self.E.sc.term(x):
            r = self.parent.ev(x)
        else:
            r = self._ev(x)
        self.memo[x] = r
        return r

    def lookup(self, x):
        f = self
        while f is not None:
            if x in f.env:
                return f.env[x]
            f = f.parent
        if x.op == "vsym" and x.a[1].startswith("rnd!"):
            d = stdmodel.DRAWS["val"].get(x.a[1])
            return d[0] if d else 0.25
        if x.op == "sym" and x.a[0].startswith("glob:"):
            return HIST[0]
        raise Undecided("no value for %s" % (x.a[0] if x.op == "sym" else x.a[1]))

    def _ev(self, x):
        o, a = x.op, x.a
        if o == "c":
            return a[0]
        if o == "sym":
            return self.lookup(x)
        if o == "vsym":
            return self.lookup(x)
        if o == "poly":
            s = 0
            for m, c in a:
                p = c
                for y in m:
                    v = self.ev(y)
                    if isinstance(v, Garbage):
                        raise Uninit(v.why)
                    p *= v
                    if p == 0:
                        break
                s += p
            return s
        if o == "T":
            return True
        if o == "F":
            return False
        if o == "le0":
            return self.num(a[0]) <= 0
        if o == "eq0":
            return self.num(a[0]) == 0
        if o == "not":
            return not self.ev(a[0])
        if o == "and":
            und = None
            for y in a:
                try:
                    if not self.ev(y):
                        return False
                except Undecided as e:
                    und = e
            if und:
                raise und
            return True
        if o == "or":
            und = None
            for y in a:
                try:
                    if self.ev(y):
                        return True
                except Undecided as e:
                    und = e
            if und:
                raise und
            return False
        if o == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if o == "div" or o == "mod":
            p, q = self.num(a[0]), self.num(a[1])
            if q == 0:
                raise Undecided("division by zero in a summary")
            return t.cdiv(p, q) if o == "div" else t.cmod(p, q)
        if o == "abs":
            return abs(self.num(a[0]))
        if o == "min":
            return min(self.num(a[0]), self.num(a[1]))
        if o == "max":
            return max(self.num(a[0]), self.num(a[1]))
        if o == "wrap":
            return t.wrapc(self.num(a[2]), a[0], a[1])
        if o == "vc":
            return a[1]
        if o == "i2v":
            return t.conv_const(self.num(a[1]), a[0])
        if o == "vcast":
            v = self.ev(a[1])
            if isinstance(v, Garbage):
                return v
            return t.conv_const(v, a[0])
        if o == "vop":
            v, w = self.ev(a[2]), self.ev(a[3])
            if isinstance(v, Garbage):
                return v
            if isinstance(w, Garbage):
                return w
            r = vop2(a[1], a[0], v, w)
            if r is None:
                return Garbage("undefined %s" % a[1])
            return r
        if o == "vun":
            v = self.ev(a[2])
            if isinstance(v, Garbage):
                return v
            return vun1(a[1], a[0], v)
        if o == "vcmp":
            v, w = self.ev(a[1]), self.ev(a[2])
            if isinstance(v, Garbage) or isinstance(w, Garbage):
                raise Uninit("comparison of an indeterminate value")
            return cmp_conv(a[0], v, w, a[1], a[2])
        if o == "ld":
            blk, ver, ety, off = a
            img = self.image(self.E.I.vers[ver])
            return self.read(img, ety, self.num(off))
        if o == "lv":
            lid, k, ety, args = a
            run = self.loop(lid, args)
            if run.exit is None:
                raise Undecided("loop left by exception")
            i, y = loops.LOOPS[lid].outs[k]
            if i != run.exit:
                raise Undecided("value of another exit")
            return run.frames[-1].ev(y)
        if o == "lx":
            lid, i, args = a
            run = self.loop(lid, args)
            return run.exit == i
        raise Undecided("term %s" % o)

    def num(self, x):
        v = self.ev(x)
        if isinstance(v, Garbage):
            raise Uninit(v.why)
        if isinstance(v, bool):
            return int(v)
        return v

    def holds(self, pc):
        und = None
        for c in pc:
            try:
                if not self.ev(c):
                    return False
            except Undecided as e:
                und = e
        if und:
            raise und
        return True

    # ---------------------------------------------------------------- buffers
    def image(self, layers):
        k = tuple(map(id, layers))
        r = self.imemo.get(k)
        if r is None:
            if not layers:
                r = Img(("undef",), {})
            elif self.parent is not None and self.lid not in self.E.sc.layers(layers):
                r = self.parent.image(layers)
            else:
                r = self.apply(layers)
            self.imemo[k] = r
        return r

    def apply(self, layers):
        l = layers[-1]
        k = l[0]
        if k == "in":
            return Img(("in", l[1], l[2]), {})
        if k == "undef":
            return Img(("undef",), {})
        if k == "zero":
            if len(layers) > 1 and not self.holds(l[1]):
                return self.image(layers[:-1])
            return Img(("zero",), {})
        if k == "cur":
            f = self
            while f is not None:
                if f.lid == l[1]:
                    return f.images[l[2]]
                f = f.parent
            raise Undecided("iteration image out of scope")
        base = self.image(layers[:-1])
        if k == "loop":
            _, pc, args, lid, cell = l
            if not self.holds(pc):
                return base
            run = self.loop(lid, args)
            return run.images[cell]
        if not self.holds(l[1]):
            return base
        if k == "st":
            _, pc, off, ety, v = l
            d = dict(base.d)
            self.write(d, self.num(off), ety, self.ev(v))
            return Img(base.bg, d)
        if k == "fill":
            _, pc, off, ety, v, count = l
            d = dict(base.d)
            o = self.num(off)
            val = self.ev(v)
            for i in range(self.num(count)):
                self.write(d, o + i * t.ESIZE[ety], ety, val)
            return Img(base.bg, d)
        if k == "set":
            _, pc, off, byte, n = l
            o, b, n = self.num(off), self.num(byte), self.num(n)
            d = {q: v for q, v in base.d.items() if not (o <= q < o + n)}
            d[("set", o, n)] = (None, b, len(base.d))
            if b == 0:
                for q in range(o, o + n):
                    d[q] = ("u8", 0)
                d.pop(("set", o, n))
                return Img(base.bg, d)
            for q in range(o, o + n):
                d[q] = ("u8", b & 255)
            d.pop(("set", o, n))
            return Img(base.bg, d)
        if k == "cpy":
            _, pc, doff, sblk, sver, soff, nbytes = l
            src = self.image(self.E.I.vers[sver])
            d = dict(base.d)
            do, so, n = self.num(doff), self.num(soff), self.num(nbytes)
            for q in [q for q in d if do <= q < do + n]:
                del d[q]
            if src.bg[0] == "in":
                es = t.ESIZE[src.bg[2]]
                q = so - so % es
                if so % es == 0:
                    while q + es <= so + n:
                        if q not in src.d:
                            d[do + q - so] = (src.bg[2], self.E.elem(src.bg[1], src.bg[2], q))
                        q += es
            elif src.bg[0] == "zero":
                for q in range(so, so + n):
                    if q not in src.d:
                        d[do + q - so] = ("u8", 0)
            else:
                for q in range(so, so + n):
                    d.setdefault(do + q - so, ("u8", Garbage("uninitialised")))
            for q, v in src.d.items():
                if so <= q < so + n:
                    es = t.ESIZE[v[0]]
                    for z in range(1, es):
                        d.pop(do + q - so + z, None)
                    d[do + q - so] = v
            return Img(base.bg, d)
        raise Undecided("layer " + k)

    def write(self, d, off, ety, v):
        es = t.ESIZE[ety]
        for z in range(-7, es):
            if z == 0:
                continue
            x = d.get(off + z)
            if x is not None and z < 0 and t.ESIZE[x[0]] <= -z:
                continue
            if x is not None:
                del d[off + z]
        d[off] = (ety, v)

    def read(self, img, ety, off):
        x = img.d.get(off)
        es = t.ESIZE[ety]
        if x is not None:
            if x[0] == ety:
                return x[1]
            if x[0] == "u8":
                bs = []
                for z in range(es):
                    y = img.d.get(off + z)
                    if y is None or y[0] != "u8":
                        return Garbage("partly overwritten element")
                    if isinstance(y[1], Garbage):
                        return y[1]
                    bs.append(y[1])
                if all(b == 0 for b in bs):
                    return t.conv_const(0, ety)
                return frombytes(bs, ety)
            return Garbage("%s stored, %s read" % (x[0], ety))
        for z in range(-7, es):
            y = img.d.get(off + z)
            if y is not None and (z > 0 or t.ESIZE[y[0]] > -z):
                return Garbage("misaligned access")
        if img.bg[0] == "zero":
            return t.conv_const(0, ety)
        if img.bg[0] == "in":
            if img.bg[2] != ety:
                return Garbage("%s buffer read as %s" % (img.bg[2], ety))
            if off % es:
                return Garbage("misaligned access")
            return self.E.elem(img.bg[1], ety, off)
        return Garbage("uninitialised")

    # ---------------------------------------------------------------- loops
    def loop(self, lid, args):
        lp = loops.LOOPS[lid]
        vals = tuple(self.ev(x) for x in args)
        f = self
        sc = self.E.sc.loop(lid)
        while f.parent is not None and f.lid not in sc:
            f = f.parent
        key = (lid, vals)
        r = f.runs.get(key)
        if r is None:
            r = f.runloop(lp, vals)
            f.runs[key] = r
        return r

    def runloop(self, lp, vals):
        penv = dict(zip(lp.params, vals))
        base = Frame(self.E, self, self.lid, self.env, self.images) if False else self
        holder = self
        run = LoopRun()
        run.frames = []
        run.exit = None
        run.thrown = None
        run.ub = None
        env = dict(penv)
        for key, kind, s, init, step in lp.leaves:
            if init is None:
                env[s] = Garbage("uninitialised") if s.sort == "v" else 0
            else:
                env[s] = self.ev(init)
        images = {c: self.image(lp.entry[c]) for c in lp.blks}
        for it in range(MAXIT):
            fr = Frame(self.E, self, lp.id, env, images)
            run.frames.append(fr)
            self.E.iters += 1
            if self.E.iters > self.E.limit:
                raise Undecided("iteration limit")
            for e in lp.events:
                if e.kind in FATAL and fr.holds_rel(e.pc, lp.nbase):
                    run.thrown = (e, fr)
                    run.images = images
                    return run
                if e.kind == "loop" and fr.holds_rel(e.pc, lp.nbase):
                    sub = fr.loop(e.d[0], e.d[1])
                    if sub.thrown:
                        run.thrown = sub.thrown
                        run.images = images
                        return run
            for i, g in enumerate(lp.exits):
                if fr.ev(g):
                    run.exit = i
                    run.images = {c: fr.final(lp, c, i) for c in lp.blks}
                    return run
            if lp.conts is None or not fr.ev(lp.conts):
                raise Undecided("loop has no successor")
            nenv = dict(penv)
            for key, kind, s, init, step in lp.leaves:
                nenv[s] = fr.ev(step)
            images = {c: fr.image(lp.steps[c]) for c in lp.blks}
            env = nenv
        raise Undecided("loop does not end within %d iterations" % MAXIT)

    def final(self, lp, cell, i):
        ls = lp.xlayers[i].get(cell)
        return self.image(ls)

    def holds_rel(self, pc, n):
        return self.holds(pc[n:])


FATAL = ("throw", "nullderef", "oob", "divzero", "badaccess", "nullcall", "abort")


def cmp_conv(op, v, w, ta, tb):
    return t.eval_cmp(op, v, w)


def frombytes(bs, ety):
    import struct
    raw = bytes(bs)
    f = {"i8": "b", "i16": "<h", "i32": "<i", "i64": "<q", "f32": "<f", "f64": "<d", "u8": "B", "u16": "<H",
         "u32": "<I", "u64": "<Q", "b1": "B"}.get(ety)
    return struct.unpack(f, raw)[0]


def vop2(op, ety, v, w):
    if op in ("max", "min", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
        return t.eval_vop(op, ety, v, w)
    if op == "pow":
        try:
            return t.conv_const(math.pow(v, w), ety)
        except Exception:
            return None
    if op == "fmod":
        try:
            return t.conv_const(math.fmod(v, w), ety)
        except Exception:
            return None
    raise Undecided("operation " + op)


def vun1(op, ety, v):
    if op == "-":
        return t.conv_const(-v, ety)
    if op in ("abs", "fabs", "labs", "llabs"):
        return t.conv_const(abs(v), ety)
    f = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos,
         "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda z: math.floor(z + .5)}.get(op)
    if f is None:
        raise Undecided("function " + op)
    try:
        return t.conv_const(f(v), ety)
    except Exception:
        return Garbage("domain of " + op)


class Eval:
    """one valuation of a finished analysis"""

    def __init__(self, I, env, elem, limit=60000):
        self.I = I
        self.elem = elem
        self.iters = 0
        self.limit = limit
        self.sc = I.__dict__.get('_scopes')
        if self.sc is None:
            self.sc = I._scopes = Scopes(I)
        self.top = Frame(self, None, None, env, {})

    def ev(self, x):
        return self.top.ev(x)

    def outcome(self, events=None):
        """('ok',) | ('throw', type, site) | ('ub', kind, site)"""
        for e in (self.I.evlog if events is None else events):
            if e.kind in FATAL:
                if self.top.holds(e.pc):
                    return self.fatal(e)
            elif e.kind == "loop" and self.top.holds(e.pc):
                run = self.top.loop(e.d[0], e.d[1])
                if run.thrown:
                    return self.fatal(run.thrown[0])
        return ("ok",)

    def fatal(self, e):
        if e.kind == "throw":
            return ("throw", e.d[0], e.site, e.d[1] if len(e.d) > 1 else None)
        return ("ub", e.kind, e.site, e.d)

    def val(self, v):
        """resolve guards of a structured value (one level)"""
        while isinstance(v, Alt):
            v = v.a if self.top.ev(v.c) else v.b
        return v

    def at(self, S, cell, *path):
        v = self.val(S.heap[cell])
        for k in path:
            if isinstance(v, (P, L)):
                v = self.deref(S, v)
            v = self.val(v)
            if isinstance(v, St):
                v = v.f.get(k, UNDEF)
            elif isinstance(v, Vec):
                v = v.items[k]
            else:
                raise Undecided("field %s of %r" % (k, v))
            v = self.val(v)
        return v

    def deref(self, S, p):
        p = self.val(p)
        if isinstance(p, (P, L)):
            if p.cell is None:
                return None
            return self.at(S, p.cell, *p.path)
        raise Undecided("dereference of %r" % (p,))

    def accesses(self, events=None, frame=None, n=0):
        """yield (event, frame) for every buffer access of this valuation"""
        fr = frame or self.top
        for e in (self.I.evlog if events is None else events):
            if e.kind in ("ld", "st", "ldn", "stn", "badaccess", "undef", "oob", "nullderef", "divzero", "idiv"):
                if fr.holds(e.pc[n:]):
                    yield e, fr
            elif e.kind == "loop" and fr.holds(e.pc[n:]):
                run = fr.loop(e.d[0], e.d[1])
                lp = loops.LOOPS[e.d[0]]
                for f in run.frames:
                    for r in self.accesses(lp.events, f, lp.nbase):
                        yield r
