"""Context-sensitive abstract interpreter over the resolved program.

Values are terms (terms.py) or the structured values below.  Branches whose
condition is not decided are joined with guarded (gated) values; loops that do
not resolve by constant propagation are summarised as transition systems.
Nothing of the analysed program is executed.
"""
import terms as t
from terms import T, C, ZERO, ONE, TRUE, FALSE, Facts
import re


class Dead(Exception):
    """the current abstract path has ended (throw / return of no value)"""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
class P:
    """pointer / smart pointer to a location (cell None: null)"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, P) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "P(%s%s)" % (self.cell, self.path or "")


class NP(P):
    """smart pointer that does not own its target (owner: the cell it keeps alive, or None)"""
    __slots__ = ("owner",)

    def __init__(self, cell, path=(), owner=None):
        self.cell = cell
        self.path = path
        self.owner = owner

    def __repr__(self):
        return "NP(%s%s)" % (self.cell, self.path or "")


NULL = P(None)


class L:
    """lvalue: a location"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, L) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash(("L", self.cell, self.path))

    def __repr__(self):
        return "L(%s%s)" % (self.cell, self.path or "")


class BP:
    """typed pointer into a raw buffer; off in bytes"""
    __slots__ = ("blk", "off", "ety")

    def __init__(self, blk, off, ety):
        self.blk = blk
        self.off = off
        self.ety = ety

    def __eq__(self, o):
        return isinstance(o, BP) and self.blk == o.blk and self.off is o.off and self.ety == o.ety

    def __hash__(self):
        return hash((self.blk, self.off.id, self.ety))

    def __repr__(self):
        return "BP(%s+%r:%s)" % (self.blk, self.off, self.ety)


class BL:
    """lvalue in a raw buffer"""
    __slots__ = ("blk", "off", "ety")

    def __init__(self, blk, off, ety):
        self.blk = blk
        self.off = off
        self.ety = ety

    def __repr__(self):
        return "BL(%s+%r:%s)" % (self.blk, self.off, self.ety)


class Vec:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Vec%r" % (list(self.items),)


class Str:
    """abstract string: tuple of cells (1-char str or ('num', term, part, parts));
    None: unknown text"""
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = None if cells is None else tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Str) and self.cells == o.cells

    def __hash__(self):
        return hash(self.cells)

    def __repr__(self):
        return "Str(%r)" % (self.cells,)


class St:
    """struct value"""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Blk:
    """raw buffer: size in bytes and the ordered effects that produced its content"""
    __slots__ = ("size", "layers", "name")

    def __init__(self, size, layers, name=""):
        self.size = size
        self.layers = layers
        self.name = name

    def __repr__(self):
        return "Blk(%r,%d layers)" % (self.size, len(self.layers))


class Alt:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Alt(%r ? %r : %r)" % (self.c, self.a, self.b)


class Fn:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Fn) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class Lam:
    __slots__ = ("node", "env", "this", "tu", "cell")

    def __init__(self, node, env, this, tu, cell):
        self.node = node
        self.env = env
        self.this = this
        self.tu = tu
        self.cell = cell  # captured copies live in this cell


class It:
    """iterator into the vector at loc"""
    __slots__ = ("loc", "i", "rev")

    def __init__(self, loc, i, rev=False):
        self.loc = loc
        self.i = i
        self.rev = rev

    def __eq__(self, o):
        return isinstance(o, It) and self.loc == o.loc and self.i is o.i and self.rev == o.rev

    def __hash__(self):
        return hash((self.loc, self.i.id))

    def __repr__(self):
        return "It(%r,%r)" % (self.loc, self.i)


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Undef:
    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Opq:
    """opaque library object (stream, exception, engine...)"""
    __slots__ = ("kind", "arg")

    def __init__(self, kind, arg=None):
        self.kind = kind
        self.arg = arg

    def __repr__(self):
        return "Opq(%s)" % self.kind


# ------------------------------------------------------------------ state
class Ev:
    __slots__ = ("kind", "pc", "d", "site")

    def __init__(self, kind, pc, d, site):
        self.kind = kind
        self.pc = pc
        self.d = d
        self.site = site

    def __repr__(self):
        return "%s%r @%s if %r" % (self.kind, self.d, self.site, self.pc)


class State:
    __slots__ = ("heap", "pc", "ev", "_facts")

    def __init__(self, heap, pc, ev):
        self.heap = heap
        self.pc = pc      # tuple of boolean terms
        self.ev = ev      # tuple-linked list: (prev, Ev, depth) or None
        self._facts = None

    def fork(self, c=None):
        s = State(dict(self.heap), self.pc if c is None or c.op == "T" else self.pc + (c,), self.ev)
        return s

    def facts(self):
        if self._facts is None or self._facts[0] is not self.pc:
            self._facts = (self.pc, Facts(self.pc))
        return self._facts[1]

    def decide(self, c):
        if c.op == "T":
            return True
        if c.op == "F":
            return False
        return self.facts().decide(c)


def evdepth(e):
    return 0 if e is None else e[2]


class Loop:
    """summarised loop: a transition system over leaf symbols"""
    def __init__(self):
        pass


LOOPS = {}


class Frame:
    __slots__ = ("fn", "tu", "env", "this", "rets", "brk", "cont", "cls")

    def __init__(self, fn, tu, this=None):
        self.fn = fn
        self.tu = tu
        self.env = {}
        self.this = this
        self.rets = []
        self.brk = []
        self.cont = []


INTS = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True),
    "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
    "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False),
    "char8_t": (8, False), "wchar_t": (32, True), "__int128": (128, True),
    "unsigned __int128": (128, False),
}
ETY = {"char": "i8", "signed char": "i8", "unsigned char": "u8", "short": "i16",
       "unsigned short": "u16", "int": "i32", "unsigned int": "u32", "long": "i64",
       "long long": "i64", "unsigned long": "u64", "unsigned long long": "u64",
       "float": "f32", "double": "f64", "bool": "b1", "long double": "f80"}


def strip(ty):
    ty = ty.strip()
    while True:
        if ty.endswith("&"):
            ty = ty.rstrip("&").strip()
        elif ty.endswith(" const") or ty.endswith("*const"):
            ty = ty[:-5].strip()
        elif ty.startswith("const "):
            if ty.endswith("*") or ty.endswith("* __restrict"):
                break
            ty = ty[6:].strip()
        elif ty.startswith("volatile "):
            ty = ty[9:]
        else:
            break
    return ty


def is_ref(ty):
    return ty.rstrip().endswith("&")


SMART = ("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr<", "std::weak_ptr<",
         "std::__shared_ptr_access<")


class Interp:
    UNROLL = 5

    def __init__(self, prog, log=False):
        import stdmodel
        self.std = stdmodel
        self.prog = prog
        self.S = State({}, (), None)
        self.ncell = 0
        self.frames = []
        self.vers = {}
        self.stats = {"calls": 0, "loops": 0, "joins": 0}
        self.analysed = set()
        self.topreasons = {}
        self.glob = {}
        self.line = 0
        self.depth = 0
        self.log = log
        self.pins = []
        self.budget = 400000
        self.hooks = {}
        self.static_cells = {}
        self.trystack = []
        self.pending = []
        self.nstmt = 0
        self.evlog = []

    # -------------------------------------------------------------- basics
    def site(self):
        if not self.frames:
            return ("", 0, "")
        f = self.frames[-1]
        loc = f.fn.get("l", ["", 0])
        return (loc[0], self.line, f.fn.get("q", ""))

    def event(self, kind, *d, cond=TRUE):
        pc = self.S.pc if cond.op == "T" else self.S.pc + (cond,)
        e = Ev(kind, pc, d, self.site())
        self.evlog.append(e)
        return e

    def top(self, why):
        self.topreasons[why] = self.topreasons.get(why, 0) + 1
        return Top(why)

    def new(self, value, name="c"):
        self.ncell += 1
        k = "%s%d" % (name, self.ncell)
        self.S.heap[k] = value
        return k

    def decide(self, c):
        return self.S.decide(c)

    def ty(self, n, fr=None):
        return (fr or self.frames[-1]).tu.types[n]

    # -------------------------------------------------------------- memory
    def load(self, loc):
        if isinstance(loc, Alt):
            return self.lift(self.load, loc)
        if isinstance(loc, BL):
            return self.load_blk(loc)
        if isinstance(loc, L):
            if loc.cell is None:
                self.event("nullderef")
                raise Dead()
            if loc.cell not in self.S.heap:
                return self.top("dangling cell " + str(loc.cell))
            return self.walk(self.S.heap[loc.cell], loc.path)
        return loc

    def walk(self, v, path):
        for i, k in enumerate(path):
            if isinstance(v, Alt):
                d = self.decide(v.c)
                if d is True:
                    v = v.a
                elif d is False:
                    v = v.b
                else:
                    rest = path[i:]
                    return self.ite(v.c, self.walk(v.a, rest), self.walk(v.b, rest))
                if isinstance(v, Alt):
                    return self.walk(v, path[i:])
            if isinstance(v, Top) or v is UNDEF:
                return Top("field of unknown") if isinstance(v, Top) else UNDEF
            if isinstance(k, str):
                if isinstance(v, St):
                    v = v.f.get(k, UNDEF)
                else:
                    return self.top("field %s of %s" % (k, type(v).__name__))
            else:
                if isinstance(v, Str):
                    v = Vec(v.cells) if v.cells is not None else Top("text")
                    if isinstance(v, Top):
                        return v
                    v = Vec([self.cell2int(x) for x in v.items])
                if not isinstance(v, Vec):
                    return self.top("index of %s" % type(v).__name__)
                n = len(v.items)
                idx = self.index_alts(k, n)
                if idx is None:
                    return self.top("symbolic index")
                if len(idx) == 1 and idx[0][0].op == "T":
                    v = v.items[idx[0][1]]
                else:
                    r = None
                    for g, j in reversed(idx):
                        x = v.items[j]
                        r = x if r is None else self.ite(g, x, r)
                    if r is None:
                        raise Dead()
                    v = r
        if isinstance(v, Alt):
            d = self.decide(v.c)
            if d is True:
                return self.walk(v.a, ())
            if d is False:
                return self.walk(v.b, ())
        return v

    def cell2int(self, c):
        if isinstance(c, str):
            return C(t.wrapc(ord(c), 8, True))
        if c is None or c[0] in ("txt", "alt"):
            raise Unsupported("character of a rendered number")
        return t.mk("chr", (c[1], c[2], c[3]), "i")

    def index_alts(self, k, n):
        """possible concrete positions of index term k: [(guard, j)]; records
        an out-of-range event under the complementary guard"""
        if isinstance(k, int):
            k = C(k)
        if k.op == "c":
            j = k.a[0]
            if 0 <= j < n:
                return [(TRUE, j)]
            self.event("oob", j, n)
            raise Dead()
        out = []
        bad = []
        for j in range(n):
            g = t.eq(k, C(j))
            d = self.decide(g)
            if d is True:
                return [(TRUE, j)]
            if d is None:
                out.append((g, j))
        rest = t.band(*[t.bnot(g) for g, _ in out])
        d = self.decide(rest)
        if d is not False:
            if not self.const_leaves_in(k, n):
                self.event("oob", k, n, cond=rest)
        if not out:
            raise Dead()
        return out

    def const_leaves_in(self, k, n):
        if k.op == "c":
            return 0 <= k.a[0] < n
        if k.op == "ite":
            return self.const_leaves_in(k.a[1], n) and self.const_leaves_in(k.a[2], n)
        return False

    def store(self, loc, v):
        if isinstance(loc, Alt):
            d = self.decide(loc.c)
            if d is True:
                return self.store(loc.a, v)
            if d is False:
                return self.store(loc.b, v)
            base = self.S
            self.S = base.fork(loc.c)
            self.try_(lambda: self.store(loc.a, v))
            s1 = self.S
            self.S = base.fork(t.bnot(loc.c))
            self.try_(lambda: self.store(loc.b, v))
            self.S = self.merge(s1, self.S)
            if self.S is None:
                raise Dead()
            return
        if isinstance(loc, BL):
            return self.store_blk(loc, v)
        if isinstance(loc, Top):
            self.event("topstore", loc.why)
            return
        if not isinstance(loc, L):
            raise Unsupported("store to %r" % (loc,))
        if loc.cell is None:
            self.event("nullderef")
            raise Dead()
        if loc.cell not in self.S.heap:
            self.event("topstore", "dangling")
            return
        self.S.heap[loc.cell] = self.update(self.S.heap[loc.cell], loc.path, v)

    def try_(self, f):
        try:
            return f()
        except Dead:
            self.S = None

    def update(self, old, path, v):
        if not path:
            return v
        if isinstance(old, Alt):
            d = self.decide(old.c)
            if d is True:
                return self.update(old.a, path, v)
            if d is False:
                return self.update(old.b, path, v)
            return Alt(old.c, self.update(old.a, path, v), self.update(old.b, path, v))
        k = path[0]
        if isinstance(old, Top):
            return old
        if isinstance(k, str):
            if not isinstance(old, St):
                self.event("topstore", "field of %s" % type(old).__name__)
                return self.top("update field of non struct")
            f = dict(old.f)
            f[k] = self.update(f.get(k, UNDEF), path[1:], v)
            return St(old.cls, f)
        if isinstance(old, Str):
            self.event("topstore", "string element")
            return Str(None)
        if not isinstance(old, Vec):
            self.event("topstore", "element of %s" % type(old).__name__)
            return self.top("update element of non vector")
        n = len(old.items)
        idx = self.index_alts(k, n)
        items = list(old.items)
        for g, j in idx:
            nv = self.update(items[j], path[1:], v)
            items[j] = nv if g.op == "T" else self.ite(g, nv, items[j])
        return Vec(items)

    def ite(self, c, a, b):
        if c.op == "T":
            return a
        if c.op == "F":
            return b
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == b.sort:
                return t.ite(c, a, b)
            if a.sort == "b":
                a = t.b2i(a)
            if b.sort == "b":
                b = t.b2i(b)
            if a.sort == b.sort:
                return t.ite(c, a, b)
            if a.sort == "v":
                return t.ite(c, a, t.vcast(t.ety_of(a), b))
            return t.ite(c, t.vcast(t.ety_of(b), a), b)
        if type(a) is type(b):
            if isinstance(a, (P, L, BP, Str, Fn, It)) and a == b:
                return a
            if isinstance(a, Vec) and len(a.items) == len(b.items):
                return Vec([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, St) and a.cls == b.cls:
                f = {}
                for k in list(a.f) + [k for k in b.f if k not in a.f]:
                    f[k] = self.ite(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF))
                return St(a.cls, f)
            if isinstance(a, BP) and a.blk == b.blk and a.ety == b.ety:
                return BP(a.blk, t.ite(c, a.off, b.off), a.ety)
            if isinstance(a, Blk):
                return self.merge_blk(a, b)
            if isinstance(a, Undef):
                return a
            if isinstance(a, Opq) and a.kind == b.kind:
                return a
        # an undefined branch value stays guarded
        if isinstance(a, Alt) and a.c is c:
            a = a.a
        if isinstance(b, Alt) and b.c is c:
            b = b.b
        return Alt(c, a, b)

    def merge_blk(self, a, b):
        la, lb = a.layers, b.layers
        i = 0
        while i < len(la) and i < len(lb) and la[i] is lb[i]:
            i += 1
        size = a.size if a.size is b.size else self.ite(TRUE, a.size, b.size)
        return Blk(size, la[:i] + la[i:] + lb[i:], a.name)

    # -------------------------------------------------------------- raw buffers
    def version(self, blk):
        b = self.S.heap[blk]
        key = (blk,) + tuple(id(x) for x in b.layers)
        v = self.vers.get(key)
        if v is None:
            v = len(self.vers)
            self.vers[key] = v
            self.vers[v] = b.layers
        return v

    def access(self, kind, loc):
        b = self.S.heap.get(loc.blk)
        if not isinstance(b, Blk):
            self.event("badaccess", kind, loc.blk)
            return False
        self.event(kind, loc.blk, loc.ety, loc.off)
        return True

    def load_blk(self, loc):
        if not self.access("ld", loc):
            return self.top("load from freed/unknown buffer")
        b = self.S.heap[loc.blk]
        if b.layers:
            last = b.layers[-1]
            if last[0] == "st" and last[2] is loc.off and last[3] == loc.ety and not [
                    x for x in last[1] if x not in self.S.pc and x.op != "T"]:
                return last[4]
            if len(b.layers) >= 1 and last[0] == "zero" and set(last[1]) <= set(self.S.pc):
                return t.vconst(loc.ety, 0)
        return t.mk("ld", (loc.blk, self.version(loc.blk), loc.ety, loc.off), "v")

    def store_blk(self, loc, v):
        if not self.access("st", loc):
            return
        if isinstance(v, Alt):
            v = self.alt2term(v)
        if not isinstance(v, T):
            self.event("topstore", "value %r" % (v,))
            v = t.fresh("topval", sort="v")
            v = t.mk("vsym", (loc.ety, v.a[0]), "v")
        if v.sort != "v":
            v = t.vcast(loc.ety, v)
        b = self.S.heap[loc.blk]
        self.S.heap[loc.blk] = Blk(b.size, b.layers + (("st", self.S.pc, loc.off, loc.ety, v),), b.name)

    def alt2term(self, v):
        if isinstance(v, Alt):
            a, b = self.alt2term(v.a), self.alt2term(v.b)
            if isinstance(a, T) and isinstance(b, T):
                return self.ite(v.c, a, b)
            return Top("alt")
        return v

    # -------------------------------------------------------------- joins
    def merge(self, s1, s2):
        """join of two states with disjoint path conditions"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        self.stats["joins"] += 1
        p1, p2 = s1.pc, s2.pc
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] is p2[i]:
            i += 1
        base = p1[:i]
        g1 = t.band(*p1[i:])
        g2 = t.band(*p2[i:])
        c = g1
        if len(p2) - i < len(p1) - i:
            c = t.bnot(g2)
        both = t.bor(g1, g2)
        pc = base if both.op == "T" else base + (both,)
        saveS = self.S
        self.S = State({}, pc, None)
        heap = {}
        for k, v in s1.heap.items():
            if k in s2.heap:
                w = s2.heap[k]
                heap[k] = v if v is w else self.ite(c, v, w)
            else:
                heap[k] = v
        for k, v in s2.heap.items():
            if k not in s1.heap:
                heap[k] = v
        self.S = saveS
        return State(heap, pc, None)

    def lift(self, f, v):
        """apply f to each alternative of v, joining states and results"""
        if not isinstance(v, Alt):
            return f(v)
        d = self.decide(v.c)
        if d is True:
            return self.lift(f, v.a)
        if d is False:
            return self.lift(f, v.b)
        base = self.S
        res = []
        for c, x in ((v.c, v.a), (t.bnot(v.c), v.b)):
            self.S = base.fork(c)
            try:
                r = self.lift(f, x)
                res.append((self.S, r))
            except Dead:
                pass
        return self.join_results(res, base, v.c)

    def deadtail(self, base, s):
        pass

    def join_results(self, res, base, c):
        if not res:
            self.S = base
            self.flush_pending()
            raise Dead()
        if len(res) == 1:
            self.S = res[0][0]
            self.flush_pending()
            return res[0][1]
        (s1, r1), (s2, r2) = res
        m = self.merge(s1, s2)
        self.S = m
        self.flush_pending()
        p1, p2 = s1.pc, s2.pc
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] is p2[i]:
            i += 1
        g = t.band(*p1[i:])
        return self.ite(g, r1, r2)

    def flush_pending(self):
        pass

    # -------------------------------------------------------------- calls
    def call(self, fid, args, this=None, env=None):
        """args: values (for by-value params) or lvalues (reference params)"""
        f, tu = self.prog.funcs[fid]
        self.stats["calls"] += 1
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported("analysis budget")
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        self.analysed.add(fid)
        hk = self.hooks.get(fid)
        if hk:
            r = hk(self, fid, args, this)
            if r is not NotImplemented:
                return r
        fr = Frame(f, tu, this)
        if env:
            fr.env.update(env)
        for p, a in zip(f["p"], args):
            self.bind(fr, p["id"], tu.types[p["t"]], a)
        sl = self.line
        self.frames.append(fr)
        base = self.S
        try:
            self.stmt(f["b"])
            if self.S is not None:
                fr.rets.append((self.S, None))
        finally:
            self.frames.pop()
            self.line = sl
        return self.join_rets(fr.rets, base)

    def join_rets(self, rets, base):
        if not rets:
            self.S = base
            self.flush_pending()
            raise Dead()
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            p1, p2 = s.pc, s2.pc
            i = 0
            while i < len(p1) and i < len(p2) and p1[i] is p2[i]:
                i += 1
            g1 = t.band(*p1[i:])
            g2 = t.band(*p2[i:])
            g = g1 if len(p1) - i <= len(p2) - i else t.bnot(g2)
            m = self.merge(s, s2)
            sv = self.S
            self.S = m
            if v is not None or v2 is not None:
                v = self.ite(g, v, v2)
            self.S = sv
            s = m
        self.S = s
        self.flush_pending()
        return v

    def bind(self, fr, vid, ty, a):
        if is_ref(ty):
            if not isinstance(a, (L, BL, Alt)):
                a = L(self.new(a, "tmp"))
            fr.env[vid] = a
        else:
            if isinstance(a, (L, BL)):
                a = self.load(a)
            fr.env[vid] = L(self.new(a, "v"))

    def construct(self, fid, cls, args, target=None):
        """run constructor fid; returns the struct value"""
        f, tu = self.prog.funcs[fid]
        cell = target
        if cell is None:
            cell = L(self.new(St(cls, {}), "obj"))
        self.ctor_on(fid, args, cell)
        return cell

    def ctor_on(self, fid, args, loc):
        f, tu = self.prog.funcs[fid]
        self.stats["calls"] += 1
        self.analysed.add(fid)
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        fr = Frame(f, tu, P(loc.cell, loc.path))
        for p, a in zip(f["p"], args):
            self.bind(fr, p["id"], tu.types[p["t"]], a)
        sl = self.line
        self.frames.append(fr)
        base = self.S
        try:
            self.run_inits(f, tu, loc, args)
            self.stmt(f["b"])
            if self.S is not None:
                fr.rets.append((self.S, None))
        except Dead:
            self.pend_state(base)
        finally:
            self.frames.pop()
            self.line = sl
        self.join_rets(fr.rets, base)

    def pend_state(self, base):
        self.S = None

    def run_inits(self, f, tu, loc, args):
        cls = f["cls"]
        vb = self.prog.vecbase(cls)
        done = set()
        for i in f.get("inits", []):
            e = i["e"]
            if i.get("deleg"):
                v = self.rval(e)
                self.store(loc, v)
                for fd in self.allfields(cls):
                    done.add(fd[0])
                continue
            if "base" in i:
                bt = tu.types[i["base"]]
                if e and e.get("k") == "inhctor":
                    self.ctor_on(e["f"], args, loc)
                    continue
                if bt.startswith("std::vector<"):
                    self.store(loc, self.rval(e))
                    continue
                if bt.startswith("std::"):
                    continue
                if e and e.get("k") == "ctor":
                    self.ctor_expr_on(e, loc)
                else:
                    v = self.rval(e)
                    if isinstance(v, St):
                        cur = self.load(loc)
                        f2 = dict(cur.f)
                        f2.update(v.f)
                        self.store(loc, St(cur.cls, f2))
                continue
            if "m" in i:
                name = i["m"]
                ty = self.fieldtype(cls, name)
                done.add(name)
                if e is None:
                    continue
                if ty is not None and is_ref(ty):
                    v = self.eval(e)
                    if not isinstance(v, (L, BL, Alt)):
                        v = L(self.new(v, "tmp"))
                    self.store(L(loc.cell, loc.path + (name,)), v)
                    continue
                v = self.rval(e)
                self.store(L(loc.cell, loc.path + (name,)), v)

    def allfields(self, cls):
        c = self.prog.classes.get(cls)
        if not c:
            return []
        rec, tu = c
        out = []
        for b in rec.get("bases", []):
            out += self.allfields(tu.types[b])
        return out + [(x["n"], tu.types[x["t"]], x) for x in rec.get("fields", [])]

    def fieldtype(self, cls, name):
        for n, ty, _ in self.allfields(cls):
            if n == name:
                return ty
        return None

    # -------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or self.S is None:
            return
        k = s["k"]
        self.nstmt += 1
        if "l" in s:
            self.line = s["l"]
        base = self.S
        try:
            getattr(self, "s_" + k, self.s_unk)(s)
        except Dead:
            self.pend_state(base)

    def s_unk(self, s):
        raise Unsupported("statement " + s["k"] + " " + s.get("cn", ""))

    s_unks = s_unk

    def s_pyx(self, s):
        s["f"]()
        self.flush_pending()

    def e_pyx(self, e):
        return e["f"]()

    def s_expr(self, s):
        self.eval(s["e"])
        self.flush_pending()

    def s_block(self, s):
        for x in s["b"]:
            if self.S is None:
                return
            self.stmt(x)

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s["v"]:
            self.decl(v)

    def decl(self, v):
        fr = self.frames[-1]
        ty = self.ty(v["t"])
        if v.get("static"):
            key = (fr.tu.name, v["id"])
            if key not in self.static_cells:
                self.static_cells[key] = True
                self.event("static", v["n"])
            if not hasattr(self, "static_loc"):
                self.static_loc = {}
            if key not in self.static_loc or self.static_loc[key].cell not in self.S.heap:
                val = self.rval(v["init"]) if v.get("init") else UNDEF
                self.static_loc[key] = L(self.new(val, "static"))
            fr.env[v["id"]] = self.static_loc[key]
            return
        if v.get("binds"):
            val = self.eval(v["init"])
            if not isinstance(val, (L, Alt)):
                val = L(self.new(val, "v"))
            fr.env[v["id"]] = val
            cur = self.load(val)
            if isinstance(cur, St):
                for b, n in zip(v["binds"], cur.f):
                    fr.env[b["id"]] = L(val.cell, val.path + (n,))
            elif isinstance(cur, Vec):
                for i, b in enumerate(v["binds"]):
                    fr.env[b["id"]] = L(val.cell, val.path + (C(i),))
            return
        if is_ref(ty):
            val = self.eval(v["init"])
            if not isinstance(val, (L, BL, Alt)):
                val = L(self.new(val, "tmp"))
            fr.env[v["id"]] = val
            return
        if v.get("init") is None:
            val = self.default_value(ty)
        elif self.selfref(v):
            loc = fr.env[v["id"]] = L(self.new(UNDEF, "v"))
            self.store(loc, self.rval(v["init"]))
            return
        else:
            val = self.rval(v["init"])
        fr.env[v["id"]] = L(self.new(val, "v"))

    def selfref(self, v):
        """a variable whose initialiser captures it by reference (a recursive std::function)"""
        if "selfref" not in v:
            found = False
            todo = [v["init"]]
            while todo and not found:
                x = todo.pop()
                if isinstance(x, dict):
                    if x.get("k") == "lambda":
                        found = any(c.get("id") == v["id"] for c in x["caps"])
                    todo += x.values()
                elif isinstance(x, list):
                    todo += x
            v["selfref"] = found
        return v["selfref"]

    def default_value(self, ty):
        ty = strip(ty)
        m = re.match(r"(.*)\[(\d+)\]$", ty)
        if m:
            return Vec([self.default_value(m.group(1).strip())] * int(m.group(2)))
        if ty in self.prog.classes:
            return St(ty, {})
        return UNDEF

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cvar"):
            self.decl(s["cvar"])
        c = self.cond(s["c"])
        d = self.decide(c)
        if d is True:
            return self.stmt(s["a"])
        if d is False:
            return self.stmt(s["b"])
        base = self.S
        self.S = base.fork(c)
        self.stmt(s["a"])
        s1 = self.S
        self.S = base.fork(t.bnot(c))
        self.stmt(s["b"])
        self.S = self.merge(s1, self.S)
        self.flush_pending()

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            rt = fr.tu.types[fr.fn["rt"]]
            if is_ref(rt):
                v = self.eval(s["e"])
            else:
                v = self.rval(s["e"])
        fr.rets.append((self.S, v))
        self.S = None

    def s_break(self, s):
        self.frames[-1].brk[-1].append(self.S)
        self.S = None

    def s_cont(self, s):
        self.frames[-1].cont[-1].append(self.S)
        self.S = None

    def s_try(self, s):
        # every handler is taken to catch whatever its block throws
        self.trystack.append([])
        try:
            self.stmt(s["b"])
        finally:
            caught = self.trystack.pop()
        done = self.S
        hs = None
        for c in caught:
            hs = self.merge(hs, c)
        if hs is not None and s.get("h"):
            self.S = hs
            self.stmt(s["h"][0])
            done = self.merge(done, self.S)
        self.S = done
        self.flush_pending()

    def s_switch(self, s):
        v = self.rval(s["c"])
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []  # (labels, stmt)
        for st in body:
            labs = []
            while st["k"] in ("case", "default"):
                labs.append(None if st["k"] == "default" else st["v"])
                st = st["s"]
            flat.append((labs, st))
        fr = self.frames[-1]
        fr.brk.append([])
        base = self.S
        cases = []
        for i, (labs, st) in enumerate(flat):
            for l in labs:
                cases.append((i, l))
        vals = []
        anyc = []
        out = []
        # guard per label
        for i, l in cases:
            if l is None:
                continue
            lv = self.rval(l)
            anyc.append((i, t.eq(self.toint(v), self.toint(lv))))
        dflt = [i for i, l in cases if l is None]
        none = t.band(*[t.bnot(g) for _, g in anyc])
        ents = anyc + ([(dflt[0], none)] if dflt else [(len(flat), none)])
        res = None
        for i, g in ents:
            d = base.decide(g)
            if d is False:
                continue
            self.S = base.fork(g) if d is None else base.fork()
            for _, st in flat[i:]:
                if self.S is None:
                    break
                self.stmt(st)
            res = self.merge(res, self.S)
            if d is True:
                break
        for b in fr.brk.pop():
            res = self.merge(res, b)
        self.S = res
        self.flush_pending()

    # loops ---------------------------------------------------------------
    def s_while(self, s):
        self.loop(s, s.get("c"), None, s["b"], False, s.get("cvar"))

    def s_do(self, s):
        self.loop(s, s["c"], None, s["b"], True)

    def s_for(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        self.loop(s, s.get("c"), s.get("inc"), s["b"], False)

    def s_rfor(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        fr = self.frames[-1]
        r = self.eval(s["r"])
        if not isinstance(r, (L, Alt)):
            r = L(self.new(r, "tmp"))

        def split(x, f):
            base = self.S
            d = self.decide(x.c)
            if d is True:
                return f(x.a)
            if d is False:
                return f(x.b)
            self.S = base.fork(x.c)
            self.try_(lambda: f(x.a))
            s1 = self.S
            self.S = base.fork(t.bnot(x.c))
            self.try_(lambda: f(x.b))
            self.S = self.merge(s1, self.S)

        def go(loc):
            if isinstance(loc, Alt):
                return split(loc, go)
            v = self.load(loc)
            if isinstance(v, Alt):
                return split(v, lambda x: go(L(self.new(x, "tmp"))) if not is_ref(self.ty(s["v"]["t"]))
                             or "const" in self.ty(s["v"]["t"]) else self.nosplit())
            if isinstance(v, Str) and v.cells is not None:
                loc2 = L(self.new(Vec([self.cell2int(c) for c in v.cells]), "tmp"))
                v = self.load(loc2)
                loc = loc2
            if isinstance(v, St) and v.cls == "std::span":
                return self.rfor_span(s, v)
            if isinstance(v, St) and s.get("bs"):
                return self.rfor_class(s, loc)
            if not isinstance(v, Vec):
                raise Unsupported("range-for over %s" % type(v).__name__)
            vty = self.ty(s["v"]["t"])
            fr.brk.append([])
            n = len(v.items)
            for i in range(n):
                if self.S is None:
                    break
                fr.cont.append([])
                el = L(loc.cell, loc.path + (C(i),))
                if s["v"].get("binds"):
                    vv = self.load(el)
                    if isinstance(vv, St):
                        for b, nm in zip(s["v"]["binds"], vv.f):
                            fr.env[b["id"]] = L(el.cell, el.path + (nm,))
                elif is_ref(vty):
                    fr.env[s["v"]["id"]] = el
                else:
                    fr.env[s["v"]["id"]] = L(self.new(self.load(el), "v"))
                self.stmt(s["b"])
                for c in fr.cont.pop():
                    self.S = self.merge(self.S, c)
                self.flush_pending()
            for b in fr.brk.pop():
                self.S = self.merge(self.S, b)
            self.flush_pending()
        go(r)

    def rfor_class(self, s, loc):
        """range-for over a class with begin() and end(): the loop it stands for"""
        fr = self.frames[-1]
        for d in s["rs"]["v"] if s.get("rs") else ():
            fr.env[d["id"]] = loc
        self.stmt(s["bs"])
        self.stmt(s["es"])
        if self.S is None:
            return

        def body():
            self.decl(s["v"])
            self.stmt(s["b"])
        self.loop(s, s["c"], s["inc"], {"k": "pyx", "f": body}, False)

    def rfor_span(self, s, v):
        """range-for over a span: the loop over its pointer range"""
        fr = self.frames[-1]
        ref = is_ref(self.ty(s["v"]["t"]))
        k = L(self.new(ZERO, "k"))

        def body():
            el = self.deref(self.addto(v.f["p"], self.load(k), "long"))
            fr.env[s["v"]["id"]] = el if ref else L(self.new(self.load(el), "v"))
            self.stmt(s["b"])

        self.loop(s, {"k": "pyx", "f": lambda: t.lt(self.load(k), v.f["n"])},
                  {"k": "pyx", "f": lambda: self.store(k, t.add(self.load(k), C(1)))},
                  {"k": "pyx", "f": body}, False)

    def nosplit(self):
        raise Unsupported("range-for over alternatives")

    def iteration(self, cond, inc, body, do, cvar=None):
        """one iteration from self.S; returns (exit_states, next_state)"""
        fr = self.frames[-1]
        exits = []
        nxt = None

        def test():
            if cvar:
                self.decl(cvar)
            if cond is None:
                return
            c = self.cond(cond)
            d = self.decide(c)
            if d is True:
                return
            if d is False:
                exits.append(self.S)
                self.S = None
                return
            e = self.S.fork(t.bnot(c))
            exits.append(e)
            self.S = self.S.fork(c)

        def guarded(f):
            if self.S is None:
                return
            base = self.S
            try:
                f()
            except Dead:
                self.pend_state(base)

        if not do:
            guarded(test)
        if self.S is not None:
            fr.cont.append([])
            self.stmt(body)
            for c in fr.cont.pop():
                self.S = self.merge(self.S, c)
            self.flush_pending()
            if inc is not None:
                guarded(lambda: self.eval(inc))
        if do:
            guarded(test)
        return exits, self.S

    def loop(self, node, cond, inc, body, do, cvar=None, most=80):
        fr = self.frames[-1]
        S0 = self.S
        nrets = len(fr.rets)
        fr.brk.append([])
        exits = []
        nsym = 0
        ok = True
        it = 0
        nev0 = len(self.evlog)
        tops0 = dict(self.topreasons)
        st0 = self.nstmt
        self.S = S0.fork()
        while self.S is not None:
            it += 1
            r0, b0 = len(fr.rets), len(fr.brk[-1])
            ex, nx = self.iteration(cond, inc, body, do, cvar)
            trivial = cond is None or cond["k"] in ("bool", "int")
            if nx is not None:
                if ex:
                    nsym += 1
                    if it > 1 and self.nstmt - st0 > 1500:
                        nsym += self.UNROLL
                elif trivial and (len(fr.rets) > r0 or len(fr.brk[-1]) > b0):
                    nsym += self.UNROLL
            exits += ex
            self.S = nx
            if nsym >= self.UNROLL or it > most:
                ok = False
                break
        if ok:
            res = None
            for e in exits + fr.brk.pop():
                res = self.merge(res, e)
            self.S = res
            self.flush_pending()
            return
        fr.brk.pop()
        del fr.rets[nrets:]
        del self.evlog[nev0:]
        self.topreasons = tops0
        self.S = S0
        if not t.PINS or nsym or most > 80:
            self.summarised(node, cond, inc, body, do, cvar, 2)
            return
        # every test was decided so far: step through what cannot be summarised
        import loops
        keep = set(loops.LOOPS)
        S1 = S0.fork()
        depth = len(fr.brk), len(fr.cont), len(self.frames)
        try:
            self.summarised(node, cond, inc, body, do, cvar, 2)
            return
        except Unsupported:
            if len(self.frames) != depth[2]:
                raise
        for k in [k for k in loops.LOOPS if k not in keep]:
            del loops.LOOPS[k]
        del fr.brk[depth[0]:]
        del fr.cont[depth[1]:]
        del fr.rets[nrets:]
        del self.evlog[nev0:]
        self.topreasons = tops0
        self.S = S1
        self.loop(node, cond, inc, body, do, cvar, 2500)

    def summarised(self, node, cond, inc, body, do, cvar, peel):
        """the loop as a transition system; where its first iteration changes the
        shape of a variable (null to non-null, empty to filled), after that iteration"""
        import loops
        fr = self.frames[-1]
        S0 = self.S
        nrets, nev, tops, nl = len(fr.rets), len(self.evlog), dict(self.topreasons), set(loops.LOOPS)
        try:
            return loops.summarise(self, node, cond, inc, body, do, cvar)
        except Unsupported as e:
            if not peel or "changes the shape" not in str(e):
                raise
        for k in [k for k in loops.LOOPS if k not in nl]:
            del loops.LOOPS[k]
        del fr.rets[nrets:]
        del self.evlog[nev:]
        self.topreasons = tops
        self.S = S0.fork()
        fr.brk.append([])
        exits, nx = self.iteration(cond, inc, body, do, cvar)
        exits = exits + fr.brk.pop()
        self.S = nx
        if nx is not None:
            self.summarised(node, cond, inc, body, do, cvar, peel - 1)
        for x in exits:
            self.S = self.merge(self.S, x)
        self.flush_pending()

    # -------------------------------------------------------------- expressions
    def rval(self, e):
        """value of expression e (class glvalues are copied)"""
        v = self.eval(e)
        if isinstance(v, (L, BL)):
            return self.load(v)
        if isinstance(v, Alt) and self.is_lalt(v):
            return self.load(v)
        return v

    def is_lalt(self, v):
        while isinstance(v, Alt):
            v = v.a
        return isinstance(v, (L, BL))

    def cond(self, e):
        v = self.rval(e)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, T):
            if v.sort == "b":
                return v
            if v.sort == "v":
                return t.vcmp("!=", v, t.vconst(t.ety_of(v) or "f64", 0))
            return t.i2b(v)
        if isinstance(v, P):
            return t.B(v.cell is not None)
        if isinstance(v, (BP, Fn, Lam)):
            return TRUE
        if isinstance(v, Alt):
            return t.bite(v.c, self.tobool(v.a), self.tobool(v.b))
        if isinstance(v, Top):
            return t.fresh("topb:" + v.why, sort="b")
        if v is UNDEF:
            self.event("undef")
            return t.fresh("undefb", sort="b")
        if isinstance(v, Opq):
            return t.fresh("opqb", sort="b")
        raise Unsupported("bool of %r" % (v,))

    def toint(self, v):
        if isinstance(v, T):
            if v.sort == "b":
                return t.b2i(v)
            return v
        if isinstance(v, Alt):
            return self.ite(v.c, self.toint(v.a), self.toint(v.b))
        if v is UNDEF:
            self.event("undef")
            return t.fresh("undef")
        if isinstance(v, Top):
            return t.fresh("top:" + v.why)
        if isinstance(v, P) and v.cell is None:
            return ZERO
        raise Unsupported("int of %r" % (v,))

    def eval(self, e):
        if e is None:
            return None
        k = e["k"]
        if "l" in e and e["l"] and k not in ("defarg",):
            self.line = e["l"]
        if "cv" in e and k in ("sizeof", "unk", "ref"):
            ty = strip(self.ty(e["t"]))
            if ty == "bool":
                return t.B(e["cv"])
            return self.constant(e, ty)
        return getattr(self, "e_" + k, self.e_unk)(e)

    def constant(self, e, ty):
        b = INTS.get(ty)
        return C(t.wrapc(e["cv"], *b) if b and b[0] > 1 else e["cv"])

    def e_unk(self, e):
        if "cv" in e:
            return self.constant(e, strip(self.ty(e["t"])))
        raise Unsupported("expression %s %s" % (e["k"], e.get("cn", "")))

    def e_temp(self, e):
        v = self.eval(e["e"])
        if isinstance(v, (L, BL)) or isinstance(v, Alt) and self.is_lalt(v):
            return v
        return L(self.new(v, "tmp"))

    def e_defarg(self, e):
        return self.eval(e["e"])

    def e_stdinit(self, e):
        v = self.rval(e["e"])
        return v

    def e_int(self, e):
        return C(e["v"])

    def e_bool(self, e):
        return t.B(e["v"])

    def e_flt(self, e):
        ty = ETY.get(strip(self.ty(e["t"])), "f64")
        return t.vconst(ty, t.conv_const(float(e["v"]), ty))

    def e_str(self, e):
        return L(self.new(Str(tuple(e["v"])), "str"))

    def e_nullp(self, e):
        return NULL

    def e_zero(self, e):
        ty = strip(self.ty(e["t"]))
        return self.zero_of(ty)

    def zero_of(self, ty):
        if ty in ("float", "double"):
            return t.vconst(ETY[ty], 0.0)
        if ty == "bool":
            return FALSE
        if ty in INTS:
            return ZERO
        if ty.endswith("*") or ty.startswith(SMART):
            return NULL
        if ty in self.prog.classes:
            return St(ty, {})
        if ty.startswith("std::"):
            import stdmodel
            f = stdmodel.functor(self, ty)
            if f is not None:
                return f
        return ZERO

    def e_this(self, e):
        return self.frames[-1].this

    def e_sizeof(self, e):
        raise Unsupported("sizeof")

    def e_ref(self, e):
        dk = e["dk"]
        if dk == "fn":
            return Fn(e["f"])
        if dk == "enum":
            return C(e["cv"])
        fr = self.frames[-1]
        if dk in ("var", "bind"):
            v = fr.env.get(e["id"])
            if v is not None:
                return v
            if dk == "bind" and e.get("be"):
                return self.eval(e["be"])
            if e.get("vt") is not None:
                # an unused / unevaluated entity
                raise Unsupported("unbound variable " + e["n"])
        if dk == "glob":
            if e["id"] in fr.env:
                return fr.env[e["id"]]
            return self.global_loc(e["q"], e)
        raise Unsupported("reference to " + e.get("n", "?"))

    def global_loc(self, q, e=None):
        if q in self.glob and self.glob[q].cell in self.S.heap:
            return self.glob[q]
        rec = self.prog.globs.get(q)
        if rec is None:
            # library global (std::cerr ...)
            loc = L("G:" + q)
            self.S.heap[loc.cell] = Opq("global", q)
            self.glob[q] = loc
            return loc
        v, tu = rec
        if "val" in v:
            val = self.apval(v["val"])
        elif v.get("init"):
            fr = Frame({"q": q, "l": v["l"], "rt": 0, "p": []}, tu)
            self.frames.append(fr)
            try:
                val = self.rval(v["init"])
            except Unsupported:
                val = Opq("global", q)
            finally:
                self.frames.pop()
        else:
            val = Opq("global", q)
        if strip(tu.types[v["t"]]).startswith("std::mersenne") or "mersenne_twister" in tu.types[v["t"]]:
            val = Opq("rng", (q, 0))
        loc = L("G:" + q)
        if not v.get("const") and isinstance(val, T) and val.sort == "i":
            # mutable global: any earlier value
            val = t.sym("glob:" + q, 0)
            b = INTS.get(strip(tu.types[v["t"]]))
            if b and b[0] < 64:
                val = t.wrap(val, *b)
        self.S.heap[loc.cell] = val
        self.glob[q] = loc
        return loc

    def apval(self, a):
        if "i" in a:
            return C(a["i"])
        if "f" in a:
            return t.vconst("f64", a["f"])
        if "a" in a:
            return Vec([self.apval(x) for x in a["a"]])
        if "s" in a:
            if len(a["s"]) == 1 and "a" in a["s"][0]:
                return self.apval(a["s"][0])  # std::array
            return Vec([self.apval(x) for x in a["s"]])
        if "fn" in a:
            return Fn(a["fn"])
        if "str" in a:
            return Str(tuple(a["str"]))
        if "null" in a:
            return NULL
        return Top("constant")

    # casts ----------------------------------------------------------------
    def e_cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            return self.load(self.eval(e["e"]))
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "BaseToDerived", "LValueBitCast", "AtomicToNonAtomic"):
            v = self.eval(e["e"])
            return v
        if ck == "FunctionToPointerDecay":
            return self.eval(e["e"])
        if ck == "ArrayToPointerDecay":
            v = self.eval(e["e"])
            if isinstance(v, L):
                x = self.load(v)
                if isinstance(x, Str):
                    return P(v.cell, v.path)
                return P(v.cell, v.path + (ZERO,))
            return v
        if ck == "NullToPointer":
            self.eval(e["e"]) if e["e"]["k"] not in ("nullp", "int") else None
            return NULL
        ty = strip(self.ty(e["t"]))
        if ck == "ToVoid":
            self.eval(e["e"])
            return None
        if ck == "Dynamic" and not ty.endswith("*"):
            def refcast(l):
                r = self.dyncast(P(l.cell, l.path), ty) if isinstance(l, L) else self.top("dynamic_cast of %r" % (l,))

                def go(x):
                    if isinstance(x, P) and x.cell is None:
                        self.std.throw(self, "std::bad_cast")
                    return L(x.cell, x.path) if isinstance(x, P) else x
                return self.lift(go, r)
            return self.lift(refcast, self.eval(e["e"]))
        v = self.rval(e["e"])
        if ck == "Dynamic":
            return self.lift(lambda x: self.dyncast(x, ty), v)
        if ck in ("BitCast", "IntegralToPointer", "PointerToIntegral"):
            return self.lift(lambda x: self.bitcast(x, ty), v)
        if ck == "IntegralCast" or ck == "BooleanToSignedIntegral":
            return self.toty(v, ty)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return self.tobool(v)
        if ck in ("FloatingCast", "IntegralToFloating", "FloatingToIntegral"):
            return self.toty(v, ty)
        raise Unsupported("cast " + ck)

    def toty(self, v, ty):
        """conversion of a scalar to type ty"""
        ty = strip(ty)
        if isinstance(v, Alt):
            return self.lift(lambda x: self.toty(x, ty), v)
        if isinstance(v, Top):
            return v
        if v is UNDEF:
            self.event("undef")
            return v
        if not isinstance(v, T):
            raise Unsupported("convert %r to %s" % (v, ty))
        if ty in ("float", "double", "long double"):
            return t.vcast(ETY[ty], v)
        if ty == "bool":
            return self.tobool(v)
        bits, sg = INTS.get(ty, (32, False))
        if v.sort == "b":
            return t.b2i(v)
        if v.sort == "v":
            return t.vcast(ETY.get(ty, "i32"), v)
        return self.intconv(v, bits, sg)

    def intconv(self, p, bits, sg):
        if p.op == "c":
            return t.wrap(p, bits, sg)
        while p.op == "wrap" and p.a[0] >= bits:
            p = p.a[2]
        if p.op == "chr":
            return p
        if bits >= 64:
            p = t.mod64(p)
        if p.op == "c":
            return t.wrap(p, bits, sg)
        if bits >= 64 and sg:
            return p
        if p.op == "chr":
            return p
        lo, hi = self.S.facts().interval(p)
        if bits >= 64:
            if lo is not None and lo >= 0:
                return p
            if self.S.facts()._le(t.neg(p)):
                return p
            return t.wrap(p, bits, sg)
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if lo is not None and hi is not None and lo >= mn and hi <= mx:
            return p
        return t.wrap(p, bits, sg)

    def dyncast(self, v, ty):
        if not isinstance(v, P):
            return v if isinstance(v, Top) else self.top("dynamic_cast of %r" % (v,))
        if v.cell is None:
            return v
        o = self.load(L(v.cell, v.path))
        want = strip(ty.rstrip("*").strip()) if ty.endswith("*") else ty
        want = want.replace("const ", "")
        if isinstance(o, St):
            return v if self.prog.is_a(o.cls, want) else NULL
        if isinstance(o, Alt):
            return self.lift(lambda x: (v if isinstance(x, St) and self.prog.is_a(x.cls, want) else NULL), o)
        return self.top("dynamic_cast")

    def bitcast(self, v, ty):
        if isinstance(v, BP):
            if ty.endswith("*"):
                el = strip(ty[:-1].strip()).replace("const ", "")
                ety = ETY.get(el)
                if el == "void":
                    ety = "u8"
                if ety is None:
                    return self.top("reinterpret_cast to " + ty)
                return BP(v.blk, v.off, ety)
            return v
        return v

    # operators --------------------------------------------------------------
    def e_un(self, e):
        op = e["op"]
        if op == "&":
            v = self.eval(e["e"])
            return self.addr(v)
        if op == "*":
            v = self.rval(e["e"])
            return self.deref(v)
        if op in ("++", "--", "p++", "p--"):
            loc = self.eval(e["e"])
            old = self.load(loc)
            d = 1 if "+" in op else -1
            ty = strip(self.ty(e["e"]["t"]))
            new = self.addto(old, d, ty)
            self.store(loc, new)
            return old if op[0] == "p" else loc
        v = self.rval(e["e"])
        ty = strip(self.ty(e["t"]))
        if op == "!":
            return t.bnot(self.tobool(v))
        if op == "-":
            return self.arith("-", self.zero_of(ty) if ty not in ("float", "double") else None, v, ty, unary=True)
        if op == "+":
            return v
        if op == "~":
            x = self.toint(v)
            if x.sort == "i" and x.op == "c":
                return self.toty(C(~x.a[0]), ty)
            return self.top("~")
        raise Unsupported("unary " + op)

    def addr(self, v):
        if isinstance(v, L):
            return P(v.cell, v.path)
        if isinstance(v, BL):
            return BP(v.blk, v.off, v.ety)
        if isinstance(v, Alt):
            return Alt(v.c, self.addr(v.a), self.addr(v.b))
        if isinstance(v, (Fn, Top)):
            return v
        return P(self.new(v, "tmp"))

    def deref(self, v):
        if isinstance(v, Alt):
            # drop null alternatives (recording the dereference)
            d = self.decide(v.c)
            if d is True:
                return self.deref(v.a)
            if d is False:
                return self.deref(v.b)
            for x, c in ((v.a, v.c), (v.b, t.bnot(v.c))):
                if isinstance(x, P) and x.cell is None:
                    self.event("nullderef", cond=c)
                    other = v.b if x is v.a else v.a
                    self.S = self.S.fork(t.bnot(c))
                    return self.deref(other)
            return Alt(v.c, self.deref(v.a), self.deref(v.b))
        if isinstance(v, P):
            if v.cell is None:
                self.event("nullderef")
                raise Dead()
            return L(v.cell, v.path)
        if isinstance(v, BP):
            return BL(v.blk, v.off, v.ety)
        if isinstance(v, It):
            return self.it_loc(v)
        if isinstance(v, (Top, Fn)):
            return v
        if v is UNDEF:
            self.event("undef")
            return Top("deref of undefined pointer")
        raise Unsupported("deref of %r" % (v,))

    def it_loc(self, v):
        i = v.i
        if v.rev:
            vec = self.load(v.loc)
            i = t.sub(C(len(vec.items) - 1), i)
        return L(v.loc.cell, v.loc.path + (i,))

    def addto(self, old, d, ty):
        if isinstance(d, int):
            d = C(d)
        if isinstance(old, Alt):
            return self.lift(lambda x: self.addto(x, d, ty), old)
        if isinstance(old, T):
            if old.sort == "v" or d.sort == "v":
                et = ETY.get(ty, "i32")
                return t.vop("+", et, t.vcast(et, old), t.vcast(et, d))
            return self.mkint(t.add(self.unw(self.toint(old)), self.unw(d)), ty)
        if isinstance(old, BP):
            return BP(old.blk, t.add(old.off, t.mul(C(t.ESIZE[old.ety]), self.unw(d))), old.ety)
        if isinstance(old, It):
            return It(old.loc, t.add(old.i, self.unw(d)), old.rev)
        if isinstance(old, P):
            if old.cell is None:
                return self.top("null pointer arithmetic")
            if old.path and not isinstance(old.path[-1], str):
                k = old.path[-1]
                return P(old.cell, old.path[:-1] + (t.add(k, self.unw(d)),))
            if d is ZERO:
                return old
            return self.top("pointer arithmetic")
        if isinstance(old, Top):
            return old
        if old is UNDEF:
            self.event("undef")
            return Top("undefined")
        raise Unsupported("add to %r" % (old,))

    def unw(self, p):
        """remove a 64-bit wrap (ring operations are modular)"""
        while p.op == "wrap" and p.a[0] >= 64:
            p = p.a[2]
        return p

    def mkint(self, p, ty):
        bits, sg = INTS.get(ty, (32, False))
        if p.op == "c":
            return t.wrap(p, bits, sg)
        if sg:
            if bits == 64 and p.op == "poly" and any(abs(c) >= 1 << 62 for c in t.pd(p).values()):
                return t.wrap(p, 64, True)      # two's complement, as the compiled code does
            return p
        return self.intconv(p, bits, sg) if bits >= 64 else self.intconv(p, bits, sg)

    def arith(self, op, a, b, ty, unary=False):
        if isinstance(a, Alt):
            return self.lift(lambda x: self.arith(op, x, b, ty, unary), a)
        if isinstance(b, Alt):
            return self.lift(lambda x: self.arith(op, a, x, ty, unary), b)
        if a is UNDEF or b is UNDEF:
            self.event("undef")
            return Top("undefined operand")
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if unary:
            if b.sort == "v":
                return t.vun("-", ETY[ty], t.vcast(ETY[ty], b))
            return self.mkint(t.neg(self.unw(self.toint(b))), ty)
        # pointer arithmetic
        if isinstance(a, (BP, P, It)) and op in "+-" and isinstance(b, T):
            return self.addto(a, b if op == "+" else t.neg(self.unw(b)), ty)
        if isinstance(b, (BP, P, It)) and op == "+" and isinstance(a, T):
            return self.addto(b, a, ty)
        if isinstance(a, BP) and isinstance(b, BP) and op == "-" and a.blk == b.blk:
            return t.div(t.sub(a.off, b.off), C(t.ESIZE[a.ety]))
        if isinstance(a, It) and isinstance(b, It) and op == "-":
            return t.sub(a.i, b.i)
        if isinstance(a, P) and isinstance(b, P) and op == "-" and a.cell == b.cell and a.path[:-1] == b.path[:-1]:
            return t.sub(a.path[-1], b.path[-1])
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported("arith %s on %r, %r" % (op, a, b))
        if a.sort == "v" or b.sort == "v":
            et = ETY.get(ty, "i32")
            x, y = t.vcast(et, a), t.vcast(et, b)
            if op == "/" and et[0] != "f":
                self.event("idiv", y)
            return t.vop(op, et, x, y)
        x, y = self.toint(a), self.toint(b)
        bits, sg = INTS.get(ty, (32, False))
        if op in "+-*":
            x, y = self.unw(x), self.unw(y)
            r = {"+": t.add, "-": t.sub, "*": t.mul}[op](x, y)
            return self.mkint(r, ty)
        if op in "/%":
            d = self.decide(t.eq(y, ZERO))
            if d is not False:
                self.event("divzero", cond=t.eq(y, ZERO))
                if d is True:
                    raise Dead()
                self.S = self.S.fork(t.ne(y, ZERO))
            return (t.div if op == "/" else t.mod)(x, y)
        if op in ("&", "|", "^", "<<", ">>"):
            if x.op == "c" and y.op == "c":
                n = {"&": x.a[0] & y.a[0], "|": x.a[0] | y.a[0], "^": x.a[0] ^ y.a[0],
                     "<<": x.a[0] << min(max(y.a[0], 0), 200), ">>": x.a[0] >> min(max(y.a[0], 0), 200)}[op]
                return self.mkint(C(n), ty)
            if op == "<<" and y.op == "c":
                return self.mkint(t.mul(x, C(1 << y.a[0])), ty)
            if a.sort == "b" and b.sort == "b" and op in "&|":
                return (t.band if op == "&" else t.bor)(a, b)
            if a.sort == "b" and b.sort == "b" and op == "^":
                return t.bite(a, t.bnot(b), b)
            # bool-valued integers
            bx, by = self.boolish(x), self.boolish(y)
            if bx is not None and by is not None and op in "&|^":
                r = {"&": t.band(bx, by), "|": t.bor(bx, by), "^": t.bite(bx, t.bnot(by), by)}[op]
                return t.b2i(r)
            return self.top("bit operation")
        raise Unsupported("operator " + op)

    def boolish(self, x):
        if x.sort == "b":
            return x
        if x is ZERO:
            return FALSE
        if x is ONE:
            return TRUE
        if x.op == "ite" and x.a[1] is ONE and x.a[2] is ZERO:
            return x.a[0]
        if x.op == "ite" and x.a[1] is ZERO and x.a[2] is ONE:
            return t.bnot(x.a[0])
        return None

    def compare(self, op, a, b):
        if isinstance(a, Alt):
            return self.lift(lambda x: self.compare(op, x, b), a)
        if isinstance(b, Alt):
            return self.lift(lambda x: self.compare(op, a, x), b)
        if a is UNDEF or b is UNDEF:
            self.event("undef")
            return t.fresh("undefcmp", sort="b")
        if isinstance(a, Top) or isinstance(b, Top):
            return t.fresh("topcmp", sort="b")
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == "b" and b.sort == "b" and op in ("==", "!="):
                r = t.bite(a, b, t.bnot(b))
                return r if op == "==" else t.bnot(r)
            if a.sort == "v" or b.sort == "v":
                ea = t.ety_of(a) if a.sort == "v" else t.ety_of(b)
                eb = t.ety_of(b) if b.sort == "v" else ea
                return t.vcmp(op, a if a.sort == "v" else t.vcast(eb, a), b if b.sort == "v" else t.vcast(ea, b))
            x, y = self.toint(a), self.toint(b)
            if op in ("==", "!="):
                if x.op == "wrap" and y.op == "wrap" and x.a[:2] == y.a[:2] and x.a[0] >= 64:
                    x, y = x.a[2], y.a[2]
                elif "chr" in (x.op, y.op):
                    r = self.chr_eq(x, y)
                    return r if op == "==" else t.bnot(r)
            return {"<": t.lt, "<=": t.le, ">": t.gt, ">=": t.ge, "==": t.eq, "!=": t.ne}[op](x, y)
        if isinstance(a, It) and isinstance(b, It):
            x, y = a.i, b.i
            return {"<": t.lt, "<=": t.le, ">": t.gt, ">=": t.ge, "==": t.eq, "!=": t.ne}[op](x, y)
        if isinstance(a, BP) and isinstance(b, BP) and a.blk == b.blk:
            return {"<": t.lt, "<=": t.le, ">": t.gt, ">=": t.ge, "==": t.eq, "!=": t.ne}[op](a.off, b.off)
        if isinstance(a, P) and isinstance(b, P) and a.cell == b.cell and a.path[:-1] == b.path[:-1] \
                and a.path and b.path and isinstance(a.path[-1], T) and isinstance(b.path[-1], T):
            x, y = a.path[-1], b.path[-1]
            return {"<": t.lt, "<=": t.le, ">": t.gt, ">=": t.ge, "==": t.eq, "!=": t.ne}[op](x, y)
        if op in ("==", "!="):
            r = self.same(a, b)
            return r if op == "==" else t.bnot(r)
        raise Unsupported("compare %s on %r, %r" % (op, a, b))

    def chr_eq(self, x, y):
        if x.op == "chr" and y.op == "chr":
            return TRUE if x is y else FALSE
        c = y if x.op == "chr" else x
        n = x if x.op == "chr" else y
        if c.op == "c":
            ch = chr(c.a[0] & 255)
            if ch == "-" and n.a[1] == 0:
                return t.lt(n.a[0], ZERO)
            if ch == "-":
                return FALSE
            if ch.isdigit() or ch in "+-":
                return t.fresh("chr", sort="b")
            return FALSE
        return t.fresh("chr", sort="b")

    def same(self, a, b):
        """pointer / aggregate equality"""
        if isinstance(a, P) and isinstance(b, P):
            return t.B(a.cell == b.cell and a.path == b.path)
        if isinstance(a, (BP, Fn, Lam)) and isinstance(b, P) and b.cell is None:
            return FALSE
        if isinstance(b, (BP, Fn, Lam)) and isinstance(a, P) and a.cell is None:
            return FALSE
        if isinstance(a, BP) and isinstance(b, BP):
            return FALSE
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.items) != len(b.items):
                return FALSE
            return t.band(*[self.compare("==", x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Str) and isinstance(b, Str):
            if a.cells is None or b.cells is None or any(isinstance(c, tuple) and c[0] in ("txt", "alt") for c in a.cells + b.cells):
                return t.fresh("streq", sort="b")
            return t.B(a.cells == b.cells)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return t.B(a.id == b.id)
        if isinstance(a, St) and isinstance(b, St) and a.cls == b.cls:
            return t.band(*[self.compare("==", a.f[k], b.f.get(k, UNDEF)) for k in a.f])
        return t.fresh("same", sort="b")

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["a"])
            d = self.decide(a)
            if op == "&&":
                if d is False:
                    return FALSE
                if d is True:
                    return self.cond(e["b"])
            else:
                if d is True:
                    return TRUE
                if d is False:
                    return self.cond(e["b"])
            g = a if op == "&&" else t.bnot(a)
            base = self.S
            nev = len(self.evlog)
            self.S = base.fork(g)
            try:
                b = self.cond(e["b"])
                s1 = self.S
            except Dead:
                self.deadtail(base, self.S) if self.S is not None else None
                s1, b = None, FALSE
            s2 = base.fork(t.bnot(g))
            if s1 is not None and len(self.evlog) == nev and len(s1.pc) == len(base.pc) + 1 and all(
                    s1.heap.get(k) is v for k, v in s2.heap.items()):
                self.S = base
            else:
                self.S = self.merge(s1, s2)
            self.flush_pending()
            return t.band(a, b) if op == "&&" else t.bor(a, b)
        if op == ",":
            self.eval(e["a"])
            return self.eval(e["b"])
        a = self.rval(e["a"])
        b = self.rval(e["b"])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b)
        if op == "<=>":
            raise Unsupported("<=>")
        return self.arith(op, a, b, strip(self.ty(e["t"])))

    def e_cond(self, e):
        c = self.cond(e["c"])
        d = self.decide(c)
        if d is True:
            return self.eval(e["a"])
        if d is False:
            return self.eval(e["b"])
        base = self.S
        res = []
        for g, x in ((c, e["a"]), (t.bnot(c), e["b"])):
            self.S = base.fork(g)
            try:
                v = self.eval(x)
                res.append((self.S, v))
            except Dead:
                if self.S is not None:
                    self.deadtail(base, self.S)
        return self.join_results(res, base, c)

    def e_assign(self, e):
        v = self.rval(e["b"])
        loc = self.eval(e["a"])
        self.store(loc, v)
        return loc

    def e_cassign(self, e):
        v = self.rval(e["b"])
        loc = self.eval(e["a"])
        old = self.load(loc)
        ct, cr = strip(self.ty(e["ct"])), strip(self.ty(e["cr"]))
        lt = strip(self.ty(e["a"]["t"]))
        if isinstance(old, (BP, P, It)):
            new = self.arith(e["op"], old, v, lt)
        else:
            new = self.arith(e["op"], self.toty(old, ct), v, cr)
            new = self.toty(new, lt)
        self.store(loc, new)
        return loc

    def e_idx(self, e):
        a = self.rval(e["a"])
        i = self.rval(e["b"])
        if isinstance(a, T) and not isinstance(i, T):
            a, i = i, a
        return self.deref(self.addto(a, self.toint(i), "long"))

    def e_mem(self, e):
        if e.get("m"):
            raise Unsupported("member function reference")
        if e["ar"]:
            b = self.deref(self.rval(e["e"]))
        else:
            b = self.eval(e["e"])
        r = self.member(b, e["n"])
        if is_ref(self.ty(e["vt"])) if e.get("vt") is not None else False:
            return self.load(r)
        return r

    def member(self, b, n):
        if isinstance(b, Alt):
            return Alt(b.c, self.member(b.a, n), self.member(b.b, n))
        if isinstance(b, L):
            return L(b.cell, b.path + (n,))
        if isinstance(b, St):
            return b.f.get(n, UNDEF)
        if isinstance(b, Top):
            return b
        raise Unsupported("member %s of %r" % (n, b))

    def e_throw(self, e):
        ty = ""
        if e.get("e"):
            ty = self.ty(e["e"]["t"])
            self.eval(e["e"])
        self.do_throw(ty)

    def do_throw(self, ty):
        if self.trystack:
            self.trystack[-1].append(self.S)
            self.S = None
            raise Dead()
        self.event("throw", ty, self.S)
        raise Dead()

    def default_elem(self, ty):
        if ty in self.prog.classes and not self.prog.vecbase(ty):
            return St(ty, {})
        return self.std.zero_any(self, ty)

    def e_new(self, e):
        at = strip(self.ty(e["at"]))
        if e.get("arr"):
            n = self.toint(self.rval(e["n"]))
            et = ETY.get(at)
            if et is None:
                return self.top("array new of " + at)
            size = t.mul(C(t.ESIZE[et]), self.unw(n))
            init = e.get("e")
            zero = init is not None and init["k"] in ("initlist", "zero") or (
                init is not None and init["k"] == "ctor")
            return self.new_block(size, et, zero)
        if e.get("e") is not None and e["e"]["k"] == "ctor":
            cell = self.new(St(at, {}), "new")
            self.S.heap[cell] = St(at, {})
            self.ctor_expr_on(e["e"], L(cell))
            return P(cell)
        v = self.rval(e["e"]) if e.get("e") else self.default_value(at)
        return P(self.new(v, "new"))

    def new_block(self, size, et="u8", zero=False, name=""):
        pc = self.S.pc
        layers = (("zero" if zero else "undef", pc),)
        cell = self.new(None, "blk")
        self.S.heap[cell] = Blk(size, layers, name)
        self.event("alloc", cell, size)
        return BP(cell, ZERO, et)

    def e_delete(self, e):
        v = self.rval(e["e"])
        self.event("delete", v)
        return None

    def e_initlist(self, e):
        ty = strip(self.ty(e["t"]))
        if ty in self.prog.classes and not self.prog.vecbase(ty):
            fs = self.allfields(ty)
            f = {}
            for (n, fty, rec), it in zip(fs, e["items"]):
                f[n] = self.rval(it)
            return St(ty, f)
        if re.search(r"\[\d+\]$", ty) or ty.startswith("std::array"):
            if len(e["items"]) == 1 and e["items"][0]["k"] == "initlist" and ty.startswith("std::array"):
                return self.eval(e["items"][0])
            vals = [self.rval(x) for x in e["items"]]
            m = re.search(r"\[(\d+)\]$", ty)
            if m and len(vals) < int(m.group(1)):
                z = self.zero_of(strip(re.sub(r"\[\d+\]$", "", ty)))
                vals += [z] * (int(m.group(1)) - len(vals))
            return Vec(vals)
        if len(e["items"]) == 1:
            return self.eval(e["items"][0])
        if not e["items"]:
            return self.zero_of(ty)
        return Vec([self.rval(x) for x in e["items"]])

    def e_lambda(self, e):
        fr = self.frames[-1]
        caps = {}
        env = {}
        this = fr.this
        cell = self.new(St("lambda", {}), "lam")
        for i, c in enumerate(e["caps"]):
            if c.get("this"):
                continue
            if c.get("byref"):
                v = self.eval(c["e"])
                if not isinstance(v, (L, BL, Alt)):
                    v = L(self.new(v, "tmp"))
                env[c["id"]] = v
            else:
                caps["c%d" % i] = self.rval(c["e"])
                env[c["id"]] = L(cell, ("c%d" % i,))
        self.S.heap[cell] = St("lambda", caps)
        return Lam(e, env, this, fr.tu, cell)

    def e_typeid(self, e):
        return Opq("typeid")

    # calls ------------------------------------------------------------------
    def args_for(self, e, args):
        """evaluate call arguments: lvalues for reference parameters"""
        out = []
        pts = e.get("pt")
        for i, a in enumerate(args):
            ref = False
            if pts is not None and i < len(pts):
                ref = is_ref(self.ty(pts[i]))
            if ref:
                out.append(self.eval(a))
            else:
                out.append(self.rval(a))
        return out

    def e_call(self, e):
        f = e.get("f")
        args = e["args"]
        if f is None:
            fv = self.rval(e["fe"])
            vals = [self.eval(a) for a in args]
            return self.apply(fv, vals)
        if e.get("meth"):
            obj = self.eval(args[0])
            if f in self.prog.funcs and e.get("repo"):
                ol = self.load(obj) if isinstance(obj, (L, Alt)) else obj
                if isinstance(ol, Lam):
                    return self.apply(ol, self.args_for(e, args[1:]), f)
                av = self.args_for(e, args[1:])
                return self.mcall_obj(f, False, obj, av)
            ol = self.load(obj) if isinstance(obj, L) else obj
            if isinstance(ol, Lam):
                return self.apply(ol, [self.eval(a) for a in args[1:]], f)
            if e.get("opn") == "=" and isinstance(ol, (St, Undef)):
                # implicitly defined assignment: memberwise
                v = self.rval(args[1])
                self.store(obj, v)
                return obj
            return self.std.method(self, e, e["opn"], "op" + e["opn"], obj, args[1:])
        if f in self.prog.funcs and e.get("repo"):
            return self.call(f, self.args_for(e, args))
        return self.std.call(self, e, e.get("q", ""), args)

    def apply(self, fv, vals, inst=None):
        """call a function value; inst: the instance a direct call of a generic lambda names"""
        if isinstance(fv, Alt):
            return self.lift(lambda x: self.apply(x, vals, inst), fv)
        if isinstance(fv, Fn):
            if fv.id in self.prog.funcs:
                return self.call(fv.id, vals)
            raise Unsupported("call of " + fv.id)
        if isinstance(fv, Lam):
            n = fv.node
            fid = n.get("f")
            if fid is None:
                fid = inst if inst in n["gen"] and inst in self.prog.funcs else self.pick_generic(n["gen"], vals)
            rec, tu = self.prog.funcs[fid]
            return self.call(fid, vals, this=fv.this, env=fv.env)
        if isinstance(fv, L):
            return self.apply(self.load(fv), vals)
        if isinstance(fv, P) and fv.cell is None:
            self.event("nullcall")
            raise Dead()
        if isinstance(fv, P):
            return self.apply(self.load(L(fv.cell, fv.path)), vals)
        if isinstance(fv, Opq) and fv.kind == "functor":
            return fv.arg(*vals)
        raise Unsupported("call through %r" % (fv,))

    def pick_generic(self, gen, vals):
        cands = [g for g in gen if g in self.prog.funcs and len(self.prog.funcs[g][0]["p"]) == len(vals)]
        if len(cands) == 1:
            return cands[0]
        raise Unsupported("generic lambda with %d instances" % len(cands))

    def e_mcall(self, e):
        f = e.get("f")
        o = self.eval(e["obj"])
        if e.get("objp"):
            if isinstance(o, (L,)) or isinstance(o, Alt) and self.is_lalt(o):
                o = self.load(o)
            o = self.deref(o)
        if f in self.prog.funcs and e.get("repo") or e.get("virt") and e.get("repo"):
            av = self.args_for(e, e["args"])
            ol = self.load(o) if isinstance(o, L) else o
            if isinstance(ol, Lam):
                return self.apply(ol, av, f)
            return self.mcall_obj(f, e.get("virt"), o, av)
        return self.std.method(self, e, e.get("mn"), e.get("mn"), o, e["args"])

    def mcall_obj(self, f, virt, o, av):
        def go(loc):
            if isinstance(loc, Top):
                raise Unsupported("method of unknown object: " + loc.why)
            if not isinstance(loc, L):
                loc = L(self.new(loc, "tmp"))
            g = f
            if virt:
                obj = self.load(loc)
                if isinstance(obj, Alt):
                    raise Unsupported("virtual call on alternative object")
                if not isinstance(obj, St):
                    raise Unsupported("virtual call on %r" % (obj,))
                g = self.prog.overrides(f, obj.cls)
                if g is None:
                    h = self.hooks.get(("virtual", f))
                    if h:
                        return h(self, f, av, P(loc.cell, loc.path))
                    raise Unsupported("no implementation of %s for %s" % (f, obj.cls))
                h = self.hooks.get(("virtual", f))
                if h:
                    r = h(self, g, av, P(loc.cell, loc.path))
                    if r is not NotImplemented:
                        return r
            rec = self.prog.funcs[g][0]
            return self.call(g, av, this=None if rec.get("static") else P(loc.cell, loc.path))
        return self.lift(go, o)

    def e_ctor(self, e):
        ty = strip(self.ty(e["t"]))
        f = e.get("f")
        if e.get("repo") and f in self.prog.funcs and not self.is_scalar_cls(ty):
            if e.get("copy") or e.get("move"):
                rec = self.prog.funcs[f][0]
                if not rec.get("inits") or all(not i.get("w") for i in rec["inits"]) and \
                        rec["b"] and not rec["b"].get("b"):
                    return self.rval(e["args"][0])
            cell = self.new(St(ty, {}) if not self.prog.vecbase(ty) else Vec(()), "obj")
            loc = L(cell)
            self.ctor_expr_on(e, loc)
            v = self.load(loc)
            return v
        return self.std.ctor(self, e, ty)

    def ctor_expr_on(self, e, loc):
        f = e.get("f")
        if f in self.prog.funcs and e.get("repo"):
            rec, tu = self.prog.funcs[f]
            if e.get("inh") and any(i.get("e") and i["e"].get("k") == "inhctor" for i in rec.get("inits", [])):
                pass
            av = self.args_for(e, e["args"])
            cur = self.S.heap.get(loc.cell)
            self.ctor_on(f, av, loc)
            return
        v = self.std.ctor(self, e, strip(self.ty(e["t"])))
        if isinstance(v, St):
            old = self.load(loc)
            if isinstance(old, St) and old.cls != v.cls:
                f2 = dict(old.f)
                f2.update(v.f)
                v = St(old.cls, f2)
        self.store(loc, v)

    def is_scalar_cls(self, ty):
        return ty.startswith("std::") and not ty.startswith("std::pair")

    def e_inhctor(self, e):
        raise Unsupported("inherited constructor")
