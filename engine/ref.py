"""Reference semantics of whole programs over the public API: a small tape that
records what the specification says about values, tracking and gradients."""
import itertools
import model as M
from model import RT, Throw, Open, SKIP, FLT
import ops as O


class Node:
    __slots__ = ("name", "rt", "req", "op", "var", "src", "retain", "base", "vmap", "leafgrad", "grad", "retgrad", "tracked")

    def __init__(self, name, rt, req=False):
        self.name = name
        self.rt = rt
        self.req = req
        self.op = None
        self.var = None
        self.src = []
        self.retain = False
        self.base = None        # views: the tensor whose gradient buffer is shared
        self.vmap = None        # views: index -> index of the base
        self.grad = None        # leaf: accumulated gradient {index: value}
        self.tracked = False    # has a history
        self.retgrad = None     # retained intermediate gradient of the last pass


def zeros(rt):
    return {i: 0.0 for i in rt.idx()}


def addto(g, i, x):
    if x is SKIP or g[i] is SKIP:
        g[i] = SKIP
    else:
        g[i] += x


def mulv(x, y):
    if x is SKIP or y is SKIP:
        return SKIP
    return x * y


def inverse(n, v):
    """index of the operand of a view for every index of the view, by pushing
    coordinates through the view's meaning"""
    src = n.src[0].rt
    tag = RT(src.dtype, src.sizes, lambda i: i)
    return tag


def vjp(n, g, v):
    """gradients of the operands of n for the incoming gradient g"""
    op = n.op
    rs = [x.rt for x in n.src]
    out = [zeros(r) if s.req else None for r, s in zip(rs, n.src)]

    def put(k, i, x):
        if out[k] is not None:
            addto(out[k], i, x)
    if op in ("+", "-", "*", "/"):
        a, b = rs
        for i in n.rt.idx():
            ia, ib = M.bidx(i, a.sizes), M.bidx(i, b.sizes)
            gi = g[i]
            if op == "+":
                put(0, ia, gi)
                put(1, ib, gi)
            elif op == "-":
                put(0, ia, gi)
                put(1, ib, mulv(gi, -1.0))
            elif op == "*":
                put(0, ia, mulv(gi, b[ib]))
                put(1, ib, mulv(gi, a[ia]))
            else:
                x, y = a[ia], b[ib]
                if y is SKIP or x is SKIP or y == 0:
                    put(0, ia, SKIP)
                    put(1, ib, SKIP)
                else:
                    put(0, ia, mulv(gi, 1.0 / y))
                    put(1, ib, mulv(gi, -x / (y * y)))
        return out
    a = rs[0]
    if op == "neg":
        for i in a.idx():
            put(0, i, mulv(g[i], -1.0))
    elif op in ("clone", "contiguous", "type", "pos"):
        for i in a.idx():
            put(0, i, g[i])
    elif op == "sum":
        for i in a.idx():
            put(0, i, g[()])
    elif op == "mean":
        for i in a.idx():
            put(0, i, mulv(g[()], 1.0 / a.numel()))
    elif op == "abs":
        for i in a.idx():
            x = a[i]
            put(0, i, SKIP if x is SKIP or x == 0 else mulv(g[i], 1.0 if x > 0 else -1.0))
    elif op in ("max", "min"):
        vs = [(i, a[i]) for i in a.idx()]
        if any(x is SKIP for _, x in vs):
            for i, _ in vs:
                put(0, i, SKIP)
        elif vs:
            best = (max if op == "max" else min)(x for _, x in vs)
            hit = [i for i, x in vs if x == best]
            if len(hit) == 1:
                put(0, hit[0], g[()])
            else:       # any choice among ties: only the others are determined
                for i in hit:
                    put(0, i, SKIP)
    elif op == "cat":
        off = 0
        for k, r in enumerate(rs):
            for i in r.idx():
                j = list(i)
                j[n.var] += off
                put(k, i, g[tuple(j)])
            off += r.sizes[n.var]
    elif op in ("slice", "transpose", "transpose_s", "reshape", "reshape_s", "reshape_as"):
        for i in n.rt.idx():
            put(0, n.vmap(i), g[i])
    else:
        raise Open()
    return out


VIEWS = ("slice", "transpose", "transpose_s", "reshape", "reshape_s", "reshape_as")
GRADLESS = ("<", ">", "<=", ">=", "==", "!=", "detach", "zeros_like", "ones_like", "randn_like")


class Tape:
    """runs a program (list of statements) at a valuation, in the specification"""

    def __init__(self, v, inputs):
        self.v = v
        self.env = {}
        self.ins = {}
        self.order = []
        for x in inputs:
            n = Node(x.name, v.inref(x), x.req)
            n.retain = False
            self.env[x.name] = n
            self.ins[x.name] = n
        self.scal = {}
        self.gone = set()

    def run(self, prog):
        for st in prog:
            self.step(st)

    def step(self, st):
        k = st[0]
        if k == "op":
            _, dst, op, srcs, var = st
            ns = [self.env[s] for s in srcs]
            o = O.OPS[op]
            rt = memo(o.ref(self.v, [n.rt for n in ns], var))
            n = Node(dst, rt)
            n.op, n.var, n.src = op, var, ns
            if op not in GRADLESS:
                n.req = any(x.req for x in (ns[:1] if op == "reshape_as" else ns))
                if op == "type" and n.req and var not in FLT:
                    raise Throw("type")
            n.tracked = n.req
            if op in VIEWS:
                src = ns[0].rt
                tags = RT(src.dtype, src.sizes, lambda i: i)
                sizes = [tags] + [x.rt for x in ns[1:]]
                n.vmap = o.ref(self.v, sizes, var).f
                n.base = ns[0]
            self.env[dst] = n
        elif k == "bw":
            self.backward(self.env[st[1]])
        elif k == "zero":
            n = self.env[st[1]]
            if n.grad is not None:
                n.grad = zeros(n.rt)
        elif k == "retain":
            self.env[st[1]].retain = st[2] if len(st) > 2 else True
        elif k == "setreq":
            n = self.env[st[1]]
            if st[2] and n.rt.dtype not in FLT:
                raise Throw("requires_grad")
            n.req = st[2]
        elif k == "iadd":
            a, b = self.env[st[1]], self.env[st[2]]
            if a.req:
                raise Throw("in-place")
            sz = M.bshape(a.rt.sizes, b.rt.sizes)
            if sz != a.rt.sizes or a is b:
                raise Open()
            x, y = a.rt, b.rt
            a.rt = memo(RT(x.dtype, x.sizes, lambda i: SKIP if x[i] is SKIP or y[M.bidx(i, y.sizes)] is SKIP
                           else M.conv(x[i] + y[M.bidx(i, y.sizes)], x.dtype)))
        elif k == "assign":
            self.env[st[1]] = self.env[st[2]]
            if st[3] == "move" and st[1] != st[2]:
                self.env.pop(st[2])
        elif k == "ctor":
            self.env[st[1]] = self.env.pop(st[2])
        elif k == "assigninit":
            self.env[st[1]] = Node(st[1], O.init_ref(self.v, st[2], st[3]))
        elif k == "assignop":
            self.step(("op", st[1], st[2], st[3], st[4]))
        elif k in ("drop", "release"):
            self.gone.add(st[1])
        elif k == "all":
            a = self.env[st[2]].rt
            vs = [a[i] for i in a.idx()]
            self.scal[st[1]] = all(bool(x) for x in vs)
        elif k == "acc" or k == "str":
            pass
        elif k == "init":
            self.env[st[1]] = Node(st[1], O.init_ref(self.v, st[2], st[3]))
        else:
            raise Open()

    def backward(self, root):
        if not root.req or not root.tracked or root.rt.numel() != 1:
            raise Throw("backward")
        # reverse topological order over tracked operands
        seen = []

        def visit(n):
            if n in seen_set:
                return
            seen_set.add(n)
            for s in n.src if n.tracked else ():
                if s.req:
                    visit(s)
            seen.append(n)
        seen_set = set()
        visit(root)
        G = {root: {i: 1.0 for i in root.rt.idx()}}
        for n in reversed(seen):
            g = G.get(n)
            if g is None:
                continue
            n.retgrad = g
            if not n.tracked:
                if n.grad is None:
                    n.grad = zeros(n.rt)
                for i in g:
                    addto(n.grad, i, g[i])
                continue
            for s, gs in zip(n.src, vjp(n, g, self.v)):
                if not s.req or gs is None:
                    continue
                if s not in G:
                    G[s] = zeros(s.rt)
                for i in gs:
                    addto(G[s], i, gs[i])


def memo(rt):
    d = {}
    f = rt.f

    def g(i):
        if i not in d:
            d[i] = f(i)
        return d[i]
    rt.f = g
    return rt
