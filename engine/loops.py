"""Loops that constant propagation does not resolve are summarised as guarded
transition systems over the locations they modify: one abstract iteration from
a havocked state gives the step function, the exit guards and the effects of an
arbitrary iteration."""
import terms as t
from terms import T, C, ZERO, ONE, TRUE, FALSE
import interp as I
from interp import P, L, BP, BL, Vec, Str, St, Blk, Alt, Fn, Lam, It, Top, UNDEF, Opq, State, Dead, Unsupported, evdepth


class Loop:
    __slots__ = ("xlayers", "id", "site", "leaves", "params", "conts", "exits", "events", "outs", "inv", "cert",
                 "entry", "blks", "pc0", "steps", "do", "nbase")


LOOPS = {}
OWNER = {}      # iteration symbol -> loop


def reset():
    LOOPS.clear()
    OWNER.clear()


def diff(itp, a, b, path, out, where):
    """leaf positions at which value b differs from value a"""
    if a is b:
        return
    if isinstance(a, T) and isinstance(b, T):
        out.append((path, "t"))
        return
    if isinstance(a, Blk) and isinstance(b, Blk):
        out.append((path, "blk"))
        return
    if isinstance(a, BP) and isinstance(b, BP) and a.blk == b.blk and a.ety == b.ety:
        if a.off is not b.off:
            out.append((path, "bp"))
        return
    if isinstance(a, It) and isinstance(b, It) and a.loc == b.loc and a.rev == b.rev:
        if a.i is not b.i:
            out.append((path, "it"))
        return
    if isinstance(a, St) and isinstance(b, St) and a.cls == b.cls:
        for k in set(a.f) | set(b.f):
            diff(itp, a.f.get(k, UNDEF), b.f.get(k, UNDEF), path + (k,), out, where)
        return
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(itp, x, y, path + (i,), out, where)
        return
    if isinstance(a, (P, L, Fn, Str)) and type(a) is type(b) and a == b:
        return
    if isinstance(a, (Opq,)) and isinstance(b, Opq) and a.kind == b.kind:
        return
    if isinstance(a, Alt) and isinstance(b, Alt) and a.c is b.c:
        diff(itp, a.a, b.a, path + (("alt", 0),), out, where)
        diff(itp, a.b, b.b, path + (("alt", 1),), out, where)
        return
    if a is UNDEF and isinstance(b, T):
        out.append((path, "undef:" + b.sort + ":" + str(t.ety_of(b) if b.sort == "v" else "")))
        return
    if a is UNDEF and b is UNDEF:
        return
    out.append((path, "any"))


def get(v, path):
    for k in path:
        if isinstance(k, tuple):
            v = v.a if k[1] == 0 else v.b
        elif isinstance(k, str):
            v = v.f.get(k, UNDEF)
        else:
            v = v.items[k]
    return v


def put(v, path, x):
    if not path:
        return x
    k = path[0]
    if isinstance(k, tuple):
        return Alt(v.c, put(v.a, path[1:], x), v.b) if k[1] == 0 else Alt(v.c, v.a, put(v.b, path[1:], x))
    if isinstance(k, str):
        f = dict(v.f)
        f[k] = put(f.get(k, UNDEF), path[1:], x)
        return St(v.cls, f)
    items = list(v.items)
    items[k] = put(items[k], path[1:], x)
    return Vec(items)


def summarise(itp, node, cond, inc, body, do, cvar):
    S0 = itp.S
    fr = itp.frames[-1]
    itp.stats["loops"] += 1
    nret0 = len(fr.rets)
    nev0 = len(itp.evlog)
    leaves = {}   # (cell, path) -> (kind, sym)
    lid = len(LOOPS) + 1
    while lid in LOOPS:
        lid += 1
    LOOPS[lid] = None
    nonneg = {}
    itp_env = dict(fr.env)
    ncell0 = itp.ncell

    def mksym(key, kind):
        cell, path = key
        v = get(S0.heap[cell], path)
        nm = "lf:%d:%s%s" % (lid, cell, "".join("." + str(p) for p in path))
        if kind == "blk":
            return None
        if kind.startswith("undef:"):
            so, ety = kind.split(":")[1:]
            if so == "v":
                return t.mk("vsym", (ety, nm), "v")
            return t.sym(nm, sort=so)
        if kind in ("bp", "it"):
            return t.sym(nm)
        if v.sort == "v":
            return t.mk("vsym", (t.ety_of(v), nm), "v")
        if v.sort == "b":
            return t.sym(nm, sort="b")
        s = t.sym(nm)
        if nonneg.get(key, True):
            lo, _ = S0.facts().interval(v)
            if lo is not None and lo >= 0:
                nonneg[key] = True
                t.BOUNDS[s] = (0, None)
                return s
        nonneg[key] = False
        t.BOUNDS.pop(s, None)
        return s

    def havoc():
        H = S0.fork()
        for key, kind in leaves.items():
            cell, path = key
            s = mksym(key, kind)
            old = get(S0.heap[cell], path)
            if kind == "blk":
                nv = Blk(old.size, (("cur", lid, cell),), old.name)
            elif kind == "bp":
                nv = BP(old.blk, s, old.ety)
            elif kind == "it":
                nv = It(old.loc, s, old.rev)
            else:
                nv = s
            H.heap[cell] = put(H.heap[cell], path, nv)
        return H

    import gc
    for rnd in range(14):
        if rnd == 13:
            raise Unsupported("loop summary does not stabilise")
        H = havoc()
        itp.S = H.fork()
        del itp.evlog[nev0:]
        del fr.rets[nret0:]
        fr.brk.append([])
        exits, nx = itp.iteration(cond, inc, body, do, cvar)
        brks = fr.brk.pop()
        rets = fr.rets[nret0:]
        del fr.rets[nret0:]
        found = []
        if nx is not None:
            for cell in S0.heap:
                a, b = H.heap[cell], nx.heap.get(cell)
                if b is None:
                    found.append((cell, (), "any"))
                    continue
                if a is not b:
                    out = []
                    diff(itp, a, b, (), out, cell)
                    for p, k in out:
                        found.append((cell, p, k))
        new = False
        for cell, p, k in found:
            if (cell, p) not in leaves:
                if k == "any":
                    raise Unsupported("loop changes the shape of %s%s" % (cell, p))
                leaves[(cell, p)] = k
                new = True
        if new:
            continue
        # check the optimistic sign invariant
        bad = False
        if nx is not None:
            F = nx.facts()
            for key, kind in leaves.items():
                if nonneg.get(key) and kind != "blk":
                    v = get(nx.heap[key[0]], key[1])
                    if isinstance(v, T) and v.sort == "i":
                        lo, _ = F.interval(v)
                        if not (lo is not None and lo >= 0 or F._le(t.neg(v))):
                            nonneg[key] = False
                            bad = True
        if bad:
            continue
        break

    lp = Loop()
    lp.id = lid
    lp.site = itp.site()
    lp.do = do
    lp.nbase = len(S0.pc)
    lp.pc0 = S0.pc
    lp.leaves = []
    syms = set()
    for key, kind in leaves.items():
        if kind == "blk":
            continue
        s = mksym(key, kind)
        old = get(S0.heap[key[0]], key[1])
        init = old.off if kind == "bp" else old.i if kind == "it" else None if kind.startswith("undef") else old
        step = None
        if nx is not None:
            v = get(nx.heap[key[0]], key[1])
            step = v.off if kind == "bp" else v.i if kind == "it" else v
            if not isinstance(step, T):
                step = itp.alt2term(step)
            if not isinstance(step, T):
                raise Unsupported("loop leaf becomes %r" % (v,))
            if s.sort == "v" and step.sort != "v":
                step = t.vcast(t.ety_of(s), step)
            if s.sort == "i" and step.sort == "b":
                step = t.b2i(step)
            if s.sort == "b" and step.sort == "i":
                step = t.i2b(step)
        lp.leaves.append((key, kind, s, init, step))
        syms.add(s)
    lp.blks = [key[0] for key, kind in leaves.items() if kind == "blk"]
    lp.entry = {c: S0.heap[c].layers for c in lp.blks}
    lp.steps = {c: nx.heap[c].layers for c in lp.blks} if nx is not None else {}
    n0 = len(S0.pc)
    lp.conts = None if nx is None else t.band(*nx.pc[n0:])
    # events of an arbitrary iteration
    evs = itp.evlog[nev0:]
    del itp.evlog[nev0:]
    lp.events = evs
    allx = [(e, None, False) for e in exits + brks] + [(s, v, True) for s, v in rets]
    # parameters: symbols of enclosing loops
    lp.outs = []
    lp.exits = []
    fr.env = itp_env if False else fr.env
    mem = {}
    for i, (s, v, isret) in enumerate(allx):
        lp.exits.append(t.band(*s.pc[n0:]))
    for s, v, isret in allx:
        for c, x in s.heap.items():
            if isinstance(x, Blk) and c in S0.heap and S0.heap[c] is not x and c not in lp.blks:
                lp.blks.append(c)
                lp.entry[c] = S0.heap[c].layers
                lp.steps[c] = S0.heap[c].layers
    lp.xlayers = [{c: s.heap[c].layers for c in lp.blks} for s, v, isret in allx]
    depsyms = set()

    def deps(x):
        for s in t.free(x):
            if s.a[0].startswith("lf:") and s not in syms:
                depsyms.add(s)
        for a in vsyms(x):
            if a.a[1].startswith("lf:") and a not in syms:
                depsyms.add(a)

    for _, _, s, init, step in lp.leaves:
        for x in (init, step):
            if x is not None:
                deps(x)
    if lp.conts is not None:
        deps(lp.conts)
    for g in lp.exits:
        deps(g)
    for e in evs:
        for x in e.pc[n0:]:
            deps(x)
        for x in e.d:
            if isinstance(x, T):
                deps(x)
    for c in lp.blks:
        for lay in lp.steps.get(c, ()):
            for x in lay:
                if isinstance(x, T):
                    deps(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            deps(y)
    outer = [s for s in depsyms]
    outer.sort(key=lambda s: s.id)
    lp.params = tuple(outer)
    lp.inv = {}
    lp.cert = None
    LOOPS[lid] = lp
    for s in syms:
        OWNER[s] = lid
    args = lp.params

    def dep(x):
        """does term x depend on the iteration state?"""
        if t.free(x) & syms:
            return True
        for a in t.atoms(x):
            if a.op == "vsym" and a in syms:
                return True
            if a.op == "ld":
                ls = itp.vers.get(a.a[1])
                if ls and any(l[0] == "cur" and l[1] == lid for l in ls):
                    return True
            if a.op in ("lv", "lx"):
                return True
        return False

    def mapv(x, i, depth=0):
        if isinstance(x, T):
            if not dep(x):
                return x
            key = (i, x)
            r = mem.get(key)
            if r is None:
                k = len(lp.outs)
                lp.outs.append((i, x))
                if x.sort == "v":
                    r = t.mk("lv", (lid, k, t.ety_of(x), args), "v")
                elif x.sort == "b":
                    r = t.mk("lv", (lid, k, None, args), "b")
                else:
                    r = t.mk("lv", (lid, k, None, args), "i")
                    lo, _ = t.Facts([]).interval(x)
                    if lo is not None and lo >= 0:
                        t.BOUNDS[r] = (0, None)
                mem[key] = r
            return r
        if isinstance(x, Alt):
            return Alt(mapv(x.c, i), mapv(x.a, i), mapv(x.b, i))
        if isinstance(x, St):
            return St(x.cls, {k: mapv(y, i) for k, y in x.f.items()})
        if isinstance(x, Vec):
            return Vec([mapv(y, i) for y in x.items])
        if isinstance(x, BP):
            return BP(x.blk, mapv(x.off, i), x.ety)
        if isinstance(x, BL):
            return BL(x.blk, mapv(x.off, i), x.ety)
        if isinstance(x, It):
            return It(x.loc, mapv(x.i, i), x.rev)
        if isinstance(x, (P, L)):
            if x.path:
                return type(x)(x.cell, tuple(mapv(y, i) if isinstance(y, T) else y for y in x.path))
            return x
        if isinstance(x, Blk):
            raise Unsupported("buffer created in a loop")
        return x

    single = len(allx) == 1
    le = I.Ev("loop", S0.pc, (lid, args), lp.site)
    itp.evlog.append(le)
    res = None
    for i, (s, v, isret) in enumerate(allx):
        heap = {}
        for cell, x in s.heap.items():
            if cell in S0.heap:
                if S0.heap[cell] is x:
                    heap[cell] = x
                    continue
                if isinstance(x, Blk):
                    heap[cell] = Blk(x.size, S0.heap[cell].layers + (loop_layer(lp, S0.pc, cell, args),), x.name)
                    continue
                heap[cell] = mapv(x, i)
            else:
                if isinstance(x, Blk):
                    raise Unsupported("buffer created in a loop")
                heap[cell] = mapv(x, i)
        pc = S0.pc
        if not single:
            pc = pc + (t.mk("lx", (lid, i, args), "b"),)
        st = State(heap, pc, None)
        if isret:
            fr.rets.append((st, mapv(v, i) if v is not None else None))
        else:
            res = itp.merge(res, st) if res is not None else st
    itp.S = res
    if not allx:
        # never leaves normally
        itp.S = None
        return
    itp.flush_pending()


_lay = {}


def loop_layer(lp, pc, cell, args):
    k = (lp.id, cell)
    r = _lay.get(k)
    if r is None or r[2] != args or r[1] != pc:
        r = ("loop", pc, args, lp.id, cell)
        _lay[k] = r
    return r


def vsyms(x):
    return [a for a in t.atoms(x) if a.op == "vsym"]
