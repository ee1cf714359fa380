"""Cases: one analysed session each, judged against the specification at every
valuation of its grid.  A case is a plain tuple so that it can be sent to a
worker process and written to a replay file."""
import itertools
import os
import random
import time
import traceback
import terms as t
import evalu
import loops
import stdmodel
import model as M
import ops as O
import ref
import lits
import harness
from model import Throw, Open, SKIP, FLT, RT
from terms import C, ZERO, T
from interp import P, L, BP, BL, Vec, Str, St, Blk, Alt, NULL, UNDEF, Dead, Unsupported, State
from ctx import Anchor, DT
from harness import (Sess, Val, Obs, Ended, valuations, close, KINDS, SV, SGV, TR, STR, TY, UL)
from evalu import Eval, Garbage, Undecided, Uninit

PROG = None
ALLFUNCS = set()    # every function the run has reached (second pass)
SEED = 1


class Res:
    """what one case established"""

    def __init__(self, case):
        self.case = case
        self.obs = {}        # rule -> decided obligations
        self.und = {}        # reason -> undecided
        self.viol = []
        self.vals = 0
        self.funcs = set()
        self.sites = 0
        self.loops = 0
        self.keys = set()
        self.sample = None
        self.anchor = None
        self.err = None
        self.npin = 0
        self.wall = 0.0

    def add(self, o):
        for k, n in o.obs.items():
            self.obs[k] = self.obs.get(k, 0) + n
        for k, n in o.und.items():
            self.und[k] = self.und.get(k, 0) + n
        for x in o.viol:
            k = (x["rule"], x["message"].split(" :: ")[0])
            if k not in self.keys:
                self.keys.add(k)
                self.viol.append(x)
        self.vals += o.vals
        self.npin += o.npin

    def ok(self, rule, n=1):
        self.obs[rule] = self.obs.get(rule, 0) + n

    def bad(self, rule, v, msg, sites=()):
        self.ok(rule)
        k = (rule, msg.split(" :: ")[0])
        if k in self.keys and len([x for x in self.viol if x["rule"] == rule]) >= 3:
            return
        self.keys.add(k)
        self.viol.append({"rule": rule, "case": self.case, "valuation": dict(v.desc) if v else None,
                          "message": msg, "sites": [site(x) for x in sites][:8]})

    def undec(self, why):
        why = str(why)[:80]
        self.und[why] = self.und.get(why, 0) + 1


def site(x):
    if isinstance(x, (tuple, list)):
        return ":".join(str(y) for y in x)
    return str(x)


def storesites(I, blk):
    """where the analysed code writes to a buffer"""
    out = []

    def walk(evs):
        for e in evs:
            if e.kind in ("st", "stn") and e.d[0] == blk:
                if e.site not in out:
                    out.append(e.site)
            elif e.kind == "loop":
                walk(loops.LOOPS[e.d[0]].events)
    walk(I.evlog)
    return out


# ---------------------------------------------------------------- building
def sizeterms(s, spec, cache):
    out = []
    for z in spec:
        if isinstance(z, int):
            out.append(C(z))
        else:
            if z not in cache:
                cache[z] = t.sym("n." + z, 0, 1 << 20)
            out.append(cache[z])
    return out


def alts(x):
    if isinstance(x, Alt):
        return alts(x.a) + alts(x.b)
    return [x]


def result_sizes(s, h):
    """size terms of a handle, or None"""
    I = s.I
    got = None
    try:
        for p in alts(I.load(L(h.cell, h.path + ("fptr",)))):
            if not isinstance(p, P) or p.cell is None:
                return None
            for vw in alts(I.load(L(p.cell, p.path + ("view",)))):
                for x in alts(I.load(L(vw.cell, vw.path + ("sizes",)))):
                    if not isinstance(x, Vec) or not all(isinstance(y, T) for y in x.items):
                        return None
                    if got is None:
                        got = list(x.items)
                    elif got != list(x.items):
                        return None
    except (Unsupported, KeyError, AttributeError):
        return None
    return got


def build(s, stmts):
    """analyse a program; returns the handles"""
    hs = {}
    cache = {}
    s.scalars = {}
    s.assigns = []
    for st in stmts:
        k = st[0]
        if k == "in":
            _, name, dt, sz, kw = st
            kw = dict(kw)
            sizes = sizeterms(s, sz, cache)
            hs[name] = s.tin(name, dt, len(sz), sizes=sizes, **kw)
        elif k == "weight":
            _, name, src, dt, kw = st
            sz = result_sizes(s, hs[src])
            if sz is None:
                raise Unsupported("shape of %s" % src)
            hs[name] = s.tin(name, dt, len(sz), sizes=sz, **dict(kw))
        elif k == "op":
            _, dst, op, srcs, var = st
            hs[dst] = O.OPS[op].build(s, [hs[x] for x in srcs], var)
        elif k == "bw":
            s.m("backward", hs[st[1]])
        elif k == "zero":
            s.m("zero_grad", hs[st[1]])
        elif k == "retain":
            s.m("retain_grad", hs[st[1]], ["bool"], [t.B(st[2] if len(st) > 2 else True)])
        elif k == "setreq":
            s.m("requires_grad", hs[st[1]], ["bool"], [t.B(st[2])])
        elif k == "iadd":
            s.m("operator+=", hs[st[1]], [TR], [hs[st[2]]])
        elif k == "mark":
            s.mark(st[1])
        elif k == "all":
            s.scalars[st[1]] = s.m("all", hs[st[2]])
        elif k == "acc":
            v = s.m(st[2], hs[st[3]])
            if st[2] == "grad":
                hs[st[1]] = s.handle(v)
            else:
                s.scalars[st[1]] = s.I.load(v) if isinstance(v, L) else v
        elif k == "str":
            v = s.m("to_string", hs[st[2]])
            s.scalars[st[1]] = s.I.load(v) if isinstance(v, L) else v
        elif k == "init":
            hs[st[1]] = O.init_build(s, st[2], st[3])
        elif k == "release":
            s.m("release", hs[st[1]])
        elif k in ("assign", "assigninit", "assignop", "ctor"):
            h = dict(hs)
            src = None
            if k == "assignop":
                src = "the value"
                h[src] = O.OPS[st[2]].build(s, [hs[x] for x in st[3]], st[4])
            elif k != "assigninit":
                src = st[2]
            s.mark("assign0")
            if k == "assigninit":
                s.m("operator=", hs[st[1]], ["INNC::TensorInit"], [O.init_value(s, st[2], st[3])])
            elif k == "ctor":
                hs[st[1]] = h[st[1]] = O._ctor(s, ["INNC::Tensor &&"], [h[src]])
            elif k == "assignop" or st[3] == "move":
                s.m("operator=", hs[st[1]], ["INNC::Tensor &&"], [h[src]])
            else:
                s.m("operator=", hs[st[1]], [TR], [h[src]])
            s.mark("assign1")
            s.assigns.append(({"assigninit": "init", "ctor": "ctor", "assignop": "move"}.get(k) or st[3], st[1], src, s.marks["assign0"], s.marks["assign1"], h))
        else:
            raise ValueError(k)
    return hs


def trace(s, stmts, e):
    """development aid: where an unsupported construct was met"""
    if os.environ.get("VERIF_TRACE"):
        tb = traceback.extract_tb(e.__traceback__)
        print("TRACE", e, "|", text(stmts), "| line", s.I.line, [str(fr.fn)[:80] for fr in s.I.frames[-3:]],
              [(x.name, x.lineno) for x in tb[-5:]], flush=True)


def text(stmts):
    """the analysed program, readable"""
    out = []
    for st in stmts:
        k = st[0]
        if k == "in":
            kw = dict(st[4])
            out.append("%s:%s[%s]%s" % (st[1], st[2], ",".join(map(str, st[3])), "*" if kw.get("req") else ""))
        elif k == "weight":
            out.append("%s:%s like %s%s" % (st[1], st[3], st[2], "*" if dict(st[4]).get("req") else ""))
        elif k == "op":
            _, d, op, ss, var = st
            if op in O.ARITH or op in O.CMP:
                out.append("%s=%s%s%s" % (d, ss[0], op, ss[1]))
            else:
                out.append("%s=%s(%s)%s" % (d, op, ",".join(ss), "" if var is None else repr(var)))
        elif k == "bw":
            out.append("%s.backward()" % st[1])
        elif k in ("zero",):
            out.append("%s.zero_grad()" % st[1])
        elif k == "retain":
            out.append("%s.retain_grad(%s)" % (st[1], st[2] if len(st) > 2 else True))
        elif k == "setreq":
            out.append("%s.requires_grad(%s)" % (st[1], st[2]))
        elif k == "iadd":
            out.append("%s+=%s" % (st[1], st[2]))
        elif k == "all":
            out.append("%s=%s.all()" % (st[1], st[2]))
        elif k == "acc":
            out.append("%s=%s.%s()" % (st[1], st[3], st[2]))
        elif k == "str":
            out.append("%s=%s.to_string()" % (st[1], st[2]))
        elif k == "init":
            out.append("%s=Tensor<%s>{%s}" % (st[1], st[2], st[3]))
        elif k == "release":
            out.append("%s.release()" % st[1])
        elif k == "assign":
            out.append("%s%s=%s" % (st[1], "<" if st[3] == "move" else ":", st[2]))
        elif k == "ctor":
            out.append("Tensor %s(move(%s))" % (st[1], st[2]))
        elif k == "assigninit":
            out.append("%s:=TensorInit<%s>{%s}" % (st[1], st[2], st[3]))
        elif k == "assignop":
            out.append("%s:=%s(%s)%s" % (st[1], st[2], ",".join(st[3]), "" if st[4] is None else repr(st[4])))
    return "; ".join(out)


# ---------------------------------------------------------------- valuations
def named(s):
    d = {}
    for x in s.ins:
        for z in x.sizes:
            for a in t.free(z):
                if a.op == "sym":
                    d[a.a[0][2:] if a.a[0].startswith("n.") else a.a[0]] = a
    for a, lo, hi in s.ints:
        d[a.a[0] if a.op == "sym" else a.a[1]] = a
    return d


def vals(s, n, grid=None, **kw):
    if grid is not None:
        nm = named(s)
        grid = [{nm[k]: v for k, v in g.items() if k in nm} for g in grid]
        # complete with small extents
        rng = random.Random(99)
        for g in grid:
            for k, a in nm.items():
                if a not in g and a.op == "sym" and not any(a is i[0] for i in s.ints):
                    g[a] = rng.choice([1, 2, 3])
        kw["sizegrid"] = grid
    return valuations(s, n, SEED, **kw)


def instances(s, stmts, n, grid, kw, funcs, directed):
    """the grid of the session, or instances around the numbers in the source"""
    if not directed:
        for v in vals(s, n, grid, **kw):
            v.hist = None
            yield v
        return
    ints, other = lits.numbers(PROG, funcs)
    nm = {k: a for k, a in named(s).items() if not any(a is i[0] for i in s.ints)}
    key = text(stmts)
    g = random.Random("hist|" + key)
    few = any(x[0] in ("bw", "str") for x in stmts)
    rounds = any(x[0] == "bw" or x[0] == "op" and x[2] in ("sum", "mean") for x in stmts) and any(x.dtype in FLT for x in s.ins)
    harness.LITS[:] = other
    try:
        if ints and nm:
            gr = lits.grids(ints, list(nm), grid, key, few)
            if gr:
                for v in vals(s, min(len(gr), 4 if few else 10), gr, **{k: x for k, x in kw.items() if k not in ("sizes", "maxgrid")}):
                    v.hist = max(0, g.choice(ints) + g.choice((-1, 0, 1)))
                    yield v
        if other and not rounds:
            for v in vals(s, min(n, 3), grid, **dict(kw, modes=("lit",))):
                v.hist = max(0, int(g.choice(other))) + g.choice((-1, 0, 1)) if ints else None
                yield v
    finally:
        harness.LITS[:] = []


# ---------------------------------------------------------------- the runner
def judge_one(r, v, stmts, judges):
    """apply the rules at one valuation"""
    try:
        tape = ref.Tape(v, [x for x in v.s.ins])
        exp = "ok"
        try:
            tape.run([x for x in stmts if x[0] not in ("in", "weight", "mark")])
        except Throw:
            exp = "throw"
        except Open:
            exp = "open"
        v.tape = tape
        v.exp = exp
        out = v.outcome()
        r.vals += 1
        for j in judges:
            try:
                JUDGES[j](r, v, out)
            except (Undecided, Uninit) as e:
                r.undec(e)
    except (Undecided, Uninit) as e:
        r.undec(e)


def analyse(s, stmts):
    try:
        return build(s, stmts)
    except Ended:
        return None


def pinned(case, v, judges):
    """the same program analysed again with the extents, strides and integer
    arguments of one valuation as constants: no joins are needed there, so this
    separates what the code does from what a join lost"""
    stmts, _, opts = case
    r = Res(case)
    t.PINS = {a.a[0]: x for a, x in v.env.items() if a.op == "sym"}
    t.PINS["glob:*"] = evalu.HIST[0]
    stdmodel.DRAWS["on"] = "draws" in judges
    try:
        s = Sess(PROG)
        hs = analyse(s, stmts)
        try:
            w = next(valuations(s, 1, SEED, sizegrid=[{}]))
        except StopIteration:
            raise Unsupported("no instance")
        env = dict(w.env)
        env.update({a: x for a, x in v.env.items() if a.op == "vsym"})
        w = Val(s, env, v.E.elem, dict(v.desc, **{k: x for k, x in w.desc.items() if k not in v.desc}))
        w.hs = hs
        w.opts = v.opts
        r.funcs = set(s.I.analysed)
        judge_one(r, w, stmts, judges)
    except Unsupported as e:
        r.undec("not analysed: " + str(e))
        trace(s, stmts, e)
    except RecursionError:
        r.undec("not analysed: recursion")
    finally:
        t.PINS = {}
        stdmodel.DRAWS["on"] = False
        stdmodel.DRAWS["val"] = {}
    return r


def run(case, directed=False):
    """case = (stmts, judges, opts)"""
    stmts, judges, opts = case
    opts = dict(opts)
    r = Res(case)
    t0 = time.time()
    try:
        n = opts.pop("n", 12)
        grid = opts.pop("grid", None)
        kw = {k: v for k, v in opts.items() if k in ("sizes", "modes", "kinds", "maxgrid")}
        opts["stmts"] = stmts
        fail = None
        s = Sess(PROG)
        hs = None
        try:
            if any(x[0] == "str" for x in stmts) or "draws" in judges:
                # texts and sequences of draws have no summary over a symbolic
                # extent: constants only
                analyse(s, [x for x in stmts if x[0] != "str"])
                fail = "constant extents only"
            else:
                hs = analyse(s, stmts)
            r.funcs = set(s.I.analysed)
            r.loops = len([e for e in s.I.evlog if e.kind == "loop"])
            r.sites = len(s.I.evlog)
        except Unsupported as e:
            fail = "not analysed: " + str(e)
            trace(s, stmts, e)
        except RecursionError:
            fail = "not analysed: recursion"
        first = True
        budget = opts.get("pins", 4)
        for k, v in enumerate(instances(s, stmts, n, grid, kw, r.funcs if fail is None else ALLFUNCS or r.funcs, directed)):
            if directed and time.time() - t0 > 5:
                break
            evalu.HIST[0] = v.hist if v.hist is not None else evalu.HISTORIES[k % len(evalu.HISTORIES)]
            v.hs = hs
            v.opts = opts
            if first:
                r.sample = {"program": text(stmts), "valuation": dict(v.desc)}
                first = False
            one = Res(case)
            if fail is None:
                judge_one(one, v, stmts, judges)
            if fail is None and not one.viol and not one.und:
                r.add(one)
                continue
            if budget <= 0:
                if not one.viol and fail is None:
                    r.add(one)
                else:
                    r.undec(fail or "not re-examined")
                continue
            two = pinned(case, v, judges)
            r.funcs |= two.funcs
            if one.viol and two.viol:
                r.add(two)
                if len(r.viol) >= 3:
                    break
                continue
            budget -= 1
            r.npin += 1
            if fail is None and not one.viol and two.und and not two.viol:
                r.add(one)
            else:
                r.add(two)
            if two.viol and len(r.viol) >= 3:
                break
    except Anchor as e:
        r.anchor = str(e)
    except Unsupported as e:
        r.undec("not analysed: " + str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r.err = "%s: %s %s" % (type(e).__name__, str(e)[:200], [(x.name, x.lineno) for x in tb[-4:]])
        r.undec("not analysed: internal " + type(e).__name__)
    r.wall = time.time() - t0
    return r


JUDGES = {}


def judge(f):
    JUDGES[f.__name__] = f
    return f


import judges  # noqa: E402,F401
