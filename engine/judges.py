"""Rules applied to an analysed session at one valuation."""
import itertools
import terms as t
import loops
import stdmodel
import model as M
import ops as O
import ref
from model import SKIP, FLT
from interp import P, NP, L, BP, BL, Vec, Str, St, Blk, Alt, NULL, UNDEF, State, Top
from evalu import Eval, Garbage, Undecided, Uninit
from harness import close, Obs
from cases import judge, storesites, site


def last(v):
    """(name, handle, node) of the last operation of the program"""
    for st in reversed(v.opts["stmts"]):
        if st[0] == "op":
            n = v.tape.env.get(st[1])
            return st[1], v.hs[st[1]] if v.hs else None, n, st
        if st[0] == "init":
            n = v.tape.env.get(st[1])
            return st[1], v.hs[st[1]] if v.hs else None, n, ("op", st[1], "ctor", [], None)
        if st[0] == "iadd":
            return st[1], v.hs[st[1]] if v.hs else None, v.tape.env.get(st[1]), ("op", st[1], "iadd", [st[1], st[2]], None)
    return None, None, None, None


def entry(v):
    return last(v)[3]


def ended(r, rule, v, out):
    """shared prologue: the specification says the program ends normally"""
    if v.exp != "ok":
        return False
    if out[0] == "throw":
        r.bad(rule, v, "throws %s where the operation is defined" % out[1], [out[2]])
        return False
    if out[0] == "ub":
        r.bad(rule, v, "undefined behaviour (%s) where the operation is defined" % out[1], [out[2]])
        return False
    return True


def ok_only(v, out):
    return v.exp == "ok" and out[0] == "ok"


@judge
def dtype(r, v, out):
    if not ok_only(v, out):
        return
    nm, h, n, st = last(v)
    x = v.tens(h)
    if x.dtype != n.rt.dtype:
        r.bad("dtype", v, "result dtype is %s, the promotion rules give %s" % (x.dtype, n.rt.dtype))
    else:
        r.ok("dtype")


@judge
def shape(r, v, out):
    if not ended(r, "shape", v, out):
        return
    nm, h, n, st = last(v)
    x = v.tens(h)
    if x.sizes != n.rt.sizes:
        r.bad("shape", v, "result shape is %s, expected %s" % (x.sizes, n.rt.sizes))
    elif len(x.strides) != len(n.rt.sizes):
        r.bad("shape", v, "result has %d strides for %d dimensions" % (len(x.strides), len(x.sizes)))
    else:
        r.ok("shape")


@judge
def throws(r, v, out):
    if v.exp != "throw":
        return
    if out[0] == "throw":
        r.ok("throws")
    elif out[0] == "ub":
        r.bad("throws", v, "undefined behaviour (%s) instead of an exception" % out[1], [out[2]])
    else:
        r.bad("throws", v, "no exception for an invalid argument")


@judge
def accepts(r, v, out):
    if ended(r, "accepts", v, out):
        r.ok("accepts")


@judge
def values(r, v, out):
    if not ended(r, "value", v, out):
        return
    nm, h, n, st = last(v)
    x = v.tens(h)
    if x.sizes != n.rt.sizes:
        r.bad("value", v, "result shape is %s, expected %s" % (x.sizes, n.rt.sizes))
        return
    vs = x.values()
    if vs is None:
        return
    dt = n.rt.dtype
    if x.dtype != dt:
        if all(n.rt[i] is SKIP for i, _ in vs):
            return
        r.bad("value", v, "result dtype is %s, expected %s" % (x.dtype, dt))
        return
    for i, val in vs:
        e = n.rt[i]
        if e is SKIP:
            continue
        if not close(val, e, dt, v):
            r.bad("value", v, "element %s is %s, expected %s" % (list(i), val, e),
                  storesites(v.I, x.blob().blk) if x.blob() else ())
            return
        r.ok("value")
    if not vs:
        r.ok("empty result")


@judge
def boolean(r, v, out):
    """all()"""
    if not ended(r, "all()", v, out):
        return
    for k, e in v.tape.scal.items():
        x = v.s.scalars.get(k)
        if not isinstance(x, t.T):
            raise Undecided("result of all(): %r" % (x,))
        g = bool(v.E.ev(x))
        if g != e:
            r.bad("all()", v, "all() is %s, expected %s" % (g, e))
        else:
            r.ok("all()")


def terms(v, x):
    x = v.E.val(x)
    if isinstance(x, Vec):
        return [terms(v, y) for y in x.items]
    if isinstance(x, St) and len(x.f) == 1:
        return terms(v, next(iter(x.f.values())))
    if isinstance(x, t.T):
        return v.E.ev(x)
    raise Undecided("accessor value %r" % (x,))


def sametensor(v, p, q):
    """do two tensor objects denote the same elements of the same buffer?"""
    if p.cell is None or q.cell is None:
        return False
    x, y = Obs(v, p, v.S), Obs(v, q, v.S)
    a, b = x.blob(), y.blob()
    return (a is None) == (b is None) and (a is None or a.blk == b.blk and v.E.ev(a.off) == v.E.ev(b.off)) and \
        (x.dtype, x.sizes, x.strides, x.offset) == (y.dtype, y.sizes, y.strides, y.offset)


@judge
def accessors(r, v, out):
    """what the inspection methods report is the state of the tensor"""
    if not ended(r, "accessor", v, out):
        return
    for st in v.opts["stmts"]:
        if st[0] != "acc":
            continue
        _, dst, what, src = st
        n = v.tape.env[src]
        x = v.tens(v.hs[src])
        if what == "grad":
            h = v.impl_of(v.hs[dst])
            g = x.fld("grad")
            if h.cell != g.cell and not sametensor(v, h, g):
                r.bad("accessor", v, "grad() is not the gradient of %s" % src)
            else:
                r.ok("accessor grad")
            continue
        got = terms(v, v.s.scalars[dst])
        if what == "size":
            e = n.rt.sizes
        elif what == "stride":
            e = x.strides
        elif what == "numel":
            e = n.rt.numel()
        elif what == "dim":
            e = len(n.rt.sizes)
        elif what == "type":
            e = v.s.c.dt[n.rt.dtype]
        elif what == "requires_grad":
            e = n.req
        elif what == "retain_grad":
            e = n.retain
        elif what == "is_contiguous":
            e, open_ = dense(x)
            if open_:
                continue
        else:
            raise Undecided("accessor " + what)
        if got != e:
            r.bad("accessor", v, "%s() of %s reports %s, it is %s" % (what, src, got, e))
        else:
            r.ok("accessor " + what)


def expected_text(rt, idx=()):
    """cells of the text of a tensor: brackets, separators, elements"""
    if len(idx) == len(rt.sizes):
        return [rt[idx]]
    out = ["["]
    for i in range(rt.sizes[len(idx)]):
        if i:
            out += [",", " "]
        out += expected_text(rt, idx + (i,))
    return out + ["]"]


@judge
def printed(r, v, out):
    """to_string: every element once, row-major, a bracket level per dimension"""
    if not ended(r, "text", v, out):
        return
    for st in v.opts["stmts"]:
        if st[0] != "str":
            continue
        gsrc = [z[3] for z in v.opts["stmts"] if z[0] == "acc" and z[2] == "grad" and z[1] == st[2]]
        n = v.tape.env[gsrc[0] if gsrc else st[2]]
        rt = n.rt
        dt = rt.dtype
        x = v.E.val(v.s.scalars[st[1]])
        if gsrc and n.grad is not None:
            rt = ref.RT(dt, n.rt.sizes, lambda i: n.grad[i])
        elif gsrc:
            if not isinstance(x, Str):
                raise Undecided("text")
            if x.cells is None:
                raise Undecided("text")
            if x.cells is not None and "".join(c if isinstance(c, str) else "?" for c in flat(v, x)) != "[]":
                r.bad("text", v, "an empty handle prints as %r" % (x.cells,))
            else:
                r.ok("text of an empty handle")
            continue
        if not isinstance(x, Str) or x.cells is None or None in x.cells:
            raise Undecided("text %r" % (x,))
        e = expected_text(rt)
        got, buf = [], ""

        def flush():
            if buf:
                got.append(("const", int(buf)))
        for c in flat(v, x):
            if isinstance(c, str) and (c.isdigit() or c == "-"):
                buf += c
                continue
            flush()
            buf = ""
            got.append(c)
        flush()
        if len(got) != len(e):
            r.bad("text", v, "text of %s has %d tokens, expected %d: %s" % (st[2], len(got), len(e), show(v, got)))
            continue
        bad = False
        for k, (g, w) in enumerate(zip(got, e)):
            if isinstance(g, str) or isinstance(w, str):
                if g != w:
                    r.bad("text", v, "text of %s: %s, expected %s at token %d" % (
                        st[2], show(v, [g]), w if isinstance(w, str) else "an element", k))
                    bad = True
                    break
                continue
            if w is SKIP:
                continue
            style = "d" if g[0] == "const" else g[2]
            val = g[1] if g[0] == "const" else v.E.ev(g[1])
            if style != ("f" if dt in FLT else "d"):
                r.bad("text", v, "text of %s: an element of type %s is printed in form %%%s" % (st[2], dt, style))
                bad = True
                break
            if not close(val, w, dt, v):
                r.bad("text", v, "text of %s: token %d is %s, expected %s" % (st[2], k, val, w))
                bad = True
                break
        if not bad:
            r.ok("text", len(e))


def flat(v, x):
    out = []
    for c in x.cells:
        if isinstance(c, tuple) and c[0] == "alt":
            y = v.E.val(c[1])
            if not isinstance(y, Str) or y.cells is None:
                raise Undecided("text")
            out += flat(v, y)
        else:
            out.append(c)
    return out


def show(v, got):
    o = ""
    for g in got:
        if isinstance(g, str):
            o += g
        else:
            try:
                o += str(g[1] if g[0] == "const" else v.E.ev(g[1]))
            except Exception:
                o += "?"
    return o[:120]


def dense(x):
    """(is row-major dense, undetermined)"""
    sz, st = x.sizes, x.strides
    n = 1
    for k in sz:
        n *= k
    if n <= 1 or 1 in sz:
        return None, True
    acc = 1
    for a, b in zip(reversed(sz), reversed(st)):
        if b != acc:
            return False, False
        acc *= a
    return True, False


def inputs(v):
    return v.s.ins


@judge
def alias(r, v, out):
    if not ok_only(v, out):
        return
    nm, h, n, st = last(v)
    if st[0] != "op":
        return
    op = O.OPS[st[2]]
    x = v.tens(h)
    b = x.blob()
    own = op.own
    named = {i.name: i for i in inputs(v)}
    ins = [named.get(k) or v.tens(v.hs[k]) for k in st[3]]

    def block(i):
        if hasattr(i, "blk"):
            return i.blk
        return i.blob().blk if i.blob() is not None else None
    if callable(own):
        own = own(ins, st[4])
    if own == "reshape":
        own = O._reshape_alias(v, ins[0])
    if own == "open":
        return
    blk = b.blk if b is not None else None
    allb = {i.blk: i.name for i in inputs(v)}
    for k, g in v.hs.items():
        if k != nm and k not in named and v.tens(g) is not None and block(v.tens(g)) is not None:
            allb.setdefault(block(v.tens(g)), k)
    if hasattr(v.s, "ext"):
        allb[v.s.ext] = "the caller's memory"
    if own == "view":
        if blk != block(ins[0]):
            r.bad("alias", v, "%s does not refer to its operand's buffer" % st[2])
        else:
            r.ok("view aliases")
    else:
        if blk in allb:
            r.bad("alias", v, "the result of %s shares the buffer of %s" % (st[2], allb[blk]))
            return
        # no other live tensor holds the same buffer
        for c, o in v.S.heap.items():
            if isinstance(c, str) and c.startswith("I:"):
                continue
        r.ok("result owns its buffer")


def same(E, a, b, depth=0):
    """are two abstract values equal at this valuation"""
    if a is b:
        return True
    a, b = E.val(a), E.val(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, t.T):
        if a is b:
            return True
        x, y = E.ev(a), E.ev(b)
        return x == y or (x != x and y != y)
    if isinstance(a, P):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, BP):
        return a.blk == b.blk and E.ev(a.off) == E.ev(b.off)
    if isinstance(a, Vec):
        return len(a.items) == len(b.items) and all(same(E, x, y, depth + 1) for x, y in zip(a.items, b.items))
    if isinstance(a, St):
        return a.cls == b.cls and all(same(E, a.f.get(k, UNDEF), b.f.get(k, UNDEF), depth + 1)
                                      for k in set(a.f) | set(b.f))
    if isinstance(a, Blk):
        return a.layers == b.layers or samebuf(E, a, b) is None
    return a == b


def samebuf(E, a, b):
    """first differing byte offset of two buffers, or None"""
    if a.layers == b.layers:
        return None
    ia, ib = E.top.image(a.layers), E.top.image(b.layers)
    for off in sorted(set(ia.d) | set(ib.d), key=str):
        x, y = ia.d.get(off), ib.d.get(off)
        ety = (x or y)[0] if isinstance((x or y), tuple) else "i8"
        p, q = E.top.read(ia, ety, off), E.top.read(ib, ety, off)
        if isinstance(p, Garbage) or isinstance(q, Garbage):
            if type(p) is not type(q):
                return off
            continue
        if not (p == q or (p != p and q != q)):
            return off
    return None


@judge
def operands(r, v, out):
    """C07: the operands are what they were before the operation"""
    if out[0] == "ub":
        return
    S1 = v.S if out[0] == "ok" else out[3]
    if S1 is None:
        return
    if "pre" not in v.s.marks:
        return
    S0 = v.s.marks["pre"]
    E = v.E
    for x in inputs(v):
        a, b = S0.heap[x.impl], S1.heap.get(x.impl)
        if b is None:
            r.bad("operand", v, "operand %s no longer exists" % x.name)
            continue
        oa, ob = Obs(v, P(x.impl), S0), Obs(v, P(x.impl), S1)
        for what in ("dtype", "sizes", "strides", "offset", "requires_grad", "retain_grad"):
            p, q = getattr(oa, what), getattr(ob, what)
            if p != q:
                r.bad("operand", v, "%s of operand %s changed from %s to %s" % (what, x.name, p, q))
            else:
                r.ok("operand " + what)
        ba, bb = oa.blob(), ob.blob()
        if (ba is None) != (bb is None) or ba is not None and (ba.blk != bb.blk):
            r.bad("operand", v, "operand %s no longer has its buffer" % x.name)
        elif ba is not None:
            d = samebuf(E, S0.heap[ba.blk], S1.heap[bb.blk])
            if d is not None:
                r.bad("operand", v, "an element of operand %s changed" % x.name, storesites(v.I, ba.blk))
            else:
                r.ok("operand elements")
        ga, gb = oa.grad, ob.grad
        if ga is not None:
            p, q = gv(ga), gv(gb) if gb is not None else None
            if p is not None and p != q:
                r.bad("operand", v, "building a result changed the gradient of operand %s" % x.name)
            else:
                r.ok("operand gradient")
        elif gb is not None:
            q = gv(gb)
            if q is not None and any(y != 0 for i, y in q):
                r.bad("operand", v, "building a result changed the gradient of operand %s" % x.name)
            else:
                r.ok("operand gradient")


def gv(g):
    if g.blob() is None:
        return None
    return g.values()


@judge
def rng(r, v, out):
    st = entry(v)
    if st[2].startswith("randn"):
        return
    hit = [e for e in v.I.evlog if e.kind == "rng"]
    for e in hit:
        if v.E.top.holds(e.pc):
            r.bad("random generator", v, "%s consumes the random generator" % st[2], [e.site])
            return
    r.ok("random generator untouched")


@judge
def draws(r, v, out):
    """every element of every randn tensor is a draw of its own from N(0, 1)"""
    if not ended(r, "draw", v, out):
        return
    val = stdmodel.DRAWS["val"]
    std = sorted((z, k) for k, (x, z, m, sd) in val.items() if sd != "other")
    other = [x for x, z, m, sd in val.values() if sd == "other"]
    seen = {}
    for st in v.opts["stmts"]:
        if st[0] != "op" or not st[2].startswith("randn"):
            continue
        x = v.tens(v.hs[st[1]])
        vs = x.values()
        if vs is None:
            raise Undecided("draws")
        for i, g in vs:
            if isinstance(g, Garbage):
                r.bad("draw", v, "element %s of %s is never drawn" % (list(i), st[1]))
                return
            hit = [k for z, k in std if abs(z - g) <= 2e-7 * max(1, abs(z))]
            if not hit:
                if any(abs(o - g) <= 1e-5 for o in other) or not other and val:
                    r.bad("draw", v, "element %s of %s is not a draw from the standard normal distribution" % (list(i), st[1]))
                    return
                if not val:
                    r.bad("draw", v, "element %s of %s does not come from the generator" % (list(i), st[1]))
                    return
                raise Undecided("element computed from other distributions")
            k = hit[0].split("(0.0")[0]
            if k in seen:
                r.bad("draw", v, "elements %s and %s are the same draw" % (seen[k], st[1] + str(list(i))))
                return
            seen[k] = st[1] + str(list(i))
            r.ok("draw")
    r.ok("draws")


# ---------------------------------------------------------------- accesses
def owners(v, S):
    """buffer -> list of (dtype, sizes, strides, offset) of the tensors over it"""
    out = {}
    for c, o in list(S.heap.items()):
        try:
            o = v.E.val(o)
            if not isinstance(o, St) or o.cls != "INNC::TensorImpl":
                continue
            x = Obs(v, P(c), S)
            b = x.blob()
            if b is None:
                continue
            out.setdefault(b.blk, []).append((x.dtype, x.sizes, x.strides, x.offset))
        except (Undecided, Uninit, KeyError, AttributeError):
            continue
    return out


ES = t.ESIZE


@judge
def etypes(r, v, out):
    """C01: the element type of every access is the dtype of the buffer's tensors"""
    if out[0] == "ub" and out[1] == "nullcall":
        r.bad("dispatch", v, "no implementation is registered for this dtype combination", [out[2]])
        return
    if out[0] == "throw" and v.exp == "throw":
        return
    own = owners(v, v.S if out[0] != "throw" else out[3])
    for x in inputs(v):
        own.setdefault(x.blk, []).append((x.dtype, None, None, None))
    ext = getattr(v.s, "ext", None)
    seen = {}
    for blk, ety, sitee, kind in acc_types(v):
        k = (blk, ety, sitee)
        seen[k] = kind
    for (blk, ety, sitee), kind in seen.items():
        if blk == ext or blk not in own:
            continue
        dts = {o[0] for o in own[blk]}
        if kind in ("ldn", "stn"):
            r.ok("bulk access")
            continue
        if ety not in dts:
            r.bad("element type", v, "a buffer of %s is accessed as %s" % ("/".join(sorted(dts)), ety), [sitee])
        else:
            r.ok("element type")


def acc_types(v):
    out = []

    def walk(evs, fr, n):
        for e in evs:
            if e.kind in ("ld", "st", "ldn", "stn"):
                if fr is None or fr.holds(e.pc[n:]):
                    out.append((e.d[0], e.d[1], e.site, e.kind))
            elif e.kind == "loop":
                if fr is None or fr.holds(e.pc[n:]):
                    run = fr.loop(e.d[0], e.d[1])
                    lp = loops.LOOPS[e.d[0]]
                    for f in run.frames:
                        walk(lp.events, f, lp.nbase)
    walk(v.I.evlog, v.E.top, 0)
    return out


@judge
def bounds(r, v, out):
    """C08: every access is inside the buffer and hits an element of a tensor over it"""
    if out[0] == "ub":
        if v.exp != "open":
            r.bad("access", v, "undefined behaviour (%s)" % out[1], [out[2]])
        return
    S = v.S if out[0] == "ok" else out[3]
    own = owners(v, S)
    pos = {}
    bad = set()
    nacc = 0
    for e, fr in v.E.accesses():
        if e.kind not in ("ld", "st", "ldn", "stn"):
            continue
        blk, ety = e.d[0], e.d[1]
        if e.site in bad:
            continue
        off = fr.ev(e.d[2])
        b = S.heap.get(blk)
        if not isinstance(b, Blk):
            continue
        size = v.E.ev(b.size)
        n = ES[ety] if e.kind in ("ld", "st") else fr.ev(e.d[3])
        off = t.wrapc(off, 64, True)
        if n == 0:
            continue
        nacc += 1
        if off < 0 or off + n > size:
            bad.add(e.site)
            r.bad("access", v, "%s bytes at offset %d of a buffer of %d bytes :: %s" % (n, off, size, b.name if hasattr(b, "name") else ""), [e.site])
            continue
        if e.kind in ("ld", "st"):
            if blk not in pos:
                p = set()
                for dt, sz, sd, of in own.get(blk, []):
                    for i in itertools.product(*[range(k) for k in sz]):
                        p.add((of + sum(x * y for x, y in zip(i, sd))) * ES[dt])
                for x in inputs(v):
                    if x.blk == blk:
                        o = Obs(v, P(x.impl), v.s.marks.get("pre", S))
                        for i in itertools.product(*[range(k) for k in o.sizes]):
                            p.add((o.offset + sum(a * c for a, c in zip(i, o.strides))) * ES[x.dtype])
                pos[blk] = (p, blk in own)
            p, known = pos[blk]
            if known and off not in p:
                bad.add(e.site)
                r.bad("access", v, "access at element position %d, which no tensor over the buffer has" % (off // ES[ety]), [e.site])
    if nacc:
        r.ok("access in bounds", nacc)
    else:
        r.ok("no access")


@judge
def allocation(r, v, out):
    """C08: size of a fresh result buffer and of gradient buffers"""
    if not ok_only(v, out):
        return
    nm, h, n, st = last(v)
    if h is not None and n is not None:
        x = v.tens(h)
        b = x.blob()
        if b is not None and b.blk not in {i.blk for i in inputs(v)} and O.OPS[st[2]].own == "own":
            p = 1
            for k in x.sizes:
                p *= k
            want = p * ES[x.dtype]
            if x.blksize() != want or x.bytes() != want:
                r.bad("buffer size", v, "result buffer has %s bytes (recorded %s) for %d elements of %s" %
                      (x.blksize(), x.bytes(), p, x.dtype))
            else:
                r.ok("buffer size")
    for x in inputs(v):
        o = Obs(v, P(x.impl), v.S)
        g = o.grad
        if g is None:
            continue
        if g.bytes() != o.bytes():
            r.bad("gradient buffer size", v, "gradient buffer of %s has %d bytes, its tensor has %d" % (x.name, g.bytes(), o.bytes()))
        else:
            r.ok("gradient buffer size")
        if g.blob() is not None and g.blksize() != g.bytes():
            r.bad("gradient buffer size", v, "gradient buffer of %s is allocated with %d bytes instead of %d" % (x.name, g.blksize(), g.bytes()))


# ---------------------------------------------------------------- tracking
def operand_field(v, cls):
    """fields of a history node that hold its operands: vectors of owned tensors"""
    prog = v.s.c.prog
    out = []
    todo = [cls]
    while todo:
        c = todo.pop()
        if c in prog.classes:
            rec, tu = prog.classes[c]
            for f in rec["fields"]:
                ty = tu.types[f["t"]]
                if "vector" in ty and "TensorImpl" in ty:
                    out.append(f["n"])
        todo += prog.bases.get(c, [])
    return out


def parents(v, x):
    """operand implementations recorded by the history node of x"""
    p = x.grad_fn
    if p is None:
        return []
    o = v.E.at(x.S, p.cell, *p.path)
    out = []
    for f in operand_field(v, o.cls):
        vec = v.E.val(o.f.get(f, UNDEF))
        if not isinstance(vec, Vec):
            raise Undecided("operands %r" % (vec,))
        for y in vec.items:
            y = v.E.val(y)
            if not isinstance(y, P):
                raise Undecided("operand %r" % (y,))
            out.append(y)
    return out


@judge
def tracking(r, v, out):
    if not ok_only(v, out):
        return
    nm, h, n, st = last(v)
    x = v.tens(h)
    ops = [v.impl_of(v.hs[s]).cell for s in st[3]]
    req = [v.tape.env[s].req for s in st[3]]
    if x.p.cell in ops:        # the operand itself
        r.ok("identity")
        return
    if x.requires_grad != n.req:
        r.bad("tracking", v, "result %s grad, operands are %s" % (
            "requires" if x.requires_grad else "does not require",
            ", ".join("tracked" if q else "untracked" for q in req) or "none"))
        return
    r.ok("tracking")
    if not n.req:
        if x.grad_fn is not None:
            r.bad("tracking", v, "an untracked result has a history node")
        return
    if x.grad_fn is None:
        r.bad("tracking", v, "a tracked result has no history node")
        return
    opl = [o for o, q in zip(ops, req)]
    reach = []
    seen = set()

    def walk(z):
        for p in parents(v, z):
            if p.cell is None:
                reach.append(None)
            elif p.cell in opl:
                reach.append(p.cell)
            else:
                y = v.timpl(p)
                if y.grad_fn is not None:
                    if p.cell in seen:
                        continue
                    seen.add(p.cell)
                    walk(y)
                elif y.requires_grad:
                    reach.append(p.cell)
    walk(x)
    tr = {o for o, q in zip(ops, req) if q}
    want = [o for o, q in zip(ops, req) if q]
    got = [o for o in reach if o in tr]
    extra = [o for o in reach if o not in ops]
    if extra:
        r.bad("history", v, "the history refers to a tensor that is not an operand")
    elif got != want:
        r.bad("history", v, "the history reaches operands %s, expected %s" % (got, want))
    else:
        r.ok("history")


@judge
def floatonly(r, v, out):
    """C16: anything that requires grad is floating"""
    if out[0] == "ub":
        return
    if v.exp == "throw":
        if out[0] != "throw":
            r.bad("float only", v, "no exception")
        else:
            r.ok("rejected")
        return
    if out[0] != "ok":
        return
    for nm, h in v.hs.items():
        x = v.tens(h)
        if x is None:
            continue
        if x.requires_grad and x.dtype not in FLT:
            r.bad("float only", v, "%s is a %s tensor that requires grad" % (nm, x.dtype))
        else:
            r.ok("float only")


# ---------------------------------------------------------------- gradients
def gradof(v, x):
    g = x.grad
    if g is None or g.blob() is None:
        return None
    return g


@judge
def grads(r, v, out):
    """gradients of the leaves after the program"""
    if not ended(r, "gradient", v, out):
        return
    for x in inputs(v):
        n = v.tape.ins[x.name]
        o = Obs(v, P(x.impl), v.S)
        g = gradof(v, o)
        if n.grad is None:
            if g is None:
                r.ok("no gradient")
            elif not n.req:
                r.bad("gradient", v, "%s does not require grad but received one" % x.name)
            else:
                vs = g.values()
                if vs and any(y != 0 for _, y in vs):
                    r.bad("gradient", v, "%s received a gradient it should not have" % x.name)
                else:
                    r.ok("no gradient")
            continue
        if n.rt.numel() == 0:
            continue
        if g is None:
            r.bad("gradient", v, "%s requires grad but received none" % x.name)
            continue
        if g.dtype != x.dtype:
            r.bad("gradient", v, "gradient of %s has dtype %s" % (x.name, g.dtype))
            continue
        if g.sizes != n.rt.sizes:
            r.bad("gradient", v, "gradient of %s has shape %s, expected %s" % (x.name, g.sizes, n.rt.sizes))
            continue
        for i, val in g.values():
            e = n.grad[i]
            if e is SKIP:
                continue
            if not close(val, e, "f32" if x.dtype == "f32" or lowp(v) else "f64", v):
                r.bad("gradient", v, "gradient of %s at %s is %s, expected %s" % (x.name, list(i), val, e),
                      storesites(v.I, g.blob().blk))
                break
            r.ok("gradient")


def lowp(v):
    return any(x.dtype == "f32" for x in inputs(v)) or any(
        st[0] == "op" and st[2] == "type" and st[4] == "f32" for st in v.opts["stmts"])


@judge
def untracked(r, v, out):
    """C13"""
    if not ended(r, "untracked", v, out):
        return
    for x in inputs(v):
        n = v.tape.env[x.name]
        if n.req:
            continue
        o = Obs(v, P(x.impl), v.S)
        g = o.grad
        if g is not None and x.name not in [s[1] for s in v.opts["stmts"] if s[0] == "setreq"]:
            r.bad("untracked", v, "%s does not require grad but has a gradient" % x.name,
                  storesites(v.I, g.blob().blk) if g.blob() is not None else ())
        elif g is not None and g.blob() is not None:
            r.bad("untracked", v, "%s does not require grad but received a gradient" % x.name,
                  storesites(v.I, g.blob().blk))
        else:
            r.ok("untracked")
    for nm, n in v.tape.env.items():
        if n.op is None or n.req or nm not in v.hs:
            continue
        x = v.tens(v.hs[nm])
        if x.p.cell in [i.impl for i in inputs(v)] or n.tracked:
            continue
        if x.grad is not None:
            r.bad("untracked", v, "%s does not require grad but has a gradient" % nm)
        else:
            r.ok("untracked result")


@judge
def intermediates(r, v, out):
    """C15: intermediate gradients are dropped unless retained, and right if retained"""
    if not ended(r, "intermediate", v, out):
        return
    for nm, n in v.tape.env.items():
        if n.op is None or not n.req or nm not in v.hs:
            continue
        if n.retgrad is None:
            continue
        x = v.tens(v.hs[nm])
        if n.op in ("pos", "contiguous", "type") and any(x.p.cell is i.impl for i in inputs(v)):
            continue        # the same tensor, not an intermediate
        g = gradof(v, x)
        if not n.retain:
            if g is not None:
                r.bad("intermediate", v, "gradient of intermediate %s is kept" % nm)
            else:
                r.ok("intermediate dropped")
            continue
        if n.base is not None or any(m.base is n for m in v.tape.env.values()) or n.op in ("pos", "contiguous", "type"):
            continue
        if n.rt.numel() == 0:
            continue
        if g is None:
            r.bad("intermediate", v, "retained gradient of %s is gone" % nm)
            continue
        for i, val in g.values():
            e = n.retgrad[i]
            if not close(val, e, "f32" if n.rt.dtype == "f32" or lowp(v) else "f64", v):
                r.bad("intermediate", v, "retained gradient of %s at %s is %s, expected %s" % (nm, list(i), val, e),
                      storesites(v.I, g.blob().blk))
                break
        else:
            r.ok("intermediate retained")


@judge
def viewgrads(r, v, out):
    """C14: the gradient of a view is its base's gradient at the viewed positions"""
    if not ended(r, "view gradient", v, out):
        return
    for nm, n in v.tape.env.items():
        if n.base is None or not n.retain or nm not in v.hs or n.rt.numel() == 0 or n.retgrad is None:
            continue
        root = n
        maps = []
        while root.base is not None:
            maps.append(root.vmap)
            root = root.base
        if root.op is not None or root.name not in v.hs:
            continue
        bx = v.tens(v.hs[root.name])
        vx = v.tens(v.hs[nm])
        if vx.blob().blk != bx.blob().blk:
            continue        # a copying reshape
        bg, vg = gradof(v, bx), gradof(v, vx)
        if bg is None or vg is None:
            r.bad("view gradient", v, "no gradient for %s or its base" % nm)
            continue
        if vg.blob().blk != bg.blob().blk:
            r.bad("view gradient", v, "the gradient of view %s is not in its base's gradient buffer" % nm)
            continue
        bv = dict(bg.values())
        for i, val in vg.values():
            j = i
            for m in maps:
                j = m(j)
            if bv[j] != val:
                r.bad("view gradient", v, "gradient of view %s at %s is %s, its base has %s" % (nm, list(i), val, bv[j]))
                break
        else:
            r.ok("view gradient")


@judge
def leafview(r, v, out):
    """gradients of results without history that were made to require grad"""
    if not ended(r, "gradient", v, out):
        return
    for nm, n in v.tape.env.items():
        if n.op is None or n.tracked or n.grad is None or n.rt.numel() == 0:
            continue
        x = v.tens(v.hs[nm])
        g = gradof(v, x)
        if g is None:
            r.bad("gradient", v, "%s requires grad but received none" % nm)
            continue
        if g.bytes() < x.bytes():
            r.bad("gradient", v, "gradient buffer of %s has %d bytes, its tensor has %d" % (nm, g.bytes(), x.bytes()))
            continue
        for i, val in g.values():
            if not close(val, n.grad[i], "f32" if x.dtype == "f32" or lowp(v) else "f64", v):
                r.bad("gradient", v, "gradient of %s at %s is %s, expected %s" % (nm, list(i), val, n.grad[i]),
                      storesites(v.I, g.blob().blk))
                break
            r.ok("gradient")
    for x in inputs(v):
        if not v.tape.env[x.name].req and gradof(v, Obs(v, P(x.impl), v.S)) is not None:
            r.bad("gradient", v, "%s does not require grad but received a gradient" % x.name)


@judge
def zeroed(r, v, out):
    """after zero_grad as the last statement"""
    if not ended(r, "zero_grad", v, out):
        return
    st = v.opts["stmts"][-1]
    x = v.tens(v.hs[st[1]])
    g = gradof(v, x)
    if g is None:
        r.ok("zero_grad")
        return
    for i, val in g.values():
        if not close(val, 0.0, "f64"):
            r.bad("zero_grad", v, "gradient of %s at %s is %s after zero_grad" % (st[1], list(i), val))
            return
    r.ok("zero_grad")


@judge
def layout(r, v, out):
    """transpose exchanges extents and strides and nothing else"""
    if not ok_only(v, out):
        return
    nm, h, n, st = last(v)
    if not st[2].startswith("transpose"):
        return
    i, j = st[4]
    x, a = v.tens(h), v.tens(v.hs[st[3][0]])
    e = list(a.strides)
    e[i], e[j] = e[j], e[i]
    if x.strides != e:
        r.bad("layout", v, "strides of the transposed view are %s, expected %s" % (x.strides, e))
    elif x.offset != a.offset:
        r.bad("layout", v, "offset of the transposed view is %s, its operand has %s" % (x.offset, a.offset))
    else:
        r.ok("layout")


@judge
def unchanged(r, v, out):
    """C07: a backward pass leaves the elements and flags of every tensor alone"""
    if not ok_only(v, out):
        return
    S0 = State(dict(v.s.initheap), v.S.pc, None)
    for x in inputs(v):
        if not cmp_tensor(r, v, x.name, P(x.impl), S0, P(x.impl), v.S, grads=False):
            continue
    for nm, n in v.tape.env.items():
        if n.op is None or nm not in v.hs:
            continue
        x = v.tens(v.hs[nm])
        if x.blob() is None:
            continue
        if x.requires_grad != n.req or x.retain_grad != n.retain:
            r.bad("intermediate", v, "a backward pass changed a flag of %s" % nm)
            continue
        for i, val in x.values() or ():
            if not close(val, n.rt[i], n.rt.dtype, v):
                r.bad("intermediate", v, "element %s of %s is %s after the pass, expected %s" % (list(i), nm, val, n.rt[i]),
                      storesites(v.I, x.blob().blk))
                break
        else:
            r.ok("intermediate unchanged")


def cmp_tensor(r, v, name, p0, S0, p1, S1, grads=True):
    oa, ob = Obs(v, p0, S0), Obs(v, p1, S1)
    asked = {{"setreq": "requires_grad", "retain": "retain_grad"}.get(st[0]) for st in v.opts["stmts"] if st[1] == name}
    for what in ("dtype", "sizes", "strides", "offset", "requires_grad", "retain_grad"):
        p, q = getattr(oa, what), getattr(ob, what)
        if what in asked:
            continue
        if p != q:
            r.bad("operand", v, "%s of %s changed from %s to %s" % (what, name, p, q))
            return False
        r.ok("operand " + what)
    ba, bb = oa.blob(), ob.blob()
    if (ba is None) != (bb is None) or ba is not None and (ba.blk != bb.blk):
        r.bad("operand", v, "%s no longer has its buffer" % name)
        return False
    if ba is not None:
        if samebuf(v.E, S0.heap[ba.blk], S1.heap[bb.blk]) is not None:
            r.bad("operand", v, "an element of %s changed" % name, storesites(v.I, ba.blk))
            return False
        r.ok("operand elements")
    return True


@judge
def others(r, v, out):
    """in-place addition: everything but the elements of the left side is unchanged"""
    if not ok_only(v, out):
        return
    st = last(v)[3]
    S0 = v.s.marks["pre"]
    for x in inputs(v):
        if x.name != st[1]:
            cmp_tensor(r, v, x.name, P(x.impl), S0, P(x.impl), v.S)
            continue
        oa, ob = Obs(v, P(x.impl), S0), Obs(v, P(x.impl), v.S)
        for what in ("dtype", "sizes", "strides", "offset", "requires_grad", "retain_grad"):
            if getattr(oa, what) != getattr(ob, what):
                r.bad("operand", v, "in-place addition changed %s of its left side" % what)
            else:
                r.ok("left " + what)
        if oa.blob().blk != ob.blob().blk:
            r.bad("operand", v, "in-place addition replaced the buffer of its left side")
        # positions that are no element of the left side keep their bytes
        es = ES[x.dtype]
        mine = {(oa.offset + sum(a * b for a, b in zip(i, oa.strides))) * es
                for i in itertools.product(*[range(k) for k in oa.sizes])}
        i0, i1 = oa.image(), ob.image()
        for off in set(i1.d) | set(i0.d):
            if isinstance(off, int) and off not in mine and i1.d.get(off) != i0.d.get(off):
                r.bad("operand", v, "in-place addition wrote outside its left side", storesites(v.I, oa.blob().blk))
                break


@judge
def illegal(r, v, out):
    """C17"""
    if v.exp != "throw":
        return
    if out[0] == "ub":
        r.bad("illegal backward", v, "undefined behaviour (%s) instead of an exception" % out[1], [out[2]])
        return
    if out[0] != "throw":
        r.bad("illegal backward", v, "no exception for an illegal backward()")
        return
    if "pre" not in v.s.marks:
        return
    S0, S1 = v.s.marks["pre"], out[3]
    if S1 is None:
        raise Undecided("state at the exception")
    r.ok("rejected")
    for c, a in S0.heap.items():
        o = v.E.val(a)
        if isinstance(o, St):
            if not o.cls.startswith("INNC::") and o.cls != "UntypedStorage":
                continue
        elif not isinstance(o, Blk):
            continue
        b = S1.heap.get(c)
        if b is None:
            continue
        if not same(v.E, a, b):
            r.bad("illegal backward", v, "%s changed before the call was rejected" % (
                "a buffer" if isinstance(o, Blk) else "a %s" % o.cls.split("::")[-1]), [out[2]])
            return
    r.ok("nothing changed")


# ---------------------------------------------------------------- ownership
SMARTP = ("shared_ptr<", "unique_ptr<")


def field_types(prog, cls, memo={}):
    if cls in memo and memo[cls][0] is prog:
        return memo[cls][1]
    out = {}
    todo = [cls]
    while todo:
        c = todo.pop()
        if c in prog.classes:
            rec, tu = prog.classes[c]
            for f in rec["fields"]:
                out.setdefault(f["n"], tu.types[f["t"]])
        todo += prog.bases.get(c, [])
    memo[cls] = (prog, out)
    return out


def cells(E, x):
    x = E.val(x)
    if isinstance(x, P):
        return [x.cell] if x.cell is not None else []
    if isinstance(x, (BP,)):
        return [x.blk]
    if isinstance(x, Vec):
        return [c for y in x.items for c in cells(E, y)]
    if isinstance(x, St):
        return [c for y in x.f.values() for c in cells(E, y)]
    return []


def aliased(E, x):
    """targets of smart pointers that do not own them, and what those own instead"""
    x = E.val(x)
    if isinstance(x, NP):
        return [x.cell], [x.owner] if x.owner is not None else []
    if isinstance(x, (Vec, St)):
        a, b = [], []
        for y in (x.items if isinstance(x, Vec) else x.f.values()):
            c, d = aliased(E, y)
            a += c
            b += d
        return a, b
    return [], []


def edges(v, o):
    """(owned, referenced) cells of an abstract object, by the declared types of its fields"""
    own, ref = [], []
    ft = field_types(v.s.c.prog, o.cls)
    for k, val in o.f.items():
        ty = ft.get(k, "")
        w = v.E.val(val)
        if isinstance(w, St) and w.cls in v.s.c.prog.classes and not any(z in ty for z in SMARTP):
            a, b = edges(v, w)
            own += a
            ref += b
            continue
        cs = cells(v.E, val)
        if any(z in ty for z in SMARTP):
            weak, kept = aliased(v.E, val)
            own += [c for c in cs if c not in weak] + kept
            ref += [c for c in cs if c in weak]
        elif "weak_ptr<" in ty or "*" in ty or "&" in ty or "reference_wrapper<" in ty:
            ref += cs
        elif ty == "" and cs:
            raise Undecided("ownership of field %s of %s" % (k, o.cls))
    return own, ref


@judge
def ownership(r, v, out):
    if not ok_only(v, out):
        return
    S = v.S
    prog = v.s.c.prog
    memo = {}

    def ed(c):
        if c not in memo:
            o = v.E.val(S.heap[c]) if c in S.heap else None
            memo[c] = edges(v, o) if isinstance(o, St) else ([], [])
        return memo[c]

    def closure(c):
        seen, todo = set(), list(ed(c)[0])
        while todo:
            d = todo.pop()
            if d not in seen:
                seen.add(d)
                todo += ed(d)[0]
        return seen
    roots = {}
    for nm, h in v.hs.items():
        p = v.impl_of(h)
        if p.cell is not None:
            roots[nm] = p.cell
    allc = set()
    for nm, c in roots.items():
        allc |= {c} | closure(c)
    for nm, c in roots.items():
        n = v.tape.env.get(nm)
        cl = closure(c)
        if c in cl:
            r.bad("ownership cycle", v, "%s owns itself through its history" % nm)
        else:
            r.ok("no ownership cycle")
        if n is None or n.op is None or not n.tracked:
            continue
        for s_ in n.src:
            if s_.req and s_.name in roots:
                if roots[s_.name] != c and roots[s_.name] not in cl:
                    r.bad("operand kept alive", v, "%s does not keep its operand %s alive" % (nm, s_.name))
                else:
                    r.ok("operand kept alive")
    for c in sorted(allc):
        o = v.E.val(S.heap[c]) if c in S.heap else None
        if not isinstance(o, St):
            continue
        if c in closure(c) and c not in roots.values():
            r.bad("ownership cycle", v, "a %s owns itself" % o.cls.split("::")[-1])
        owned, refd = ed(c)
        if not refd:
            continue
        cl = closure(c)
        for d in refd:
            ok = d in cl or c in closure(d)
            if not ok:
                r.bad("dangling reference", v, "a %s refers to an object that neither it owns nor owns it" % o.cls.split("::")[-1])
            else:
                r.ok("references stay valid")
    n = {}
    for x in inputs(v):
        n[x.impl] = n[x.view] = n[x.store] = 1
    where = {}

    def walk(evs, fr, k):
        for e in evs:
            if e.kind in ("adopt", "disown"):
                if fr.holds(e.pc[k:]):
                    n[e.d[0]] = n.get(e.d[0], 0) + (1 if e.kind == "adopt" else -1)
                    where[e.d[0]] = e.site
            elif e.kind == "loop" and fr.holds(e.pc[k:]):
                lp = loops.LOOPS[e.d[0]]
                if not any(z.kind in ("adopt", "disown", "loop") for z in lp.events):
                    continue
                for f in fr.loop(e.d[0], e.d[1]).frames:
                    walk(lp.events, f, lp.nbase)
    walk(v.I.evlog, v.E.top, 0)
    for c, k in n.items():
        if k > 1:
            r.bad("single ownership", v, "two unrelated smart pointers own the same object", [where[c]])
        elif c in where:
            r.ok("single ownership")


@judge
def rebound(r, v, out):
    """C25: an assignment makes its left side denote what the right side denotes,
    and nothing else denotes or contains anything different afterwards"""
    if not ended(r, "assignment", v, out):
        return
    for kind, dst, src, S0, S1, hs in v.s.assigns:
        def ptr(h, S):
            p = v.impl_of(h, S)
            return None if p.cell is None else (p.cell, tuple(p.path))
        want = ptr(hs[src], S0) if src is not None else None
        new = ptr(hs[dst], S1)
        if kind == "init":
            if new is None or new[0] in S0.heap:
                r.bad("assignment", v, "assigning an initializer to %s left it on an existing tensor" % dst)
                continue
            b = v.tens(hs[dst], S1).blob()
            if b is not None and b.blk in S0.heap:
                r.bad("assignment", v, "assigning an initializer to %s reuses an existing buffer" % dst)
                continue
            r.ok("fresh tensor")
        elif new != want:
            r.bad("assignment", v, "after the %s assignment %s does not denote the tensor of %s" % (kind, dst, src))
            continue
        else:
            r.ok("denotes the source")
        if src is not None and want is not None:
            cmp_tensor(r, v, "the source " + src, P(*want), S0, P(*want), S1)
            if not samegrad(v, P(*want), S0, S1):
                r.bad("assignment", v, "the %s assignment to %s changed the gradient of its source" % (kind, dst))
        for nm, h in hs.items():
            if nm == dst or nm == src and kind in ("move", "ctor") or h.cell not in S0.heap:
                continue
            p0, p1 = ptr(h, S0), ptr(h, S1)
            if p0 != p1:
                r.bad("assignment", v, "assigning to %s made %s denote another tensor" % (dst, nm))
            elif p0 is not None:
                if cmp_tensor(r, v, nm, P(*p0), S0, P(*p0), S1):
                    if samegrad(v, P(*p0), S0, S1):
                        r.ok("other handle")
                    else:
                        r.bad("assignment", v, "assigning to %s changed the gradient of %s" % (dst, nm))


def samegrad(v, p, S0, S1):
    a, b = Obs(v, p, S0).grad, Obs(v, p, S1).grad
    if a is None or b is None:
        return a is None and b is None
    return gv(a) == gv(b)


@judge
def bindings(r, v, out):
    """every name shows the elements of what was last bound to it"""
    if not ended(r, "binding", v, out):
        return
    for nm, n in v.tape.env.items():
        if nm not in v.hs:
            continue
        o = v.tens(v.hs[nm])
        if o is None:
            r.bad("binding", v, "%s denotes no tensor" % nm)
            continue
        if o.dtype != n.rt.dtype or o.sizes != n.rt.sizes:
            r.bad("binding", v, "%s is %s%s, expected %s%s" % (nm, o.dtype, o.sizes, n.rt.dtype, n.rt.sizes))
            continue
        if o.requires_grad != n.req:
            r.bad("binding", v, "requires_grad of %s is %s" % (nm, o.requires_grad))
            continue
        for i, val in o.values() or ():
            e = n.rt[i]
            if e is SKIP:
                continue
            if not close(val, e, n.rt.dtype, v):
                r.bad("binding", v, "element %s of %s is %s, expected %s" % (list(i), nm, val, e), storesites(v.I, o.blob().blk) if o.blob() else ())
                break
        else:
            r.ok("binding")
