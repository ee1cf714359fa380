"""Abstract semantics of the standard library as used by the analysed program."""
import random
import re
import terms as t
from terms import T, C, ZERO, ONE, TRUE, FALSE
from interp import (P, NP, L, BP, BL, Vec, Str, St, Blk, Alt, Fn, Lam, It, Top, UNDEF, Opq, NULL,
                    Dead, Unsupported, strip, is_ref, ETY, INTS, SMART)

WS = " \t\n\r\f\v"


def targs(ty):
    """template arguments of a type string"""
    i = ty.find("<")
    if i < 0:
        return []
    d = 0
    out = []
    cur = ""
    for ch in ty[i:]:
        if ch == "<":
            d += 1
            if d == 1:
                continue
        elif ch == ">":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def objcls(e):
    q = e.get("q", "")
    return q


def conc(x):
    return x.a[0] if isinstance(x, T) and x.op == "c" else None


def need(I, v):
    x = I.toint(v)
    c = conc(x)
    if c is None:
        lo, hi = I.S.facts().interval(x)
        if lo is not None and lo == hi:
            return lo
        raise Unsupported("symbolic container size")
    return c


def kind_of(e):
    q = e.get("q", "") or ""
    m = re.match(r"(?:std|__gnu_cxx)::(?:__cxx11::|__debug::)?(\w+)", q)
    return m.group(1) if m else ""


FUNCTORS = {"plus": "+", "multiplies": "*", "minus": "-", "divides": "/", "modulus": "%", "less": "<",
            "greater": ">", "equal_to": "==", "not_equal_to": "!=", "less_equal": "<=", "greater_equal": ">="}


def usual(a, b):
    """the usual arithmetic conversions"""
    for f in ("long double", "double", "float"):
        if f in (a, b):
            return f
    a, b = [x if INTS.get(x, (64,))[0] >= 32 and x in INTS else "int" for x in (a, b)]
    (na, sa), (nb, sb) = INTS[a], INTS[b]
    if na != nb:
        return a if na > nb else b
    return b if sa else a


def functor(I, ty):
    """the function object a std:: operator class denotes"""
    m = re.match(r"std::(?:ranges::)?(\w+)", ty)
    op = FUNCTORS.get(m.group(1)) if m else None
    if op is None:
        return None
    ta = targs(ty)
    el = strip(ta[0]) if ta and ta[0] != "void" else None

    def fn(a, b, tys=None):
        a = I.load(a) if isinstance(a, (L, BL)) else a
        b = I.load(b) if isinstance(b, (L, BL)) else b
        if el:
            c = usual(el, el) if el in INTS or el in ("float", "double") else None
            if c:
                a, b = I.toty(I.toty(a, el), c), I.toty(I.toty(b, el), c)
        elif tys and all(x in INTS or x in ("float", "double") for x in tys):
            c = usual(*tys)
            a, b = I.toty(a, c), I.toty(b, c)
        else:
            c = None
        if op in ("<", ">", "==", "!=", "<=", ">="):
            return I.compare(op, a, b)
        if c is None:
            c = "unsigned long"
            if isinstance(a, T) and a.sort == "v":
                c = {v: kk for kk, v in ETY.items()}.get(t.ety_of(a), "double")
        r = I.arith(op, a, b, c)
        return I.toty(r, el) if el and el != c else r
    return Opq("functor", fn)


# ---------------------------------------------------------------- methods
def method(I, e, op, name, obj, args):
    if isinstance(obj, Alt) and I.is_lalt(obj):
        return I.lift(lambda o: method(I, e, op, name, o, args), obj)
    v = I.load(obj) if isinstance(obj, L) else obj
    if isinstance(v, Alt):
        x = v
        while isinstance(x, Alt):
            x = x.a if not (isinstance(x.a, P) and x.a.cell is None) else x.b
        if isinstance(x, (Vec, Str, It, Lam, Fn, St)) or isinstance(x, Opq):
            if isinstance(obj, L):
                return I.lift(lambda _: method(I, e, op, name, obj, args), Alt(v.c, 0, 1))
            return I.lift(lambda o: method(I, e, op, name, o, args), v)
        return ptr_method(I, e, op, obj, v, args)
    if op == "operator=":
        op = "="
    k = kind_of(e)
    if k in FUNCTORS and op == "()":
        q = strip(I.ty(e["ot"])) if "ot" in e else e["q"]
        return functor(I, q).arg(*[I.rval(a) for a in args], tys=[strip(I.ty(a["t"])) for a in args])
    if isinstance(v, Str) or k in ("basic_string", "basic_string_view"):
        return str_method(I, e, op, obj, v, args)
    if k in ("shared_ptr", "unique_ptr", "__shared_ptr", "__shared_ptr_access", "weak_ptr",
             "enable_shared_from_this"):
        return ptr_method(I, e, op, obj, v, args)
    if isinstance(v, Opq):
        return opq_method(I, e, op, obj, v, args)
    if k == "function" and op == "()":
        return I.apply(v, [I.eval(a) for a in args])
    if isinstance(v, It):
        return it_method(I, e, op, obj, v, args)
    if isinstance(v, (Lam, Fn)):
        if op == "()":
            return I.apply(v, [I.eval(a) for a in args])
        if op in ("=", "operator="):
            I.store(obj, I.rval(args[0]))
            return obj
        if op.startswith("operator ") or op == "bool":
            return TRUE
    if k == "optional":
        return opt_method(I, e, op, obj, v, args)
    if isinstance(v, Vec):
        return vec_method(I, e, op, obj, v, args, k)
    if isinstance(v, (P, BP)):
        if k in ("__normal_iterator", "span") and op in ("++", "--", "+", "-", "+=", "-=", "==", "!=", "<", "<=", ">", ">="):
            return rawit_method(I, e, op, obj, v, args)
        return ptr_method(I, e, op, obj, v, args)
    if isinstance(v, St) and v.cls == "std::span":
        return span_method(I, op, obj, v, args)
    if isinstance(v, St) and v.cls == "std::sstream":
        if op in ("operator bool", "good", "eof", "fail", "operator!"):
            ok = v.f["ok"]
            return ok if op in ("operator bool", "good") else t.bnot(ok)
        if op == "str":
            if args and args[0] is not None and args[0].get("k") != "default":
                I.store(loc_of(I, obj), St(v.cls, dict(v.f, rest=as_str(I, I.rval(args[0])))))
                return None
            return v.f["rest"]
        if op == "<<":
            stream_put(I, obj, args)
            return obj
        if op == "put":
            stream_add(I, obj, as_str(I, I.rval(args[0])))
            return obj
        if op in ("precision", "setf", "width", "fill", "flags", "unsetf"):
            stream_add(I, obj, Str(None))
        for a in args:
            I.eval(a)
        return obj
    if isinstance(v, St) and op == "=":
        I.store(obj, I.rval(args[0]))
        return obj
    if v is UNDEF and op == "=":
        I.store(obj, I.rval(args[0]))
        return obj
    if isinstance(v, T):
        if op == "()" or k == "":
            pass
    if isinstance(v, Top):
        for a in args:
            I.eval(a)
        return I.top("method %s of unknown (%s)" % (name, v.why))
    raise Unsupported("method %s of %s on %r" % (name, e.get("q"), v))


def rawit_method(I, e, op, obj, v, args):
    """an iterator class that wraps a plain pointer"""
    if op in ("++", "--"):
        I.store(obj, I.addto(v, 1 if op == "++" else -1, "long"))
        return v if args else obj
    a = I.rval(args[0])
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return I.compare(op, v, a)
    if op == "-" and isinstance(a, (P, BP)):
        return I.arith("-", v, a, "long") if isinstance(v, P) else bycount(I, a, v)
    d = I.toint(a)
    new = I.addto(v, d if op[0] == "+" else t.neg(d), "long")
    if len(op) == 1:
        return new
    I.store(obj, new)
    return obj


def span_method(I, op, obj, v, args):
    p, n = v.f["p"], v.f["n"]
    if op in ("begin", "data", "cbegin"):
        return p
    if op in ("end", "cend"):
        return I.addto(p, n, "long")
    if op == "size":
        return n
    if op == "empty":
        return t.eq(n, ZERO)
    if op == "[]":
        return I.deref(I.addto(p, I.toint(I.rval(args[0])), "long"))
    if op == "front":
        return I.deref(p)
    if op == "back":
        return I.deref(I.addto(p, t.sub(n, ONE), "long"))
    if op == "=":
        I.store(obj, I.rval(args[0]))
        return obj
    xs = [I.toint(I.rval(a)) for a in args if a.get("k") != "defarg"]
    if op == "first":
        return St(v.cls, {"p": p, "n": xs[0]})
    if op == "last":
        return St(v.cls, {"p": I.addto(p, t.sub(n, xs[0]), "long"), "n": xs[0]})
    if op == "subspan":
        return St(v.cls, {"p": I.addto(p, xs[0], "long"), "n": xs[1] if len(xs) > 1 else t.sub(n, xs[0])})
    raise Unsupported("span method " + op)


def ctor_span(I, e, args):
    args = [a for a in args if a.get("k") != "defarg"]
    if not args:
        return St("std::span", {"p": NULL, "n": ZERO})
    x = I.eval(args[0])
    v = I.load(x) if isinstance(x, L) or isinstance(x, Alt) and I.is_lalt(x) else x
    if isinstance(v, St) and v.cls == "std::span":
        return v
    if isinstance(v, Vec) and isinstance(x, L):
        return St("std::span", {"p": P(x.cell, x.path + (ZERO,)), "n": C(len(v.items))})
    if len(args) == 2:
        y = I.rval(args[1])
        if isinstance(v, It):
            l = I.it_loc(v) if not v.rev else None
            if l is None:
                raise Unsupported("span of reverse iterators")
            v2 = P(l.cell, l.path)
            return St("std::span", {"p": v2, "n": t.sub(y.i, v.i) if isinstance(y, It) else I.toint(y)})
        if isinstance(y, BP):
            return St("std::span", {"p": v, "n": bycount(I, v, y)})
        if isinstance(y, P):
            return St("std::span", {"p": v, "n": I.arith("-", y, v, "long")})
        return St("std::span", {"p": v, "n": I.toint(y)})
    raise Unsupported("span of %r" % (v,))


def ptr_method(I, e, op, obj, v, args):
    if op == "operator=":
        op = "="
    if op in ("get", "->"):
        return v
    if op == "*":
        return I.deref(v)
    if op == "[]":
        return I.deref(I.addto(v, I.toint(I.rval(args[0])), "long"))
    if op in ("operator bool", "bool"):
        return I.tobool(v)
    if op == "shared_from_this" or op == "weak_from_this":
        return P(obj.cell, obj.path)
    if op == "lock":
        return v
    if op == "expired":
        return t.bnot(I.tobool(v))
    if op == "reset":
        new = I.rval(args[0]) if args else NULL
        if args and strip(I.ty(args[0]["t"])).endswith("*"):
            adopt(I, new)
        I.store(obj, new)
        return None
    if op == "release":
        I.store(obj, NULL)
        adopt(I, v, "disown")
        return v
    if op == "=":
        src = I.eval(args[0])
        new = I.load(src) if isinstance(src, L) or isinstance(src, Alt) and I.is_lalt(src) else src
        pt = I.ty(e["pt"][0]) if e.get("pt") else ""
        if pt.endswith("&&") and isinstance(src, L) and not (isinstance(obj, L) and src == obj):
            I.store(src, NULL)
        I.store(obj, new)
        return obj
    if op == "swap":
        o2 = I.eval(args[0])
        a, b = I.load(obj), I.load(o2)
        I.store(obj, b)
        I.store(o2, a)
        return None
    if op in ("use_count", "unique"):
        return t.fresh("use_count", 0)
    if op in ("==", "!="):
        return I.compare(op, v, I.rval(args[0]))
    raise Unsupported("smart pointer method " + str(op))


def ranges_call(I, e, name, args):
    """std::ranges algorithm object: the iterator form on begin/end of its range"""
    f = FUNS.get(name)
    if f is None:
        raise Unsupported("library function std::ranges::" + name)
    args = [a for a in args if a.get("k") != "defarg"]
    args = [a for a in args if not strip(I.ty(a["t"])).startswith(("std::identity", "std::ranges::less", "std::ranges::equal_to"))]
    if name in ("min", "max", "clamp", "swap", "iter_swap", "distance", "next", "prev", "advance", "minmax") \
            or name in ("begin", "end", "size", "empty", "rbegin", "rend", "data", "ssize", "cbegin", "cend"):
        return f(I, e, args)
    out = []
    nr = 2 if name in ("equal", "transform", "swap_ranges") else 1
    for a in args:
        r = None
        if nr:
            l = I.eval(a)
            v = I.load(l) if isinstance(l, L) else l
            if isinstance(v, St) and v.cls == "std::span":
                r = (v.f["p"], I.addto(v.f["p"], v.f["n"], "long"))
            elif isinstance(v, Vec):
                if not isinstance(l, L):
                    l = L(I.new(v, "tmp"))
                r = (It(l, ZERO, False), It(l, C(len(v.items)), False))
            elif isinstance(v, Str) or isinstance(v, Alt):
                raise Unsupported("std::ranges::%s over %s" % (name, type(v).__name__))
            else:
                nr = 0
                out.append({"k": "pyx", "t": a["t"], "f": lambda x=l: x})
                continue
        if r is None:
            out.append(a)
            continue
        nr -= 1
        if name == "transform" and nr == 1 and len(args) < 4:
            nr = 0
        out += [{"k": "pyx", "t": a["t"], "f": lambda x=x: x} for x in r]
    if name == "transform" and len(args) >= 4 and len(out) == 6:
        del out[3]
    return f(I, e, out)


def opq_method(I, e, op, obj, v, args):
    k = v.kind
    if k == "tie" and op == "=":
        x = I.rval(args[0])
        xs = list(x.f.values()) if isinstance(x, St) else list(x.items) if isinstance(x, Vec) else None
        if xs is None or len(xs) != len(v.arg):
            raise Unsupported("assignment to std::tie")
        for l, y in zip(v.arg, xs):
            if not (isinstance(l, Opq)):
                I.store(l, val(I, y))
        return v
    if op == "()" and k == "global":
        m = re.search(r"std::ranges::_*(\w+?)_fn\b", strip(I.ty(e["ot"])) if "ot" in e else e.get("q", "")) \
            or re.search(r"std::ranges::_*(\w+?)_fn\b", e.get("q", ""))
        if m:
            return ranges_call(I, e, m.group(1), args)
        m = re.search(r"std::ranges::__(?:cust_access::)?_(\w+?)(?:::|$)", e.get("q", ""))
        if m:
            return ranges_call(I, e, m.group(1).lower(), args)
    if k == "ndist":
        xs = [I.eval(a) for a in args]
        if op == "()":
            I.event("rng")
            if DRAWS["on"] and xs and isinstance(xs[0], L):
                return draw(I, v.arg, xs[0])
            return rnd(v.arg[0])
        if op in ("param",) and xs and DRAWS["on"]:
            raise Unsupported("distribution parameters %r" % (dist,))
        return None
    if k == "rng" or (k == "global" and "rng" in str(v.arg)):
        xs = [I.eval(a) for a in args]
        I.event("rng")
        if DRAWS["on"] and isinstance(obj, L) and isinstance(v.arg, tuple):
            if op == "seed":
                I.store(obj, Opq("rng", (seed_of(I, xs), 0)))
                return None
            if op == "discard" and xs and isinstance(xs[0], T) and conc(xs[0]) is not None:
                I.store(obj, Opq("rng", (v.arg[0], v.arg[1] + conc(xs[0]))))
                return None
            if op in ("()",):
                I.store(obj, Opq("rng", (v.arg[0], v.arg[1] + 1)))
        return t.fresh("rng", 0)
    if k == "functor":
        return v.arg(*[I.eval(a) for a in args])
    for a in args:
        I.eval(a)
    if op == "str":
        return Str(None)
    if op == "what":
        return L(I.new(Str(None), "str"))
    if op in ("=", "operator="):
        return obj
    if op.startswith("operator ") or op in ("good", "fail", "eof"):
        return t.fresh("stream", sort="b")
    return obj


DRAWS = {"on": False, "val": {}}


def seed_of(I, xs):
    """where an engine's sequence comes from: equal seeds give equal sequences"""
    xs = [I.load(x) if isinstance(x, L) else x for x in xs]
    if not xs:
        return ("seed", "default")
    if isinstance(xs[0], T):
        return ("seed", xs[0])
    t._fresh[0] += 1
    return ("seed", "unknown", t._fresh[0])


def draw(I, dist, loc):
    """one sample: which generator, which position of its sequence, which
    distribution; the evaluation gives every position a value of its own"""
    g = I.load(loc)
    if not isinstance(g, Opq) or g.kind != "rng" or not isinstance(g.arg, tuple):
        raise Unsupported("random engine %r" % (g,))
    org, n = g.arg
    I.store(loc, Opq("rng", (org, n + 1)))
    ety, m, sd = dist
    name = "rnd!%s#%d" % (org, n)
    h = random.Random(name)
    z = h.uniform(-2.0, 2.0) if h.random() < .6 else h.uniform(-9.0, 9.0)     # the law has no bounds
    if sd is None:
        raise Unsupported("distribution parameters %r" % (dist,))
    DRAWS["val"][name + str((m, sd))] = (m + sd * z if sd != "other" else 10 + z, z, m, sd)
    return t.mk("vsym", (ety, name + str((m, sd))), "v")


def rnd(ety):
    t._fresh[0] += 1
    return t.mk("vsym", (ety, "rnd!%d" % t._fresh[0]), "v")


def it_method(I, e, op, obj, v, args):
    if op == "*":
        return I.it_loc(v)
    if op == "->":
        l = I.it_loc(v)
        return P(l.cell, l.path)
    if op in ("++", "--"):
        d = 1 if op == "++" else -1
        new = It(v.loc, t.add(v.i, C(d)), v.rev)
        I.store(obj, new)
        return v if args else obj
    if op in ("+", "-"):
        a = I.rval(args[0])
        if isinstance(a, It):
            return t.sub(v.i, a.i)
        d = I.unw(I.toint(a))
        return It(v.loc, t.add(v.i, d if op == "+" else t.neg(d)), v.rev)
    if op in ("+=", "-="):
        d = I.unw(I.toint(I.rval(args[0])))
        I.store(obj, It(v.loc, t.add(v.i, d if op == "+=" else t.neg(d)), v.rev))
        return obj
    if op == "[]":
        d = I.unw(I.toint(I.rval(args[0])))
        return I.it_loc(It(v.loc, t.add(v.i, d), v.rev))
    if op == "=":
        I.store(obj, I.rval(args[0]))
        return obj
    if op == "base":
        if v.rev:
            n = len(I.load(v.loc).items)
            return It(v.loc, t.sub(C(n), v.i), False)
        return I.it_loc(v)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return I.compare(op, v, I.rval(args[0]))
    raise Unsupported("iterator method " + op)


def opt_method(I, e, op, obj, v, args):
    if op == "=":
        x = I.rval(args[0])
        I.store(obj, x if isinstance(x, Vec) else (Vec(()) if isinstance(x, Opq) else Vec((x,))))
        return obj
    if op in ("has_value", "operator bool"):
        return t.B(len(v.items) > 0)
    if op in ("value", "*"):
        if not v.items:
            if op == "value":
                I.event("throw", "std::bad_optional_access", I.S)
            else:
                I.event("undef")
            raise Dead()
        return L(obj.cell, obj.path + (ZERO,)) if isinstance(obj, L) else v.items[0]
    if op == "->":
        if not v.items:
            I.event("undef")
            raise Dead()
        return P(obj.cell, obj.path + (ZERO,))
    if op == "value_or":
        d = I.rval(args[0])
        return v.items[0] if v.items else d
    if op == "reset":
        I.store(obj, Vec(()))
        return None
    if op == "emplace":
        I.store(obj, Vec((I.rval(args[0]),)))
        return None
    raise Unsupported("optional method " + op)


def adopt(I, v, kind="adopt"):
    """a smart pointer takes over (gives up) a raw pointer"""
    if isinstance(v, P) and v.cell is not None:
        I.event(kind, v.cell)


def loc_of(I, obj):
    if isinstance(obj, L):
        return obj
    return L(I.new(obj, "tmp"))


def elem_type(I, e):
    a = targs(e.get("q", ""))
    return a[0] if a else ""


def ins(I, loc, v, pos, new):
    items = list(v.items)
    items[pos:pos] = new
    I.store(loc, Vec(items))


def vec_method(I, e, op, obj, v, args, k):
    n = len(v.items)
    if op in ("size", "length", "capacity"):
        return C(n)
    if op == "empty":
        return t.B(n == 0)
    if k in ("set", "unordered_set", "map", "unordered_map", "multiset"):
        return assoc_method(I, e, op, obj, v, args, k)
    loc = loc_of(I, obj)
    if op in ("begin", "cbegin", "data"):
        if op == "data":
            return P(loc.cell, loc.path + (ZERO,))
        return It(loc, ZERO)
    if op in ("end", "cend"):
        return It(loc, C(n))
    if op in ("rbegin", "crbegin"):
        return It(loc, ZERO, True)
    if op in ("rend", "crend"):
        return It(loc, C(n), True)
    if op in ("[]", "at"):
        i = I.toint(I.rval(args[0]))
        if op == "at":
            i2 = I.unw(i) if conc(i) is not None else i
            bad = t.bor(t.lt(i2, ZERO), t.ge(i2, C(n)))
            d = I.decide(bad)
            if d is True:
                throw(I, "std::out_of_range")
            if d is None:
                s = I.S
                I.S = s.fork(bad)
                I.event("throw", "std::out_of_range", I.S)
                I.deadtail(s, I.S)
                I.S = s.fork(t.bnot(bad))
                I.flush_pending()
        return L(loc.cell, loc.path + (i,))
    if op == "front" or op == "top" and k == "_":
        if n == 0:
            I.event("oob", 0, 0)
            raise Dead()
        return L(loc.cell, loc.path + (ZERO,))
    if op in ("back", "top"):
        if n == 0:
            I.event("oob", -1, 0)
            raise Dead()
        return L(loc.cell, loc.path + (C(n - 1),))
    if op in ("push_back", "push", "emplace_back", "emplace", "push_front", "emplace_front"):
        if op == "emplace" and k in ("vector", "deque"):
            it = I.rval(args[0])
            x = build(I, elem_type(I, e), args[1:])
            v = I.load(loc)
            ins(I, loc, v, need(I, it.i), [x])
            return it
        if op.startswith("emplace"):
            x = build(I, elem_type(I, e), args)
        else:
            x = I.rval(args[0])
        v = I.load(loc)
        if op.endswith("_front"):
            I.store(loc, Vec((x,) + v.items))
            return L(loc.cell, loc.path + (ZERO,))
        I.store(loc, Vec(v.items + (x,)))
        return L(loc.cell, loc.path + (C(len(v.items)),))
    if op in ("pop_back", "pop_front", "pop"):
        if n == 0:
            I.event("oob", -1, 0)
            raise Dead()
        if op == "pop_front" or op == "pop" and k == "queue":
            I.store(loc, Vec(v.items[1:]))
        else:
            I.store(loc, Vec(v.items[:-1]))
        return None
    if op == "clear":
        I.store(loc, Vec(()))
        return None
    if op == "resize":
        m = need(I, I.rval(args[0]))
        if m > 4096:
            raise Unsupported("container of %d elements" % m)
        if m <= n:
            I.store(loc, Vec(v.items[:m]))
        else:
            x = I.rval(args[1]) if len(args) > 1 else I.zero_of(strip(elem_type(I, e)))
            I.store(loc, Vec(v.items + (x,) * (m - n)))
        return None
    if op in ("reserve", "shrink_to_fit"):
        for a in args:
            I.eval(a)
        return None
    if op == "assign" or op == "=":
        if op == "assign" and len(args) == 2:
            a, b = I.rval(args[0]), I.rval(args[1])
            if isinstance(a, It):
                I.store(loc, Vec([I.load(x) for x in seq(I, a, b)]))
            else:
                I.store(loc, Vec((b,) * need(I, a)))
            return None
        src = I.eval(args[0])
        x = I.load(src) if isinstance(src, L) or isinstance(src, Alt) and I.is_lalt(src) else src
        pt = I.ty(e["pt"][0]) if e.get("pt") else ""
        if pt.endswith("&&") and isinstance(src, L) and src != loc and isinstance(x, Vec):
            I.store(src, Vec(()))
        I.store(loc, x)
        return obj
    if op == "insert":
        it = I.rval(args[0])
        pos = need(I, it.i)
        if len(args) == 2:
            x = I.rval(args[1])
            new = list(x.items) if isinstance(x, Vec) and args[1].get("k") == "stdinit" else [x]
        else:
            a, b = I.rval(args[1]), I.rval(args[2])
            if isinstance(a, (It, P)):
                new = [I.load(x) for x in seq(I, a, b)]
            else:
                new = [b] * need(I, a)
        ins(I, loc, I.load(loc), pos, new)
        return It(loc, C(pos))
    if op == "erase":
        it = I.rval(args[0])
        pos = need(I, it.i)
        end = need(I, I.rval(args[1]).i) if len(args) > 1 else pos + 1
        if pos < 0 or end > n or pos >= n and end != pos:
            I.event("oob", pos, n)
            raise Dead()
        I.store(loc, Vec(v.items[:pos] + v.items[end:]))
        return It(loc, C(pos))
    if op == "swap":
        o2 = I.eval(args[0])
        b = I.load(o2)
        I.store(o2, v)
        I.store(loc, b)
        return None
    if op == "fill":
        x = I.rval(args[0])
        I.store(loc, Vec((x,) * n))
        return None
    if op in ("==", "!="):
        return I.compare(op, v, I.rval(args[0]))
    raise Unsupported("container method %s" % op)


def assoc_find(I, v, key, ismap):
    for i, x in enumerate(v.items):
        kx = x.f["first"] if ismap else x
        c = I.compare("==", kx, key)
        d = I.decide(c)
        if d is True:
            return i
        if d is None:
            raise Unsupported("associative container with undecided keys")
    return None


def assoc_method(I, e, op, obj, v, args, k):
    ismap = "map" in k
    loc = loc_of(I, obj)
    n = len(v.items)
    if op in ("begin", "cbegin"):
        return It(loc, ZERO)
    if op in ("end", "cend"):
        return It(loc, C(n))
    if op in ("reserve", "clear"):
        for a in args:
            I.eval(a)
        if op == "clear":
            I.store(loc, Vec(()))
        return None
    if op == "=":
        I.store(loc, I.rval(args[0]))
        return obj
    if op in ("count", "contains", "find", "erase", "at", "[]"):
        key = I.rval(args[0])
        if op == "erase" and isinstance(key, It):
            i = need(I, key.i)
            I.store(loc, Vec(v.items[:i] + v.items[i + 1:]))
            return It(loc, C(i))
        i = assoc_find(I, v, key, ismap)
        if op == "count":
            return C(0 if i is None else 1)
        if op == "contains":
            return t.B(i is not None)
        if op == "find":
            return It(loc, C(n if i is None else i))
        if op == "erase":
            if i is not None:
                I.store(loc, Vec(v.items[:i] + v.items[i + 1:]))
            return C(0 if i is None else 1)
        if i is None:
            if op == "at":
                throw(I, "std::out_of_range")
            a = targs(e.get("q", ""))
            z = zero_any(I, strip(a[1])) if len(a) > 1 else UNDEF
            I.store(loc, Vec(v.items + (St("std::pair", {"first": key, "second": z}),)))
            i = n
        return L(loc.cell, loc.path + (C(i), "second"))
    if op in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if ismap:
            if op == "insert":
                x = I.rval(args[0])
            else:
                x = St("std::pair", {"first": I.rval(args[0]),
                                     "second": I.rval(args[1]) if len(args) > 1 else ZERO})
            key = x.f["first"]
        else:
            x = key = I.rval(args[0])
        v = I.load(loc)
        i = assoc_find(I, v, key, ismap)
        fresh = i is None
        if fresh:
            i = len(v.items)
            I.store(loc, Vec(v.items + (x,)))
        elif op == "insert_or_assign":
            I.store(L(loc.cell, loc.path + (C(i), "second")), x.f["second"])
        return St("std::pair", {"first": It(loc, C(i)), "second": t.B(fresh)})
    raise Unsupported("associative container method " + op)


def zero_any(I, ty):
    if ty.startswith(("std::vector<", "std::set<", "std::unordered_set<", "std::map<", "std::deque<")):
        return Vec(())
    if ty.startswith("std::basic_string"):
        return Str(())
    if I.prog.vecbase(ty):
        return Vec(())
    return I.zero_of(ty)


# ---------------------------------------------------------------- strings
def as_str(I, v):
    """string value of an expression value (std::string, const char *, char)"""
    if isinstance(v, Str):
        return v
    if isinstance(v, P):
        if v.cell is None:
            I.event("nullderef")
            raise Dead()
        x = I.load(L(v.cell, v.path))
        if isinstance(x, Str):
            return x
        if v.path and isinstance(v.path[-1], T):
            x = I.load(L(v.cell, v.path[:-1]))
            if isinstance(x, Str) and conc(v.path[-1]) is not None and x.cells is not None:
                return Str(x.cells[conc(v.path[-1]):])
        return Str(None)
    if isinstance(v, (BP, Top)):
        return Str(None)
    if isinstance(v, T):
        return Str((int2cell(v),))
    if isinstance(v, Alt):
        if not known(v):
            return Str(None)
        return Str((("alt", v),))
    return Str(None)


def known(v):
    if isinstance(v, Alt):
        return known(v.a) and known(v.b)
    return isinstance(v, Str) and v.cells is not None and None not in v.cells


def istext(cells):
    """does the text contain the rendering of a value?"""
    return any(isinstance(c, tuple) and c[0] in ("txt", "alt") for c in cells)


def textlen(cells):
    """length of a text; renderings have a length of their own"""
    r = ZERO
    for c in cells:
        if isinstance(c, tuple) and c[0] in ("txt", "alt"):
            k = TXTLEN.get(c)
            if k is None:
                k = TXTLEN[c] = t.fresh("txtlen", 1 if c[0] == "txt" else 0, 400)
            r = t.add(r, k)
        else:
            r = t.add(r, ONE)
    return r


TXTLEN = {}


def textpos(I, cells, x):
    """index of the cell that starts at offset x of the text"""
    for i in range(len(cells) + 1):
        if textlen(cells[:i]) is x:
            return i
    raise Unsupported("position inside a rendered number")


def render(I, v, ty, style="f"):
    """text of a value: style 'f' as std::to_string prints floating-point
    values, 'g' as an output stream does"""
    if not isinstance(v, T):
        return Str(None)
    fl = ty in ("float", "double", "long double")
    if v.op == "c" and not fl:
        return Str(tuple(str(v.a[0])))
    return Str((("txt", v, style if fl else "d"),))


def int2cell(x):
    if x.op == "c":
        return chr(x.a[0] & 255)
    if x.op == "chr":
        return ("num",) + tuple(x.a)
    return None


def str_method(I, e, op, obj, v, args):
    if op in ("=", "operator=", "assign"):
        x = str_vals(I, [I.rval(a) for a in args])
        I.store(obj, x)
        return obj
    if isinstance(v, Alt):
        v = as_str(I, v)
    if not isinstance(v, Str):
        if v is UNDEF or isinstance(v, Top):
            for a in args:
                I.eval(a)
            return I.top("method of unknown string")
        raise Unsupported("string method %s on %r" % (op, v))
    if op in ("c_str", "data"):
        l = loc_of(I, obj)
        return P(l.cell, l.path)
    cells = v.cells
    if op in ("+=", "append", "push_back"):
        s = str_vals(I, [I.rval(a) for a in args])
        r = Str(None) if cells is None or s.cells is None or None in s.cells else Str(cells + s.cells)
        I.store(obj, r)
        return obj
    if cells is None:
        for a in args:
            I.eval(a)
        if op in ("size", "length"):
            return t.fresh("strlen", 0)
        if op == "substr":
            return Str(None)
        if op in ("erase", "clear", "insert"):
            return obj
        return I.top("method %s of unknown text" % op)
    n = len(cells)
    if op == "empty":
        return t.B(n == 0)
    if istext(cells):
        if op in ("size", "length"):
            return textlen(cells)
        if op == "back" and isinstance(cells[-1], str):
            return I.cell2int(cells[-1])
        if op == "front" and isinstance(cells[0], str):
            return I.cell2int(cells[0])
        if op == "pop_back" and isinstance(cells[-1], str):
            I.store(obj, Str(cells[:-1]))
            return None
        if op in ("resize", "erase", "substr") and len(args) in (1, 2):
            a = [I.rval(x) for x in args]
            if all(isinstance(x, T) for x in a):
                i = textpos(I, cells, I.toint(a[0]))
                if op == "resize":
                    I.store(obj, Str(cells[:i]))
                    return None
                j = len(cells)
                if len(a) > 1:
                    z = I.toint(a[1])
                    if conc(z) is None or conc(z) >= 0 and conc(z) < 1 << 40:
                        j = textpos(I, cells, t.add(I.toint(a[0]), z))
                if op == "substr":
                    return Str(cells[i:j])
                I.store(obj, Str(cells[:i] + cells[j:]))
                return obj
        if op == "insert" and len(args) == 2:
            a = I.rval(args[0])
            if isinstance(a, T):
                i = textpos(I, cells, I.toint(a))
                x = as_str(I, I.rval(args[1]))
                I.store(obj, Str(None) if x.cells is None or None in x.cells else Str(cells[:i] + x.cells + cells[i:]))
                return obj
        if op not in ("clear", "reserve", "shrink_to_fit") and not op.startswith("operator "):
            for a in args:
                I.eval(a)
            raise Unsupported("string method %s on rendered text" % op)
    if op in ("size", "length"):
        return C(n)
    if op == "resize" and len(args) >= 1:
        m = need(I, I.rval(args[0]))
        ch = as_str(I, I.rval(args[1])).cells if len(args) > 1 else ("\0",)
        I.store(obj, Str(cells[:m] + ch * max(0, m - n)))
        return None
    if op == "insert" and len(args) == 2:
        a = I.rval(args[0])
        if isinstance(a, T):
            i = need(I, a)
            x = as_str(I, I.rval(args[1]))
            I.store(obj, Str(None) if x.cells is None or None in x.cells else Str(cells[:i] + x.cells + cells[i:]))
            return obj
    if op in ("begin", "cbegin"):
        return It(loc_of(I, obj), ZERO)
    if op in ("end", "cend"):
        return It(loc_of(I, obj), C(n))
    if op in ("rbegin", "crbegin"):
        return It(loc_of(I, obj), ZERO, True)
    if op in ("rend", "crend"):
        return It(loc_of(I, obj), C(n), True)
    if op in ("[]", "at"):
        i = need(I, I.rval(args[0]))
        if i == n and op == "[]":
            return ZERO
        if not 0 <= i < n:
            if op == "at":
                throw(I, "std::out_of_range")
            I.event("oob", i, n)
            raise Dead()
        return I.cell2int(cells[i])
    if op in ("front", "back"):
        if n == 0:
            I.event("oob", 0, 0)
            raise Dead()
        return I.cell2int(cells[0 if op == "front" else -1])
    if op == "substr":
        pos = need(I, I.rval(args[0])) if args else 0
        cnt = need(I, I.rval(args[1])) if len(args) > 1 and args[1] is not None else 1 << 62
        if pos > n:
            throw(I, "std::out_of_range")
        cnt = cnt & ((1 << 64) - 1)
        return Str(cells[pos:pos + min(cnt, n)])
    if op == "erase":
        a = I.rval(args[0]) if args else ZERO
        if isinstance(a, It):
            pos = need(I, a.i)
            end = need(I, I.rval(args[1]).i) if len(args) > 1 else pos + 1
            I.store(obj, Str(cells[:pos] + cells[end:]))
            return It(obj, C(pos))
        pos = need(I, a) & ((1 << 64) - 1)
        cnt = need(I, I.rval(args[1])) if len(args) > 1 else 1 << 62
        if pos > n:
            throw(I, "std::out_of_range")
        cnt = min(cnt & ((1 << 64) - 1), n - pos)
        I.store(obj, Str(cells[:pos] + cells[pos + cnt:]))
        return obj
    if op == "clear":
        I.store(obj, Str(()))
        return None
    if op == "pop_back":
        I.store(obj, Str(cells[:-1]))
        return None
    if op in ("remove_prefix", "remove_suffix"):
        m = need(I, I.rval(args[0]))
        I.store(obj, Str(cells[m:] if op == "remove_prefix" else cells[:n - m]))
        return None
    if op in ("reserve", "shrink_to_fit"):
        return None
    NPOS = C((1 << 64) - 1)
    if op in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        pat = as_str(I, I.rval(args[0]))
        if pat.cells is None or None in pat.cells:
            return I.top("search for unknown text")
        pat = pat.cells
        pos = need(I, I.rval(args[1])) & ((1 << 64) - 1) if len(args) > 1 else None
        for c in cells + pat:
            if not isinstance(c, str) and any(isinstance(p, str) and (p.isdigit() or p in "+-") for p in pat):
                raise Unsupported("search for digits in a symbolic numeral")
        if op in ("find", "rfind"):
            m = len(pat)
            rng = range(pos or 0, n - m + 1)
            if op == "rfind":
                rng = [i for i in range(0, n - m + 1) if pos is None or i <= pos][::-1]
            for i in rng:
                if cells[i:i + m] == pat:
                    return C(i)
            return NPOS
        neg = "_not_" in op
        if "first" in op:
            rng = range(pos or 0, n)
        else:
            rng = range(min(n - 1, pos if pos is not None else n - 1), -1, -1)
        for i in rng:
            if (cells[i] in pat) != neg:
                return C(i)
        return NPOS
    if op in ("==", "!=", "compare"):
        s = as_str(I, I.rval(args[0]))
        r = I.same(v, s)
        if op == "compare":
            return t.ite(r, ZERO, ONE)
        return r if op == "==" else t.bnot(r)
    if op in ("starts_with", "ends_with"):
        s = as_str(I, I.rval(args[0])).cells
        if s is None:
            return t.fresh("sw", sort="b")
        return t.B(cells[:len(s)] == s if op == "starts_with" else cells[n - len(s):] == s)
    if op == "operator basic_string_view" or op.startswith("operator "):
        return v
    raise Unsupported("string method " + op)


def throw(I, ty):
    I.do_throw(ty)


def parse_int(I, s, ty, lax=False):
    """stoll & co"""
    if s.cells is None:
        return t.fresh("stoll")
    if istext(s.cells):
        raise Unsupported("parsing an alternative string")
    c = list(s.cells)
    while c and isinstance(c[0], str) and c[0] in WS:
        c.pop(0)
    neg = False
    if c and isinstance(c[0], str) and c[0] in "+-":
        neg = c[0] == "-"
        c.pop(0)
    if c and not isinstance(c[0], str):
        _, term, part, parts = c[0]
        if part != 0 or len(c) < parts or any(c[i] != ("num", term, i, parts) for i in range(parts)):
            return t.fresh("partial numeral")
        if len(c) > parts and (not isinstance(c[parts], str) or c[parts].isdigit()):
            return t.fresh("joined numeral")
        v = term
    else:
        ds = ""
        while c and isinstance(c[0], str) and c[0].isdigit():
            ds += c.pop(0)
        if not ds:
            if lax:
                return C(0)
            throw(I, "std::invalid_argument")
        v = C(int(ds))
    if neg:
        v = t.neg(v)
    if v.op == "c":
        n = v.a[0]
        bits = 32 if ty == "int" else 64
        lo, hi = (0, 1 << bits) if ty.startswith("unsigned") else (-(1 << (bits - 1)), 1 << (bits - 1))
        if ty.startswith("unsigned"):
            if -hi < n < 0:
                v = C(n + hi)
                n += hi
        if not lo <= n < hi:
            if lax:
                return t.fresh("numeral out of range")
            throw(I, "std::out_of_range")
    return v


# ---------------------------------------------------------------- sequences
def seq(I, a, b):
    """locations of the concrete range [a, b)"""
    if isinstance(a, It) and isinstance(b, It):
        i, j = need(I, a.i), need(I, b.i)
        return [I.it_loc(It(a.loc, C(x), a.rev)) for x in range(i, j)]
    if isinstance(a, P) and isinstance(b, P) and a.path and a.cell == b.cell:
        i, j = need(I, a.path[-1]), need(I, b.path[-1])
        return [L(a.cell, a.path[:-1] + (C(x),)) for x in range(i, j)]
    if isinstance(a, Alt) and isinstance(b, Alt) and a.c is b.c:
        x, y = seq(I, a.a, b.a), seq(I, a.b, b.b)
        if len(x) == len(y):
            return [Alt(a.c, p, q) for p, q in zip(x, y)]
    raise Unsupported("range %r" % (a,))


def fromkth(I, a, k):
    if isinstance(a, Alt):
        return Alt(a.c, fromkth(I, a.a, k), fromkth(I, a.b, k))
    if isinstance(a, It):
        return I.it_loc(It(a.loc, t.add(a.i, C(k)), a.rev))
    if isinstance(a, P):
        return L(a.cell, a.path[:-1] + (t.add(a.path[-1], C(k)),))
    if isinstance(a, BP):
        return BL(a.blk, t.add(a.off, C(k * t.ESIZE[a.ety])), a.ety)
    if isinstance(a, Opq) and a.kind == "back_inserter":
        return a
    raise Unsupported("output range %r" % (a,))


def put(I, out, k, v):
    if isinstance(out, Opq) and out.kind == "back_inserter":
        x = I.load(out.arg)
        I.store(out.arg, Vec(x.items + (v,)))
        return
    I.store(fromkth(I, out, k), v)


def pyloop(I, n, f):
    """for (k = 0; k < n; ++k) f(k), for a library algorithm over a range of symbolic length"""
    k = L(I.new(ZERO, "k"))
    node = {"k": "for", "l": I.line}
    cond = {"k": "pyx", "f": lambda: t.lt(I.load(k), n)}
    inc = {"k": "pyx", "f": lambda: I.store(k, t.add(I.load(k), C(1)))}
    body = {"k": "pyx", "f": lambda: f(I.load(k))}
    I.loop(node, cond, inc, body, False)
    if I.S is None:
        raise Dead()


def at(I, a, k):
    """the k-th element of a range that starts at a (k a term)"""
    if isinstance(a, BP):
        return BL(a.blk, t.add(a.off, t.mul(k, C(t.ESIZE[a.ety]))), a.ety)
    if isinstance(a, It):
        return I.it_loc(It(a.loc, t.add(a.i, k), a.rev))
    if isinstance(a, P):
        return L(a.cell, a.path[:-1] + (t.add(a.path[-1], k),))
    raise Unsupported("range of symbolic length")


def bycount(I, a, b):
    """number of elements of the buffer range [a, b)"""
    return I.arith("/", t.sub(b.off, a.off), C(t.ESIZE[a.ety]), "long")


def val(I, v):
    if isinstance(v, (L, BL)) or isinstance(v, Alt) and I.is_lalt(v):
        return I.load(v)
    return v


def blk_copy(I, src, dst, nbytes):
    b = I.S.heap.get(dst.blk)
    s = I.S.heap.get(src.blk)
    if not isinstance(b, Blk) or not isinstance(s, Blk):
        I.event("badaccess", "cpy", dst.blk)
        return
    I.event("ldn", src.blk, src.ety, src.off, nbytes)
    I.event("stn", dst.blk, dst.ety, dst.off, nbytes)
    ver = I.version(src.blk)
    I.S.heap[dst.blk] = Blk(b.size, b.layers + (("cpy", I.S.pc, dst.off, src.blk, ver, src.off, nbytes),), b.name)


def nbytes_of(I, a, b):
    return t.sub(b.off, a.off)


def call_fn(I, f, *vals):
    return I.apply(f, list(vals))


def build(I, ty, argnodes):
    """construct an element of type ty from call arguments"""
    ty = strip(ty)
    if ty in I.prog.classes and not I.prog.vecbase(ty):
        return I.load(make_obj(I, ty, argnodes))
    if I.prog.vecbase(ty) or ty.startswith("std::vector<"):
        vals = [I.rval(a) for a in argnodes]
        if not vals:
            return Vec(())
        if isinstance(vals[0], Vec):
            return vals[0]
        n = need(I, vals[0])
        return Vec(((vals[1] if len(vals) > 1 else ZERO),) * n)
    if ty.startswith("std::pair<"):
        a = targs(ty)
        return St("std::pair", {"first": I.rval(argnodes[0]), "second": I.rval(argnodes[1])})
    if ty.startswith("std::basic_string"):
        return str_vals(I, [I.rval(a) for a in argnodes])
    if not argnodes:
        return I.zero_of(ty)
    v = I.rval(argnodes[0])
    if isinstance(v, T):
        return I.toty(v, ty) if ty in INTS or ty in ("float", "double") else v
    return v


def score(I, pty, aty, node):
    p, a = strip(pty), strip(aty)
    if p == a:
        if pty.endswith("&&") and node.get("k") not in ("temp", "ctor") and not is_move(node):
            return 1.8
        return 2 if not (pty.endswith("&") and not pty.endswith("&&") and is_move(node)) else 1.9
    num = lambda x: x in INTS or x in ("float", "double") or x.startswith("INNC::types")
    if num(p) and num(a):
        return 1.2 if (p in ("float", "double")) == (a in ("float", "double")) else 1
    if p in I.prog.classes and a in I.prog.classes and I.prog.is_a(a, p):
        return 1.5
    if p.startswith(SMART) and (a.startswith(SMART) or a == "std::nullptr_t" or a.endswith("*")):
        return 1.2
    if p.endswith("*") and (a == "std::nullptr_t" or a.endswith("*")):
        return 1.2
    if p.startswith("std::vector<") and (a.startswith("std::vector<") or a.startswith("std::initializer_list") or a == ""):
        return 1
    if a.startswith("std::initializer_list") and I.prog.vecbase(p):
        return 1
    if p.startswith("std::initializer_list") and a.startswith("std::initializer_list"):
        return 2
    return None


def is_move(node):
    while node.get("k") == "cast" and node.get("ck") == "NoOp":
        node = node["e"]
    return node.get("k") == "call" and node.get("q") in ("std::move", "std::forward")


def make_obj(I, ty, argnodes):
    """location of a new object of class ty built from call arguments"""
    cands = []
    todo = [ty]
    while todo and not cands:      # an inherited constructor, if the class has none that fits
        cl = todo.pop(0)
        todo += I.prog.bases.get(cl, []) if argnodes else []
        for fid in I.prog.byq.get(cl + "::" + cl.split("::")[-1], []):
            rec, tu = I.prog.funcs[fid]
            ps = rec["p"]
            if len(ps) < len(argnodes):
                continue
            if any("d" not in p for p in ps[len(argnodes):]):
                continue
            sc = 0
            for p, a in zip(ps, argnodes):
                s = score(I, tu.types[p["t"]], I.ty(a["t"]), a)
                if s is None:
                    sc = None
                    break
                sc += s
            if sc is not None:
                cands.append((sc, -len(ps), fid))
    if not cands:
        if not argnodes:
            return L(I.new(St(ty, {}), "new"))
        if len(argnodes) == 1 and strip(I.ty(argnodes[0]["t"])) == ty:
            return L(I.new(I.rval(argnodes[0]), "new"))
        raise Unsupported("constructor of " + ty)
    cands.sort(key=lambda x: (-x[0], -x[1], x[2]))
    fid = cands[0][2]
    rec, tu = I.prog.funcs[fid]
    vals = []
    for p, a in zip(rec["p"], argnodes):
        pty = tu.types[p["t"]]
        if is_ref(pty):
            vals.append(I.eval(a))
        else:
            v = I.rval(a)
            vals.append(I.toty(v, strip(pty)) if isinstance(v, T) and (strip(pty) in INTS or strip(pty) in ("float", "double")) else v)
    cell = I.new(St(ty, {}), "new")
    from interp import Frame
    for p in rec["p"][len(argnodes):]:
        I.frames.append(Frame(rec, tu))
        try:
            vals.append(I.rval(p["d"]))
        finally:
            I.frames.pop()
    I.ctor_on(fid, vals, L(cell))
    return L(cell)


# ---------------------------------------------------------------- free functions
IDENT = ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::launder",
         "std::__addressof_dummy")


def call(I, e, q, args):
    if q in IDENT:
        return I.eval(args[0])
    if q in ("__builtin_expect", "__builtin_expect_with_probability"):
        v = I.rval(args[0])
        return v
    if q in ("std::make_shared", "std::make_unique", "std::allocate_shared"):
        ty = strip(I.ty(e["ta"][0])) if e.get("ta") else strip(targs(I.ty(e["t"]))[0])
        if ty.endswith("[]"):
            el = ETY.get(strip(ty[:-2]))
            n = I.toint(I.rval(args[0]))
            if el is None:
                raise Unsupported("array of " + ty)
            return I.new_block(t.mul(C(t.ESIZE[el]), I.unw(n)), el, True)
        if ty in I.prog.classes and not I.prog.vecbase(ty):
            l = make_obj(I, ty, args)
            adopt(I, P(l.cell, l.path))
            return P(l.cell, l.path)
        return P(I.new(build(I, ty, args), "new"))
    m = re.match(r"(?:std|__gnu_cxx)::(?:__cxx11::|ranges::|chrono::|__detail::)?(.*)$", q)
    n = m.group(1) if m else q
    f = FUNS.get(n)
    if f:
        return f(I, e, args)
    m = re.match(r"numeric_limits<(.*)>::(\w+)$", n)
    if m:
        return limits(m.group(1), m.group(2))
    if n.startswith("operator"):
        return free_op(I, e, n[8:], args)
    mm = I.math.get(n) if hasattr(I, "math") else None
    raise Unsupported("library function " + q)


def limits(ty, what):
    if ty in INTS:
        bits, sg = INTS[ty]
        if what == "max":
            return C((1 << (bits - 1)) - 1 if sg else (1 << bits) - 1)
        if what in ("min", "lowest"):
            return C(-(1 << (bits - 1)) if sg else 0)
    import sys
    if ty in ("float", "double"):
        mx = 3.4028234663852886e38 if ty == "float" else sys.float_info.max
        mn = 1.1754943508222875e-38 if ty == "float" else sys.float_info.min
        v = {"max": mx, "lowest": -mx, "min": mn, "infinity": float("inf"),
             "epsilon": 2.0 ** -23 if ty == "float" else 2.0 ** -52}.get(what)
        if v is not None:
            return t.vconst(ETY[ty], v)
    raise Unsupported("numeric_limits")


def stream_add(I, obj, x):
    loc = loc_of(I, obj)
    v = I.load(loc)
    c = v.f["rest"].cells
    I.store(loc, St(v.cls, dict(v.f, rest=Str(None) if c is None or x.cells is None or None in x.cells else Str(c + x.cells))))


def stream_put(I, obj, args):
    for a in args:
        ty = strip(I.ty(a["t"]))
        v = I.rval(a)
        if isinstance(v, T):
            if ty in ("char", "signed char", "unsigned char"):
                x = as_str(I, v)
                if x.cells == (None,):
                    x = Str((("txt", v, "c"),))
            elif ty == "bool":
                x = render(I, v, ty) if v.op == "c" else Str(None)
            else:
                x = render(I, v, ty, "g")
        elif isinstance(v, (Str, P)):
            x = as_str(I, v)
        else:
            x = Str(None)
        stream_add(I, obj, x)


def free_op(I, e, op, args):
    if op == "<<" or op == ">>":
        a = I.eval(args[0])
        if op == "<<" and isinstance(a, L):
            v = I.load(a)
            if isinstance(v, St) and v.cls == "std::sstream":
                stream_put(I, a, args[1:])
                return a
        for x in args[1:]:
            I.eval(x)
        return a
    if op == "+":
        a, b = I.rval(args[0]), I.rval(args[1])
        if isinstance(a, It) or isinstance(b, It):
            it, d = (a, b) if isinstance(a, It) else (b, a)
            return It(it.loc, t.add(it.i, I.unw(I.toint(d))), it.rev)
        a, b = as_str(I, a), as_str(I, b)
        if a.cells is None or b.cells is None:
            return Str(None)
        return Str(a.cells + b.cells)
    a, b = I.rval(args[0]), I.rval(args[1])
    if op == "-" and isinstance(a, It):
        return t.sub(a.i, b.i)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if isinstance(a, Str) or isinstance(b, Str):
            a, b = as_str(I, a), as_str(I, b)
        if isinstance(a, Vec) and op not in ("==", "!="):
            raise Unsupported("lexicographic comparison")
        return I.compare(op, a, b)
    raise Unsupported("operator " + op)


def f_minmax(which):
    def f(I, e, args):
        vals = [I.rval(a) for a in args[:2]]
        if len(args) == 1 and isinstance(vals[0], Vec):
            r = vals[0].items[0]
            for x in vals[0].items[1:]:
                r = mm2(I, which, r, x)
            return r
        if len(args) == 3:
            cmp_ = I.rval(args[2])
            a, b = vals
            c = I.tobool(call_fn(I, cmp_, b, a) if which == "min" else call_fn(I, cmp_, a, b))
            return I.ite(c, b, a)
        return mm2(I, which, *vals)
    return f


def mm2(I, which, a, b):
    if isinstance(a, Alt) or isinstance(b, Alt):
        return I.lift(lambda x: I.lift(lambda y: mm2(I, which, x, y), b), a)
    c = I.compare("<", b, a) if which == "min" else I.compare("<", a, b)
    d = I.decide(c)
    if d is True:
        return b
    if d is False:
        return a
    return I.ite(c, b, a)


def f_minmax2(I, e, args):
    vals = [I.rval(a) for a in args]
    if len(args) != 2:
        raise Unsupported("minmax of a list")
    a, b = vals
    return St("std::pair", {"first": mm2(I, "min", a, b), "second": mm2(I, "max", b, a)})


def f_scan(exclusive, plain=False):
    """partial_sum, inclusive_scan, exclusive_scan over a concrete range"""
    def f(I, e, args):
        locs = seq(I, I.rval(args[0]), I.rval(args[1]))
        out = I.rval(args[2])
        acc = I.rval(args[3]) if exclusive else None
        rest = args[4:] if exclusive else args[3:]
        op = I.rval(rest[0]) if rest else None
        if not exclusive and len(rest) > 1:
            acc = I.rval(rest[1])
        ty = strip(I.ty(args[3]["t"])) if exclusive else None
        vals = [I.load(l) for l in locs]

        def step(x, y):
            if op is not None:
                return val(I, call_fn(I, op, x, y))
            return I.arith("+", x, y, ty if ty in INTS else "unsigned long")
        for k, v in enumerate(vals):
            if exclusive:
                put(I, out, k, acc)
                acc = step(acc, v)
            else:
                acc = v if acc is None else step(acc, v)
                put(I, out, k, acc)
        return advance(out, len(vals))
    return f


def f_transform_reduce(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    ty = strip(I.ty(e["t"]))
    if len(args) in (4, 6):
        b, acc = I.rval(args[2]), I.rval(args[3])
        red, tr = (I.rval(args[4]), I.rval(args[5])) if len(args) == 6 else (None, None)
    elif len(args) == 5:
        b, acc, red, tr = None, I.rval(args[2]), I.rval(args[3]), I.rval(args[4])
    else:
        raise Unsupported("transform_reduce")
    for k, l in enumerate(locs):
        if tr is None:
            x = I.arith("*", I.load(l), I.load(fromkth(I, b, k)), ty if ty in INTS and INTS[ty][0] >= 64 else "unsigned long")
        else:
            x = val(I, call_fn(I, tr, l) if b is None else call_fn(I, tr, l, fromkth(I, b, k)))
        acc = arith_common(I, "+", acc, x, ty) if red is None else val(I, call_fn(I, red, acc, x))
        if isinstance(acc, T) and (ty in INTS or ty in ("float", "double")):
            acc = I.toty(acc, ty)
    return acc


def f_is_sorted(I, e, args):
    locs, rest = rng_args(I, args)
    p = I.rval(rest[0]) if rest else None
    r = [t.bnot(I.tobool(call_fn(I, p, b, a)) if p is not None else I.compare("<", I.load(b), I.load(a)))
         for a, b in zip(locs, locs[1:])]
    return t.band(*r)


def f_rotate(I, e, args):
    a, m, b = [I.rval(x) for x in args]
    l1, l2 = seq(I, a, m), seq(I, m, b)
    vals = [I.load(l) for l in l2 + l1]
    for l, v in zip(l1 + l2, vals):
        I.store(l, v)
    return advance(a, len(l2))


def f_swap_ranges(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    b = I.rval(args[2])
    for k, l in enumerate(locs):
        o = fromkth(I, b, k)
        x, y = I.load(l), I.load(o)
        I.store(l, y)
        I.store(o, x)
    return advance(b, len(locs))


def f_reverse_copy(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    out = I.rval(args[2])
    for k, v in enumerate([I.load(l) for l in reversed(locs)]):
        put(I, out, k, v)
    return advance(out, len(locs))


def f_copy_if(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    out, p = I.rval(args[2]), I.rval(args[3])
    k = 0
    for l in locs:
        d = I.decide(I.tobool(call_fn(I, p, l)))
        if d is None:
            raise Unsupported("copy_if on an undecided condition")
        if d:
            put(I, out, k, I.load(l))
            k += 1
    return advance(out, k)


def f_copy_backward(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    out = advance(I.rval(args[2]), -len(locs))
    for k, v in enumerate([I.load(l) for l in locs]):
        put(I, out, k, v)
    return out


def f_tie(I, e, args):
    return Opq("tie", [I.eval(a) for a in args])


def f_make_tuple(I, e, args):
    return St("std::tuple", {"e%d" % i: I.rval(a) for i, a in enumerate(args)})


def f_clamp(I, e, args):
    x, lo, hi = [I.rval(a) for a in args]
    return mm2(I, "min", mm2(I, "max", x, lo), hi)


def f_swap(I, e, args):
    a, b = I.eval(args[0]), I.eval(args[1])
    x, y = I.load(a), I.load(b)
    I.store(a, y)
    I.store(b, x)


def f_exchange(I, e, args):
    a = I.eval(args[0])
    old = I.load(a)
    I.store(a, I.rval(args[1]))
    return old


def f_iter_swap(I, e, args):
    a, b = I.deref(I.rval(args[0])), I.deref(I.rval(args[1]))
    x, y = I.load(a), I.load(b)
    I.store(a, y)
    I.store(b, x)


def f_abs(I, e, args):
    v = I.rval(args[0])
    if isinstance(v, T) and v.sort == "v":
        return t.vun("abs", ETY.get(strip(I.ty(e["t"])), t.ety_of(v)), v)
    x = I.toint(v)
    lo, hi = I.S.facts().interval(x)
    if lo is not None and lo >= 0:
        return x
    return t.ite(t.le(ZERO, x), x, t.neg(x))


def f_sort(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    cmpf = I.rval(args[2]) if len(args) > 2 else None
    n = len(locs)
    if n > 6:
        raise Unsupported("sort of %d elements" % n)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = I.load(locs[j]), I.load(locs[j + 1])
            c = I.tobool(call_fn(I, cmpf, b, a)) if cmpf is not None else I.compare("<", b, a)
            I.store(locs[j], I.ite(c, b, a))
            I.store(locs[j + 1], I.ite(c, a, b))


def rng_args(I, args):
    """(locs, rest-argnodes) for algorithms called as (first,last,...) or (range,...)"""
    a = I.eval(args[0])
    v = I.load(a) if isinstance(a, L) else a
    if isinstance(v, Vec):
        l = loc_of(I, a)
        return [L(l.cell, l.path + (C(i),)) for i in range(len(v.items))], args[1:]
    if isinstance(v, Str) and v.cells is not None:
        l = loc_of(I, a)
        return [L(l.cell, l.path + (C(i),)) for i in range(len(v.cells))], args[1:]
    return seq(I, v, I.rval(args[1])), args[2:]


def f_quant(which):
    def f(I, e, args):
        locs, rest = rng_args(I, args)
        p = I.rval(rest[0])
        r = []
        for l in locs:
            r.append(I.tobool(call_fn(I, p, l)))
        if which == "all_of":
            return t.band(*r)
        o = t.bor(*r)
        return o if which == "any_of" else t.bnot(o)
    return f


def f_accumulate(I, e, args):
    if len(args) > 2:
        a = I.rval(args[0])
        if isinstance(a, BP):
            n = bycount(I, a, I.rval(args[1]))
            ty = strip(I.ty(e["t"]))
            acc = L(I.new(I.rval(args[2]), "acc"))
            op = I.rval(args[3]) if len(args) > 3 else None

            def step(k):
                x = at(I, a, k)
                if op is None:
                    v = arith_common(I, "+", I.load(acc), I.load(x), ty)
                else:
                    v = val(I, call_fn(I, op, I.load(acc), x))
                    if isinstance(v, T) and (ty in INTS or ty in ("float", "double")):
                        v = I.toty(v, ty)
                I.store(acc, v)
            pyloop(I, n, step)
            return I.load(acc)
    locs, rest = rng_args(I, args)
    if not rest:
        raise Unsupported("reduce")
    acc = I.rval(rest[0])
    ty = strip(I.ty(e["t"]))
    op = I.rval(rest[1]) if len(rest) > 1 else None
    for l in locs:
        if op is None:
            x = I.load(l)
            acc = arith_common(I, "+", acc, x, ty)
        else:
            acc = call_fn(I, op, acc, l)
            if isinstance(acc, (L, BL)):
                acc = I.load(acc)
            if isinstance(acc, T) and (ty in INTS or ty in ("float", "double")):
                acc = I.toty(acc, ty)
    return acc


def arith_common(I, op, a, b, ty):
    if ty in INTS and INTS[ty][0] < 64:
        r = I.arith(op, a, b, "unsigned long")
        return I.toty(r, ty)
    return I.arith(op, a, b, ty)


def f_inner(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    b = I.rval(args[2])
    acc = I.rval(args[3])
    ty = strip(I.ty(e["t"]))
    if len(args) > 4:
        raise Unsupported("inner_product with functions")
    for k, l in enumerate(locs):
        x, y = I.load(l), I.load(fromkth(I, b, k))
        acc = arith_common(I, "+", acc, I.arith("*", x, y, ty if ty in INTS and INTS[ty][0] >= 64 else "unsigned long"), ty)
    return acc


def f_copy(I, e, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    out = I.rval(args[2])
    if isinstance(a, BP):
        if not isinstance(out, BP):
            raise Unsupported("copy out of a buffer")
        nb = nbytes_of(I, a, b)
        if a.ety != out.ety:
            raise Unsupported("converting copy of buffers")
        blk_copy(I, a, out, nb)
        return BP(out.blk, t.add(out.off, nb), out.ety)
    locs = seq(I, a, b)
    vals = [I.load(l) for l in locs]
    for k, v in enumerate(vals):
        put(I, out, k, v)
    return advance(out, len(vals))


def advance(out, k):
    if isinstance(out, Alt):
        return Alt(out.c, advance(out.a, k), advance(out.b, k))
    if isinstance(out, It):
        return It(out.loc, t.add(out.i, C(k)), out.rev)
    if isinstance(out, BP):
        return BP(out.blk, t.add(out.off, C(k * t.ESIZE[out.ety])), out.ety)
    if isinstance(out, P):
        return P(out.cell, out.path[:-1] + (t.add(out.path[-1], C(k)),))
    return out


def f_copy_n(I, e, args):
    a = I.rval(args[0])
    n = I.toint(I.rval(args[1]))
    out = I.rval(args[2])
    if isinstance(a, BP) and isinstance(out, BP) and a.ety == out.ety:
        nb = t.mul(n, C(t.ESIZE[a.ety]))
        blk_copy(I, a, out, nb)
        return BP(out.blk, t.add(out.off, nb), out.ety)
    m = need(I, n)
    vals = [I.load(fromkth(I, a, k)) for k in range(m)]
    for k, v in enumerate(vals):
        put(I, out, k, v)
    return advance(out, m)


def blk_fill(I, a, count, v):
    b = I.S.heap.get(a.blk)
    if not isinstance(b, Blk):
        I.event("badaccess", "st", a.blk)
        return
    nb = t.mul(count, C(t.ESIZE[a.ety]))
    I.event("stn", a.blk, a.ety, a.off, nb)
    if isinstance(v, T) and v.sort != "v":
        v = t.vcast(a.ety, v)
    elif isinstance(v, T):
        v = t.vcast(a.ety, v)
    else:
        raise Unsupported("fill value")
    I.S.heap[a.blk] = Blk(b.size, b.layers + (("fill", I.S.pc, a.off, a.ety, v, count),), b.name)


def f_fill(I, e, args):
    a = I.rval(args[0])
    if isinstance(a, BP):
        b = I.rval(args[1])
        v = I.rval(args[2])
        cnt = t.div(t.sub(b.off, a.off), C(t.ESIZE[a.ety]))
        return blk_fill(I, a, cnt, v)
    locs, rest = rng_args(I, args)
    v = I.rval(rest[0])
    for l in locs:
        I.store(l, v)


def f_fill_n(I, e, args):
    a = I.rval(args[0])
    n = I.unw(I.toint(I.rval(args[1])))
    v = I.rval(args[2])
    if isinstance(a, BP):
        blk_fill(I, a, n, v)
        return BP(a.blk, t.add(a.off, t.mul(n, C(t.ESIZE[a.ety]))), a.ety)
    for k in range(need(I, n)):
        put(I, a, k, v)
    return advance(a, need(I, n))


def f_iota(I, e, args):
    locs, rest = rng_args(I, args)
    v = I.toint(I.rval(rest[0]))
    for k, l in enumerate(locs):
        I.store(l, t.add(v, C(k)))


def f_reverse(I, e, args):
    locs, _ = rng_args(I, args)
    vals = [I.load(l) for l in locs]
    for l, v in zip(locs, reversed(vals)):
        I.store(l, v)


def f_equal(I, e, args):
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    b = I.rval(args[2])
    pred = None
    n2 = None
    if len(args) >= 4:
        x = I.rval(args[3])
        if isinstance(x, (It, P)):
            l2 = seq(I, b, x)
            if len(l2) != len(locs):
                return FALSE
            pred = I.rval(args[4]) if len(args) > 4 else None
        else:
            pred = x
    r = []
    for k, l in enumerate(locs):
        o = fromkth(I, b, k)
        r.append(I.tobool(call_fn(I, pred, l, o)) if pred is not None
                 else I.compare("==", I.load(l), I.load(o)))
    return t.band(*r)


def f_find(which):
    def f(I, e, args):
        a = I.rval(args[0])
        locs = seq(I, a, I.rval(args[1]))
        x = I.rval(args[2])
        res = advance(a, len(locs))
        for k in range(len(locs) - 1, -1, -1):
            l = locs[k]
            if which == "find":
                c = I.compare("==", I.load(l), x)
            else:
                c = I.tobool(call_fn(I, x, l))
                if which == "find_if_not":
                    c = t.bnot(c)
            d = I.decide(c)
            if d is True:
                res = advance(a, k)
            elif d is None:
                r1 = advance(a, k)
                if isinstance(r1, It) and isinstance(res, It):
                    res = It(r1.loc, t.ite(c, r1.i, res.i), r1.rev)
                else:
                    raise Unsupported("find over undecided elements")
        return res
    return f


def f_count(which):
    def f(I, e, args):
        locs, rest = rng_args(I, args)
        x = I.rval(rest[0])
        r = ZERO
        for l in locs:
            c = I.compare("==", I.load(l), x) if which == "count" else I.tobool(call_fn(I, x, l))
            r = t.add(r, t.b2i(c))
        return r
    return f


def f_generate(I, e, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    fn = I.rval(args[2])
    if isinstance(a, BP):
        pyloop(I, bycount(I, a, b), lambda k: I.store(at(I, a, k), conv(I, a, val(I, call_fn(I, fn)))))
        return None
    for l in seq(I, a, b):
        I.store(l, val(I, call_fn(I, fn)))


def conv(I, a, v):
    return t.vcast(a.ety, v) if isinstance(a, BP) and isinstance(v, T) else v


def f_generate_n(I, e, args):
    a, n = I.rval(args[0]), I.toint(I.rval(args[1]))
    fn = I.rval(args[2])
    if isinstance(a, BP):
        pyloop(I, n, lambda k: I.store(at(I, a, k), conv(I, a, val(I, call_fn(I, fn)))))
        return BP(a.blk, t.add(a.off, t.mul(n, C(t.ESIZE[a.ety]))), a.ety)
    m = need(I, n)
    for k in range(m):
        put(I, a, k, val(I, call_fn(I, fn)))
    return advance(a, m)


def f_for_each_n(I, e, args):
    a, n = I.rval(args[0]), I.toint(I.rval(args[1]))
    fn = I.rval(args[2])
    pyloop(I, n, lambda k: call_fn(I, fn, at(I, a, k)))
    return BP(a.blk, t.add(a.off, t.mul(n, C(t.ESIZE[a.ety]))), a.ety) if isinstance(a, BP) else advance(a, need(I, n))


def f_for_each(I, e, args):
    if len(args) == 3:
        a = I.rval(args[0])
        if isinstance(a, BP):
            fn = I.rval(args[2])
            pyloop(I, bycount(I, a, I.rval(args[1])), lambda k: call_fn(I, fn, at(I, a, k)))
            return fn
    locs, rest = rng_args(I, args)
    fn = I.rval(rest[0])
    for l in locs:
        call_fn(I, fn, l)
    return fn


def f_transform(I, e, args):
    a = I.rval(args[0])
    if isinstance(a, BP):
        n = bycount(I, a, I.rval(args[1]))
        b = I.rval(args[2]) if len(args) == 5 else None
        out, fn = I.rval(args[-2]), I.rval(args[-1])

        def step(k):
            v = val(I, call_fn(I, fn, at(I, a, k)) if b is None else call_fn(I, fn, at(I, a, k), at(I, b, k)))
            if isinstance(out, BP):
                I.store(at(I, out, k), conv(I, out, v))
            elif isinstance(out, Opq):
                put(I, out, 0, v)
            else:
                I.store(at(I, out, k), v)
        pyloop(I, n, step)
        if isinstance(out, BP):
            return BP(out.blk, t.add(out.off, t.mul(n, C(t.ESIZE[out.ety]))), out.ety)
        return out if isinstance(out, Opq) else advance(out, need(I, n))
    locs = seq(I, I.rval(args[0]), I.rval(args[1]))
    if len(args) == 4:
        out = I.rval(args[2])
        fn = I.rval(args[3])
        vals = [call_fn(I, fn, l) for l in locs]
    else:
        b = I.rval(args[2])
        out = I.rval(args[3])
        fn = I.rval(args[4])
        vals = [call_fn(I, fn, l, fromkth(I, b, k)) for k, l in enumerate(locs)]
    for k, v in enumerate(vals):
        if isinstance(v, (L, BL)):
            v = I.load(v)
        put(I, out, k, v)
    return advance(out, len(vals))


def pointee(I, a):
    """element type behind a void pointer argument, from the expression it was made of"""
    while a.get("k") in ("cast", "icast", "paren") and a.get("e"):
        ty = strip(I.ty(a["e"]["t"])) if "t" in a["e"] else ""
        if ty.endswith("*"):
            el = ETY.get(strip(ty[:-1].strip()).replace("const ", ""))
            if el and el != "u8":
                return el
        a = a["e"]
    return None


def f_memcpy(I, e, args):
    d, s, n = I.rval(args[0]), I.rval(args[1]), I.toint(I.rval(args[2]))

    def go(dd):
        def go2(ss):
            if isinstance(dd, P) and dd.cell is None or isinstance(ss, P) and ss.cell is None:
                z = I.decide(t.eq(n, ZERO))
                if z is not True:
                    I.event("nullderef", cond=t.ne(n, ZERO))
                if z is False:
                    raise Dead()
                return dd
            if isinstance(dd, BP) != isinstance(ss, BP):
                # one variable to or from the buffer
                ety = pointee(I, args[0] if isinstance(ss, BP) else args[1])
                if ety is None or need(I, n) != t.ESIZE[ety] or not isinstance(dd, (P, BP)) or not isinstance(ss, (P, BP)):
                    raise Unsupported("memcpy")
                if isinstance(dd, BP):
                    I.store(BL(dd.blk, dd.off, ety), conv(I, BP(dd.blk, dd.off, ety), I.load(L(ss.cell, ss.path))))
                else:
                    I.store(L(dd.cell, dd.path), I.load(BL(ss.blk, ss.off, ety)))
                return dd
            if not isinstance(dd, BP) or not isinstance(ss, BP):
                raise Unsupported("memcpy")
            blk_copy(I, ss, dd, n)
            return dd
        return I.lift(go2, s)
    return I.lift(go, d)


def f_memset(I, e, args):
    d, v, n = I.rval(args[0]), I.toint(I.rval(args[1])), I.toint(I.rval(args[2]))

    def go(dd):
        if isinstance(dd, P) and dd.cell is None:
            I.event("nullderef", cond=t.ne(n, ZERO))
            return dd
        if not isinstance(dd, BP):
            raise Unsupported("memset")
        b = I.S.heap.get(dd.blk)
        if not isinstance(b, Blk):
            I.event("badaccess", "st", dd.blk)
            return dd
        I.event("stn", dd.blk, "u8", dd.off, n)
        if dd.off is ZERO and n is b.size and v is ZERO:
            ly = ("zero", I.S.pc)
            keep = tuple(x for x in b.layers if not set(I.S.pc) <= set(x[1]))
            I.S.heap[dd.blk] = Blk(b.size, keep + (ly,), b.name)
        else:
            ly = ("set", I.S.pc, dd.off, v, n)
            I.S.heap[dd.blk] = Blk(b.size, b.layers + (ly,), b.name)
        return dd
    return I.lift(go, d)


def f_stoll(ty, lax=False):
    def f(I, e, args):
        v = I.rval(args[0])
        return I.lift(lambda x: parse_int(I, as_str(I, x), ty, lax), v)
    return f


def f_to_string(I, e, args):
    ty = strip(I.ty(args[0]["t"]))
    return I.lift(lambda v: render(I, v, ty), I.rval(args[0]))


def f_snprintf(I, e, args):
    for a in args:
        I.eval(a)
    return t.fresh("snprintf", 0, 1 << 16)


def f_addressof(I, e, args):
    return I.addr(I.eval(args[0]))


def f_distance(I, e, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    if isinstance(a, It):
        return t.sub(b.i, a.i)
    if isinstance(a, P):
        return t.sub(b.path[-1], a.path[-1])
    return t.div(t.sub(b.off, a.off), C(t.ESIZE[a.ety]))


def f_next(sign):
    def f(I, e, args):
        a = I.rval(args[0])
        d = I.unw(I.toint(I.rval(args[1]))) if len(args) > 1 else ONE
        return I.addto(a, d if sign > 0 else t.neg(d), "long")
    return f


def f_advance(I, e, args):
    loc = I.eval(args[0])
    I.store(loc, I.addto(I.load(loc), I.unw(I.toint(I.rval(args[1]))), "long"))


def f_isspace(I, e, args):
    x = I.toint(I.rval(args[0]))
    if x.op == "c":
        return C(1 if chr(x.a[0] & 255) in WS else 0)
    if x.op == "chr":
        return ZERO
    return t.fresh("isspace", 0, 1)


def f_isdigit(I, e, args):
    x = I.toint(I.rval(args[0]))
    if x.op == "c":
        return C(1 if chr(x.a[0] & 255).isdigit() else 0)
    if x.op == "chr" and x.a[1] > 0:
        return ONE
    if x.op == "chr":
        return t.b2i(t.le(ZERO, x.a[0]))
    return t.fresh("isdigit", 0, 1)


def f_abort(I, e, args):
    I.event("abort")
    raise Dead()


def f_getline(I, e, args):
    s = I.eval(args[0])
    out = I.eval(args[1])
    d = as_str(I, I.rval(args[2])).cells if len(args) > 2 else ("\n",)
    v = I.load(s)
    if not isinstance(v, St) or v.cls != "std::sstream":
        raise Unsupported("getline")
    rest = v.f["rest"]
    if rest.cells is None:
        raise Unsupported("getline on unknown text")
    if v.f["eof"].op == "T":
        I.store(s, St(v.cls, dict(v.f, ok=FALSE)))
        return s
    c = list(rest.cells)
    if d[0] in c:
        i = c.index(d[0])
        I.store(out, Str(c[:i]))
        I.store(s, St(v.cls, {"rest": Str(c[i + 1:]), "ok": TRUE, "eof": t.B(False)}))
    else:
        if not c:
            I.store(out, Str(()))
            I.store(s, St(v.cls, {"rest": Str(()), "ok": FALSE, "eof": TRUE}))
        else:
            I.store(out, Str(c))
            I.store(s, St(v.cls, {"rest": Str(()), "ok": TRUE, "eof": TRUE}))
    return s


def f_make_pair(I, e, args):
    return St("std::pair", {"first": I.rval(args[0]), "second": I.rval(args[1])})


def f_get(I, e, args):
    v = I.eval(args[0])
    ta = e.get("ta") or []
    idx = None
    for x in ta:
        if isinstance(x, dict) and "i" in x:
            idx = x["i"]
            break
    cur = I.load(v) if isinstance(v, L) else v
    if idx is None:
        raise Unsupported("get by type")
    if isinstance(cur, St):
        nm = list(cur.f)[idx]
        return L(v.cell, v.path + (nm,)) if isinstance(v, L) else cur.f[nm]
    return L(v.cell, v.path + (C(idx),)) if isinstance(v, L) else cur.items[idx]


def f_ptrcast(I, e, args):
    v = I.rval(args[0])
    q = e.get("q", "")
    if "dynamic" in q:
        to = strip(I.ty(e["ta"][0])) if e.get("ta") else targs(I.ty(e["t"]))[0]
        return I.lift(lambda x: I.dyncast(x, to + " *"), v)
    return v


def f_begin_end(which):
    def f(I, e, args):
        a = I.eval(args[0])
        v = I.load(a) if isinstance(a, L) else a
        l = loc_of(I, a)
        if isinstance(v, Vec):
            n = len(v.items)
        elif isinstance(v, Str) and v.cells is not None:
            n = len(v.cells)
        else:
            raise Unsupported("begin/end")
        if which == "size":
            return C(n)
        if which == "empty":
            return t.B(n == 0)
        if which == "rbegin":
            return It(l, ZERO, True)
        if which == "rend":
            return It(l, C(n), True)
        return It(l, ZERO if which == "begin" else C(n))
    return f


def f_extremum(which):
    def f(I, e, args):
        a = I.rval(args[0])
        locs = seq(I, a, I.rval(args[1]))
        cmpf = I.rval(args[2]) if len(args) > 2 else None
        if not locs:
            return a
        bi, bv = C(0), I.load(locs[0])
        for k in range(1, len(locs)):
            x = I.load(locs[k])
            if cmpf is not None:
                c = I.tobool(call_fn(I, cmpf, x, bv) if which == "min" else call_fn(I, cmpf, bv, x))
            else:
                c = I.compare("<", x, bv) if which == "min" else I.compare("<", bv, x)
            bi = t.ite(c, C(k), bi)
            bv = I.ite(c, x, bv)
        return It(a.loc, t.add(a.i, bi), a.rev)
    return f


def f_back_inserter(I, e, args):
    return Opq("back_inserter", loc_of(I, I.eval(args[0])))


def f_remove_if(which):
    def f(I, e, args):
        a = I.rval(args[0])
        locs = seq(I, a, I.rval(args[1]))
        x = I.rval(args[2])
        keep = []
        for l in locs:
            v = I.load(l)
            c = I.compare("==", v, x) if which == "remove" else I.tobool(call_fn(I, x, l))
            d = I.decide(c)
            if d is None:
                raise Unsupported("remove over undecided elements")
            if d is False:
                keep.append(v)
        for k, v in enumerate(keep):
            I.store(locs[k], v)
        return advance(a, len(keep))
    return f


def f_math(name):
    def f(I, e, args):
        vals = [I.rval(a) for a in args]
        ety = ETY.get(strip(I.ty(e["t"])), "f64")
        vs = [t.vcast(ety, x) if isinstance(x, T) else None for x in vals]
        if None in vs:
            return I.top("math on unknown")
        if len(vs) == 1:
            return t.vun(name, ety, vs[0])
        if name in ("fmax", "fmin"):
            return t.vop(name[1:], ety, vs[0], vs[1])
        if name == "fma":
            return t.vop("+", ety, t.vop("*", ety, vs[0], vs[1]), vs[2])
        return t.mk("vop", (ety, name, vs[0], vs[1]), "v")
    return f


def f_invoke(I, e, args):
    return I.apply(I.rval(args[0]), [I.eval(a) for a in args[1:]])


FUNS = {
    "minmax": f_minmax2, "partial_sum": f_scan(False), "inclusive_scan": f_scan(False),
    "exclusive_scan": f_scan(True), "transform_reduce": f_transform_reduce, "is_sorted": f_is_sorted,
    "rotate": f_rotate, "swap_ranges": f_swap_ranges, "reverse_copy": f_reverse_copy, "copy_if": f_copy_if,
    "copy_backward": f_copy_backward, "make_tuple": f_make_tuple, "tie": f_tie,
    "min": f_minmax("min"), "max": f_minmax("max"), "clamp": f_clamp, "swap": f_swap, "exchange": f_exchange,
    "abs": f_abs, "labs": f_abs, "llabs": f_abs, "fabs": f_abs, "sort": f_sort, "stable_sort": f_sort,
    "all_of": f_quant("all_of"), "any_of": f_quant("any_of"), "none_of": f_quant("none_of"),
    "accumulate": f_accumulate, "reduce": f_accumulate, "inner_product": f_inner, "copy": f_copy,
    "move_range": f_copy, "copy_n": f_copy_n, "fill": f_fill, "fill_n": f_fill_n, "iota": f_iota,
    "reverse": f_reverse, "equal": f_equal, "find": f_find("find"), "find_if": f_find("find_if"),
    "find_if_not": f_find("find_if_not"), "count": f_count("count"), "count_if": f_count("count_if"),
    "for_each": f_for_each, "for_each_n": f_for_each_n, "generate": f_generate, "generate_n": f_generate_n, "transform": f_transform, "memcpy": f_memcpy, "memmove": f_memcpy,
    "memset": f_memset, "stoll": f_stoll("long long"), "stol": f_stoll("long"), "stoi": f_stoll("int"),
    "stoull": f_stoll("unsigned long long"), "stoul": f_stoll("unsigned long"),
    "atoi": f_stoll("int", True), "atoll": f_stoll("long long", True), "atol": f_stoll("long", True), "strtoll": f_stoll("long long", True), "strtol": f_stoll("long", True),
    "to_string": f_to_string, "snprintf": f_snprintf, "printf": f_snprintf, "fprintf": f_snprintf,
    "addressof": f_addressof, "__addressof": f_addressof, "distance": f_distance, "next": f_next(1),
    "prev": f_next(-1), "advance": f_advance, "isspace": f_isspace, "isdigit": f_isdigit,
    "abort": f_abort, "terminate": f_abort, "exit": f_abort, "getline": f_getline,
    "make_pair": f_make_pair, "get": f_get, "dynamic_pointer_cast": f_ptrcast,
    "static_pointer_cast": f_ptrcast, "const_pointer_cast": f_ptrcast, "begin": f_begin_end("begin"),
    "end": f_begin_end("end"), "cbegin": f_begin_end("begin"), "cend": f_begin_end("end"),
    "rbegin": f_begin_end("rbegin"), "rend": f_begin_end("rend"), "size": f_begin_end("size"), "ssize": f_begin_end("size"),
    "empty": f_begin_end("empty"), "max_element": f_extremum("max"), "min_element": f_extremum("min"),
    "back_inserter": f_back_inserter, "remove_if": f_remove_if("remove_if"), "remove": f_remove_if("remove"),
    "iter_swap": f_iter_swap, "fma": f_math("fma"), "sqrt": f_math("sqrt"), "pow": f_math("pow"),
    "exp": f_math("exp"), "log": f_math("log"), "fmax": f_math("fmax"), "fmin": f_math("fmin"),
    "floor": f_math("floor"), "ceil": f_math("ceil"), "trunc": f_math("trunc"), "round": f_math("round"),
    "invoke": f_invoke, "make_optional": lambda I, e, a: Vec((I.rval(a[0]),)),
    "__is_constant_evaluated": lambda I, e, a: FALSE, "is_constant_evaluated": lambda I, e, a: FALSE,
    "endl": lambda I, e, a: None, "flush": lambda I, e, a: None,
    "isnan": lambda I, e, a: (lambda v: t.vcmp("!=", v, v))(I.rval(a[0])),
}


def empty_deleter(I, a):
    """a deleter that does nothing: the pointer owns nothing"""
    f = I.rval(a)
    if not isinstance(f, Lam):
        return False
    b = f.node.get("body") or {}
    return not any(isinstance(x, dict) and x.get("k") not in ("null", "compound", None) for x in (b.get("body") or b.get("s") or []))


# ---------------------------------------------------------------- constructors
def ctor(I, e, ty):
    args = e.get("args", [])
    ty = strip(ty)
    if ty.startswith("const "):
        ty = ty[6:]
    m = re.match(r"std::(?:__cxx11::)?(\w+)", ty)
    k = m.group(1) if m else ""
    if k in ("shared_ptr", "unique_ptr", "weak_ptr"):
        if not args:
            return NULL
        src = I.eval(args[-1] if len(args) == 2 and strip(I.ty(args[0]["t"])).startswith("std::shared_ptr")
                     and strip(I.ty(args[1]["t"])).endswith("*") else args[0])
        isl = isinstance(src, L) or isinstance(src, Alt) and I.is_lalt(src)
        v = I.load(src) if isl else src
        if k == "shared_ptr" and len(args) == 2 and isinstance(v, P) and v.cell is not None:
            if src is not None and strip(I.ty(args[0]["t"])).startswith("std::shared_ptr"):
                # aliasing constructor: keeps alive what its first argument owns
                o = I.rval(args[0])
                if isinstance(o, P) and (o.cell != v.cell or isinstance(o, NP)):
                    return NP(v.cell, v.path, o.owner if isinstance(o, NP) else o.cell)
                return P(v.cell, v.path)
            if strip(I.ty(args[0]["t"])).endswith("*") and empty_deleter(I, args[1]):
                return NP(v.cell, v.path)
        pt = I.ty(e["pt"][0]) if e.get("pt") else ""
        if isinstance(src, L) and pt.endswith("&&") and pt.startswith(SMART):
            I.store(src, NULL)
        if len(args) == 1 and strip(I.ty(args[0]["t"])).endswith("*"):
            adopt(I, v)
        return v
    if k in ("vector", "deque", "queue", "stack", "list", "initializer_list", "set", "unordered_set",
             "map", "unordered_map", "array", "priority_queue", "valarray", "forward_list"):
        return ctor_vec(I, e, ty, k, args)
    if k in ("basic_string", "basic_string_view"):
        return ctor_str(I, e, ty, args)
    if I.prog.vecbase(ty):
        # implicitly defined copy / move of a vector class
        if not args:
            return Vec(())
        src = I.eval(args[0])
        v = I.load(src) if isinstance(src, L) or isinstance(src, Alt) else src
        if e.get("move") and isinstance(src, L) and isinstance(v, Vec):
            I.store(src, Vec(()))
        return v
    if k == "normal_distribution" or k.endswith("_distribution"):
        xs = [I.rval(a) for a in args]
        ety = ETY.get(strip((targs(ty) or ["double"])[0]), "f64")
        if e.get("copy") or e.get("move"):
            return xs[0]
        if k != "normal_distribution":
            return Opq("ndist", (ety, 0.0, "other"))
        ps = [0.0, 1.0]
        for i, x in enumerate(xs[:2]):
            while isinstance(x, T) and x.op in ("i2v", "vcast", "v2v"):
                x = x.a[-1]
            ps[i] = float(x.a[-1]) if isinstance(x, T) and x.op in ("c", "vc") else None
        return Opq("ndist", (ety, ps[0], None if None in ps else ps[1]))
    if k == "function":
        return I.rval(args[0]) if args else NULL
    if k in ("pair", "tuple"):
        if len(args) == 1 and (e.get("copy") or e.get("move")):
            return I.rval(args[0])
        names = ["first", "second"] if k == "pair" else ["e%d" % i for i in range(len(args))]
        if len(args) == 1:
            return I.rval(args[0])
        if not args:
            a = targs(ty)
            return St("std::pair", {n: zero_any(I, strip(x)) for n, x in zip(names, a)})
        return St("std::" + k, {n: I.rval(a) for n, a in zip(names, args)})
    if k == "span":
        return ctor_span(I, e, args)
    if k == "optional":
        if not args:
            return Vec(())
        v = I.rval(args[0])
        if isinstance(v, Vec) and (e.get("copy") or e.get("move")):
            return v
        if isinstance(v, Opq):
            return Vec(())
        return Vec((v,))
    if k in ("basic_stringstream", "basic_istringstream", "basic_ostringstream"):
        if args and strip(I.ty(args[0]["t"])).startswith("std::basic_string"):
            s = as_str(I, I.rval(args[0]))
            return St("std::sstream", {"rest": s, "ok": TRUE, "eof": FALSE})
        for a in args:
            I.eval(a)
        return St("std::sstream", {"rest": Str(()), "ok": TRUE, "eof": FALSE})
    if k.endswith("_error") or k.endswith("_argument") or k in ("exception", "out_of_range"):
        for a in args:
            I.eval(a)
        return Opq("exc", ty)
    if k in ("plus", "multiplies", "minus", "less", "greater", "equal_to", "not_equal_to", "logical_and",
             "logical_or", "divides", "less_equal", "greater_equal", "hash", "allocator", "greater", "mt19937"):
        return functor(I, ty) or Opq(k)
    if k.endswith("_engine") or k == "random_device":
        xs = [I.eval(a) for a in args]
        if (e.get("copy") or e.get("move")) and xs:
            return I.load(xs[0]) if isinstance(xs[0], L) else xs[0]
        return Opq("rng", (seed_of(I, xs), 0)) if k != "random_device" else Opq("rng")
    if len(args) == 1 and (e.get("copy") or e.get("move") or "_iterator<" in ty):
        return I.rval(args[0])
    if ty in I.prog.classes:
        if not args:
            return St(ty, {})
        if len(args) == 1:
            return I.rval(args[0])
    if m:
        for a in args:
            I.eval(a)
        return Opq("lib", ty)
    if not args:
        return St(ty, {})
    raise Unsupported("constructor of " + ty)


def ctor_vec(I, e, ty, k, args):
    args = [a for a in args if not (a.get("k") in ("defarg", "ctor", "temp") and "allocator" in I.ty(a["t"]))
            and "std::less" not in I.ty(a["t"]) and "std::hash" not in I.ty(a["t"])
            and "std::equal_to" not in I.ty(a["t"])]
    args = [a for a in args if not (a.get("k") == "defarg" and k in ("unordered_set", "unordered_map"))]
    ta = targs(ty)
    el = strip(ta[0]) if ta else ""
    if not args:
        if k == "array" and len(ta) > 1:
            return Vec([UNDEF] * int(re.sub(r"\D", "", ta[1])))
        return Vec(())
    if len(args) == 1:
        src = I.eval(args[0])
        v = I.load(src) if isinstance(src, L) or isinstance(src, Alt) and I.is_lalt(src) else src
        if isinstance(v, T):
            n = need(I, v)
            if n > 4096:
                raise Unsupported("container of %d elements" % n)
            return Vec([I.default_elem(el)] * n)
        if e.get("move") and isinstance(src, L) and isinstance(v, Vec):
            I.store(src, Vec(()))
        if isinstance(v, (Vec, Top, Alt)):
            return v
        if isinstance(v, St) or isinstance(v, P):
            return Vec((v,))
        raise Unsupported("container constructor from %r" % (v,))
    a, b = I.rval(args[0]), I.rval(args[1])
    if isinstance(a, Vec):
        return a
    if isinstance(a, (It, P)) and isinstance(b, (It, P)):
        return Vec([I.load(x) for x in seq(I, a, b)])
    n = need(I, a)
    if n > 4096:
        raise Unsupported("container of %d elements" % n)
    return Vec((b,) * n)


def ctor_str(I, e, ty, args):
    args = [a for a in args if not ("allocator" in I.ty(a["t"]) and "basic_string" not in I.ty(a["t"]))]
    if not args:
        return Str(())
    return str_vals(I, [I.rval(a) for a in args])


def str_vals(I, vals):
    """the string std::string's constructors build from these arguments"""
    if not vals:
        return Str(())
    if len(vals) == 1:
        return as_str(I, vals[0]) if isinstance(vals[0], Alt) and known(vals[0]) else I.lift(lambda v: as_str(I, v), vals[0])
    a, b = vals[0], vals[1]
    if isinstance(a, It) and isinstance(b, It):
        v = I.load(a.loc)
        i, j = need(I, a.i), need(I, b.i)
        if isinstance(v, Str) and v.cells is not None and not a.rev:
            return Str(v.cells[i:j])
        return Str(None)
    if isinstance(a, Str) and isinstance(b, T):
        if a.cells is None:
            return a
        pos = need(I, b) & ((1 << 64) - 1)
        n = need(I, vals[2]) & ((1 << 64) - 1) if len(vals) > 2 and isinstance(vals[2], T) else 1 << 62
        if pos > len(a.cells):
            throw(I, "std::out_of_range")
        return Str(a.cells[pos:pos + min(n, len(a.cells))])
    if isinstance(a, P) and isinstance(b, T) and conc(b) is not None:
        s = as_str(I, a)
        return Str(s.cells[:conc(b)]) if s.cells is not None else s
    if isinstance(a, T) and isinstance(b, T) and conc(a) is not None and conc(b) is not None:
        return Str((chr(conc(b) & 255),) * conc(a))
    return Str(None)
