"""Analysis contexts: symbolic tensors handed to the public entry points."""
import terms as t
from terms import C, ZERO, ONE, TRUE, FALSE
import interp as I
from interp import P, L, BP, Vec, St, Blk, Alt, NULL, State, Interp

DT = ["i8", "i16", "i32", "i64", "f32", "f64"]
FLT = ("f32", "f64")


class Anchor(Exception):
    """a construct the analysis is anchored in is gone"""


class Tin:
    """a symbolic input tensor"""
    __slots__ = ("name", "dtype", "rank", "sizes", "strides", "offset", "blk", "impl", "view",
                 "store", "tensor", "bytes", "contig", "grad", "req")


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.I = Interp(prog)
        self.inputs = []
        dts = prog.enums.get("INNC::types")
        self.dt = dict((a, b) for a, b in dts) if dts else None
        if self.dt is None:
            self.dt = {n: i for i, n in enumerate(DT)}

    def put(self, cell, v):
        self.I.S.heap[cell] = v
        return cell

    def obj(self, cell, cls, fields, ptypes=(), args=()):
        """an object with the given members; any further members are what its own
        constructor makes of the arguments"""
        extra = [(n, ty, rec) for n, ty, rec in self.I.allfields(cls) if n not in fields]
        if not extra:
            return self.put(cell, St(cls, fields))
        got = {}
        q = cls + "::" + cls.split("::")[-1]
        S = self.I.S
        for k in self.prog.find(q, len(args)):
            f, tu = self.prog.funcs[k]
            if all(w in tu.types[p["t"]] for w, p in zip(ptypes, f["p"])):
                heap = dict(S.heap)
                try:
                    self.put(cell, St(cls, {}))
                    self.I.ctor_on(k, list(args), L(cell))
                    got = dict(self.I.S.heap[cell].f)
                except (I.Unsupported, I.Dead, KeyError, AttributeError):
                    self.I.S = S
                    S.heap.clear()
                    S.heap.update(heap)
                    got = {}
                break
        for n, ty, rec in extra:
            if n not in got:
                got[n] = self.I.zero_of(I.strip(ty)) if not self.prog.vecbase(I.strip(ty)) else Vec(())
        got.update(fields)
        return self.put(cell, St(cls, got))

    def buffer(self, name, nbytes, dtype):
        k = "B:" + name
        self.put(k, Blk(nbytes, (("in", name, dtype),), name))
        return k

    def tensor(self, name, dtype, rank, req=False, contig=False, sizes=None, share=None, alloc=True,
               gradst=None, retain=False):
        """symbolic tensor; strides/offset symbolic unless contig"""
        x = Tin()
        x.name, x.dtype, x.rank, x.contig, x.req = name, dtype, rank, contig, req
        x.sizes = sizes or [t.sym("%s.n%d" % (name, i), 0, 1 << 20) for i in range(rank)]
        if contig:
            st = []
            acc = ONE
            for s in reversed(x.sizes):
                st.append(acc)
                acc = t.mul(acc, s)
            x.strides = list(reversed(st))
            x.offset = ZERO
        else:
            x.strides = [t.sym("%s.s%d" % (name, i), -(1 << 40), 1 << 40) for i in range(rank)]
            x.offset = t.sym(name + ".off", 0, 1 << 40)
        if share:
            x.store, x.blk, x.bytes = share.store, share.blk, share.bytes
        else:
            x.bytes = t.sym(name + ".bytes", 0, 1 << 50)
            x.blk = self.buffer(name, x.bytes, dtype)
            x.store = self.obj("D:" + name, "UntypedStorage", {
                "size": x.bytes, "blob": BP(x.blk, ZERO, "u8") if alloc else NULL}, ("", ""), (x.bytes, FALSE))
        x.view = self.obj("V:" + name, "INNC::StridedLayout", {
            "sizes": Vec(x.sizes), "strides": Vec(x.strides), "offset": x.offset}, ("SizeVec", "SignedVec", ""),
            (Vec(x.sizes), Vec(x.strides), x.offset))
        x.impl = "I:" + name
        fl = {"data_": P(x.store), "grad": NULL, "view": P(x.view), "dtype": C(self.dt[dtype]),
              "dlayout": ZERO, "requires_grad": t.B(req), "retain_grad": t.B(retain), "grad_fn": NULL}
        if any(n == "_version" for n, _, _ in self.I.allfields("INNC::TensorImpl")):
            fl["_version"] = ZERO
        self.obj(x.impl, "INNC::TensorImpl", fl, ("types", "layouts", "Layout", "UntypedStorage", "Private"),
                 (C(self.dt[dtype]), ZERO, P(x.view), P(x.store), St("INNC::TensorImpl::Private", {})))
        x.tensor = self.put("T:" + name, St("INNC::Tensor", {"fptr": P(x.impl)}))
        self.inputs.append(x)
        return x

    def fn(self, q, *ptypes, n=None):
        r = self.prog.find(q, n, list(ptypes) if ptypes or n is None else None)
        if len(r) != 1:
            raise Anchor("%s%r: %d definitions" % (q, ptypes, len(r)))
        return r[0]

    def call(self, q, ptypes, args, this=None):
        f = self.fn(q, *ptypes)
        return self.I.call(f, args, this=P(this) if this else None)

    def tensor_arg(self, x):
        return L(x.tensor)
