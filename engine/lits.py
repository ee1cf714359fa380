"""Numbers written in the analysed source.  A comparison with a number splits the
inputs at that number; instances on both sides of it are added to the grid, so
that a branch which only large extents (or special values) take is judged too."""
import random

MEMO = {}
RADIX = {10}      # the base handed to strtol and friends


def walk(x, out):
    if isinstance(x, dict):
        k = x.get("k")
        if k == "int" and not x.get("ch") or k == "flt":
            if isinstance(x.get("v"), (int, float)):
                out.add(x["v"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                walk(v, out)


def of(prog, fid):
    r = MEMO.get(fid)
    if r is None:
        r = set()
        f = prog.funcs.get(fid)
        if f is not None:
            walk(f[0].get("b"), r)
        MEMO[fid] = r = frozenset(r)
    return r


def scalars(prog):
    """constants with a name"""
    r = MEMO.get("globals")
    if r is None:
        r = set()
        for q, (v, tu) in prog.globs.items():
            x = v.get("val")
            if isinstance(x, dict) and isinstance(x.get("i"), int) and "INNC::types" not in str(tu.types[v["t"]]) and q != "INNC::float_type_idx_start_":
                r.add(x["i"])
        MEMO["globals"] = r = frozenset(r)
    return r


def numbers(prog, fids):
    """(integers from 4 up, other numbers) in the functions analysed"""
    s = set(scalars(prog))
    for f in fids:
        s |= of(prog, f)
    ints = sorted(x for x in s if isinstance(x, int) and 4 <= x <= 70000 and x not in RADIX)
    flt = sorted(x for x in s if x not in (0, 1, 2, 3, -1, 10) and abs(x) < 1e300)
    return ints[:8], flt[:12]


def grids(ints, names, grid, key, few=False):
    """assignments of extents around the numbers, from the session's own grid:
    equal extents stay equal"""
    out = []
    g = random.Random("lits|%s" % (key,))
    base = [e for e in grid or () if e] or [dict.fromkeys(names, 2), dict(zip(names, [2, 3, 1, 2, 3, 1]))]
    g.shuffle(base)
    ints = list(ints)
    g.shuffle(ints)
    for new in ("k+1", "k", "root", "k-1", "2k+1"):
        for k in ints:
            most = 3 * k + 40 if k < 2000 else k + 2
            for e in base[:1 if few else 2]:
                z = {"k+1": k + 1, "k": k, "k-1": k - 1, "2k+1": 2 * k + 1, "root": int(k ** 0.5) + 2}[new]
                vs = sorted({v for n, v in e.items() if isinstance(v, int) and 2 <= v and n in names}) or [1]
                old = g.choice(vs)
                for rest in (None, 1):
                    d = {n: (z if v == old or new == "root" and v in vs else v if rest is None or n not in names or not isinstance(v, int) else min(v, 1)) for n, v in e.items()}
                    p = 1
                    for n in names:
                        p *= max(1, d.get(n, 1))
                    if p <= most:
                        if d not in out:
                            out.append(d)
                        break
    return out
