"""usage: main.py <property> [--replay FILE]
Decides one property on /repo's current source.  VERIF_TIER, VERIF_SEED."""
import json
import multiprocessing as mp
import itertools
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import facts  # noqa: E402
import cases  # noqa: E402
import checks  # noqa: E402
import lits  # noqa: E402
import structural  # noqa: E402

TRUST = ["clang's parse and type information for /repo's sources with the flags of its build",
         "the models of the standard library containers, smart pointers and algorithms in engine/stdmodel.py",
         "the reference semantics in engine/model.py and engine/ref.py",
         "object lifetime ends are not modelled, and allocation does not fail"]


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def decode(c):
    """case from JSON"""
    st = []
    for s in c[0]:
        s = list(s)
        if s[0] == "in":
            s[3] = list(s[3])
            s[4] = tup(s[4])
        elif s[0] == "weight":
            s[4] = tup(s[4])
        elif s[0] == "op":
            s[4] = tup(s[4]) if isinstance(s[4], list) else s[4]
        elif s[0] in ("init", "assigninit"):
            s[3] = tup(s[3])
        elif s[0] == "assignop":
            s[4] = tup(s[4]) if isinstance(s[4], list) else s[4]
        st.append(tuple(s))
    return (st, list(c[1]), dict(c[2]))


def known():
    out = set()
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                f = l[len("finding:"):].strip().split(" | ")
                out.add((f[0].strip().split("=")[1], f[1].strip(), f[2].strip()))
    return out


def subject(v):
    """the part of a message that names what is wrong, without the numbers"""
    m = v["message"]
    return v["rule"] + ": " + m.split(" at [")[0].split(" is ")[0]


def fresh(pid, v, memo=[]):
    """is this violation not a recorded finding?"""
    if not memo:
        memo.append(known())
    return (pid, cases.text(v["case"][0]) if v.get("case") else v.get("where", ""), subject(v)) not in memo[0]


def work(c):
    return cases.run(c)


def work2(c):
    return cases.run(c, True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases.SEED = seed
    t0 = time.time()
    prog, key = facts.load()
    cases.PROG = prog
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        if "case" not in d:
            rs = structural.run(pid, prog)
            for v in rs["viol"]:
                print(v["message"], v["sites"])
            return 1 if rs["viol"] else 0
        r = cases.run(decode(d["case"]))
        if not r.viol:
            r = cases.run(decode(d["case"]), True)
        for v in r.viol:
            print(v["rule"], "|", v["message"], "|", v["valuation"], "|", v["sites"])
        print("decided", r.obs, "undecided", r.und)
        return 1 if r.viol else 0
    th = tier == "thorough"
    todo = []
    seen = set()
    if pid in checks.CHECKS:
        checks.SEED = seed
        for c in itertools.chain(checks.CHECKS[pid](th), checks.shared(pid, th)):
            k = json.dumps([c[0], c[1], c[2]], sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
                todo.append(c)
    rs = []
    if todo:
        limit = float(os.environ.get("VERIF_LIMIT", "560" if not th else "5400"))
        n = min(8, os.cpu_count() or 4)
        with mp.get_context("fork").Pool(n, maxtasksperchild=250) as pool:
            it = pool.imap_unordered(work, todo, chunksize=1)
            for _ in range(len(todo)):
                left = limit - (time.time() - t0)
                try:
                    rs.append(it.next(timeout=max(1.0, left)))
                except mp.TimeoutError:
                    break
            pool.terminate()
    # a second pass over instances around the numbers written in the source
    nums = lits.numbers(prog, set().union(*[r.funcs for r in rs]) if rs else set())
    ndir = 0
    cases.ALLFUNCS = set().union(*[r.funcs for r in rs]) if rs else set()
    if any(nums) and todo and not any(fresh(pid, v) for r in rs for v in r.viol):
        own = len(list(checks.CHECKS[pid](th)))
        g = random.Random(seed)
        a, b = todo[:own], todo[own:]
        g.shuffle(a)
        g.shuffle(b)
        t1 = time.time()
        span = min(200.0 if not th else 1800.0, limit - (t1 - t0) - 20)
        with mp.get_context("fork").Pool(n, maxtasksperchild=40) as pool:
            it = pool.imap_unordered(work2, a + b, chunksize=1)
            bad = 0
            for _ in range(len(todo)):
                try:
                    r = it.next(timeout=max(1.0, span - (time.time() - t1)))
                except mp.TimeoutError:
                    break
                rs.append(r)
                ndir += 1
                bad += any(fresh(pid, v) for v in r.viol)
                if bad >= 5 or time.time() - t1 > span:
                    break
            pool.terminate()
    st = structural.run(pid, prog)
    obs, und, viol, funcs, anchors, errs = {}, {}, [], set(), set(), []
    vals = pins = loops = progs = 0
    samples = []
    for i, r in enumerate(rs):
        for k, x in r.obs.items():
            obs[k] = obs.get(k, 0) + x
        for k, x in r.und.items():
            und[k] = und.get(k, 0) + x
        viol += r.viol
        funcs |= r.funcs
        vals += r.vals
        pins += r.npin
        loops += r.loops
        progs += 1 if r.obs and i < len(rs) - ndir else 0
        if r.anchor:
            anchors.add(r.anchor)
        if r.err:
            errs.append(r.err)
        if r.sample and r.obs and len(samples) < 5:
            samples.append(dict(r.sample, decided=r.obs))
    for k, x in st["obs"].items():
        obs[k] = obs.get(k, 0) + x
    for k, x in st["und"].items():
        und[k] = und.get(k, 0) + x
    viol += st["viol"]
    samples += st["samples"]
    anchors |= set(st["anchors"])
    kn = known()
    new, old = [], {}
    for v in viol:
        k = (pid, cases.text(v["case"][0]) if v.get("case") else v.get("where", ""), subject(v))
        if k in kn:
            old[k] = v
        else:
            new.append(v)
    total = sum(obs.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": "Abstract interpretation of /repo's source (clang AST, no code of the library is compiled or executed): "
                           "each API session is summarised once with symbolic extents, strides, offsets, integer arguments and elements; "
                           "the summary is then compared with the reference semantics, rule by rule, at the listed number of instances of the symbols. "
                           "Undecided obligations are counted, not assumed.",
            "sessions_enumerated": len(todo), "sessions_analysed": len(rs) - ndir,
            "numbers_in_source": list(nums[0]) + list(nums[1]), "sessions_with_instances_around_them": ndir, "sessions_decided": progs,
            "summary_instances": vals, "constant_refinements": pins, "loop_summaries": loops,
            "functions_analysed": len(funcs) + len(st["funcs"]),
            "function_names": sorted(x if isinstance(x, str) else str(x) for x in (funcs | set(st["funcs"])))[:400],
            "obligations_decided": total, "obligations_by_rule": obs,
            "undecided": und, "internal_errors": errs[:5],
            "samples": samples[:8],
        },
        "assumptions": TRUST,
        "violations": [{"rule": v["rule"], "message": v["message"], "sites": v["sites"],
                        "program": cases.text(v["case"][0]) if v.get("case") else v.get("where", ""),
                        "valuation": v.get("valuation")} for v in new[:50]],
        "known_findings": [" | ".join(k) for k in sorted(old)],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s | %s" % k)
    if new:
        v = new[0]
        rp = os.path.join(EVID, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "rule": v["rule"], "message": v["message"], "sites": v["sites"],
                       "valuation": v.get("valuation"),
                       **({"case": v["case"]} if v.get("case") else {"where": v.get("where")})}, f, indent=1, default=str)
        for v in new[:5]:
            print("%s: %s | %s | %s | %s" % (v["rule"], v["message"],
                                             cases.text(v["case"][0]) if v.get("case") else v.get("where", ""),
                                             v.get("valuation"), ", ".join(v["sites"])))
        print("%d violated obligations of %d decided" % (len(new), total))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, ROOT)))
        return 1
    print("%s: %d obligations decided in %d sessions (%d instances, %d functions), %d undecided, %.1fs" % (
        pid, total, progs, vals, len(funcs), sum(und.values()), time.time() - t0))
    if anchors:
        print("anchors not found: " + "; ".join(sorted(anchors)[:6]))
    if errs:
        print("internal: " + errs[0])
    if total == 0:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
