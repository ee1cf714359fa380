"""Plant bugs: python3 seed.py SPEC.py [ids...]
SPEC defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}.
Builds each in /tmp/wt (a configured copy of /repo), runs its tests and the demo,
and stores a confirmed one in /verif/seeded/<id>."""
import importlib.util, json, os, pathlib, subprocess, sys
WT = "/tmp/wt"
OUT = pathlib.Path("/verif/seeded")
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after its build.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -include algorithm -fsanitize=address -D_GLIBCXX_ASSERTIONS -Iinclude "$here/demo.cpp" -L_build -lINNC -Wl,-rpath,"$PWD/_build" -o "$tmp/demo"
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$tmp/demo"
'''
HEAD = '''#include <INNC/INNC.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <stdexcept>
using namespace INNC;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\\n", #c); std::exit(1); } } while (0)
template <class F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static double val(Tensor t) { return std::stod(t.to_string()); }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    sh(f"git -C {WT} checkout -- . && ninja -C {WT}/_build")
    good = []
    for i in ids:
        b = m.BUGS[i]
        d = pathlib.Path("/tmp/seedtmp") / i
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.cpp").write_text(HEAD + b["demo"])
        (d / "demo.sh").write_text(DEMO_SH)
        r0 = sh(f"bash {d}/demo.sh", cwd=WT)
        if r0.returncode:
            print(i, "DEMO FAILS ON CLEAN", (r0.stderr or "")[-400:])
            continue
        try:
            for f, old, new in b["edits"]:
                p = pathlib.Path(WT) / f
                s = p.read_text()
                n = s.count(old)
                assert n == 1 or (n and b.get("first")), f"{i}: {f}: {n} matches"
                p.write_text(s.replace(old, new, 1))
            r = sh(f"ninja -C {WT}/_build")
            if r.returncode:
                print(i, "BUILD FAILS", r.stdout[-600:])
                continue
            t = sh(f"ctest --test-dir {WT}/_build -j8 2>&1 | grep -A9 'tests passed\\|tests failed'")
            if "100% tests passed" not in t.stdout:
                print(i, "TESTS FAIL", t.stdout[:300])
                continue
            r1 = sh(f"bash {d}/demo.sh", cwd=WT)
            if r1.returncode == 0:
                print(i, "DEMO PASSES WITH BUG")
                continue
            o = OUT / i
            o.mkdir(parents=True, exist_ok=True)
            (o / "patch.diff").write_text(sh(f"git -C {WT} diff").stdout)
            (o / "demo.cpp").write_text(HEAD + b["demo"])
            (o / "demo.sh").write_text(DEMO_SH)
            (o / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            print(i, "ok:", (r1.stderr.strip().splitlines() or ["?"])[0][:150])
            good.append(i)
        except AssertionError as e:
            print(e)
        finally:
            sh(f"git -C {WT} checkout -- .")
    sh(f"ninja -C {WT}/_build")
    print(len(good), "of", len(ids))


main()
