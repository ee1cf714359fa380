"""Extraction of the resolved program of /repo (astx) and loading of the facts."""
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    pass


def build_astx():
    src = os.path.join(VERIF, "tools", "astx.cpp")
    out = os.path.join(BUILD, "astx")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    flags = subprocess.check_output(["llvm-config", "--cxxflags"], text=True).split()
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++"] + flags + ["-fno-rtti", "-O0", src, "-o", tmp,
                                 "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build astx: " + r.stderr[-2000:])
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out


def sources():
    """translation units, taken from the repository's own build file"""
    txt = open(os.path.join(REPO, "meson.build")).read()
    l = sorted(set(re.findall(r"src/[\w/]+\.cpp", txt)))
    l = [x for x in l if os.path.exists(os.path.join(REPO, x))]
    have = set(l)
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if p not in have:
                    have.add(p)
                    l.append(p)
    return l


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "meson.build")]
    for top in ("src", "include"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "tools", "astx.cpp"), "rb").read())
    for f in sorted(os.listdir(os.path.join(HERE, "drivers"))):
        h.update(open(os.path.join(HERE, "drivers", f), "rb").read())
    return h.hexdigest()


def extract():
    """run astx over every translation unit of the current working tree"""
    astx = build_astx()
    key = tree_hash()[:24]
    out = os.path.join(BUILD, "facts-" + key)
    done = os.path.join(out, "DONE")
    if os.path.exists(done):
        os.utime(out)
        return out, key
    import shutil
    old = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-")]
    old.sort(key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
    for f in old[:-8]:
        shutil.rmtree(f, ignore_errors=True)
    final = out
    out = final + ".%d" % os.getpid()
    done = os.path.join(out, "DONE")
    os.makedirs(out, exist_ok=True)
    rd = subprocess.check_output(["clang", "-print-resource-dir"], text=True).strip()
    procs = []
    units = [(s, os.path.join(REPO, s)) for s in sources()]
    dd = os.path.join(HERE, "drivers")
    units += [("drv_" + f, os.path.join(dd, f)) for f in sorted(os.listdir(dd)) if f.endswith(".cpp")]
    for name, path in units:
        tag = re.sub(r"\W", "_", name)
        o = os.path.join(out, tag + ".json")
        p = subprocess.Popen([astx, REPO, tag, o, path, "--", "-std=c++20", "-I" + os.path.join(REPO, "include"),
                              "-include", "algorithm", "-resource-dir", rd, "-w"],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs.append((name, o, p))
    for name, o, p in procs:
        so, se = p.communicate()
        if p.returncode or not os.path.exists(o):
            raise AnalysisError("cannot parse %s: %s" % (name, se[-1500:]))
    open(done, "w").write(key)
    try:
        os.rename(out, final)
    except OSError:
        if not os.path.exists(os.path.join(final, "DONE")):
            raise
        shutil.rmtree(out, ignore_errors=True)
    return final, key


class TU:
    def __init__(self, name, d):
        self.name = name
        self.types = d["types"]
        self.vars = d["vars"]


INTEGRAL = ("unsigned long", "long", "unsigned long long", "long long", "int", "unsigned int")
ROLES = {
    "UntypedStorage": {"size": lambda n, ty: ty in INTEGRAL,
                       "blob": lambda n, ty: ty.startswith(("std::unique_ptr<unsigned char[]", "std::shared_ptr<unsigned char[]"))},
    "INNC::Layout": {"sizes": lambda n, ty: ty == "INNC::SizeVec"},
    "INNC::StridedLayout": {"strides": lambda n, ty: ty == "INNC::SignedVec", "offset": lambda n, ty: ty in INTEGRAL},
    "INNC::TensorImpl": {"data_": lambda n, ty: ty.startswith("std::shared_ptr<UntypedStorage"),
                         "grad": lambda n, ty: ty.startswith("std::shared_ptr<INNC::TensorImpl"),
                         "view": lambda n, ty: ty.startswith(("std::shared_ptr<INNC::Layout", "std::shared_ptr<INNC::StridedLayout")),
                         "dtype": lambda n, ty: ty == "INNC::types", "dlayout": lambda n, ty: ty == "INNC::layouts",
                         "requires_grad": lambda n, ty: ty == "bool" and "req" in n,
                         "retain_grad": lambda n, ty: ty == "bool" and "ret" in n,
                         "grad_fn": lambda n, ty: ty.startswith(("std::unique_ptr<INNC::Backward", "std::shared_ptr<INNC::Backward"))},
    "INNC::Tensor": {"fptr": lambda n, ty: ty.startswith("std::shared_ptr<INNC::TensorImpl")},
}


class Prog:
    def __init__(self, d):
        self.funcs = {}   # id -> (func record, TU)
        self.classes = {}
        self.enums = {}
        self.tus = []
        self.byq = {}
        self.globs = {}   # qualified name -> (record, TU)
        self.sub = {}
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            j = json.load(open(os.path.join(d, f)))
            tu = TU(f[:-5], j)
            self.tus.append(tu)
            for k, v in j["funcs"].items():
                if k not in self.funcs:
                    self.funcs[k] = (v, tu)
                    self.byq.setdefault(v["q"], []).append(k)
            for k, v in j["classes"].items():
                if k not in self.classes or len(v.get("fields", [])) > len(self.classes[k][0].get("fields", [])):
                    self.classes[k] = (v, tu)
            self.enums.update(j["enums"])
            for k, v in j["vars"].items():
                if v.get("q") and v.get("repo"):
                    old = self.globs.get(v["q"])
                    if old is None or ("init" in v or "val" in v) and not ("init" in old[0] or "val" in old[0]):
                        self.globs[v["q"]] = (v, tu)
        self.bases = {}
        for k, (v, tu) in self.classes.items():
            self.bases[k] = [tu.types[b] for b in v.get("bases", [])]
        self.normalise()
        # virtual overriding: root id -> {class: id}
        self.over = {}
        for k, (v, tu) in self.funcs.items():
            for o in v.get("ov", []):
                self.over.setdefault(o, []).append(k)

    def normalise(self):
        """gives the data members the analysis starts from the names it knows them by,
        when they were renamed: a member is recognised by its class and type"""
        ren = {}
        for cls, roles in ROLES.items():
            if cls not in self.classes:
                continue
            rec, tu = self.classes[cls]
            fs = [(f["n"], tu.types[f["t"]].replace("const ", "")) for f in rec.get("fields", [])]
            have = {n for n, _ in fs}
            for role, pred in roles.items():
                if role in have:
                    continue
                c = [n for n, ty in fs if n not in roles and pred(n, ty)]
                if len(c) == 1:
                    ren[(cls, c[0])] = role
        if not ren:
            return
        for cls, (rec, tu) in self.classes.items():
            for f in rec.get("fields", []):
                f["n"] = ren.get((cls, f["n"]), f["n"])

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "mem" and (x.get("cls"), x.get("n")) in ren:
                    x["n"] = ren[(x["cls"], x["n"])]
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        walk(y)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        walk(y)
        for k, (f, tu) in self.funcs.items():
            for i in f.get("inits", []):
                if "m" in i:
                    i["m"] = ren.get((f.get("cls"), i["m"]), i["m"])
            walk(f)

    def is_a(self, cls, base):
        if cls == base:
            return True
        return any(self.is_a(b, base) for b in self.bases.get(cls, []))

    def vecbase(self, cls):
        """element type when cls is or derives from std::vector"""
        if cls.startswith("std::vector<"):
            return cls
        for b in self.bases.get(cls, []):
            r = self.vecbase(b)
            if r:
                return r
        return None

    def find(self, q, nparams=None, ptypes=None):
        out = []
        for k in self.byq.get(q, []):
            f, tu = self.funcs[k]
            if nparams is not None and len(f["p"]) != nparams:
                continue
            if ptypes is not None and [tu.types[p["t"]] for p in f["p"]] != ptypes:
                continue
            out.append(k)
        return out

    def overrides(self, fid, cls):
        """implementation of virtual fid for dynamic class cls"""
        todo = [fid]
        seen = set()
        best = None
        cands = {}
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.funcs:
                cands[self.funcs[x][0].get("cls")] = x
            todo += self.over.get(x, [])
        c = cls
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in cands:
                return cands[c]
            todo += self.bases.get(c, [])
        return None


def load():
    d, key = extract()
    return Prog(d), key
