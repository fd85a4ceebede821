"""Extraction of the resolved program from /repo's working tree."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from names import strip

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "dpf-export")

EXCLUDE = re.compile(
    r"(_test|_benchmark)\.cc$|^experiments/|^pir/testing/encrypt_decrypt\.cc$")


class AnalysisError(Exception):
    """The analysis itself cannot give a verdict (an error exit)."""


def list_files(repo, pat):
    out = []
    for top in ("dpf", "dcf", "pir"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), repo)
                if re.search(pat, rel):
                    out.append(rel)
    return sorted(out)


def gen_protos(repo, out):
    protos = list_files(repo, r"\.proto$")
    os.makedirs(os.path.join(out, "farmhash"), exist_ok=True)
    link = os.path.join(out, "farmhash", "farmhash.h")
    if not os.path.lexists(link):
        os.symlink("/usr/include/farmhash.h", link)
    r = subprocess.run(["protoc", "-I" + repo, "--cpp_out=" + out] +
                       [os.path.join(repo, p) for p in protos],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("protoc failed: " + r.stderr[:500])
    # The installed Protobuf has no SerializeAsCord.
    for d, _, fs in os.walk(out):
        for f in fs:
            if f.endswith(".pb.h"):
                p = os.path.join(d, f)
                s = open(p).read()
                s = re.sub(r"(// @@protoc_insertion_point\(class_scope:[^)]*\)\n)",
                           r"\1 public:\n  absl::Cord SerializeAsCord() const "
                           r"{ return absl::Cord(SerializeAsString()); }\n", s)
                s = '#include "absl/strings/cord.h"\n' + s
                open(p, "w").write(s)
    return protos


def flags(repo, gen, extra=()):
    return ["-std=c++17", "-w", "-Wno-c++11-narrowing", "-isystem",
            "/usr/include/android", "-I" + repo, "-I" + gen,
            "-I" + os.path.join(VERIF, "shims"),
            "-I" + os.path.join(VERIF, "drivers"),
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + list(extra)


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def export(repo, sources, prefixes, gen, outdir, extra=()):
    """sources: list of absolute paths. Returns list of dump paths."""
    if not os.path.exists(TOOL):
        raise AnalysisError("%s is missing: run setup.sh" % TOOL)

    def model(src):
        """The drivers named hwy_* see what the Highway operations do in place
        of the processor's."""
        if src.startswith(os.path.join(VERIF, "drivers", "hwy_")):
            return ["-I" + os.path.join(VERIF, "drivers", "hwy_model")]
        return []

    def one(src):
        out = os.path.join(outdir, src.strip("/").replace("/", "_") + ".json")
        r = subprocess.run([TOOL, out, ",".join(prefixes), src, "--"] +
                           model(src) + flags(repo, gen, list(extra) + (
                               ["-fno-access-control"] if src.startswith(VERIF) else [])),
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("cannot parse %s:\n%s" % (src, r.stderr[-1500:]))
        return out
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, sources))


def parse_protos(repo):
    """message full name (C++ style) -> {'fields': {name: (label,type,oneof)}}"""
    msgs = {}
    enums = {}
    for p in list_files(repo, r"\.proto$"):
        s = open(os.path.join(repo, p)).read()
        s = re.sub(r"//[^\n]*", "", s)
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()-]', s)
        pkg = "distributed_point_functions"
        i = 0

        def parse_block(i, scope, oneof):
            # toks[i] is just after '{'
            while toks[i] != "}":
                t = toks[i]
                if t == "message":
                    name = toks[i + 1]
                    full = scope + [name]
                    msgs.setdefault("::".join(full), {"fields": {}, "oneofs": {}})
                    i = parse_block(i + 3, full, None)
                elif t == "enum":
                    j = i + 3
                    vals = []
                    while toks[j] != "}":
                        if toks[j + 1:j + 2] == ["="]:
                            vals.append((toks[j], toks[j + 2]))
                        while toks[j] != ";":
                            j += 1
                        j += 1
                    enums["::".join(scope + [toks[i + 1]])] = vals
                    i = j + 1
                elif t == "oneof":
                    msgs["::".join(scope)]["oneofs"][toks[i + 1]] = []
                    i = parse_block(i + 3, scope, toks[i + 1])
                elif t in ("reserved", "option"):
                    while toks[i] != ";":
                        i += 1
                    i += 1
                elif t == ";":
                    i += 1
                else:
                    label = "singular"
                    if t in ("repeated", "optional"):
                        label = t
                        i += 1
                    if toks[i] == "map":
                        while toks[i] != ";":
                            i += 1
                        i += 1
                        continue
                    ty, name = toks[i], toks[i + 1]
                    num = toks[i + 3]
                    m = msgs["::".join(scope)]
                    m["fields"][name] = (label, ty, oneof, int(num))
                    if oneof:
                        m["oneofs"][oneof].append((name, int(num)))
                    while toks[i] != ";":
                        i += 1
                    i += 1
            return i + 1
        while i < len(toks):
            if toks[i] == "message":
                full = [pkg, toks[i + 1]]
                msgs.setdefault("::".join(full), {"fields": {}, "oneofs": {}})
                i = parse_block(i + 3, full, None)
            elif toks[i] == "enum":
                while toks[i] != "}":
                    i += 1
                i += 1
            else:
                while i < len(toks) and toks[i] != ";":
                    i += 1
                i += 1
    # generated names: nested Foo.Bar -> Foo_Bar; aliases Foo::Bar refer to it
    for full in list(msgs):
        parts = full.split("::")
        if len(parts) > 2:
            msgs["::".join(parts[:1] + ["_".join(parts[1:])])] = msgs[full]
    return msgs, enums


class Program(object):
    def __init__(self):
        self.funcs = {}      # mangled (or anon key) -> function
        self.records = {}    # qualified printed name -> record
        self.vars = {}       # qualified name -> var
        self.types = []      # unified types
        self._ty = {}
        self.tus = []
        self.over = {}       # mangled base method -> set of overriding mangled
        self.byname = {}     # qualified name -> list of functions
        self.protos = {}
        self._callees = {}
        self._impure = None

    def load(self, path):
        d = json.load(open(path))
        tu = d["main"]
        self.tus.append(tu)
        # unify types
        remap = []
        base = len(self.types)
        loc = d["types"]
        for i, t in enumerate(loc):
            key = t["s"]
            if key in self._ty:
                remap.append(self._ty[key])
                # complete enumerators / args if richer
            else:
                n = len(self.types)
                self._ty[key] = n
                self.types.append(t)
                t["_raw"] = True
                remap.append(n)
        for t in self.types:
            if t.get("_raw"):
                if "p" in t:
                    t["p"] = remap[t["p"]] if t["p"] >= 0 else -1
                if "a" in t:
                    t["a"] = [remap[x] if isinstance(x, int) else x for x in t["a"]]
                del t["_raw"]
        # remap in trees; make variable ids unique per TU
        off = (len(self.tus)) << 32

        def fix(x):
            if isinstance(x, dict):
                k = x.get("k")
                for key in ("t", "rt", "vt", "ft", "at", "rty", "ct", "base"):
                    v = x.get(key)
                    if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
                        x[key] = remap[v]
                if "pt" in x:
                    x["pt"] = [remap[v] for v in x["pt"]]
                if "ta" in x:
                    x["ta"] = [remap[v] if isinstance(v, int) else v for v in x["ta"]]
                if "id" in x and isinstance(x["id"], int):
                    x["id"] += off
                for key, v in x.items():
                    if isinstance(v, (dict, list)) and key not in ("pt", "ta"):
                        fix(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for f in d["functions"]:
            fix(f)
            f["tu"] = tu
            key = f["m"]
            if f.get("anon") or "_GLOBAL__N_" in key:
                key = key + "@" + tu
            f["key"] = key
            if key not in self.funcs:
                self.funcs[key] = f
                self.byname.setdefault(f["fn"], []).append(f)
                for o in f.get("over", []):
                    self.over.setdefault(o, set()).add(key)
        for r in d["records"]:
            old = self.records.get(r["s"])
            if old is None:
                for b in range(len(r["bases"])):
                    r["bases"][b] = remap[r["bases"][b]]
                fix(r["fields"])
                fix(r["methods"])
                fix(r["statics"])
                r["tu"] = tu
                self.records[r["s"]] = r
        for v in d["vars"]:
            fix(v)
            v["tu"] = tu
            q = v["q"] if not v.get("sl") else v["q"] + "@sl"
            self.vars.setdefault(q, v)

    def callees(self, key):
        """(stripped name, mangled) of everything called in a function body"""
        c = self._callees.get(key)
        if c is None:
            c = []
            todo = [self.funcs[key].get("body"), self.funcs[key].get("inits")]
            while todo:
                x = todo.pop()
                if isinstance(x, dict):
                    if x.get("k") in ("call", "ctor", "fref") and "m" in x:
                        c.append((strip(x.get("fn") or x.get("cls") or ""), x["m"]))
                    todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
                elif isinstance(x, list):
                    todo.extend(v for v in x if isinstance(v, (dict, list)))
            self._callees[key] = c
        return c

    def impure(self, sources):
        """functions from which a source of fresh values can be reached"""
        if self._impure is None:
            rev = {}
            seeds = set()
            for k, f in self.funcs.items():
                for name, m in self.callees(k):
                    if name in sources:
                        seeds.add(k)
                    g = self.lookup(m, f["tu"])
                    if g is not None:
                        rev.setdefault(g["key"], set()).add(k)
                    for o in self.over.get(m, ()):
                        rev.setdefault(o, set()).add(k)
            out = set()
            todo = list(seeds)
            while todo:
                k = todo.pop()
                if k not in out:
                    out.add(k)
                    todo.extend(rev.get(k, ()))
            self._impure = out
        return self._impure

    def lookup(self, m, tu=None):
        f = self.funcs.get(m)
        if f is None and "_GLOBAL__N_" in m:
            f = self.funcs.get(m + "@" + str(tu))
            if f is None:
                for t in self.tus:
                    f = self.funcs.get(m + "@" + t)
                    if f is not None:
                        break
        return f


def load_program(repo=None, drivers=(), sources=None, keep=None, extra=()):
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix="dpfsa.")
    try:
        gen = os.path.join(tmp, "gen")
        os.makedirs(gen)
        gen_protos(repo, gen)
        if sources is None:
            sources = [f for f in list_files(repo, r"\.cc$") if not EXCLUDE.search(f)]
        if any(d.startswith("hwy_") for d in drivers):
            # these drivers include the vectorised sources themselves
            sources = [f for f in sources if not f.endswith("_hwy.cc")]
        srcs = [os.path.join(repo, f) for f in sources]
        srcs += [os.path.join(VERIF, "drivers", d) for d in drivers]
        cache = os.environ.get("VERIF_CACHE")
        dump = os.path.join(tmp, "dump")
        if cache:  # development only: keyed by the content of everything parsed
            allf = [os.path.join(repo, f) for f in list_files(repo, r"\.(cc|h|proto)$")]
            for d, _, fs in os.walk(os.path.join(VERIF, "shims")):
                allf += [os.path.join(d, f) for f in fs]
            for d, _, fs in os.walk(os.path.join(VERIF, "drivers")):
                allf += [os.path.join(d, f) for f in fs]
            allf.append(TOOL)
            key = hashlib.sha256((_hash_tree(allf) + "|".join(srcs) + "|".join(extra)).encode()).hexdigest()
            dump = os.path.join(cache, key)
        if not os.path.isdir(dump):
            work = dump + ".tmp%d" % os.getpid()
            os.makedirs(work)
            prefixes = [os.path.join(repo, t) + "/" for t in ("dpf", "dcf", "pir")]
            prefixes.append(os.path.join(VERIF, "drivers") + "/")
            export(repo, srcs, prefixes, gen, work, extra)
            try:
                os.rename(work, dump)
            except OSError:
                pass
        p = Program()
        for f in sorted(os.listdir(dump)):
            p.load(os.path.join(dump, f))
        p.protos, p.enums = parse_protos(repo)
        p.repo = repo
        p.sources = sources
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
