"""Runs the scenarios and rules of one property and collects the verdict."""
import os
import pickle
import re
import select
import signal
import time
import traceback

import interp
import lints
import program
from names import strip
from program import AnalysisError
from terms import show

VERIF = program.VERIF


class Violation(object):
    def __init__(self, key, what, where, detail="", path=()):
        self.key, self.what, self.where = key, what, where
        self.detail, self.path = detail, path

    def text(self, short=False):
        s = "%s\n  rule: %s" % (self.where, self.what)
        if self.path:
            s += "\n  analysed through:"
            for p in self.path[:12 if short else 200]:
                s += "\n    " + p
        if self.detail:
            s += "\n  cannot be established: " + (self.detail[:600] if short else self.detail)
        return s


class Result(object):
    def __init__(self):
        self.violations = []
        self.coverage = {}


def rel(path, repo):
    if path.startswith(repo + "/"):
        return path[len(repo) + 1:]
    if path.startswith(VERIF + "/"):
        return path[len(VERIF) + 1:]
    return path


def require_labels(prog, f):
    """labels of the Require calls written in a scenario and in the driver
    functions it calls"""
    out = []
    todo = [f["body"]]
    seen = {f["key"]}
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "lambda":     # may legitimately never be called
                continue
            if x.get("k") == "call" and strip(x.get("fn", "")) == "verif::Require":
                lab = x["args"][1]
                while lab["k"] in ("cast", "tmp"):
                    lab = lab["e"]
                if (lab["v"], x["l"]) not in out:
                    out.append((lab["v"], x["l"]))
            elif x.get("k") == "call" and strip(x.get("fn", "")).startswith("verif_scn::"):
                g = prog.funcs.get(x.get("m"))
                if g is not None and g["key"] not in seen and g.get("body"):
                    seen.add(g["key"])
                    todo.append(g["body"])
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            todo.extend(v for v in x if isinstance(v, (dict, list)))
    return out


DEADLINE = 780


def each_in_child(prog, repo, scs, title):
    """one process per scenario: what is known of a symbol in one scenario must
    not leak into another"""
    t0 = time.time()
    jobs = []      # (index, pid, fd)
    out = [None] * len(scs)
    todo = list(range(len(scs)))
    width = max(1, min(8, os.cpu_count() or 1))
    buf = {}
    err = None
    try:
        while todo or jobs:
            while todo and len(jobs) < width:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        d = ("ok", scenario(prog, repo, scs[i], title))
                    except AnalysisError as e:
                        d = ("error", "%s: %s" % (scs[i]["name"], e))
                    except BaseException:
                        d = ("error", "%s: %s" % (scs[i]["name"], traceback.format_exc()[-1500:]))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(d, f)
                    os._exit(0)
                os.close(w)
                jobs.append((i, pid, r))
                buf[i] = b""
            left = DEADLINE - (time.time() - t0)
            if left <= 0:
                raise AnalysisError("no verdict within %d s" % DEADLINE)
            ready, _, _ = select.select([j[2] for j in jobs], [], [], left)
            for j in list(jobs):
                if j[2] in ready:
                    x = os.read(j[2], 1 << 20)
                    if x:
                        buf[j[0]] += x
                        continue
                    jobs.remove(j)
                    os.close(j[2])
                    os.waitpid(j[1], 0)
                    if not buf[j[0]]:
                        raise AnalysisError("%s: the analysis ended early" % scs[j[0]]["name"])
                    kind, v = pickle.loads(buf[j[0]])
                    if kind == "error":
                        err = err or v
                    else:
                        out[j[0]] = v
    finally:
        for j in jobs:
            try:
                os.kill(j[1], signal.SIGKILL)
                os.waitpid(j[1], 0)
            except OSError:
                pass
    if err:
        # a violation found elsewhere is still reported
        if any(o and o["violations"] for o in out):
            print("ANALYSIS-ERROR " + err)
            return [o or EMPTY_RESULT for o in out]
        raise AnalysisError(err)
    return out


EMPTY_RESULT = {"visited": set(), "sites": set(), "notes": set(), "steps": 0, "nobl": 0,
                "nok": 0, "samples": [], "violations": []}


def scenario(prog, repo, sc, title):
    fs = prog.byname.get("verif_scn::" + sc["name"])
    if not fs:
        raise AnalysisError("scenario %s was not extracted" % sc["name"])
    f = fs[0]
    it = interp.Interp(prog, **interp.options(sc))
    it.inline(f, None, [], None, interp.State())
    reached = {(o.label, o.loc[1]) for o in it.obligations}
    nobl = nok = 0
    samples, violations = [], []
    api = []
    for k in sorted(it.visited):
        g = prog.funcs.get(k)
        if g is not None and g["f"].startswith(repo):
            api.append("%s:%d %s" % (rel(g["f"], repo), g["l"], strip(g["fn"])))
    for o in it.obligations:
        nobl += 1
        if o.ok:
            nok += 1
            if len(samples) < 6:
                samples.append({"scenario": sc["name"], "obligation": o.label,
                                "line": o.loc[1], "discharged": True})
        else:
            at = [x for x in o.stack if x[2].startswith(repo)]
            where = "%s (%s) obligation '%s'" % (sc["name"], sc["driver"], o.label)
            if at:
                where = "%s:%d %s: %s" % (rel(at[-1][2], repo), o.loc[1], strip(at[-1][1]), where)
            violations.append(Violation("%s/%s" % (sc["name"], o.label),
                                        sc.get("rule", title) + ": " + o.label, where,
                                        show(o.facts.simp(o.term), 9)[:4000], api))
    labels = require_labels(prog, f)
    if not labels:
        raise AnalysisError("scenario %s states no obligation" % sc["name"])
    for lab, line in labels:
        if (lab, line) not in reached:
            nobl += 1
            violations.append(Violation(
                "%s/%s" % (sc["name"], lab),
                "no successful path of the API reaches '%s'" % lab,
                "%s (%s:%d)" % (sc["name"], sc["driver"], line), "", api))
    return {"visited": set(it.visited), "sites": set(it.callsites), "notes": set(it.notes),
            "steps": it.steps, "nobl": nobl, "nok": nok, "samples": samples,
            "violations": violations}


def run(pid, spec, tier):
    res = Result()
    repo = program.REPO
    drivers = sorted({s["driver"] for s in spec.get("scenarios", [])} |
                     set(spec.get("drivers", [])))
    sources = None
    if spec.get("sources") is not None:
        rx = re.compile("|".join(spec["sources"]))
        sources = [f for f in program.list_files(repo, r"\.cc$")
                   if not program.EXCLUDE.search(f) and rx.search(f)]
    prog = program.load_program(repo, drivers, sources)
    nobl = nok = 0
    visited = set()
    sites = set()
    notes = set()
    steps = 0
    samples = []
    scs = spec.get("scenarios", [])
    for sc, r in zip(scs, each_in_child(prog, repo, scs, spec["title"])):
        visited |= r["visited"]
        sites |= r["sites"]
        notes |= r["notes"]
        steps += r["steps"]
        nobl += r["nobl"]
        nok += r["nok"]
        samples += r["samples"][:max(1, 6 // len(scs))]
        res.violations += r["violations"]
    units = 0
    for ln in spec.get("lints", []):
        r = ln["rule"](prog, **ln.get("args", {}))
        nobl += r.instances
        nok += r.instances - len(r.violations)
        visited |= r.functions
        units += r.instances
        samples += r.samples[:4]
        if r.instances < ln.get("min", 1):
            raise AnalysisError("rule %s matched %d constructs, expected at least %d" % (
                r.name, r.instances, ln.get("min", 1)))
        res.violations += r.violations
    # one report per construct
    seen = set()
    uniq = []
    for v in res.violations:
        if (v.key, v.where) not in seen:
            seen.add((v.key, v.where))
            uniq.append(v)
    res.violations = uniq
    res.coverage = {
        "explanation": spec.get("explanation", "") or
        "Abstract interpretation of the sources over gated value graphs: every "
        "obligation below holds on every path of the analysed functions.",
        "rule": spec["title"],
        "obligations": nobl, "discharged": nok,
        "checker_cmd": "python3 check.py %s" % pid,
        "trusted_base": ["clang 18 front end", "engine/interp.py transfer functions",
                         "engine/models.py library models"],
        "translation_units": len(prog.tus),
        "functions_analysed": len(visited), "call_sites": len(sites),
        "rule_instances": units, "steps": steps,
        "functions": sorted({strip(prog.funcs[k]["fn"]) for k in visited if k in prog.funcs
                             and prog.funcs[k]["f"].startswith(repo)}),
        "imprecision": sorted(notes), "samples": samples,
    }
    return res
