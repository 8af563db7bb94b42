"""Driver shared by all checks: extraction, obligations, evidence and exit status."""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLINGO = "/opt/clingo-venv/lib/python3.12/site-packages/clingo"
TUS = {
    "solving": "libclingo-lpx/src/solving.cc",
    "tableau": "libclingo-lpx/src/tableau.cc",
    "parsing": "libclingo-lpx/src/parsing.cc",
    "problem": "libclingo-lpx/src/problem.cc",
    "clingo-lpx": "libclingo-lpx/src/clingo-lpx.cc",
    "app": "app/lib/src/app.cc",
    "main": "app/src/main.cc",
}


class ToolError(Exception):
    pass


def build_extractor():
    src = os.path.join(HERE, "extract.cc")
    out = os.path.join(BUILD, "extract")
    stamp = out + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], capture_output=True, text=True,
                           check=True).stdout.split()
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["clang++", "-O1", "-fno-rtti", *flags, "-w", src, "-o", tmp,
                        "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError("cannot build the extractor:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out


def sources_hash(ext):
    h = hashlib.sha256()
    h.update(open(ext, "rb").read())
    for top in ("libclingo-lpx", "app", "libpyclingo-lpx"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                if f.endswith((".cc", ".hh", ".h", ".py", ".in")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def extract_one(ext, name, out, extra=()):
    src = os.path.join(REPO, TUS[name])
    if not os.path.exists(src):
        raise ToolError("source file %s is missing" % src)
    cmd = [ext, REPO, src, "--", "-std=c++17", "-DNDEBUG", "-DCLINGOLPX_USE_FLINT", "-DCLINGOLPX_NO_VISIBILITY",
           "-I" + os.path.join(REPO, "libclingo-lpx"), "-I" + os.path.join(REPO, "libclingo-lpx/src"),
           "-I" + os.path.join(REPO, "app/lib"), "-I" + CLINGO, *extra]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not r.stdout.strip():
        raise ToolError("cannot extract %s:\n%s" % (src, r.stderr[-2000:]))
    tmp = out + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(r.stdout)
    os.replace(tmp, out)


class Context:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obligations = []      # (name, partitions, undecided, violations)
        self.functions = set()
        self.lines = set()
        self.facts = {}
        self.assumptions = []
        self.rules = []
        self.jobs = []
        self._progs = {}
        self._dumps = {}
        self.thorough = tier == "thorough"

    # ---------------------------------------------------------- sources
    def dumps(self, names):
        ext = build_extractor()
        cache = os.path.join(BUILD, "cache", sources_hash(ext))
        os.makedirs(cache, exist_ok=True)
        todo = [n for n in names if n not in self._dumps and not os.path.exists(os.path.join(cache, n + ".json"))]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda n: extract_one(ext, n, os.path.join(cache, n + ".json")), todo))
        for n in names:
            if n not in self._dumps:
                self._dumps[n] = json.load(open(os.path.join(cache, n + ".json")))
        return [self._dumps[n] for n in names]

    def prog(self, *names):
        from interp import Program
        if names not in self._progs:
            self._progs[names] = Program(self.dumps(names))
        return self._progs[names]

    def enum(self, prog, name, member):
        try:
            return prog.enums[name][member]
        except KeyError:
            raise ToolError("enumerator %s::%s is missing" % (name, member))

    def repo_file(self, rel):
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            raise ToolError("file %s is missing" % rel)
        return open(p, encoding="utf-8").read()

    # ------------------------------------------------------- obligations
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def explore(self, name, prog, rule, limit=4000, native_numbers=True):
        """Queue an obligation for the abstract interpreter."""
        self.jobs.append((name, prog, rule, limit, native_numbers))

    def flush(self):
        from interp import explore_many
        if not self.jobs:
            return
        jobs, self.jobs = self.jobs, []
        names = [j[0] for j in jobs]
        assert len(set(names)) == len(names), "obligation names have to be unique"
        for name, (n, und, viol, fns, lines) in explore_many(jobs, 3000 if self.thorough else 600).items():
            self.obligations.append((name, n, und, viol))
            self.functions |= fns
            self.lines |= lines
            if os.environ.get("VERIF_VERBOSE"):
                print("  [%s] partitions=%d undecided=%d violations=%d%s" % (
                    name, n, len(und), len(viol), (" " + und[0]) if und else ""))

    def structural(self, name, fn):
        """fn() -> (sites analysed, [(message, where, function)])."""
        from interp import Undecided, Violation
        und, viol, n = [], [], 0
        try:
            sites, finds = fn()
            n = sites if isinstance(sites, int) else len(sites)
            if not isinstance(sites, int):
                self.facts.setdefault(name, [str(s) for s in list(sites)[:40]])
            for f in finds:
                v = Violation(f[0], f[1], f[2] if len(f) > 2 else None)
                viol.append(v)
            if n == 0 and not finds:
                und.append("no construct to apply the rule to was found")
        except Undecided as e:
            und.append(str(e))
        self.obligations.append((name, n, und, viol))
        if os.environ.get("VERIF_VERBOSE"):
            print("  [%s] sites=%d undecided=%d violations=%d%s" % (name, n, len(und), len(viol), (" " + und[0]) if und else ""))
        return not viol


def short_fn(f):
    return re.sub(r"\(.*", "", f) if f else None


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main(pid, run, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Context(pid, tier)
    sys.setrecursionlimit(20000)
    try:
        run(ctx)
        ctx.flush()
    except ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    known = [(k, t) for p, k, t in known_findings() if p == pid]
    new, old = [], []
    for name, n, und, viol in ctx.obligations:
        for v in viol:
            key = "%s@%s" % (name.replace(" ", "_"), short_fn(v.fn) or "-")
            hit = next((t for k, t in known if k == key), None)
            (old if hit else new).append((name, key, v, hit))
    decided = [o for o in ctx.obligations if not o[2] and not o[3]]
    undecided = [o for o in ctx.obligations if o[2] and not o[3]]
    for name, n, und, viol in undecided:
        print("UNDECIDED property=%s obligation=%s: %s" % (pid, name, und[0]))
    for name, key, v, t in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    rep = os.path.join(BUILD, "replay", pid + ".json")
    if new:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        json.dump([{"property": pid, "obligation": name, "key": key, "message": v.msg, "where": v.where,
                    "function": v.fn, "abstract_state": getattr(v, "state", None),
                    "facts": [str(f) for f in getattr(v, "facts", [])]} for name, key, v, t in new],
                  open(rep, "w"), indent=1)
        for name, key, v, t in new:
            print("  violation in %s at %s [%s]: %s" % (v.fn, v.where, name, v.msg))
    cov = {
        "explanation": "Static analysis of the current sources. " + " ".join(ctx.rules),
        "obligations": len(ctx.obligations),
        "discharged": len(decided),
        "undecided": [[o[0], o[2][0]] for o in undecided],
        "units_per_obligation": {o[0]: o[1] for o in ctx.obligations},
        "functions_analysed": sorted(ctx.functions),
        "source_lines_analysed": len({(a.split("(")[0], b) for a, b in ctx.lines if a}),
        "samples": ctx.facts,
        "trusted_base": ["clang 18 front end", "engine/*.py transfer functions and summaries"],
        "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 3), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs" % (
        pid, len(ctx.obligations), len(decided), len(undecided), len(ctx.functions), time.time() - ctx.t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if not decided and not old:
        print("ERROR property=%s nothing could be decided" % pid)
        return 2
    return 0
