"""C26: no undefined behaviour (memory, lifetime, initialisation)."""
import importlib
import os
import re
import subprocess

import driver
import interp
from interp import CutPath, Undecided, Violation


class Sub:
    """Collects the abstract states other properties start from."""

    def __init__(self, ctx, mod, skip):
        self.ctx, self.mod, self.skip = ctx, mod, skip
        self.pid, self.tier, self.thorough = ctx.pid, ctx.tier, ctx.thorough
        self.facts = {}

    def prog(self, *names):
        return self.ctx.prog(*names)

    def enum(self, *a):
        return self.ctx.enum(*a)

    def repo_file(self, rel):
        return self.ctx.repo_file(rel)

    def dumps(self, names):
        return self.ctx.dumps(names)

    def rule(self, text):
        pass

    assume = rule

    def structural(self, name, fn):
        return True

    def flush(self):
        pass

    def explore(self, name, prog, rule, limit=4000, native_numbers=True):
        if not self.thorough and self.skip and re.search(self.skip, name) and not re.search(KEEP.get(self.mod, "^$"), name):
            return
        self.ctx.explore("%s: %s" % (self.mod, name), prog, memory_only(rule), limit, native_numbers)


def memory_only(rule):
    def f(I):
        try:
            return rule(I)
        except Violation as e:
            if e.fn is not None and e.msg.startswith("undefined behaviour"):
                raise
            raise CutPath("the functional property fails here")
    return f


# abstract states that are only analysed in thorough mode
MODULES = {
    "C01": None, "C02": None, "C03": "other variables queued|RationalQ, [=<>]", "C04": r"Changed, Rational|RationalQ, [<>]|reversed|strict|Rational, [<>]",
    "C05": r"non-basic variable \(RationalQ|\[[1-3], ", "C06": None, "C07": r"strict|3 columns|\[0, 2|\[[12], ",
    "C08": r"limited|permuted|\[[1-3], |\[0, [23]", "C09": None, "C12": "sum: variables", "C15": None, "C16": None, "C17": None,
    "C19": "pivots", "C20": None, "C21": r"1 threads|\(Rational", "C22": "objective: check", "C23": None, "C24": None, "C25": None, "C10": None, "C11": None, "C18": ".",
}
KEEP = {"C21": r"RationalQ, 1 and 2|optimization \(RationalQ"}


def run(ctx):
    interp.MEMSAFE = True
    only = os.environ.get("VERIF_MODULES")
    for mod, skip in MODULES.items():
        if only and mod not in only.split(","):
            continue
        importlib.import_module("props." + mod.lower()).run(Sub(ctx, mod, skip))

    ctx.rule("From the abstract states of the other properties the bodies are evaluated with lifetimes: inserting into or removing "
             "from a container invalidates the iterators and references the C++ standard lists, scalars without initializer are "
             "indeterminate, and reading either, an index or iterator out of range, a null or deleted object or dividing by zero is "
             "reported. The clang front end's lifetime and initialisation diagnostics are errors, and classes owned through a base have "
             "virtual destructors.")
    ctx.assume("callbacks receive the objects the clingo library hands out; integers do not overflow (N03)")
    if only:
        return
    dumps = ctx.dumps(list(driver.TUS))

    def destructors():
        recs = {}
        for d in dumps:
            recs.update(d["records"])
        owned = {}
        for d in dumps:
            for t, where in owners(d):
                owned.setdefault(t, where)
        sites, finds = [], []
        for n, r in recs.items():
            for b in r["bases"]:
                b = b.replace("const ", "").strip()
                if b in owned and b in recs:
                    sites.append("%s owned as %s" % (n, b))
                    if not recs[b].get("vdtor"):
                        finds.append(("%s is deleted through its base %s, which has no virtual destructor" % (n, b),
                                      "%s:%s" % (recs[b]["file"], recs[b]["line"]), b))
        return sites, finds
    ctx.structural("classes owned through a base have a virtual destructor", destructors)

    def warnings():
        finds = []
        for name, rel in driver.TUS.items():
            finds += diagnostics(rel)
        return ["%s %s" % (rel, " ".join(FLAGS)) for rel in driver.TUS.values()], finds
    ctx.structural("lifetime and initialisation diagnostics of the front end", warnings)


FLAGS = ["dangling", "dangling-gsl", "dangling-field", "dangling-initializer-list", "return-stack-address", "uninitialized",
         "sometimes-uninitialized", "return-type", "infinite-recursion", "delete-non-virtual-dtor", "delete-abstract-non-virtual-dtor",
         "unsequenced", "null-dereference", "array-bounds", "shift-count-overflow", "shift-count-negative", "division-by-zero", "format"]


def diagnostics(rel):
    src = os.path.join(driver.REPO, rel)
    inc = [os.path.join(driver.REPO, d) for d in ("libclingo-lpx", "libclingo-lpx/src", "app/lib")]
    r = subprocess.run(["clang++", "-std=c++17", "-DNDEBUG", "-DCLINGOLPX_USE_FLINT", "-DCLINGOLPX_NO_VISIBILITY", "-fsyntax-only",
                        "-w", *["-W" + f for f in FLAGS], *["-I" + d for d in inc], "-isystem", driver.CLINGO, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise Undecided("%s cannot be parsed" % rel)
    out = []
    for m in re.finditer(r"^(\S+?):(\d+):\d+: warning: (.*)$", r.stderr, re.M):
        p = os.path.relpath(m.group(1), driver.REPO)
        if not p.startswith(".."):
            out.append((m.group(3), "%s:%s" % (p, m.group(2)), p))
    return out


def owners(dump):
    """Types of objects owned through a unique_ptr, a shared_ptr or a delete expression."""
    out = []

    def note(t, where):
        for m in re.finditer(r"(?:unique_ptr|shared_ptr)<", t):
            d, i = 0, m.end()
            while i < len(t) and not (d == 0 and t[i] in ",>"):
                d += {"<": 1, ">": -1}.get(t[i], 0)
                i += 1
            out.append((t[m.end():i].strip(), where))

    def visit(n):
        if isinstance(n, dict):
            if n.get("k") == "delete" or n.get("e") == "delete":
                t = str((n.get("e") or {}).get("t", ""))
                out.append((t.replace("*", "").replace("const", "").strip(), n.get("l")))
            for k in ("t",):
                if isinstance(n.get(k), str):
                    note(n[k], n.get("l"))
            for x in n.values():
                visit(x)
        elif isinstance(n, list):
            for x in n:
                visit(x)
    visit(dump["functions"])
    visit(dump["records"])
    return out
