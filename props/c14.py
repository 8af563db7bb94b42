"""C14: errors are reported and never cross the C interface as exceptions."""
from effects import Effects, parts, path_text, unwrap, walk

APIS = ("clingo_", "clingolpx_")


def loc(f, l=None):
    return "%s:%s" % (f["file"], l if l else f["line"])


def callbacks(prog, E):
    """Functions whose address is stored in or passed to the clingo API."""
    out = {}

    def note(n):
        for x in walk(n, lambdas=False):
            if x.get("k") == "fref" and x.get("f") in prog.functions:
                f = prog.functions[x["f"]]
                if not f.get("cls") or f.get("static"):
                    out[f["id"]] = f
    for f in prog.functions.values():
        for p in parts(f):
            for x in walk(p):
                if x.get("k") == "call" and x.get("externc"):
                    for a in x.get("args", ()):
                        note(a)
    for k, v in prog.vars.items():
        if v.get("init") and "clingo_" in v.get("t", ""):
            note(v["init"])
    return list(out.values())


def discarded(s, out):
    """Call expressions whose value is not used below a statement."""
    for x in walk(s):
        if x.get("k") == "expr" and isinstance(x.get("e"), dict):
            e = unwrap(x["e"])
            if e.get("k") == "call":
                out.append((e, x.get("l")))
        elif x.get("k") == "bin" and x.get("op") == ",":
            e = unwrap(x["l"] if isinstance(x.get("l"), dict) else x.get("a", {}))
            if isinstance(e, dict) and e.get("k") == "call":
                out.append((e, None))


def const_false(e):
    e = unwrap(e)
    if e.get("k") == "bool":
        return not e["v"]
    if e.get("k") == "int":
        return not int(e["v"])
    return None


def run(ctx):
    prog = ctx.prog("solving", "tableau", "parsing", "problem", "clingo-lpx", "app", "main")
    E = Effects(prog)
    ctx.rule("The exceptions that may leave each function are computed over the call graph (throw expressions, handlers, "
             "virtual calls, functors, throwing functions of the clingo API and standard library). None may leave an "
             "extern \"C\" function, a callback given to clingo, or a noexcept function; handlers in such functions have "
             "to report failure and set clingo's error; no failure status of the C API is ignored.")
    ctx.assume("exhausted memory is not considered; symbol constructors and the assignment of clingo do not fail otherwise")
    cbs = callbacks(prog, E)
    ctx.functions |= {f["n"] for f in prog.functions.values()}
    ext = [f for f in prog.functions.values() if f.get("externc")]
    noex = [f for f in prog.functions.values() if f.get("noexcept") and not f.get("externc")]

    def escape(fs, what):
        def fn():
            finds = []
            for f in fs:
                for t, p in E.inside(f).items():
                    finds.append(("%s may leave %s %s: %s" % (t, what, f["n"], path_text(p)), loc(f, p[0][1]), f["n"]))
            return sorted(f["id"] for f in fs), finds
        return fn
    ctx.structural("no exception leaves the C interface", escape(ext, "the C function"))
    ctx.structural("no exception leaves callbacks", escape(cbs, "the callback"))
    ctx.structural("no exception leaves noexcept functions", escape(noex, "the noexcept function"))
    setters = {"clingo_set_error", "Clingo::Detail::handle_cxx_error", "handle_cxx_error"}

    def sets_error(n, depth=0):
        for x in walk(n):
            if x.get("n") in setters:
                return True
            if depth < 4:
                for g in E.targets(x):
                    if any(sets_error(p, depth + 1) for p in parts(g)):
                        return True
        return False

    def handlers():
        sites, finds = [], []
        for f in {x["id"]: x for x in ext + cbs}.values():
            parser = [p["t"] for p in f["params"]] == ["const char *", "void *"]
            for p in parts(f):
                for x in walk(p):
                    if x.get("k") != "try":
                        continue
                    for h in x["h"]:
                        sites.append("%s:%s" % (f["n"], x.get("l")))
                        if f["rt"] == "bool":
                            for r in walk(h["body"]):
                                if r.get("k") == "return" and r.get("e") and const_false(r["e"]) is False:
                                    finds.append(("a handler of %s reports success" % f["n"], loc(f, r.get("l")), f["n"]))
                            if E.falls_through(h["body"]):
                                finds.append(("a handler of %s does not report failure" % f["n"], loc(f, x.get("l")), f["n"]))
                            if not parser and h["all"] and not sets_error(h["body"]):
                                finds.append(("a handler of %s does not set an error" % f["n"], loc(f, x.get("l")), f["n"]))
        return sites, finds
    ctx.structural("handlers report failure", handlers)

    def ignored():
        sites, finds = [], []
        for f in prog.functions.values():
            calls = []
            for p in parts(f):
                for x in walk(p):
                    if x.get("k") == "call" and x.get("externc") and x.get("rt") == "bool" and x.get("n", "").startswith(APIS):
                        sites.append("%s in %s" % (x["n"], f["n"]))
                discarded(p, calls)
            if f.get("dtor"):
                continue
            for e, l in calls:
                if e.get("externc") and e.get("rt") == "bool" and e.get("n", "").startswith(APIS):
                    finds.append(("the result of %s is ignored" % e["n"], loc(f, l), f["n"]))
        return sites, finds
    ctx.structural("failures are not ignored", ignored)
