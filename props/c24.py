"""C24: versions, the C interface and the Python binding and application agree."""
import ast
import re

from absstate import *  # noqa: F401,F403
from interp import Cell, Ptr, StrPtr, Undecided, Violation
from props.c15 import func
from pyabs import Module, Obj, Opaque

T, S = "clingolpx_theory *", "unsigned long"
# the protocol required by clingo.theory.Theory for prefix clingolpx
PROTOCOL = {
    "create": ("bool", ["clingolpx_theory **"]),
    "destroy": ("bool", [T]),
    "version": ("void", ["int *"] * 3),
    "register": ("bool", [T, "clingo_control *"]),
    "rewrite_ast": ("bool", [T, "clingo_ast *", "bool (*)(clingo_ast *, void *)", "void *"]),
    "prepare": ("bool", [T, "clingo_control *"]),
    "register_options": ("bool", [T, "clingo_options *"]),
    "validate_options": ("bool", [T]),
    "on_model": ("bool", [T, "clingo_model *"]),
    "on_statistics": ("bool", [T, "clingo_statistic *", "clingo_statistic *"]),
    "lookup_symbol": ("bool", [T, S, S + " *"]),
    "get_symbol": (S, [T, S]),
    "assignment_begin": ("void", [T, "unsigned int", S + " *"]),
    "assignment_next": ("bool", [T, "unsigned int", S + " *"]),
    "assignment_has_value": ("bool", [T, "unsigned int", S]),
    "assignment_get_value": ("void", [T, "unsigned int", S, "clingolpx_value *"]),
    "configure": ("bool", [T, "const char *", "const char *"]),
}
PRIM = {0: "void", 1: "bool", 2: "char", 7: "int", 14: "double", 22: "unsigned int", 24: S, 28: S}


class Cffi:
    """The type tables of the generated Python binding."""

    def __init__(self, text):
        m = re.search(r"static void \*_cffi_types\[\] = \{(.*?)\n\};", text, re.S)
        g = re.search(r"_cffi_globals\[\] = \{(.*?)\n\};", text, re.S)
        su = re.search(r"_cffi_struct_unions\[\] = \{(.*?)\n\};", text, re.S)
        if not m or not g or not su:
            raise Undecided("tables of the Python binding not found")
        self.ops = [(a, int(b)) for a, b in re.findall(r"_CFFI_OP\(_CFFI_OP_(\w+), (\d+)\)", m.group(1))]
        self.su = re.findall(r'\{ "(\w+)", \d+', su.group(1))
        self.const = re.findall(r"// (char const \*)", m.group(1)) != []
        self.lines = m.group(1).strip().split("\n")
        self.globals = {n: (f, kind, int(i), d) for n, f, kind, i, d in
                        re.findall(r'\{ "(\w+)", \(void \*\)&?(\w+), _CFFI_OP\(_CFFI_OP_(\w+), (-?\d+)\), \(void \*\)(\w+) \}', g.group(1))}

    def typ(self, i, seen=()):
        if i in seen or i >= len(self.ops):
            raise Undecided("types of the Python binding")
        op, a = self.ops[i]
        if op == "NOOP":
            return self.typ(a, seen + (i,))
        if op == "PRIMITIVE":
            return PRIM.get(a, "primitive %d" % a)
        if op == "STRUCT_UNION":
            n = self.su[a]
            return {"clingo_statistics": "clingo_statistic"}.get(n, n)
        if op == "ENUM":
            return "int"
        if op == "POINTER":
            t = self.typ(a, seen + (i,))
            if t.startswith("fn "):
                return t[3:].replace("(", "(*)(", 1)
            c = "const " if t == "char" and "char const" in self.lines[i] else ""
            return c + t + ("*" if t.endswith("*") else " *")
        if op == "FUNCTION":
            ps, j = [], i + 1
            while self.ops[j][0] != "FUNCTION_END":
                ps.append(self.typ(j, seen + (i,)))
                j += 1
            return "fn %s (%s)" % (self.typ(a), ", ".join(ps))
        raise Undecided("operation %s of the Python binding" % op)

    def function(self, i):
        ps, j = [], i + 1
        if self.ops[i][0] != "FUNCTION":
            raise Undecided("function type in the Python binding")
        while self.ops[j][0] != "FUNCTION_END":
            ps.append(self.typ(j))
            j += 1
        return self.typ(self.ops[i][1]), ps


def norm(t):
    return t.replace("_Bool", "bool").replace("bool (*) (", "bool (*)(")


class PySym:
    """A symbol in the assignment of a model."""

    def __init__(self, text, name, args):
        self.text, self.name, self.args = text, name, args
        self.py_arguments, self.py_string, self.py_name = args, text.strip('"'), name

    def py_match(self, name, n, positive=True):
        return bool(positive) and self.name == name and len(self.args) == n

    def __str__(self):
        return self.text

    def __lt__(self, o):
        return self.text < o.text


def run(ctx):
    prog = ctx.prog("clingo-lpx", "solving", "problem")
    app = ctx.prog("main", "app", "clingo-lpx", "problem", "solving")
    header = ctx.repo_file("libclingo-lpx/clingo-lpx.h")
    ctx.rule("The functions with C linkage, the enumeration and the layout of values have the types the protocol of clingo's "
             "theory class prescribes, and the type tables of the binding describe exactly these; all version numbers are the "
             "same; the Python application is interpreted: it registers the theory, passes each statement through it, grounds, "
             "prepares, and solves with callbacks and options that reach the theory, and prints the assignment.")
    macros = dict(re.findall(r"^[ \t]*#[ \t]*define[ \t]+(CLINGOLPX_VERSION\w*)[ \t]+(\S+)", header, re.M))
    where = "libclingo-lpx/clingo-lpx.h:1"

    def macro(n):
        if n not in macros:
            raise Undecided("macro %s not found" % n)
        return macros[n].strip('"')

    def versions():
        want = ".".join(macro("CLINGOLPX_VERSION_" + x) for x in ("MAJOR", "MINOR", "REVISION"))
        if macro("CLINGOLPX_VERSION") != want:
            return 1, [("the version text %s does not match the version numbers %s" % (macro("CLINGOLPX_VERSION"), want), where)]
        return 1, []
    ctx.structural("version macros", versions)

    def version(I):
        want = [int(macro("CLINGOLPX_VERSION_" + x)) for x in ("MAJOR", "MINOR", "REVISION")]
        cs = [Cell(-7, "int") for _ in range(3)]
        use = [I.fork((True, False), "pointer %d given" % i) for i in range(3)]
        I.call_function(func(prog, "clingolpx_version"), None, [Ptr(c) if u else None for c, u in zip(cs, use)])
        for nm, c, u, w in zip(("major", "minor", "patch"), cs, use, want):
            if I.rv(c.v) != (w if u else -7):
                raise Violation("the %s version is reported as %s instead of %s" % (nm, I.rv(c.v), w))
    ctx.explore("version of the library", prog, version)

    def appversion(I):
        I.overrides["clingolpx_create"] = lambda I, this, a, n: True
        a = Cell(I.new_struct("ClingoLPX::App"))
        for name, want in (("version", macro("CLINGOLPX_VERSION")), ("program_name", "clingo-lpx")):
            fs = [f for f in app.functions.values() if f.get("cls") == "ClingoLPX::App" and f["name"] == name]
            if not fs:
                raise Undecided("App::%s not found" % name)
            r = I.rv(I.call_function(fs[0], a, []))
            if not isinstance(r, StrPtr) or r.s[r.i:] != want:
                raise Violation("the application reports %s %s instead of %s" % (name, r, want))
    ctx.explore("version of the application", app, appversion)

    def protocol():
        sites, finds = [], []
        fs = {f["name"]: f for f in prog.functions.values() if f.get("externc") and f["file"].startswith("libclingo-lpx")}
        for k, (rt, ps) in PROTOCOL.items():
            f = fs.get("clingolpx_" + k)
            if f is None:
                finds.append(("function clingolpx_%s required by clingo's theory class is missing" % k, where))
                continue
            sites.append(f["name"])
            got = (f["rt"], [p["t"] for p in f["params"]])
            if got != (rt, ps):
                finds.append(("%s has type %s(%s) instead of %s(%s)" % (f["name"], got[0], ", ".join(got[1]), rt, ", ".join(ps)),
                              "%s:%d" % (f["file"], f["line"]), f["name"]))
        e = prog.enums.get("clingolpx_value_type", {})
        for i, k in enumerate(("int", "double", "symbol")):
            if e.get("clingolpx_value_type_" + k) != i:
                finds.append(("clingolpx_value_type_%s is %s instead of %d" % (k, e.get("clingolpx_value_type_" + k), i), where))
        r = prog.records.get("clingolpx_value")
        if r is None:
            raise Undecided("type of values not found")
        fl = []
        for x in r["fields"]:
            u = prog.records.get(x["t"], {})
            if u.get("union"):
                fl.append(sorted((y["name"], y["t"]) for y in u["fields"]))
            else:
                fl.append((x["name"], x["t"]))
        if fl != [("type", "int"), [("double_number", "double"), ("int_number", "int"), ("symbol", S)]]:
            finds.append(("the layout of clingolpx_value is %s" % fl, "libclingo-lpx/clingo-lpx.h:%d" % r["line"]))
        for n in fs:
            decl = re.search(r"CLINGOLPX_VISIBILITY_DEFAULT[^;]*\b%s\(" % n, header)
            if not decl:
                finds.append(("function %s is not exported by the header" % n, where))
        return sites, finds
    ctx.structural("C interface", protocol)

    def binding():
        c = Cffi(ctx.repo_file("libpyclingo-lpx/_clingolpx.c"))
        w = "libpyclingo-lpx/_clingolpx.c:1"
        sites, finds = [], []
        fs = {f["name"]: f for f in prog.functions.values() if f.get("externc") and f["file"].startswith("libclingo-lpx")}
        for n, f in fs.items():
            if n not in c.globals:
                finds.append(("function %s is missing in the Python binding" % n, w))
                continue
            fn, kind, i, d = c.globals[n]
            sites.append(n)
            rt, ps = c.function(i)
            want = (f["rt"], [p["t"] for p in f["params"]])
            if (norm(rt), [norm(p) for p in ps]) != want:
                finds.append(("the Python binding declares %s as %s(%s) instead of %s(%s)" % (n, rt, ", ".join(ps), want[0], ", ".join(want[1])), w))
            if not fn.endswith("_" + n) or not d.endswith("_" + n):
                finds.append(("the Python binding calls %s for %s" % (d, n), w))
        for n in c.globals:
            if n.startswith("clingolpx_") and n not in fs and not n.startswith("clingolpx_value_type_"):
                finds.append(("the Python binding declares %s, which is not defined" % n, w))
        if "pyclingolpx_rewrite" not in c.globals:
            finds.append(("callback pyclingolpx_rewrite is missing in the Python binding", w))
        return sites, finds
    ctx.structural("Python binding", binding)
    python(ctx, prog)


def python(ctx, prog):
    init = ctx.repo_file("libpyclingo-lpx/clingolpx/__init__.py")
    main = ctx.repo_file("libpyclingo-lpx/clingolpx/__main__.py")
    WI, WM = "libpyclingo-lpx/clingolpx/__init__.py", "libpyclingo-lpx/clingolpx/__main__.py"

    def at(I, rel, fn):
        I.where = (rel, 1) if False else I.where
        try:
            return fn()
        except Violation as v:
            v.where = "%s:1" % rel
            raise
        except SyntaxError as e:
            raise Undecided("Python syntax: %s" % e)

    def theory(I):
        def go():
            m = Module(init, {}, lambda o: I.fork((True, False), "truth"))
            cls = m.env.get("ClingoLPXTheory")
            if cls is None:
                raise Violation("class ClingoLPXTheory is missing")
            m.call(cls, [])
            calls = [x for x in m.log if x[0] == "super.__init__"]
            if len(calls) != 1:
                raise Violation("the theory class is not initialised")
            a = calls[0][1] + [calls[0][2].get(k) for k in ("prefix", "lib", "ffi") if k in calls[0][2]]
            if [b.path if isinstance(b, Opaque) else b for b in a] != ["clingolpx", "._clingolpx.lib", "._clingolpx.ffi"]:
                raise Violation("the theory class is initialised with %s" % (a,))
            if [b.path for b in cls.bases if isinstance(b, Opaque)] != ["clingo.theory.Theory"]:
                raise Violation("ClingoLPXTheory is not derived from clingo.theory.Theory")
        at(I, WI, go)
    ctx.explore("Python theory class", prog, theory)

    out = []

    def module(I, syms=(), shown=()):
        del out[:]
        models = {".ClingoLPXTheory": lambda ev, a, kw: Opaque("theory"),
                  "theory.version": lambda ev, a, kw: (4, 5, 6),
                  "sys.stdout.writelines": lambda ev, a, kw: out.extend(ev.iter(a[0])),
                  "sys.stdout.write": lambda ev, a, kw: out.append(a[0]),
                  "sys.stdout.flush": lambda ev, a, kw: None,
                  "print": lambda ev, a, kw: out.append(kw.get("sep", " ").join(ev.to_str(x) for x in a) + kw.get("end", "\n"))}

        def parse(ev, a, kw):
            ev.log.append(("parse", a[:1], {}))
            cb = a[1] if len(a) > 1 else kw.get("callback")
            for i in range(3):
                ev.call(cb, [Opaque("statement%d" % i)])
        models["clingo.ast.parse_files"] = parse

        def symbols(ev, a, kw):
            fl = dict(zip(("atoms", "terms", "shown", "theory", "complement"), a))
            fl.update(kw)
            if fl.get("complement") or any(v not in (True, False) for v in fl.values()):
                raise Undecided("selection of symbols")
            hidden = [PySym("hidden", "hidden", [])]
            return [x for k, v in (("atoms", hidden), ("terms", hidden[:0]), ("shown", shown), ("theory", syms)) if fl.get(k) for x in v]
        models["model.symbols"] = symbols
        flags = {}

        def truth(o):
            k = getattr(o, "path", repr(o))
            if k not in flags:
                flags[k] = I.fork((True, False), "truth of " + k)
            return flags[k]
        m = Module(main, models, truth)
        m.flags = flags
        cls = m.env.get("ClingoLPXApp")
        if cls is None:
            raise Violation("class ClingoLPXApp is missing")
        return m, m.call(cls, ["clingo-lpx"])

    def application(I):
        def go():
            m, o = module(I)
            if o.attrs.get("version") != "4.5.6" or o.attrs.get("program_name") != "clingo-lpx":
                raise Violation("the application reports name %s and version %s" % (o.attrs.get("program_name"), o.attrs.get("version")))
            del m.log[:]
            m.call(m.method(o, "main"), [Opaque("control"), Opaque("files")])
            names = [x[0] for x in m.log]

            def one(n):
                if names.count(n) != 1:
                    raise Violation("%s is called %d times" % (n, names.count(n)))
                return names.index(n)
            reg, gr, prep, sol = one("theory.register"), one("control.ground"), one("theory.prepare"), one("control.solve")
            st = [i for i, n in enumerate(names) if n == "theory.rewrite_ast"]
            if [m.log[i][1][0].path for i in st] != ["statement0", "statement1", "statement2"]:
                raise Violation("the statements are not passed to the theory exactly once in order")
            bld = m.log[names.index("enter")][1][0] if "enter" in names else None
            for i in st:
                a = m.log[i][1]
                if len(a) != 2 or bld is None or not isinstance(a[1], Opaque) or a[1].path != bld.path + ".add":
                    raise Violation("rewritten statements are not added to the builder")
            if not names.index("enter") < st[0] or not st[-1] < names.index("exit"):
                raise Violation("statements are added outside the lifetime of the builder")
            pb = [x for x in m.log if x[0] == "clingo.ast.ProgramBuilder"]
            if len(pb) != 1 or [a.path for a in pb[0][1]] != ["control"]:
                raise Violation("the builder does not belong to the control object")
            if m.log[names.index("parse")][1][0].path != "files":
                raise Violation("other files than those given are read")
            if not reg < st[0] < gr < prep < sol or names.index("exit") > gr:
                raise Violation("the order of the steps is %s" % names)
            for n in ("theory.register", "theory.prepare"):
                if [a.path for a in m.log[names.index(n)][1] if isinstance(a, Opaque)] != ["control"]:
                    raise Violation("%s is called with %s" % (n, m.log[names.index(n)][1]))
            if m.log[gr][1] != [[("base", [])]] or m.log[gr][2]:
                raise Violation("program parts %s are grounded" % (m.log[gr][1],))
            a, kw = m.log[sol][1], m.log[sol][2]
            if a or kw.get("assumptions") or kw.get("async_") or kw.get("yield_"):
                raise Violation("the search is started with %s %s" % (a, kw))
            py = names.count("clingo.script.enable_python")
            fl = m.flags.get("clingo.application.Flag()")
            if fl is None or py != int(fl) or py and names.index("clingo.script.enable_python") > names.index("parse"):
                raise Violation("Python scripts are %s although option --enable-python is %s" % ("enabled" if py else "not enabled", "set" if fl else "not set"))
            for k, n, args in (("on_model", "theory.on_model", ["model"]), ("on_statistics", "theory.on_statistics", ["step", "accu"])):
                if k not in kw:
                    raise Violation("the search is started without callback %s" % k)
                del m.log[:]
                r = m.call(kw[k], [Opaque(x) for x in args])
                if [(x[0], [y.path for y in x[1]]) for x in m.log] != [(n, args)]:
                    raise Violation("callback %s performs %s" % (k, m.log))
                if k == "on_model" and r is False:
                    raise Violation("the search is stopped after the first model")
        at(I, WM, go)
    ctx.explore("Python application: main", prog, application)

    def options(I):
        def go():
            m, o = module(I)
            del m.log[:]
            r = m.call(m.method(o, "validate_options"), [])
            if [x[0] for x in m.log] != ["theory.validate_options"]:
                raise Violation("options are not validated by the theory")
            if r is not True:
                raise Violation("valid options are rejected")
            del m.log[:]
            m.call(m.method(o, "register_options"), [Opaque("options")])
            calls = [(x[0], [y.path for y in x[1]]) for x in m.log if x[0] == "theory.register_options"]
            if calls != [("theory.register_options", ["options"])]:
                raise Violation("the options of the theory are not registered")
            fl = [x for x in m.log if x[0] == "options.add_flag" and x[1][1:2] == ["enable-python"]]
            if len(fl) != 1 or not isinstance(fl[0][1][3], Opaque) or fl[0][1][3].path != "clingo.application.Flag()":
                raise Violation("option --enable-python is not registered")
        at(I, WM, go)
    ctx.explore("Python application: options", prog, options)

    def model(I):
        def go():
            y = PySym("y", "y", [])
            x = PySym("x(1)", "x", [])
            lpx = lambda t, v: PySym("__lpx(%s,\"%s\")" % (t, v), "__lpx", [PySym(t, t, []), PySym('"%s"' % v, "", [])])
            th = [lpx("b", "3/2"), PySym("other(1)", "other", [PySym("1", "", [])]), lpx("a", "-1+e")]
            n = I.fork((0, 1, 2, 3), "theory symbols")
            k = I.fork((0, 1, 2), "shown symbols")
            m, o = module(I, th[:n], [y, x][:k])
            m.call(m.method(o, "print_model"), [Opaque("model"), Opaque("printer")])
            want = [" ".join(sorted(str(s) for s in [y, x][:k])), "Assignment:",
                    " ".join("%s=%s" % (s.args[0], s.args[1].py_string) for s in sorted(th[:n]) if s.name == "__lpx")]
            got = "".join(out).split("\n")
            if got[:3] != want or got[3:] != [""]:
                raise Violation("a model is printed as %r instead of %r" % (got, want))
            if any(x[0] == "printer" for x in m.log):
                raise Violation("a model is printed twice")
        at(I, WM, go)
    ctx.explore("Python application: models", prog, model)

    def entry(I):
        def go():
            m, o = module(I)
            if m.mainbody is None:
                raise Violation("the module cannot be run")
            del m.log[:]
            m.block(m.mainbody, {"__parent__": m.env})
            cm = [x for x in m.log if x[0] == "clingo.application.clingo_main"]
            if len(cm) != 1 or not isinstance(cm[0][1][0], Obj) or cm[0][1][0].cls.name != "ClingoLPXApp":
                raise Violation("the application is not run")
            if len(cm[0][1]) != 2 or not isinstance(cm[0][1][1], Opaque) or cm[0][1][1].path != "sys.argv[1:]":
                raise Violation("the command line is not passed on exactly")
            ex = [x for x in m.log if x[0] == "sys.exit"]
            if len(ex) != 1 or not isinstance(ex[0][1][0], Opaque) or "clingo_main()" not in ex[0][1][0].path:
                raise Violation("the exit status is not returned")
        at(I, WM, go)
    ctx.explore("Python application: entry point", prog, entry)
