"""C25: registration connects clingo with the right grammar, propagator and options."""
from absstate import *  # noqa: F401,F403
from interp import Cell, CxxThrow, FnRef, Native, Opt, PyFn, Ptr, StrPtr, Struct, Tup, Undecided, UniquePtr, Violation
from poly import EPS, Poly, to_poly
from props.c15 import func, new


class Reg:
    """The part of the C API of clingo used to register a theory."""

    def __init__(self, I, fail=None):
        self.I, self.fail, self.log, self.errors = I, fail, [], 0
        I.overrides.update({"clingo_set_error": self.error, "Clingo::Detail::handle_cxx_error": self.error,
                            "Clingo::Detail::handle_error": self.handle,
                            "clingo_control_add": self.add, "clingo_control_register_propagator": self.reg})

    def error(self, I, this, args, n):
        self.errors += 1

    def handle(self, I, this, args, n):
        if I.rv(args[0]) is not True:
            raise CxxThrow("std::runtime_error")

    def text(self, x):
        v = self.I.rv(x)
        if isinstance(v, StrPtr):
            return v.s[v.i:]
        raise Undecided("text")

    def add(self, I, this, args, n):
        ctl, name, params, size, text = (I.rv(a) for a in args)
        self.log.append(("add", ctl, self.text(name), params, size, self.text(text)))
        return self.fail != "add"

    def reg(self, I, this, args, n):
        ctl, tab, data, seq = (I.rv(a) for a in args)
        self.log.append(("register", ctl, tab, data, seq))
        return self.fail != "register"


def wrapped(kind):
    """C++ wrapper around a pointer of the C interface (copies are the same wrapper)."""
    def f(I, this, a, n):
        v = I.rv(a[0])
        return v if isinstance(v, tuple) and v[:1] == (kind,) else (kind, v)
    return f


def run(ctx):
    prog = ctx.prog("clingo-lpx", "solving", "problem")
    ctx.rule("clingolpx_register is interpreted for all combinations of options: it adds exactly the grammar of the mode and "
             "registers one propagator whose callbacks, invoked with arbitrary arguments, pass them unchanged to the propagator "
             "of the number type of the mode, which got exactly the configured options.")
    sel = {k: ctx.enum(prog, "SelectionHeuristic", k) for k in ("None", "Match", "Conflict")}
    en = {"propagate_mode": [ctx.enum(prog, "PropagateMode", k) for k in ("None", "Changed", "Full")],
          "store_sat_assignment": [ctx.enum(prog, "StoreSATAssignments", k) for k in ("No", "Partial", "Total")],
          "propagate_conflicts": [False, True], "select": list(sel.values())}

    def register(I, fail=None, vary=True):
        api = Reg(I, fail)
        th, p = new(I)
        strict = I.fork((False, True), "strict")
        th.set("strict", strict)
        o = I.rv(th.get("options"))
        opts = {}
        for k, vs in en.items():
            if not vary and k != "select":
                continue
            opts[k] = I.fork(vs, k)
            o.set(k, opts[k])
        step = I.fork((None, 0, 3), "step") if vary else None
        if step is not None:
            o.set("global_objective", Opt(Cell(Poly.const(step) + (Poly.sym(EPS) if strict else 0))))
        opts[""] = step is not None
        ctl = Ptr(Cell("control"))
        r = I.rv(I.call_function(func(prog, "clingolpx_register"), None, [p, ctl]))
        return api, th, strict, opts, ctl, r

    def same(a, b):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell() is b.cell()

    def whole(I, vary=True):
        api, th, strict, opts, ctl, r = register(I, None, vary)
        if r is not True or api.errors:
            raise Violation("registering the theory fails")
        kinds = [x[0] for x in api.log]
        if kinds.count("register") != 1:
            raise Violation("%d propagators are registered" % kinds.count("register"))
        if not kinds.count("add"):
            raise Violation("no grammar is added")
        for x in api.log:
            if not same(x[1], ctl):
                raise Violation("the theory is registered with another control object")
            if x[0] == "add" and (x[2] != "base" or x[4] != 0):
                raise Violation("the grammar is added to program part %s/%s, which is not grounded" % (x[2], x[4]))
        return api, th, strict, opts, ctl, next(x for x in api.log if x[0] == "register")

    def prop_of(I, th):
        f = I.deref(I.rv(th.get("clingolpx")).p) if isinstance(I.rv(th.get("clingolpx")), UniquePtr) and I.rv(th.get("clingolpx")).p is not None else None
        if f is None:
            raise Violation("the theory does not keep its propagator")
        return f.v.cell("prop_") if hasattr(f.v, "cell") else f.v.f["prop_"]

    def options(I):
        api, th, strict, opts, ctl, (_, _, tab, data, seq) = whole(I, True)
        if seq is not False:
            raise Violation("the callbacks of the threads are serialised")
        p = prop_of(I, th)
        V = "RationalQ" if strict else "Rational"
        if p.v.cls != "Propagator<%s>" % V:
            raise Violation("%s mode uses %s" % ("strict" if strict else "standard", p.v.cls))
        if not isinstance(data, Ptr) or data.cell() is not p:
            raise Violation("the data pointer of the callbacks is not the propagator kept by the theory")
        got = I.rv(p.v.get("options_"))
        g = I.rv(got.get("global_objective"))
        want = I.rv(I.rv(th.get("options")).get("global_objective"))
        if (g.c is None) != (not opts.pop("")) or g.c is not None and to_poly(g.c.v) - to_poly(want.c.v) != 0:
            raise Violation("the step for global optimization is not passed to the propagator")
        for k, x in opts.items():
            if I.rv(got.get(k)) != x:
                raise Violation("option %s is configured as %s but the propagator gets %s" % (k, x, I.rv(got.get(k))))

    CALLS = {
        "init": ("Propagator::init", lambda: [Ptr(Cell("ctl"))]),
        "propagate": ("Propagator::propagate", lambda: [Ptr(Cell("ctl"))]),
        "undo": ("Propagator::undo", lambda: [Ptr(Cell("ctl"))]),
        "check": ("Propagator::check", lambda: [Ptr(Cell("ctl"))]),
        "decide": ("Propagator::decide", lambda: []),
    }

    def callback(name):
        def f(I):
            api, th, strict, opts, ctl, (_, _, tab, data, seq) = whole(I, False)
            p = prop_of(I, th)
            V = "RationalQ" if strict else "Rational"
            t = I.deref(tab).v
            fs = {k: I.rv(t.get(k)) for k in CALLS}
            fn = fs[name]
            if name == "decide":
                if (fn is None) != (opts["select"] == sel["None"]):
                    raise Violation("decisions are %s although option select is %s" % (
                        "not left to the solver" if fn is not None else "left to the solver", [k for k, v in sel.items() if v == opts["select"]][0]))
                if fn is None:
                    return
            elif fn is None:
                raise Violation("no callback %s is registered" % name)
            if not isinstance(fn, FnRef):
                raise Undecided("callback " + name)
            log = []
            I.overrides["Clingo::PropagateInit"] = wrapped("init")
            I.overrides["Clingo::PropagateControl"] = wrapped("control")
            I.overrides["Clingo::Assignment"] = wrapped("assignment")
            fail = name != "undo" and I.fork((False, True), "the propagator throws")

            def rec(what):
                def g(I, this, args, n):
                    log.append((what, this, [I.rv(a) for a in args], n["f"]))
                    if fail:
                        raise CxxThrow("std::runtime_error")
                    return 17 if what == "decide" else None
                return g
            for k, (q, _) in CALLS.items():
                I.overrides[q] = rec(k)
            cp = Ptr(Cell("clingo"))
            changes = Vec([Cell(3), Cell(-5), Cell(7)])
            size = I.fork((0, 2, 3), "number of changes")
            out = Cell(99, "int")
            args = {"init": [cp, data], "check": [cp, data], "propagate": [cp, Ptr(None, changes, 0), size, data],
                    "undo": [cp, Ptr(None, changes, 0), size, data], "decide": [6, cp, -9, data, Ptr(out)]}[name]
            before = api.errors
            r = I.rv(I.call_function(prog.functions[fn.f], None, args))
            if len(log) != 1 or log[0][0] != name:
                raise Violation("callback %s calls %s of the propagator" % (name, [x[0] for x in log] or "nothing"))
            what, this, a, fid = log[0]
            if this is not p or not fid.startswith("Propagator<%s>::" % V):
                raise Violation("callback %s does not use the registered propagator" % name)
            if name == "decide":
                ok = a[0] == 6 and a[1][0] == "assignment" and same(a[1][1], cp) and a[2] == -9
            else:
                ok = a[0][0] == ("init" if name == "init" else "control") and same(a[0][1], cp)
                if name in ("propagate", "undo"):
                    ok = ok and isinstance(a[1], Vec) and [c.v for c in a[1].items] == [3, -5, 7][:size]
            if not ok:
                raise Violation("callback %s does not pass its arguments on" % name)
            if name == "undo":
                return
            if r is not (not fail):
                raise Violation("callback %s reports %s although the propagator %s" % (name, r, "throws" if fail else "succeeds"))
            if fail and api.errors == before:
                raise Violation("callback %s fails without setting an error" % name)
            if name == "decide" and not fail and out.v != 17:
                raise Violation("the decision of the propagator is not returned to the solver")
        return f

    def failing(I):
        fail = I.fork(("add", "register"), "failing call")
        api, th, strict, opts, ctl, r = register(I, fail, False)
        if r is not False:
            raise Violation("registration succeeds although clingo rejects it")
        if not api.errors:
            raise Violation("registration fails without an error")

    ctx.explore("registration: propagator and options", prog, options)
    ctx.explore("registration: failures", prog, failing)
    for k in CALLS:
        ctx.explore("callback " + k, prog, callback(k))
    application(ctx)


class Builder(Native):
    def __init__(self, ctl):
        self.ctl, self.open, self.ptr = ctl, True, Ptr(Cell("builder"))

    def m_to_c(self, I):
        return self.ptr

    def m_add(self, I, stm):
        raise Undecided("statement added directly")


class Handle(Native):
    def __init__(self, ctl):
        self.ctl = ctl

    def m_get(self, I):
        self.ctl.log.append("get")
        return Cell("result")

    def m_wait(self, I, *a):
        return True


class Ctl(Native):
    """Clingo::Control as used by the application."""

    def __init__(self, log, fail=None):
        self.log, self.fail, self.ptr, self.builder, self.handler = log, fail, Ptr(Cell("control")), None, None

    def m_to_c(self, I):
        return self.ptr

    def m_ground(self, I, parts, *rest):
        ps = []
        for c in I.rv(parts).items:
            x = I.rv(c.v)
            xs = [I.rv(y) for y in (x.items if isinstance(x, Tup) else x.f.values())]
            nm = xs[0].s[xs[0].i:] if isinstance(xs[0], StrPtr) else None
            ps.append((nm, len(xs[1].items) if len(xs) > 1 and isinstance(xs[1], Vec) else 0))
        self.log.append(("ground", tuple(ps)))
        if self.fail == "ground":
            raise CxxThrow("std::runtime_error")

    def m_solve(self, I, *args):
        a = [I.rv(x) for x in args]
        self.handler = a[1] if len(a) > 1 else None
        if isinstance(a[0], Vec) and a[0].items:
            raise Violation("the application solves under assumptions")
        if len(a) > 2 and a[2] is not False or len(a) > 3 and a[3] is not False:
            self.log.append("background")
        self.log.append("solve")
        return Handle(self)

    def m_clear_builder(self, I):
        return None


FILES = ("a.lp", "b.lp", "c.lp")


def application(ctx):
    prog = ctx.prog("main", "app", "clingo-lpx", "problem", "solving")
    ctx.rule("App and Rewriter are interpreted with a model of the C++ API: main registers the theory, passes every statement "
             "through clingolpx_rewrite_ast to the builder exactly once, grounds base, solves with itself as event handler, and "
             "waits for the result; each callback and option hook is passed to the theory created by the application; any "
             "failure ends the run with an exception.")

    def method(cls, name, nparams=None):
        fs = [f for f in prog.functions.values() if f.get("cls") == "ClingoLPX::" + cls and f["name"] == name and
              (nparams is None or len(f["params"]) == nparams)]
        if not fs:
            raise Undecided("function %s::%s not found" % (cls, name))
        return fs

    class World:
        """The theory as seen by the application."""

        def __init__(self, I, fail=None):
            self.I, self.fail, self.log, self.th = I, fail, [], Ptr(Cell("theory"))
            O = I.overrides
            O["Clingo::Detail::handle_error"] = self.handle
            O["clingolpx_create"] = self.create
            O["clingolpx_destroy"] = self.other("destroy")
            for k in ("register", "on_model", "on_statistics", "register_options", "validate_options", "prepare"):
                O["clingolpx_" + k] = self.other(k)
            O["clingo_program_builder_add"] = self.add
            O["clingo_ast_parse_files"] = self.files
            O["clingo_ast_parse_string"] = self.string
            O["Clingo::Part"] = lambda I, this, a, n: I.rv(a[0]) if len(a) == 1 and isinstance(I.rv(a[0]), Tup) else Tup([Cell(I.rv(x)) for x in a])
            O["Clingo::AST::with_builder"] = self.with_builder
            self.ctl = Ctl(self.log, fail)
            self.stms = []
            self.source = None
            # construction of the base classes is not relevant
            self.app = I.new_struct("ClingoLPX::App")
            self.cell = Cell(self.app)

        def handle(self, I, this, args, n):
            if I.rv(args[0]) is not True:
                raise CxxThrow("std::runtime_error")

        def create(self, I, this, args, n):
            self.log.append("create")
            if self.fail == "create":
                return False
            I.deref(I.rv(args[0])).v = self.th
            return True

        def other(self, k):
            def f(I, this, args, n):
                a = [I.rv(x) for x in args]
                self.log.append((k,) + tuple(a[1:]))
                if not isinstance(a[0], Ptr) or a[0].cell() is not self.th.cell():
                    raise Violation("clingolpx_%s is called for another theory" % k)
                return self.fail != k
            return f

        def add(self, I, this, args, n):
            b, s = (I.rv(x) for x in args)
            if self.ctl.builder is None or not isinstance(b, Ptr) or b.cell() is not self.ctl.builder.ptr.cell():
                raise Violation("a statement is added to another builder")
            if not self.ctl.builder.open:
                raise Violation("a statement is added to a closed builder")
            self.log.append(("statement", s.cell().v))
            return not (self.fail == "add" and s.cell().v == 1)

        def parse(self, I, cb, data, ctl):
            if not isinstance(ctl, Ptr) or ctl.cell() is not self.ctl.ptr.cell():
                raise Violation("the program is parsed with another control object")
            for i in range(3):
                if not isinstance(cb, FnRef):
                    raise Undecided("callback for statements")
                if I.rv(I.call_function(prog.functions[cb.f], None, [Ptr(Cell(i)), data])) is not True:
                    return False
            return self.fail != "parse"

        def files(self, I, this, args, n):
            a = [I.rv(x) for x in args]
            p = a[0]
            self.source = [c.v.s for c in p.vec.items[p.i:p.i + a[1]]] if isinstance(p, Ptr) and p.vec is not None else None
            return self.parse(I, a[2], a[3], a[4])

        def string(self, I, this, args, n):
            a = [I.rv(x) for x in args]
            self.source = a[0].s if isinstance(a[0], StrPtr) else None
            return self.parse(I, a[1], a[2], a[3])

        def with_builder(self, I, this, args, n):
            if I.rv(args[0]) is not self.ctl:
                raise Violation("the builder belongs to another control object")
            b = self.ctl.builder = Builder(self.ctl)
            self.log.append("begin")
            I.call_clo(I.rv(args[1]), [Cell(b)])
            b.open = False
            self.log.append("end")

        def new(self):
            fs = [f for f in prog.functions.values() if f.get("ctor") and f.get("cls") == "ClingoLPX::App" and not f["params"]]
            if not fs:
                raise Undecided("no constructor of App")
            self.I.call_function(fs[0], self.cell, [])

        def span(self):
            return Vec([Cell(StrPtr(x)) for x in FILES])

    def lifetime(I):
        fail = I.fork((None, "create"), "failure")
        w = World(I, fail)
        try:
            w.new()
        except CxxThrow:
            if fail is None:
                raise Violation("the application cannot be created")
            return
        if fail:
            raise Violation("the application ignores that the theory cannot be created")
        d = [f for f in prog.functions.values() if f.get("cls") == "ClingoLPX::App" and f["name"].startswith("~")]
        if w.log != ["create"]:
            raise Violation("creating the application performs %s" % w.log)
        if d:
            I.call_function(d[0], w.cell, [])
            if w.log != ["create", ("destroy",)]:
                raise Violation("the theory is destroyed %d times" % w.log.count(("destroy",)))

    def main(I):
        fail = I.fork((None, "register", "add", "parse", "ground"), "failure")
        w = World(I, fail)
        w.new()
        del w.log[:]
        try:
            I.call_function(method("App", "main")[0], w.cell, [Cell(w.ctl), w.span()])
        except CxxThrow:
            if not fail:
                raise Violation("solving fails without cause")
            if "solve" in w.log:
                raise Violation("solving continues after %s failed" % fail)
            return
        if fail:
            raise Violation("the failure of %s is ignored" % fail)
        log = [x[0] if isinstance(x, tuple) else x for x in w.log]
        for k in ("register", "ground", "solve"):
            if log.count(k) != 1:
                raise Violation("step %s is performed %d times" % (k, log.count(k)))
        if "background" in log or "get" not in log[log.index("solve"):]:
            raise Violation("the application does not wait for the search")
        if [x[1] for x in w.log if x[0] == "statement"] != [0, 1, 2]:
            raise Violation("the statements of the program are not added exactly once in order")
        if w.source != list(FILES):
            raise Violation("the files %s are read instead of those given" % (w.source,))
        order = [log.index("register"), log.index("statement"), log.index("ground"), log.index("solve")]
        if order != sorted(order):
            raise Violation("the order of the steps is %s" % log)
        if log.index("ground") < log.index("end"):
            raise Violation("the program is grounded before it is complete")
        r = next(x for x in w.log if x[0] == "register")
        if not isinstance(r[1], Ptr) or r[1].cell() is not w.ctl.ptr.cell():
            raise Violation("the theory is registered with another control object")
        if next(x for x in w.log if x[0] == "ground")[1] != (("base", 0),):
            raise Violation("program part base is not grounded")
        h = w.ctl.handler
        if not isinstance(h, Ptr) or h.cell() is not w.cell:
            raise Violation("the application does not handle the events of the search, so models and statistics do not reach the theory")

    def string(I):
        fail = I.fork((None, "add", "parse"), "failure")
        w = World(I, fail)
        w.ctl.builder = Builder(w.ctl)
        r = I.construct("ClingoLPX::Rewriter", [w.th, w.ctl.builder.ptr])
        w2 = Cell(r)
        kind = I.fork(("files", "text"), "source")
        fs = [f for f in method("Rewriter", "rewrite", 2) if ("Span" in f["params"][1]["t"]) == (kind == "files")]
        if not fs:
            raise Undecided("Rewriter::rewrite not found")
        try:
            I.call_function(fs[0], w2, [Cell(w.ctl), w.span() if kind == "files" else StrPtr("p.")])
        except CxxThrow:
            if not fail:
                raise Violation("rewriting fails without cause")
            return
        if fail:
            raise Violation("a failure while rewriting is ignored")
        if w.source != (list(FILES) if kind == "files" else "p."):
            raise Violation("%s is rewritten instead of the given program" % (w.source,))
        if [x[1] for x in w.log if x[0] == "statement"] != [0, 1, 2]:
            raise Violation("the statements of the program are not added exactly once in order")

    class Obj(Native):
        def __init__(self):
            self.ptr = Ptr(Cell("object"))

        def m_to_c(self, I):
            return self.ptr

    def hook(name, key, n, rt):
        def f(I):
            fail = I.fork((None, key), "failure")
            w = World(I, fail)
            w.new()
            del w.log[:]
            objs = [Obj() for _ in range(n)]
            try:
                r = I.rv(I.call_function(method("App", name)[0], w.cell, [Cell(o) for o in objs]))
            except CxxThrow:
                if not fail:
                    raise Violation("%s fails without cause" % name)
                return
            if fail:
                raise Violation("the failure of clingolpx_%s is ignored" % key)
            if len(w.log) != 1 or w.log[0][0] != key:
                raise Violation("%s does not pass its call to the theory" % name)
            got = w.log[0][1:]
            if len(got) != n or any(not isinstance(g, Ptr) or g.cell() is not o.ptr.cell() for g, o in zip(got, objs)):
                raise Violation("%s does not pass its arguments to the theory" % name)
            if rt is not None and r is not rt:
                raise Violation("%s returns %s, which stops the search" % (name, r))
        return f

    ctx.explore("application: lifetime of the theory", prog, lifetime)
    ctx.explore("application: main", prog, main)
    ctx.explore("rewriter", prog, string)
    for name, key, n, rt in (("on_model", "on_model", 1, True), ("on_statistics", "on_statistics", 2, None),
                             ("register_options", "register_options", 1, None), ("validate_options", "validate_options", 0, None)):
        ctx.explore("application: " + name, prog, hook(name, key, n, rt))

    def entry(I):
        got = []
        w = World(I)
        I.overrides["ClingoLPX::App"] = lambda I, this, a, n: w.app
        I.overrides["Clingo::clingo_main"] = lambda I, this, a, n: got.append((I.rv(a[0]), I.rv(a[1]))) or 5
        k = I.fork((1, 2, 4), "argc")
        argv = Vec([Cell(StrPtr("arg%d" % i)) for i in range(k)])
        fs = [f for f in prog.functions.values() if f["name"] == "main" and not f.get("cls")]
        if not fs:
            raise Undecided("main not found")
        r = I.rv(I.call_function(fs[0], None, [k, Ptr(None, argv, 0)]))
        if len(got) != 1 or got[0][0] is not w.app:
            raise Violation("the application is not run by main")
        if [c.v.s for c in got[0][1].items] != ["arg%d" % i for i in range(1, k)]:
            raise Violation("the command line is not passed on exactly")
        if r != 5:
            raise Violation("the exit status of clingo is not returned")
    ctx.explore("entry point", prog, entry)
