"""C17: models are extended with, and printed with, the values of the variables."""
from props.facade import *
from interp import PyFn


class Model(Native):
    def __init__(self, thread, shown=(), theory=(), atoms=(), terms=()):
        self.thread, self.ext, self.shown, self.theory, self.atoms, self.terms = thread, [], shown, theory, atoms, terms

    def m_thread_id(self, I):
        return self.thread

    def m_extend(self, I, syms):
        self.ext += [sym_of(I.rv(c)) for c in I.rv(syms).items]

    def m_symbols(self, I, *which):
        w = int(I.rv(which[0])) if which else 2
        if w & 32:
            raise Undecided("symbols of kind %s" % (w,))
        out = []
        for bit, syms in ((2, self.shown), (4, self.atoms), (8, self.terms), (16, self.theory)):
            if w & bit:
                out += [s for s in syms if s not in out]
        return Vec([Cell(s) for s in out], "Clingo::Symbol")

    def m_context(self, I):
        return self

    def m_to_c(self, I):
        return self


def lpx(s, v):
    return Sym("function", "__lpx", [s, Sym("string", name=v)])


def run(ctx):
    ctx.rule("clingolpx_on_model is interpreted for all patterns of user and auxiliary variables up to the bound, arbitrary "
             "values and objectives: the model is extended with exactly one symbol per user variable and one for an objective, "
             "and the objective of the model is published. App::print_model is interpreted for models with and without values.")
    prog = ctx.prog("clingo-lpx", "solving", "problem")
    N = 5 if ctx.thorough else 3
    ctx.assume("patterns of at most %d variables; each variable is treated separately" % N)

    def extend(V):
        def f(I):
            obj = I.fork((None, True, False), "objective")
            glob = I.fork((False, True), "global objective")
            th = Theory(I, prog, V, kinds(I, N), objective=obj, glob=glob)
            t = I.fork((0, 1), "thread")
            m = Model(t)
            I.overrides["Clingo::Model"] = lambda I, this, args, n: m
            r = th.call("clingolpx_on_model", Ptr(Cell(m)))
            if r is not True:
                raise Violation("extending a model fails")
            want = [lpx(s, value_text(th.values[t][i])) for i, (s, a) in enumerate(zip(th.syms, th.ks)) if not a]
            if obj is not None:
                want.append(Sym("function", "__lpx_objective", [Sym("string", name=value_text(th.values[t][len(th.ks)])), Sym("number", num=int(obj))]))
            for s in m.ext:
                if s not in want:
                    raise Violation("the model is extended with %s" % s)
            for s in want:
                if m.ext.count(s) != 1:
                    raise Violation("symbol %s is added %d times to the model" % (s, m.ext.count(s)))
            st = th.p.get("objective_state_")
            pub = st.get("generation_") != 0
            if pub != (glob and obj is not None):
                raise Violation("the objective of the model is %s" % ("published" if pub else "not published"))
            if pub and bool(st.get("bounded_")) != obj:
                raise Violation("the published objective is %s" % ("bounded" if obj is False else "unbounded"))
            if pub and obj and not I.is_zero(to_poly(I.rv(st.get("value_"))) - th.values[t][len(th.ks)]):
                raise Violation("the published objective is not the one of the model")
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("extension (%s)" % V, prog, extend(V))
    app = ctx.prog("main")
    x, y, fx = Sym("function", "x"), Sym("function", "y"), Sym("function", "f", [Sym("number", num=1)])

    def show(s):
        if isinstance(s, SymStr):
            return "".join(p if isinstance(p, str) else show(p[1]) for p in s.parts)
        if isinstance(s, Sym):
            if s.kind == "number":
                return str(s.num)
            if s.kind == "string":
                return '"%s"' % s.name
            return ("" if s.pos else "-") + s.name + ("(" + ",".join(show(a) for a in s.args) + ")" if s.args else "")
        return str(s)

    def printing(I):
        shown = I.fork(((), (fx,), (y, x), (fx, lpx(x, "5"))), "shown symbols")
        vals = I.fork(((), ((x, "1"),), ((y, "1/2"), (x, "-3+e")), ((fx, "0"),)), "values")
        obj = I.fork((None, ("5/2", True), ("7", False)), "objective")
        other = I.fork(((), (Sym("function", "__lpx", [x, x]),), (Sym("function", "__lpx", [x]),), (Sym("function", "lpx", [x, Sym("string", name="1")]),),
                        (Sym("function", "__lpx_objective", [x, x]),)), "symbols of other theories")
        theory = [lpx(s, v) for s, v in vals] + list(other)
        if obj is not None:
            theory.insert(I.fork((0, len(vals)), "position"), Sym("function", "__lpx_objective", [Sym("string", name=obj[0]), Sym("number", num=int(obj[1]))]))
        # a user may have atoms and terms that are not shown and are named like the symbols of the theory
        z = Sym("function", "z")
        m = Model(0, shown, theory, tuple(shown) + (lpx(z, "8"), z), (Sym("function", "__lpx_objective", [Sym("string", name="9"), Sym("number", num=1)]),))
        from models import Stream
        out = Stream()
        I.globals["std::cout"] = Cell(out)
        a = I.new_struct("ClingoLPX::App")
        fs = [f for f in app.functions.values() if f["n"].endswith("App::print_model")]
        if not fs:
            raise Undecided("function App::print_model not found")
        I.call_function(fs[0], Cell(a), [Cell(m), Cell(PyFn(lambda I, *a: None))])
        text = "".join(p if isinstance(p, str) else show(p[1]) for p in out.parts)
        lines = text.split("\n")
        want = [[show(s) for s in sorted(shown, key=I.sym_order)],
                ["%s=%s" % (show(s), v) for s, v in sorted(vals, key=lambda t: I.sym_order(lpx(*t)))]]
        if lines[:1] == [] or "Assignment:" not in lines:
            raise Violation("the assignment is not printed")
        i = lines.index("Assignment:")
        if i + 1 >= len(lines) or not text.endswith("\n"):
            raise Violation("the output of a model does not end with a complete line")
        got = [" ".join(lines[:i]).split(), lines[i + 1].split()]
        for l in lines[:i] + [lines[i + 1]]:
            if l != " ".join(l.split()):
                raise Violation("values are not separated by single spaces: '%s'" % l)
        for g, w, what in zip(got, want, ("symbols", "values")):
            if g != w:
                raise Violation("the %s of the model are %s but %s is printed%s" % (what, w, g, " (wrong order)" if sorted(g) == sorted(w) else ""))
        opt = [l for l in lines[i + 2:] if l.startswith("Optimization")]
        wopt = [] if obj is None else ["Optimization: %s [%s]" % (obj[0], "bounded" if obj[1] else "unbounded")]
        if opt != wopt:
            raise Violation("the objective %s is printed as %s" % (obj, opt))
    ctx.explore("printing", app, printing)
