"""A theory object of the C interface with arbitrary variables and values."""
from absstate import *  # noqa: F401,F403
from interp import Cell, CxxThrow, MapObj, Native, Opt, Ptr, StrPtr, Struct, Sym, SymStr, Tup, Undecided, UniquePtr, Vec, Violation
from poly import EPS, Poly, to_poly

USER = [Sym("function", "x"), Sym("string", name="x"), Sym("function", "f", [Sym("number", num=1)]), Sym("function", "y", pos=False),
        Sym("function", "", [Sym("function", "a"), Sym("function", "b")])]
TYPES = {"infimum": 0, "number": 1, "string": 4, "function": 5, "supremum": 7}


def kinds(I, maxn):
    """Which of the variables are auxiliary ones (numbers)."""
    n = I.fork(tuple(range(maxn + 1)), "number of variables")
    return [I.fork((False, True), "variable %d is auxiliary" % i) for i in range(n)]


class Theory:
    def __init__(self, I, prog, V, ks, threads=2, objective=None, glob=False):
        self.I, self.prog, self.V, self.ks = I, prog, V, ks
        f = self.f = I.new_struct("(anonymous namespace)::LPXPropagatorFacade<%s>" % V)
        p = self.p = f.get("prop_")
        self.syms = [Sym("number", num=i + 1) if a else USER[i % len(USER)] for i, a in enumerate(ks)]
        p.get("var_vec_").items = [Cell(s) for s in self.syms]
        m = p.get("var_map_")
        m.nodes = [Cell(Tup([Cell(s), Cell(i)])) for i, s in enumerate(self.syms)]
        self.values, slvs = [], []
        for t in range(threads):
            s = I.new_struct("Solver<%s>" % V)
            vals = [self.value("v%d_%d" % (t, i)) for i in range(len(ks) + 2)]
            vs = []
            for x in vals:
                v = I.new_struct("Solver<%s>::Variable" % V)
                v.set("value", x)
                vs.append(Cell(v))
            s.get("variables_").items = vs
            if objective is not None:
                o = s.get("objective_")
                o.set("active", True)
                o.set("var", len(ks))
                o.set("bounded", objective)
            self.values.append(vals)
            s.f["options_"] = p.f["options_"]
            slvs.append(Cell(Tup([Cell(0), Cell(s)])))
        p.get("slvs_").items = slvs
        if glob:
            p.get("options_").set("global_objective", Opt(Cell(Poly.const(0))))
        th = self.th = I.new_struct("clingolpx_theory")
        th.set("clingolpx", UniquePtr(Ptr(Cell(f))))
        self.ptr = Ptr(Cell(th))

    def value(self, n):
        v = Poly.sym(n)
        if self.V == "RationalQ":
            v = v + Poly.sym(EPS) * Poly.sym(n + "k")
        return v

    def call(self, name, *args):
        fs = [g for g in self.prog.functions.values() if g["name"] == name and g.get("externc")]
        if not fs:
            raise Undecided("function %s not found" % name)
        r = self.I.call_function(fs[0], None, [self.ptr] + list(args))
        return self.I.rv(r)

    def csym(self, s):
        return ("csym", s)


def sym_of(x):
    if isinstance(x, tuple) and x and x[0] == "csym":
        return x[1]
    return x


def value_text(v):
    """Text of a number written to a stream."""
    return SymStr((("num", v),))


def out_value(I):
    """A clingolpx_value_t; the members of its union are separate cells."""
    v = I.new_struct("clingolpx_value")
    for m in ("int_number", "double_number", "symbol"):
        v.f.setdefault(m, Cell(None))
    return v
