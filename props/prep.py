"""Setting up a solver from inequalities (shared by C01, C04 and C09)."""
from clingo_model import Control, World
from interp import Cell, MapObj, Ptr, Struct, Sym, Tup, Undecided, Vec, Violation
from poly import EPS, Poly

LE, GE, EQ, LT, GT = 0, 1, 2, 3, 4
RN = {LE: "<=", GE: ">=", EQ: "=", LT: "<", GT: ">"}


def coeff(I, name, sign=None):
    """A rational with symbolic numerator and denominator, not zero."""
    n, d = Poly.sym(name), Poly.sym(name + "d")
    I.facts.assume(d, ">")
    I.facts.assume(n, sign or "!=")
    v = n / d
    I.ratio[v] = (n, d)
    I.ratio[-v] = (-n, d)
    return v


def term(I, co, var):
    t = I.new_struct("Term")
    t.set("co", co)
    t.set("var", var)
    return Cell(t)


def inequality(I, lhs, rhs, rel, lit):
    x = I.new_struct("Inequality")
    x.get("lhs").items = lhs
    x.set("rhs", rhs)
    x.set("rel", rel)
    x.set("lit", lit)
    return Cell(x)


class Setup:
    """Runs prepare on inequalities [(terms {var: coefficient}, rhs, rel, lit)]."""

    def __init__(self, I, V, nvars, iqs, objective=None, master=True, options=None, truths=None, may_fail=False, world=None):
        if I.prog.enums.get("Relation") != {"LessEqual": LE, "GreaterEqual": GE, "Equal": EQ, "Less": LT, "Greater": GT}:
            raise Undecided("unexpected representation of relations")
        self.I, self.V, self.iqs = I, V, iqs
        self.w = world or World(level=0)
        self.w.may_fail = may_fail
        self.w.truths = {} if truths is None else truths
        self.cls = "Solver<%s>" % V
        self.opt = I.new_struct("Options")
        for k, v in (options or {}).items():
            self.opt.set(k, v)
        self.s = I.new_struct(self.cls)
        self.s.f["options_"] = Cell(self.opt)
        self.syms = [Sym("function", "x%d" % i) for i in range(nvars)]
        self.map = MapObj("unordered_map", "Clingo::Symbol", "unsigned int")
        for i, s in enumerate(self.syms):
            self.map.nodes.append(Cell(Tup([Cell(s), Cell(i)])))
        self.ctl = Cell(Control(self.w))
        cs = [inequality(I, [term(I, c, self.syms[v]) for v, c in t.items()], rhs, rel, lit) for t, rhs, rel, lit in iqs]
        ob = [term(I, c, self.syms[v]) for v, c in (objective or {}).items()]
        self.objective = objective
        self.ret = I.call_method(Cell(self.s), "prepare", self.ctl, Cell(self.map), Cell(Vec(cs, "Inequality")),
                                 Cell(Vec(ob, "Term")), master)
        self.nvars = nvars

    def bounds(self, lit):
        return [n.v.items[1].v for n in self.s.get("bounds_").nodes if self.I.rv(n.v.items[0].v) == lit]

    def matrix(self):
        from absstate import SolverState
        h = SolverState.__new__(SolverState)
        h.I, h.tab = self.I, self.s.get("tableau_")
        return h.matrix()

    def expr(self, var, M=None):
        """Variable of the solver as {original variable: coefficient}."""
        M = self.matrix() if M is None else M
        vs = self.s.get("variables_").items
        if not 0 <= var < len(vs):
            raise Violation("a bound refers to a variable that does not exist")
        pos = vs[var].v.get("reverse_index")
        nb = self.s.get("n_non_basic_")
        if pos < nb:
            return {vs[pos].v.get("index"): Poly.const(1)}
        return {vs[j].v.get("index"): a for (i, j), a in M.items() if i == pos - nb}

    def equivalent(self, terms, rhs, rel, bound, M, what):
        """terms rel rhs and the bound describe the same set."""
        I = self.I
        e = self.expr(bound.get("variable"), M)
        if set(e) != set(terms):
            raise Violation("%s: the bound is on an expression with other variables than the constraint" % what)
        v0 = next(iter(terms))
        lam = e[v0] / terms[v0]
        s = I.sign(lam)
        for v in terms:
            if not I.is_zero(e[v] - lam * terms[v]):
                raise Violation("%s: the coefficients of the bounded expression are not proportional to the constraint" % what)
        b = bound.get("value")
        b0, b1 = b.split(EPS) if EPS in b.symbols() else (b, Poly.const(0))
        if not I.is_zero(b0 - lam * rhs):
            raise Violation("%s: the bound has the wrong value (%s instead of %s)" % (what, b0, lam * rhs))
        r = rel
        if s < 0:
            r = {LE: GE, GE: LE, EQ: EQ, LT: GT, GT: LT}[rel]
        want = {LE: LE, LT: LE, GE: GE, GT: GE, EQ: EQ}[r]
        if bound.get("rel") != want:
            raise Violation("%s: the bound has relation %s instead of %s" % (what, RN[bound.get("rel")], RN[want]))
        k = I.sign(b1)
        if k != {LT: -1, GT: 1}.get(r, 0):
            raise Violation("%s: a strict bound is treated as a non-strict one or vice versa" % what)

    def wellformed(self, what="after setting up the solver"):
        I = self.I
        vs = self.s.get("variables_").items
        nb, b = self.s.get("n_non_basic_"), self.s.get("n_basic_")
        if nb != self.nvars or nb + b != len(vs):
            raise Violation("%s: the number of rows and columns does not match the number of variables" % what)
        seen = set()
        for pos, c in enumerate(vs):
            x = c.v.get("index")
            if x in seen or not 0 <= x < len(vs) or vs[x].v.get("reverse_index") != pos:
                raise Violation("%s: the mapping between variables and positions is no bijection" % what)
            seen.add(x)
            if not I.is_zero(vs[x].v.get("value")):
                raise Violation("%s: variables do not start with value zero" % what)
            if vs[x].v.get("lower_bound") is not None or vs[x].v.get("upper_bound") is not None:
                raise Violation("%s: a bound is in force although no literal has been assigned" % what)
        M = self.matrix()
        if any(i >= b or j >= nb for i, j in M):
            raise Violation("%s: the tableau has entries outside of the rows and columns" % what)
        for n in self.s.get("bounds_").nodes:
            bd = n.v.items[1].v
            if bd.get("lit") != I.rv(n.v.items[0].v):
                raise Violation("%s: a bound is stored with a literal different from its own" % what)
            v = vs[bd.get("variable")].v
            k = sum(1 for p in v.get("bounds").items if I.rv(p.v.cell()) is bd or p.v.cell() is n.v.items[1])
            if k != 1:
                raise Violation("%s: a variable does not list the bounds on it exactly once" % what)
        if sum(len(c.v.get("bounds").items) for c in vs) != len(self.s.get("bounds_").nodes):
            raise Violation("%s: a variable lists bounds on another variable" % what)
        return M
