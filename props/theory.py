"""Scenarios for evaluate_theory shared by the checks of the theory language."""
import itertools

from absstate import *  # noqa: F401,F403
from interp import Cell, CxxThrow, MapObj, Native, Opt, PyFn, Struct, Sym, Tup, Undecided, Vec, Violation
from poly import Poly, to_poly
from theory_model import (Atom, Element, Error, Shapes, Term, collect, evaluate, fun, linear, num, var)

RELS = {"<=": 0, ">=": 1, "=": 2, "<": 3, ">": 4}


class Parser:
    """Calls evaluate_theory, possibly for several steps of a multi-shot run."""

    def __init__(self, I, prog, rels):
        self.I, self.prog, self.rels = I, prog, rels
        fs = [f for f in prog.functions.values() if f["name"] == "evaluate_theory" and f.get("body") and len(f["params"]) == 5]
        if not fs:
            raise Undecided("function evaluate_theory/5 not found")
        self.f = fs[0]
        self.auxmap = Cell(MapObj("std::map", "std::pair<Clingo::Symbol, int>", "Clingo::Symbol"))
        self.iqs = Cell(Vec([], "Inequality"))
        self.obj = Cell(Vec([], "Term"))
        self.lit = {}

    def step(self, atoms, mapping=None):
        """Returns whether the atoms have been accepted."""
        if mapping is not None:
            self.lit = mapping

        def mapper(I, l):
            l = I.rv(l)
            if l not in self.lit:
                raise Undecided("literal %s has no meaning in the scenario" % (l,))
            return self.lit[l]
        try:
            self.I.call_function(self.f, None, [Cell(Vec([Cell(a) for a in atoms])), Cell(PyFn(mapper)), self.auxmap, self.iqs, self.obj])
            return True
        except CxxThrow as e:
            if e.tname == "<terminate>":
                raise Violation("the program is terminated")
            return False

    def inequalities(self):
        out = []
        for c in self.iqs.v.items:
            s = c.v
            out.append((self.terms(s.get("lhs")), to_poly(self.I.rv(s.get("rhs"))), self.rels[s.get("rel")], s.get("lit")))
        return out

    def terms(self, v):
        out = []
        for c in v.items:
            t = c.v
            out.append((to_poly(self.I.rv(t.get("co"))), t.get("var")))
        return out


def user(v):
    return v is None or v.kind != "number"


def show(lhs, rhs=None, rel=""):
    s = " + ".join("%s*%s" % (c, v) for c, v in (lhs.items() if isinstance(lhs, dict) else [(v, c) for v, c in lhs])) if isinstance(lhs, dict) else " + ".join("%s*%s" % (c, v) for c, v in lhs)
    return s or "0"


def conds(atoms):
    return sorted({e.cond for a in atoms for e in a.els if e.cond is not None})


def want_linear(I, elements, active, sign=1):
    out = []
    for e in elements:
        if len(e.tup) != 1:
            raise Error("tuple of elements")
        ts = linear(I, e.tup[0])
        if e.cond is None or active(e.cond):
            out += [(c * sign, v) for c, v in ts]
    return out


def wanted(I, a, active):
    """(constraints as (terms, constant, relation)...) or objective terms of an atom; raises Error."""
    n = a.term.name
    if a.term.args:
        return []
    if n == "sum":
        if a.grd is None or a.grd[0] not in RELS:
            raise Error("guard")
        # all elements have to be well-formed even if their condition is false
        want_linear(I, a.els, lambda c: True)
        return [(want_linear(I, a.els, active) + [(-c, v) for c, v in linear(I, a.grd[1])], a.grd[0])]
    if n == "diff":
        if a.grd is None or a.grd[0] not in RELS or len(a.els) != 1 or a.els[0].cond is not None or len(a.els[0].tup) != 1:
            raise Error("difference constraint")
        t = a.els[0].tup[0].force(I)
        if t.kind != "func" or t.name != "-" or len(t.args) != 2:
            raise Error("no difference")
        out = []
        for s, x in ((1, t.args[0]), (-1, t.args[1])):
            v = evaluate(I, x, True)
            out.append((v * s, None) if isinstance(v, Poly) else (Poly.const(s), v))
        return [(out + [(-c, v) for c, v in linear(I, a.grd[1])], a.grd[0])]
    if n == "dom":
        if a.grd is None or len(a.els) != 1 or a.els[0].cond is not None or len(a.els[0].tup) != 1:
            raise Error("domain")
        t = a.els[0].tup[0].force(I)
        if t.kind != "func" or t.name != ".." or len(t.args) != 2:
            raise Error("no interval")
        x = evaluate(I, a.grd[1], False)
        if isinstance(x, Poly):
            raise Error("no variable")
        out = []
        for t1, r in ((t.args[0], ">="), (t.args[1], "<=")):
            v = evaluate(I, t1, True)
            if not isinstance(v, Poly):
                raise Error("bound is no number")
            out.append(([(Poly.const(1), x), (-v, None)], r))
        return out
    if n in ("minimize", "maximize"):
        want_linear(I, a.els, lambda c: True)
        return want_linear(I, a.els, active, -1 if n == "minimize" else 1)
    return []


def assignment_of_aux(P, iqs, truth):
    """Values of auxiliary variables given by the equalities that are in force; the other inequalities in force."""
    I = P.I
    vals, rest = {}, []
    act = [q for q in iqs if truth(q[3])]
    defs = [q for q in act if any(not user(v) for _, v in q[0])]
    todo = list(defs)
    while True:
        for q in todo:
            free = [(c, v) for c, v in q[0] if not user(v) and v not in vals]
            if len(free) == 1 and q[2] == "=":
                c0, v0 = free[0]
                e = {None: q[1]}
                for c, v in q[0]:
                    if v is v0 or v == v0:
                        continue
                    for w, k in (vals[v].items() if not user(v) else [(v, Poly.const(1))]):
                        e[w] = e.get(w, Poly.const(0)) - c * k
                vals[v0] = {w: k / c0 for w, k in e.items()}
                todo.remove(q)
                break
        else:
            break
    return vals, act, todo


def substitute(terms, rhs, vals):
    """Linear form terms - rhs over user variables (None: constant) or None if an auxiliary variable is not defined."""
    out = {None: -rhs}
    for c, v in terms:
        if user(v):
            if v is None:
                raise Undecided("constant term")
            out[v] = out.get(v, Poly.const(0)) + c
        elif v in vals:
            for w, k in vals[v].items():
                out[w] = out.get(w, Poly.const(0)) + c * k
        else:
            return None
    return out


def same_form(I, a, b):
    return all(I.is_zero(a.get(v, Poly.const(0)) - b.get(v, Poly.const(0))) for v in set(a) | set(b))


def check_result(P, atoms_by_step, lits_by_step, first=0):
    """The inequalities and the objective mean the same as the atoms for all values of the conditions."""
    I = P.I
    iqs = P.inequalities()
    for lhs, rhs, rel, lit in iqs:
        seen = set()
        for c, v in lhs:
            if not isinstance(v, Sym):
                raise Undecided("variable of an inequality")
            if v.kind == "number" and v.num == 0:
                raise Violation("a constant is left on the left-hand side of a constraint")
            if v in seen:
                raise Violation("variable %s occurs twice in a constraint" % v)
            seen.add(v)
            if I.is_zero(c):
                raise Violation("a constraint contains variable %s with coefficient zero" % v)
    obj = P.terms(P.obj.v)
    for i, (c, v) in enumerate(obj):
        if v.kind == "number" and v.num == 0:
            raise Violation("a constant is left in the objective")
        if any(v == w for _, w in obj[:i]):
            raise Violation("variable %s occurs twice in the objective" % v)
        if I.is_zero(c):
            raise Violation("the objective contains variable %s with coefficient zero" % v)
    cl = sorted({abs(m[c]) for atoms, m in zip(atoms_by_step, lits_by_step) for c in conds(atoms)})
    al = sorted({m[a.lit] for atoms, m in zip(atoms_by_step, lits_by_step) for a in atoms if a.term.name in ("sum", "diff", "dom")})
    for vals in itertools.product((True, False), repeat=len(cl)):
        tr = dict(zip(cl, vals))

        def lit_true(l):
            return tr[abs(l)] == (l > 0)
        aux, act, undefd = assignment_of_aux(P, iqs, lambda l: abs(l) in tr and lit_true(l))
        # what is in force independent of the atoms must only define auxiliary variables
        for q in undefd:
            f = substitute(q[0], q[1], aux)
            if f is None or not (q[2] == "=" and all(I.is_zero(k) for k in f.values())):
                raise Violation("the constraints added for conditions do more than defining auxiliary variables")
        for q in act:
            if all(user(v) for _, v in q[0]) and q[3] not in al:
                raise Violation("a constraint is associated with a condition instead of its atom")
        for l in al:
            got = []
            for lhs, rhs, rel, lit in iqs:
                if lit == l and (abs(l) not in tr):
                    f = substitute(lhs, rhs, aux)
                    if f is None:
                        raise Violation("the value of an auxiliary variable is not determined if the conditions are %s" % (vals,))
                    got.append((f, rel))
            want = []
            for atoms, m in zip(atoms_by_step, lits_by_step):
                for a in atoms:
                    if a.term.name in ("sum", "diff", "dom") and m[a.lit] == l:
                        want += [(collect(ts), rel) for ts, rel in wanted(I, a, lambda c: lit_true(m[c]))]
            match(I, got, want, "literal %d and conditions %s" % (l, vals) if cl else "literal %d" % l)
        for lhs, rhs, rel, lit in iqs:
            if lit not in al and abs(lit) not in tr:
                raise Violation("a constraint is associated with literal %s, which does not belong to any atom" % lit)
        want = {}
        for atoms, m in zip(atoms_by_step, lits_by_step):
            for a in atoms:
                if a.term.name in ("minimize", "maximize"):
                    for v, k in collect(wanted(I, a, lambda c: lit_true(m[c]))).items():
                        want[v] = want.get(v, Poly.const(0)) + k
        f = substitute(obj, Poly.const(0), aux)
        if f is None:
            raise Violation("the objective contains an undetermined auxiliary variable")
        if not same_form(I, f, want):
            raise Violation("the objective is %s but should be %s" % (fmt(f), fmt(want)))


def fmt(f):
    s = " + ".join("(%s)*%s" % (k, v) if v is not None else "(%s)" % k for v, k in f.items())
    return s or "0"


def match(I, got, want, what):
    FL = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}
    left = list(got)
    for f, rel in want:
        for g in left:
            if (g[1] == rel and same_form(I, f, g[0])) or (g[1] == FL[rel] and same_form(I, f, {v: -k for v, k in g[0].items()})):
                left.remove(g)
                break
        else:
            raise Violation("for %s, the constraints should contain %s %s 0 but are: %s" % (
                what, fmt(f), rel, "; ".join("%s %s 0" % (fmt(g), r) for g, r in got) or "none"))
    if left:
        raise Violation("for %s, there is an additional constraint: %s %s 0" % (what, fmt(left[0][0]), left[0][1]))


def scenario(ctx, prog, make, reject):
    """Analyse evaluate_theory for the atoms built by make(I) -> [(atoms, mapping)] per step.

    reject: whether only the treatment of ill-formed atoms is checked (otherwise only well-formed ones)."""
    rels = {ctx.enum(prog, "Relation", n): r for n, r in (("LessEqual", "<="), ("GreaterEqual", ">="), ("Equal", "="), ("Less", "<"), ("Greater", ">"))}

    def rule(I):
        P = Parser(I, prog, rels)
        steps = make(I)
        done, maps, broken = [], [], None
        for atoms, m in steps:
            ok = P.step(atoms, m)
            err = None
            try:
                objs = {}
                for a in atoms:
                    w = wanted(I, a, lambda c: True)
                    if a.term.name in ("minimize", "maximize"):
                        # constants with and without condition
                        for e in a.els:
                            for c, v in linear(I, e.tup[0]):
                                if v is None and e.cond is None:
                                    objs[None] = objs.get(None, Poly.const(0)) + (c if a.term.name == "maximize" else -c)
                if None in objs and not I.is_zero(objs[None]):
                    raise Error("objective contains a constant")
            except Error as e:
                err = e
            if err is not None:
                if reject and ok:
                    raise Violation("ill-formed atom accepted (%s): %s" % (err, "; ".join(map(text, atoms))))
                return
            if not ok:
                if not reject:
                    raise Violation("well-formed atom rejected: %s" % "; ".join(map(text, atoms)))
                return
            done.append(atoms)
            maps.append(m)
            if not reject:
                check_result(P, done, maps)
    return rule


def text(a):
    return "&%s{%s}%s" % (a.term.name, "; ".join(",".join(t.show() for t in e.tup) + (" : c%d" % e.cond if e.cond is not None else "") for e in a.els),
                          " %s %s" % (a.grd[0], a.grd[1].show()) if a.grd else "")


IDENT = {1: 11, 2: 12, 3: 13, 7: 31, 8: 32, 9: 33}


def scenarios(ctx, prog, reject):
    def add(name, make, limit=40000):
        ctx.explore(name, prog, scenario(ctx, prog, make, reject), limit)
    one = lambda f: (lambda I: [([f(I)], IDENT)])
    full = Shapes(1, ("number", "x", "y", '"1.5"', '"-2.50"', '"abc"'), BINS + ("u-", "f()", "tuple", "list", "set", "()"))
    args = Shapes(2, (3, 0, "x", '"1.5"', '"a\\n\\\\\\"b"'), ("f()", "g(,)", "u-", "tuple", "()", "+", ".."))
    deep = Shapes(2, ("number", "x"), ("+", "-", "*", "/", "u-"))
    g = lambda I: (I.fork(("<=", ">=", "="), "guard"), num(Poly.sym("g")))
    add("sum: term", one(lambda I: Atom("sum", [Element([Term(full)])], ("<=", num(Poly.sym("g"))))))
    add("sum: nested term", one(lambda I: Atom("sum", [Element([Term(deep)])], (">=", num(0)))))
    add("sum: guard term", one(lambda I: Atom("sum", [Element([var("x")])], ("=", Term(full)))))
    add("sum: variables", one(lambda I: Atom("sum", [Element([fun("f", Term(args))])], ("<=", num(1)))))
    add("sum: arithmetic in arguments", one(lambda I: Atom("sum", [Element([fun("f", Term(Shapes(2, (3, 2, "x"), ("/", "-"))))])], ("<=", num(1)))))
    add("sum: large arguments", one(lambda I: Atom("sum", [Element([fun("f", fun("+", Term(Shapes(1, (2147483647, -2147483647), ("u-",)), path="a"), num(I.fork((0, 1, -1, -2), "summand"))))])], ("<=", num(1)))))
    add("sum: strings", one(lambda I: Atom("sum", [Element([Term(Shapes(0, ('"0.0"', '"007"', '"10.100"', '"1/2"', '"1."', '".5"', '"-3"', '"--3"', '"1 "', '""', '"+1"', '"-"', '"12345678901234567890.5"'), ()))])], ("<=", num(1)))))
    for r in RELS:
        add("sum: relation " + r, one(lambda I, r=r: Atom("sum", [Element([var("x")]), Element([fun("*", num(Poly.sym("k")), var("y"))])], (r, num(Poly.sym("g"))))))
    add("sum: duplicates", one(lambda I: Atom("sum", [Element([fun("*", num(Poly.sym("k")), var("x"))]), Element([fun("*", num(Poly.sym("l")), var("y"))]),
                                                     Element([fun("*", num(Poly.sym("m")), var("x"))])], ("<=", fun("+", var("y"), fun("*", num(Poly.sym("h")), var("x")))))))
    add("sum: no elements", one(lambda I: Atom("sum", [], g(I))))
    add("sum: several terms per element", one(lambda I: Atom("sum", [Element([var("x"), var("y")])], g(I))))
    add("sum: no guard", one(lambda I: Atom("sum", [Element([var("x")])])))
    add("sum: no term", one(lambda I: Atom("sum", [Element([])], g(I))))
    small = Shapes(0, ("number", "x"), ())
    cs = lambda I, i: I.fork((None, 7, 8), "condition %d" % i)
    add("sum: conditions", one(lambda I: Atom("sum", [Element([fun("-", Term(small, path="a"), Term(small, path="b"))], cs(I, 0)),
                                                     Element([Term(small, path="c")], cs(I, 1))], ("<=", num(Poly.sym("g"))))))
    add("sum: ill-formed conditional element", one(lambda I: Atom("sum", [Element([fun("*", var("x"), var("y"))], 7)], g(I))))
    add("sum: condition and negation", lambda I: [([Atom("sum", [Element([var("x")], 7), Element([fun("*", num(Poly.sym("k")), var("x"))], 8)], ("<=", num(1)))], {1: 11, 7: 31, 8: -31})])
    add("sum: two atoms", lambda I: [([Atom("sum", [Element([var("x")], 7)], ("<=", num(1)), 1), Atom("sum", [Element([fun("-", var("x"))], 7), Element([var("y")])], (">=", num(2)), I.fork((1, 2), "literal"))], IDENT)])
    dterm = Shapes(1, ("number", "x", "y", '"1.5"', '"abc"'), ("-", "+", "u-", "f()", "*", "/"))
    dop = Shapes(1, ("number", "x", '"1.5"', '"abc"'), ("u-", "f()", "+", "/"))
    add("diff: term", one(lambda I: Atom("diff", [Element([Term(dterm)])], ("<=", num(Poly.sym("g"))))))
    add("diff: operands", one(lambda I: Atom("diff", [Element([fun("-", Term(dop, path="a"), I.fork((var("y"), Term(dop, path="b")), "second operand"))])], ("<=", num(Poly.sym("g"))))))
    add("diff: guard term", one(lambda I: Atom("diff", [Element([fun("-", var("x"), var("y"))])], ("=", Term(full)))))
    for r in RELS:
        add("diff: relation " + r, one(lambda I, r=r: Atom("diff", [Element([fun("-", var("x"), var("y"))])], (r, num(Poly.sym("g"))))))
    add("diff: shape", one(lambda I: Atom("diff", [Element([fun("-", var("x"), var("y"))] + [var("z")] * I.fork((0, 1), "terms"), I.fork((None, 7), "condition"))] * I.fork((0, 1, 2), "elements"), I.fork((None, ("<=", num(1))), "guard"))))
    add("dom: bounds", one(lambda I: Atom("dom", [Element([fun("..", Term(dop, path="a"), Term(dop, path="b"))])], ("=", var("x")))))
    add("dom: variable", one(lambda I: Atom("dom", [Element([fun("..", num(Poly.sym("l")), num(Poly.sym("u")))])], ("=", Term(Shapes(1, (3, "x", '"1.5"', '"abc"'), ("u-", "f()", "+", "tuple", "set")))))))
    add("dom: no interval", one(lambda I: Atom("dom", [Element([Term(Shapes(1, ("number", "x"), ("+", "-", "u-", "tuple")))])], ("=", var("x")))))
    add("dom: shape", one(lambda I: Atom("dom", [Element([fun("..", num(1), num(2))] + [var("z")] * I.fork((0, 1), "terms"), I.fork((None, 7), "condition"))] * I.fork((0, 1, 2), "elements"), I.fork((None, ("=", var("x"))), "guard"))))
    for n in ("minimize", "maximize"):
        add(n + ": terms", one(lambda I, n=n: Atom(n, [Element([Term(Shapes(1, ("number", "x", "y"), BINS + ("u-", "f()", "set")))]), Element([fun("*", num(Poly.sym("k")), var("x"))])])))
        add(n + ": conditions", one(lambda I, n=n: Atom(n, [Element([fun("*", num(Poly.sym("k")), var("x"))], cs(I, 0)), Element([var("x")], cs(I, 1)), Element([fun("-", Term(small, path="c"))], cs(I, 2))])))
        add(n + ": several terms per element", one(lambda I, n=n: Atom(n, [Element([var("x"), var("y")])])))
    add("minimize and maximize", lambda I: [([Atom("minimize", [Element([fun("*", num(Poly.sym("k")), var("x"))]), Element([var("y")])]),
                                            Atom("maximize", [Element([fun("*", num(Poly.sym("l")), var("x"))])])], IDENT)])
    add("other atoms are ignored", lambda I: [([Atom("other", [Element([Term(full)])]), Atom("sum", [Element([var("x")])], ("<=", num(1)), 2, args=(num(1),)), Atom("sum", [Element([var("x")])], ("<=", num(1)))], IDENT)])

    def twice(I):
        m2 = {1: 41, 7: I.fork((31, 32, 33), "literal of the reused condition id"), 8: 31}
        return [([Atom("sum", [Element([var("x")], 7)], ("<=", num(1)))], IDENT),
                ([Atom("sum", [Element([var("x")], 7), Element([var("y")], 8)], (">=", num(2)))], m2)]
    add("two steps: conditions", twice)
    add("two steps: objective", lambda I: [([Atom("maximize", [Element([fun("*", num(Poly.sym("k")), var("x"))], I.fork((None, 7), "condition"))])], IDENT),
                                           ([Atom("minimize", [Element([fun("*", num(Poly.sym("l")), var("x"))]), Element([var("y")], 8)])], {1: 41, 7: 32, 8: 31})])


BINS = ("+", "-", "*", "/")
