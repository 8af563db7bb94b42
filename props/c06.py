"""C06: the sparse tableau represents the system of rows exactly."""
import math
import random
from fractions import Fraction

from absstate import SolverState
from interp import Cell, PyFn, Ptr, Struct, Undecided, Vec, Violation
from poly import Poly

from props.core import full


def tableau(I, cells, m, n, stale=(), zero_row=None):
    """A tableau with symbolic entries; stale: entries of the column index of rows that became zero there."""
    t = I.new_struct("Tableau")
    A = {}
    t.get("rows_").items = []
    t.get("cols_").items = []
    for i in range(m):
        r = I.new_struct("Tableau::Row")
        d = Poly.sym("d%d" % i)
        I.facts.assume(d, "!=")
        r.set("den", d)
        for j in range(n):
            if (i, j) in cells:
                a = Poly.sym("a%d%d" % (i, j))
                I.facts.assume(a, "!=")
                c = I.new_struct("Tableau::Cell")
                c.set("col", j)
                c.set("val", a)
                r.get("cells").items.append(Cell(c))
                A[i, j] = a / d
        t.get("rows_").items.append(Cell(r))
    for j in range(n):
        t.get("cols_").items.append(Cell(Vec([Cell(i) for i in range(m) if (i, j) in cells or (i, j) in stale], "unsigned int")))
    return t, A


class Holder:
    matrix = SolverState.matrix

    def __init__(self, I, t):
        self.I, self.tab = I, t


def same(I, t, want, what):
    have = Holder(I, t).matrix()
    for k in set(have) | set(want):
        d = have.get(k, Poly.const(0)) - want.get(k, Poly.const(0))
        if not I.is_zero(d):
            raise Violation("%s: entry (%d, %d) of the tableau is wrong by %s" % ((what,) + k + (d,)))
    integral(I, t, what)


def evaluate(p, env):
    out = Fraction(0)
    for m, c in p.t.items():
        x = Fraction(c)
        for s, e in m:
            if s not in env or (e < 0 and env[s] == 0):
                return None
            x *= env[s] ** e
        out += x
    return out


def integral(I, t, what):
    """Stored numerators and denominators are integers: search a point of the abstract state refuting this."""
    rnd = random.Random(1)
    gcds = [(k, g) for k, g in I.ratio.items() if isinstance(k, tuple) and k[0] == "gcd"]
    names = {s for _, g in gcds for s in g.symbols()}
    vals = []
    for r in t.get("rows_").items:
        vals.append(r.v.get("den"))
        vals += [c.v.get("val") for c in r.v.get("cells").items]
    base = {s for p in vals + [x for k, _ in gcds for x in k[1:]] for s in p.symbols()} - names
    for q, _ in I.facts.items:
        base |= q.symbols() - names
    for _ in range(300):
        env = {s: Fraction(rnd.choice((-12, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 12))) for s in sorted(base)}
        ok = True
        for k, g in gcds:
            a, b = evaluate(k[1], env), evaluate(k[2], env)
            if a is None or b is None or a.denominator != 1 or b.denominator != 1:
                ok = False
                break
            (s,), = [list(g.symbols())]
            env[s] = Fraction(math.gcd(int(a), int(b)))
        if not ok:
            continue
        for q, rel in I.facts.items:
            x = evaluate(q, env)
            if x is None or not {">": x > 0, ">=": x >= 0, "=": x == 0}[rel]:
                ok = False
        if not ok or any(evaluate(q, env) in (0, None) for q in I.facts.ne):
            continue
        for p in vals:
            x = evaluate(p, env)
            if x is not None and x.denominator != 1:
                raise Violation("%s: an inexact integer division is performed (%s is not integral for %s)" % (
                    what, p, ", ".join("%s=%s" % kv for kv in sorted(env.items()))))


def run(ctx):
    ctx.rule("Tableau operations are analysed on tableaus with symbolic entries and denominators, including rows that "
             "are only left in the column index by lazy deletion; the represented matrix afterwards has to equal the "
             "algebraic result as an identity of rational functions and the sparse representation has to stay "
             "normal (sorted, no explicit zeros, every non-zero entry listed by its column).")
    ctx.assume("tableaus with up to 3 rows and 3 columns stand for the classes pivot row/column, other rows/columns with "
               "and without fill-in, and columns receiving one or several new entries")
    prog = ctx.prog("tableau", "solving")

    def pivot(cells, m, n, i, j, stale=()):
        def rule(I):
            t, A = tableau(I, cells, m, n, stale)
            num, den = Cell(None, "Integer *"), Cell(None, "Integer *")
            I.call_method(Cell(t), "unsafe_get", i, j, num, den)
            I.call_method(Cell(t), "pivot", i, j, num.v.cell(), den.v.cell())
            p = A[i, j]
            want = {(i, j): Poly.const(1) / p}
            for (k, l), a in A.items():
                if k == i and l != j:
                    want[i, l] = -a / p
                elif l == j and k != i:
                    want[k, j] = a / p
                    for l2 in range(n):
                        if l2 != j:
                            w = A.get((k, l2), Poly.const(0)) - a * A.get((i, l2), Poly.const(0)) / p
                            if w.t:
                                want[k, l2] = w
                elif (k, j) not in A:
                    want[k, l] = a
            same(I, t, want, "pivoting")
        return rule
    pats = [("full 2x2", full(2, 2), 2, 2, ()), ("fill-in", {(0, 0), (0, 1), (1, 0)}, 2, 2, ()),
            ("no entry in the pivot column", {(0, 0), (0, 1), (1, 1)}, 2, 2, ()),
            ("no entry in the pivot row", {(0, 0), (1, 0), (1, 1)}, 2, 2, ()),
            ("fill-in with stale index", {(0, 0), (0, 1), (1, 0)}, 2, 2, {(1, 1)}),
            ("stale pivot column", {(0, 0), (0, 1), (1, 1)}, 2, 2, {(1, 0)}),
            ("several fill-ins", {(0, 0), (0, 1), (1, 0), (2, 0)}, 3, 2, ()),
            ("several fill-ins with stale index", {(0, 0), (0, 1), (1, 0), (2, 0)}, 3, 2, {(1, 1)}),
            ("fill-in left and right", {(0, 0), (0, 1), (0, 2), (1, 1)}, 2, 3, ())]
    for nm, cells, m, n, stale in pats:
        for i, j in sorted(cells):
            if nm.startswith("full") or i == 0 or ctx.thorough:
                if m * n > 4 and (i, j) not in ((0, 0), (0, 1)):
                    continue
                ctx.explore("pivot (%s) at (%d, %d)" % (nm, i, j), prog, pivot(cells, m, n, i, j, stale), 20000)
    pats.append(("several fill-ins in two columns", {(0, 0), (0, 1), (0, 2), (1, 0), (2, 0)}, 3, 3, ()))
    nm, cells, m, n, stale = pats[-1]
    for j in (0, 2):
        c2 = cells if j == 0 else {(i, 2 - k) for i, k in cells}
        ctx.explore("pivot (%s) at (0, %d)" % (nm, j), prog, pivot(c2, m, n, 0, j), 20000)
    # the same operation with the rows exchanged: later rows come first
    for nm, cells, m, n, stale in pats[:8]:
        swap = lambda c: {(m - 1 - i, n - 1 - j) for i, j in c}
        c2 = swap(cells)
        ctx.explore("pivot (%s, mirrored)" % nm, prog, pivot(c2, m, n, m - 1, n - 1, swap(stale)), 20000)
    if ctx.thorough:
        ctx.explore("pivot full 3x3", prog, pivot(full(3, 3), 3, 3, 1, 1), 200000)
        ctx.explore("pivot full 2x3", prog, pivot(full(2, 3), 2, 3, 0, 1), 200000)

    def access(cells, m, n, stale):
        def rule(I):
            t, A = tableau(I, cells, m, n, stale)
            for i in range(m + 1):
                for j in range(n + 1):
                    r = I.rv(I.call_method(Cell(t), "get", i, j))
                    if not I.is_zero(r - A.get((i, j), Poly.const(0))):
                        raise Violation("reading entry (%d, %d) returns a wrong value" % (i, j))
            for i, j in cells:
                num, den = Cell(None, "Integer *"), Cell(None, "Integer *")
                I.call_method(Cell(t), "unsafe_get", i, j, num, den)
                if not I.is_zero(I.rv(num.v.cell()) / I.rv(den.v.cell()) - A[i, j]):
                    raise Violation("accessing entry (%d, %d) returns a wrong value" % (i, j))
            for i in range(m + 1):
                seen = {}

                def f(I, j, a, d):
                    j = I.rv(j)
                    if j in seen:
                        raise Violation("iterating a row visits a column twice")
                    seen[j] = I.rv(a) / I.rv(d)
                I.call_method(Cell(t), "update_row", i, Cell(PyFn(f)))
                want = {l: a for (k, l), a in A.items() if k == i}
                if set(seen) != set(want) or any(not I.is_zero(seen[l] - want[l]) for l in want):
                    raise Violation("iterating row %d does not visit exactly its non-zero entries" % i)
            for j in list(range(n + 1)) + list(range(n)):
                seen = {}

                def g(I, i, a, d):
                    i = I.rv(i)
                    if i in seen:
                        raise Violation("iterating a column visits a row twice")
                    seen[i] = I.rv(a) / I.rv(d)
                I.call_method(Cell(t), "update_col", j, Cell(PyFn(g)))
                want = {k: a for (k, l), a in A.items() if l == j}
                if set(seen) != set(want) or any(not I.is_zero(seen[k] - want[k]) for k in want):
                    raise Violation("iterating column %d does not visit exactly its non-zero entries" % j)
            same(I, t, A, "iterating")
        return rule
    ctx.explore("access (full)", prog, access(full(2, 2), 2, 2, ()), 20000)
    ctx.explore("access (sparse, stale)", prog, access({(0, 1), (1, 0), (2, 1)}, 3, 2, {(0, 0), (1, 1)}), 20000)
    ctx.explore("access (stale first)", prog, access({(1, 0), (2, 0)}, 3, 1, {(0, 0)}), 20000)
    ctx.explore("access (stale middle)", prog, access({(0, 0), (2, 0)}, 3, 1, {(1, 0)}), 20000)

    def summary(I):
        cells = {(0, 0), (0, 1), (2, 1)}
        for cs in (cells, set(), {(2, 0)}):
            t, A = tableau(I, cs, 3, 2, {(1, 0)})
            if I.rv(I.call_method(Cell(t), "size")) != len(cs) or I.truth(I.call_method(Cell(t), "empty")) != (not cs):
                raise Violation("the number of entries of the tableau is wrong")
        t, A = tableau(I, cells, 3, 2, {(1, 0)})
        I.call_method(Cell(t), "clear")
        for j in range(2):
            I.call_method(Cell(t), "update_col", j, Cell(PyFn(lambda I, *a: fail())))
        for i in range(3):
            I.call_method(Cell(t), "update_row", i, Cell(PyFn(lambda I, *a: fail())))
            for j in range(2):
                if not I.is_zero(I.rv(I.call_method(Cell(t), "get", i, j))):
                    fail()
        I.call_method(Cell(t), "set", 1, 1, Cell(Poly.const(3)))
        same(I, t, {(1, 1): Poly.const(3)}, "setting an entry of a cleared tableau")

    def fail():
        raise Violation("a cleared tableau still contains an entry")
    ctx.explore("size, empty and clear", prog, summary, 20000)

    def put(cells, m, n, i, j, stale=()):
        def rule(I):
            t, A = tableau(I, cells, m, n, stale)
            vn, vd = Poly.sym("vn"), Poly.sym("vd")
            v = vn / vd
            I.ratio[v] = (vn, vd)
            if I.fork((0, 1), "assigned value is zero") == 1:
                v = Poly.const(0)
            else:
                I.facts.assume(vd, ">")
                I.facts.assume(vn, "!=")
            I.call_method(Cell(t), "set", i, j, Cell(v))
            want = dict(A)
            want.pop((i, j), None)
            if v.t:
                want[i, j] = v
            same(I, t, want, "setting an entry")
            r = I.rv(I.call_method(Cell(t), "get", i, j))
            if not I.is_zero(r - v):
                raise Violation("an entry does not have the value it was set to")
        return rule
    for cells, m, n, at, st in (({(0, 0), (0, 1)}, 1, 2, (0, 1), ()), ({(0, 0), (0, 2)}, 1, 3, (0, 1), ()), ({(0, 0)}, 1, 1, (1, 0), ()),
                                ({(0, 0)}, 1, 1, (0, 1), ()), (set(), 0, 0, (1, 1), ()), ({(1, 0)}, 2, 1, (0, 0), ()),
                                ({(1, 0), (0, 1)}, 2, 2, (0, 0), {(0, 0)})):
        ctx.explore("set (%d, %d) in %s" % (at + (sorted(cells),)), prog, put(cells, m, n, at[0], at[1], st), 20000)
