"""Abstract solver states.

A state is described by representative individuals: the row and column an
operation works on and one further row/column standing for all others.  The
loop bodies of the analysed functions read and write cells of one row (column)
at a time, so a fact established for the representative of a class holds for
every element of the class.
"""
import itertools
from fractions import Fraction

from clingo_model import Assignment, Control, World
from interp import Cell, Infeasible, LazyCell, MapObj, Opt, PQ, Ptr, Struct, Tup, Undecided, Vec, Violation
from poly import EPS, Poly

LE, GE, EQ = 0, 1, 2
REL = {LE: "<=", GE: ">=", EQ: "="}


def value(I, V, name):
    p = Poly.sym(name)
    if V == "RationalQ":
        p = p + Poly.sym(name + ".e") * Poly.sym(EPS)
    return p


class SolverState:
    """A Solver<V> with `nb` columns and `b` rows."""

    def __init__(self, I, V, nb, b, world=None, perm=None):
        self.I, self.V, self.nb, self.b = I, V, nb, b
        self.w = world or World()
        self.cls = "Solver<%s>" % V
        if self.cls not in I.prog.records:
            raise Undecided("class %s not found" % self.cls)
        if I.prog.enums.get(self.cls + "::BoundRelation") != {"LessEqual": LE, "GreaterEqual": GE, "Equal": EQ}:
            raise Undecided("unexpected representation of bound relations")
        self.opt = I.new_struct("Options")
        self.s = I.new_struct(self.cls)
        self.s.f["options_"] = Cell(self.opt)
        self.ctl = Cell(Control(self.w))
        n = nb + b
        self.n = n
        self.s.set("n_non_basic_", nb)
        self.s.set("n_basic_", b)
        vs = []
        perm = perm or list(range(n))      # perm[pos] = variable at position pos
        for x in range(n):
            v = I.new_struct(self.cls + "::Variable")
            v.set("value", value(I, V, "x%d" % x))
            vs.append(v)
        for pos, x in enumerate(perm):
            vs[pos].set("index", x)
            vs[x].set("reverse_index", pos)
        self.vars = vs
        self.perm = perm
        self.s.get("variables_").items = [Cell(v) for v in vs]
        self.bounds = []
        self.next_lit = 1
        tab = self.s.get("tableau_")
        self.tab = tab
        tab.get("rows_").items = []
        self.A = {}
        self.D = {}

    # ----- tableau
    def rows(self, cells, den=True, signs=()):
        """cells: {(i, j)} of non-zero entries; creates symbolic rows.

        signs: known signs of entries (i, j) or denominators i."""
        signs = dict(signs)
        I = self.I
        for i in range(self.b):
            r = I.new_struct("Tableau::Row")
            d = Poly.sym("d%d" % i) if den else Poly.const(1)
            if den:
                I.facts.assume(d, {0: "!=", 1: ">", -1: "<"}[signs.get(i, 0)])
            self.D[i] = d
            r.set("den", d)
            for j in range(self.nb):
                if (i, j) in cells:
                    a = Poly.sym("a%d%d" % (i, j))
                    I.facts.assume(a, {0: "!=", 1: ">", -1: "<"}[signs.get((i, j), 0)])
                    self.A[i, j] = a
                    c = I.new_struct("Tableau::Cell")
                    c.set("col", j)
                    c.set("val", a)
                    r.get("cells").items.append(Cell(c))
            self.tab.get("rows_").items.append(Cell(r))
        self.cols(cells)

    def cols(self, cells):
        self.tab.get("cols_").items = []
        for j in range(self.nb):
            self.tab.get("cols_").items.append(
                Cell(Vec([Cell(i) for i in range(self.b) if (i, j) in cells], "unsigned int")))

    def matrix(self):
        """Current tableau as {(i, j): a_ij/d_i}; checks the representation invariants."""
        I = self.I
        out = {}
        rows = self.tab.get("rows_").items
        cols = self.tab.get("cols_").items
        for i, rc in enumerate(rows):
            r = rc.v
            last = -1
            den = r.get("den")
            if I.is_zero(den):
                raise Violation("row denominator is zero")
            for cc in r.get("cells").items:
                c = cc.v
                j = c.get("col")
                if not j > last:
                    raise Violation("row cells are not strictly sorted by column")
                last = j
                if I.is_zero(c.get("val")):
                    raise Violation("explicit zero stored in the tableau")
                if j >= len(cols) or i not in [x.v for x in cols[j].v.items]:
                    raise Violation("column index does not list row of a non-zero entry")
                out[i, j] = c.get("val") / den
        for j, cc in enumerate(cols):
            xs = [x.v for x in cc.v.items]
            if any(not a < b for a, b in zip(xs, xs[1:])):
                raise Violation("column vector is not strictly sorted")
            if any(i >= len(rows) for i in xs):
                raise Violation("column vector refers to a missing row")
        return out

    # ----- variables and bounds
    def at(self, pos):
        return self.vars[self.s.get("variables_").items[pos].v.get("index")]

    def bound(self, var, rel, val=None, lit=None, level=None):
        I = self.I
        if lit is None:
            lit = self.next_lit
            self.next_lit += 1
        b = I.new_struct(self.cls + "::Bound")
        b.set("variable", var)
        b.set("rel", rel)
        b.set("lit", lit)
        b.set("value", value(I, self.V, "b%d" % lit) if val is None else val)
        c = Cell(b)
        self.bounds.append(c)
        if level is not None:
            self.w.levels[abs(lit)] = level
        m = self.s.get("bounds_")
        m.nodes.append(Cell(Tup([Cell(lit), c])))
        return c

    def link(self, bcell):
        v = self.vars[bcell.v.get("variable")]
        v.get("bounds").items.append(Cell(Ptr(bcell)))

    def lower(self, x, **kw):
        b = self.bound(x, kw.pop("rel", GE), **kw)
        self.vars[x].set("lower_bound", Ptr(b))
        return b

    def upper(self, x, **kw):
        b = self.bound(x, kw.pop("rel", LE), **kw)
        self.vars[x].set("upper_bound", Ptr(b))
        return b

    def lo(self, x):
        p = self.vars[x].get("lower_bound")
        return None if p is None else p.cell().v

    def up(self, x):
        p = self.vars[x].get("upper_bound")
        return None if p is None else p.cell().v

    def val(self, x):
        return self.vars[x].get("value")

    # ----- invariants
    def row_value(self, i, M=None):
        M = self.matrix() if M is None else M
        out = Poly.const(0)
        for (r, j), a in M.items():
            if r == i:
                out = out + a * self.at(j).get("value")
        return out

    def establish_rows(self):
        """Make basic values equal to their rows (assignment invariant)."""
        M = {k: self.A[k] / self.D[k[0]] for k in self.A}
        for i in range(self.b):
            self.at(self.nb + i).set("value", self.row_value(i, M))

    def check_rows(self, what):
        M = self.matrix()
        for i in range(self.b):
            d = self.row_value(i, M) - self.at(self.nb + i).get("value")
            if not self.I.is_zero(d):
                raise Violation("%s: the value of the basic variable of a row differs from the value of the row (by %s)" % (what, d))
        return M

    def check_perm(self, what):
        vs = self.s.get("variables_").items
        seen = set()
        for pos, c in enumerate(vs):
            x = c.v.get("index")
            if x in seen or not 0 <= x < len(vs):
                raise Violation("%s: two positions share a variable" % what)
            seen.add(x)
            if vs[x].v.get("reverse_index") != pos:
                raise Violation("%s: index and reverse index of a variable disagree" % what)

    def bounds_ok(self, x):
        I = self.I
        v = self.val(x)
        lo, up = self.lo(x), self.up(x)
        return (lo is None or I.sign(v - lo.get("value")) >= 0) and (up is None or I.sign(up.get("value") - v) >= 0)

    def call(self, name, *args):
        return self.I.call_method(Cell(self.s), name, *args)


def require(I, p, rel):
    """Restrict the abstract state to p rel 0."""
    if EPS in p.symbols():
        s = I.sign(p)
        if not {">": s > 0, ">=": s >= 0, "=": s == 0}[rel]:
            raise Infeasible()
        return
    if p.is_const():
        s = I.sign(p)
        if not {">": s > 0, ">=": s >= 0, "=": s == 0}[rel]:
            raise Infeasible()
        return
    ss = I.facts.signs(p)
    ok = {">": {1}, ">=": {0, 1}, "=": {0}}[rel]
    if ss <= ok:
        return
    if not ss & ok:
        raise Infeasible()
    I.facts.assume(p, rel)


class CoreState(SolverState):
    """Arbitrary state between two steps of the simplex procedure at some decision level.

    Bounds, levels, queue entries and trail entries of each variable are left
    open; they are partitioned when the analysed code looks at them.  Assumed
    (and re-established by every analysed step) are the invariants
      - assignment: basic values equal their rows,
      - non-basic variables satisfy their bounds; lower <= upper,
      - violated basic variables are queued,
      - trails hold the bound/value a variable had before the current level.
    """

    def __init__(self, I, V, nb, b, cells, perm=None, level=2, bounds=None, history=True, feasible=False, queued=(),
                 hist_bounds=False, new_level=False, signs=()):
        SolverState.__init__(self, I, V, nb, b, World(level=level), perm)
        self.rows(cells, True, signs)
        self.establish_rows()
        self.level = level
        self.old_value, self.old_level, self.old_bound = {}, {}, {}
        self.hist = history
        self.init, self.lazy, self.asserted = {}, [], []
        self.feasible = feasible
        self.qd = set(queued)
        self.violated = {}
        self.base = {x: self.val(x) for x in range(self.n)}
        self.hist_bounds = hist_bounds
        s = self.s
        s.get("trail_offset_").et = self.cls + "::TrailOffset"
        # history: the level has been entered, entries of its trails are open
        # new_level: the level has not been entered yet
        # otherwise: entered, but variables have not been assigned on it
        self.offsets = [(1, 0, 0)]
        if history:
            self.offsets.append((level, 0, 0))
        for lv, bo, ao in self.offsets:
            t = I.new_struct(self.cls + "::TrailOffset")
            t.set("level", lv)
            t.set("bound", bo)
            t.set("assignment", ao)
            s.get("trail_offset_").items.append(Cell(t))
        self.entered = len(self.offsets) == 2 or not new_level
        for x in range(self.n):
            self.old_value[x] = self.val(x)
            self.old_level[x] = 1
            self.vars[x].set("level", 1)
            self.lazy_bounds(x, "lu" if bounds is None else bounds.get(x, ""))
            if history and len(self.offsets) == 2:
                self.lazy_level(x)
        self.queue(queued)

    def initial(self, x, rel):
        """Bound in force in the initial state (decided now if still open)."""
        if (x, rel) not in self.init:
            for y, r, c in self.lazy:
                if (y, r) == (x, rel):
                    done, val = c.done, c.val
                    p = c.fn()
                    if done:
                        c.done, c.val = done, val
                    else:
                        c.v = p
        p = self.init[x, rel]
        return None if p is None else p.cell().v

    def force(self, xs=None):
        """Decide all open parts of the initial state."""
        for x in range(self.n) if xs is None else xs:
            self.initial(x, GE)
            self.initial(x, LE)
            self.vars[x].get("level")

    def basic(self, x):
        return self.perm.index(x) >= self.nb

    def lazy_level(self, x):
        """The variable might already have been assigned on the current level."""
        I = self.I
        v = self.vars[x]

        def fn():
            if I.fork((0, 1), "x%d already assigned on this level" % x):
                old = value(I, self.V, "old%d" % x)
                self.old_value[x] = old
                self.s.get("assignment_trail_").items.insert(0, Cell(Tup([Cell(1), Cell(x), Cell(old)])))
                return self.level
            return 1
        v.f["level"] = LazyCell(fn)

    def lazy_bounds(self, x, kinds):
        """kinds: l/u lower/upper bound possible, L/U present, l!/u! violated."""
        I = self.I
        v = self.vars[x]

        def materialize(rel):
            p = self.init[x, rel] = create(rel)
            return p

        def create(rel):
            ch = "l" if rel == GE else "u"
            sg = 1 if rel == GE else -1
            opts = []
            if ch.upper() not in kinds:
                opts.append("none")
            if ch in kinds.lower():
                opts += ["tight", "slack"]
                if self.V == "RationalQ":
                    opts.append("eps-slack")
                if self.basic(x) and not self.feasible and x in self.qd and not self.violated.get(x):
                    opts.append("violated")
                if ch + "!" in kinds:
                    opts = ["violated"]
            o = I.fork(opts, "%s bound of x%d" % ("lower" if rel == GE else "upper", x))
            if o == "none":
                self.old_bound[x, rel] = None
                return None
            new = len(self.offsets) == 2 and self.hist_bounds and I.fork((0, 1), "bound set on this level")
            lit = self.next_lit
            self.next_lit += 1
            name = "s%d" % lit
            if o == "tight":
                sl = Poly.const(0)
            elif o == "eps-slack":
                sl = Poly.sym(name) * Poly.sym(EPS)
                I.facts.assume(Poly.sym(name), ">")
            else:
                sl = value(I, self.V, name)
                I.facts.assume(Poly.sym(name), ">")
            if o == "violated":
                self.violated[x] = True
                sl = -sl
            b = self.base[x] - sl * sg
            bc = self.bound(x, rel, val=b, lit=lit, level=self.level if new else self.level - 1)
            other = self.known(x, LE if rel == GE else GE)
            if other is not None:
                require(I, (other.get("value") - b) * sg, ">=")
            p = Ptr(bc)
            if new:
                old = None
                if I.fork((0, 1), "previous bound") == 1:
                    sym = Poly.sym("w%d" % lit)
                    I.facts.assume(sym, ">")
                    oc = self.bound(x, rel, val=b - sym * sg, level=self.level - 1)
                    old = Ptr(oc)
                self.old_bound[x, rel] = old
                self.s.get("bound_trail_").items.insert(0, Cell(Tup([Cell(x), Cell(rel), Cell(old)])))
            else:
                self.old_bound[x, rel] = p
            return p
        v.f["lower_bound"] = LazyCell(lambda: materialize(GE))
        v.f["upper_bound"] = LazyCell(lambda: materialize(LE))
        self.lazy += [(x, GE, v.f["lower_bound"]), (x, LE, v.f["upper_bound"])]
        for f in ("lower_bound", "upper_bound"):
            if f[0] not in kinds.lower():
                v.f[f].v

    def known(self, x, rel):
        """Bound in force if the analysis determined it."""
        c = self.vars[x].f["lower_bound" if rel == GE else "upper_bound"]
        if isinstance(c, LazyCell) and not c.done:
            return None
        return None if c.v is None else c.v.cell().v

    def queue(self, xs):
        q = self.s.get("conflicts_")
        for x in xs:
            q.items.append(x)
            self.vars[x].set("queued", True)

    def conflicting(self, x):
        """Decides whether x violates a bound in the current state."""
        return not self.bounds_ok(x)


def pivot_loops(prog, target="Tableau::pivot"):
    """Loops whose body can reach the pivot operation: (function id, line)."""
    calls = {}

    def walk(n, out):
        if isinstance(n, dict):
            if n.get("k") in ("call", "mcall", "ocall", "ctor") and n.get("f"):
                out.add((n["f"], n.get("n")))
            for x in n.values():
                walk(x, out)
        elif isinstance(n, list):
            for x in n:
                walk(x, out)
    for f in prog.functions.values():
        out = set()
        walk(f.get("body"), out)
        calls[f["id"]] = out
    reach = {f["id"] for f in prog.functions.values() if f["n"].split("<")[0] == target or f["n"] == target}
    if not reach:
        raise Undecided("no function %s" % target)
    change = True
    while change:
        change = False
        for i, cs in calls.items():
            if i not in reach and any(c in reach for c, _ in cs):
                reach.add(i)
                change = True
    loops = []

    def find(n):
        if isinstance(n, dict):
            if n.get("k") in ("while", "do", "for"):
                out = set()
                walk(n, out)
                if any(c in reach for c, _ in out):
                    loops.append(n)
            for x in n.values():
                find(x)
        elif isinstance(n, list):
            for x in n:
                find(x)
    for f in prog.functions.values():
        if f["id"] not in reach or f["n"].split("<")[0] != target:
            n = len(loops)
            find(f.get("body"))
            for l in loops[n:]:
                rotated(f["body"], l)
    return {id(x) for x in loops}


def nodes(n, stop=None):
    if isinstance(n, dict):
        if n is stop:
            return
        yield n
        for k, x in n.items():
            if k != "headof":
                yield from nodes(x, stop)
    elif isinstance(n, list):
        for x in n:
            yield from nodes(x, stop)


def rotated(body, loop):
    """Marks the calls starting an iteration of a rotated loop (x = f(); while (p(x)) { ...; x = f(); })."""
    if loop.get("rotated") is not None:
        return
    loop["rotated"] = False
    if loop.get("c") is None:
        return
    read = {n["id"] for n in nodes(loop["c"]) if n.get("k") == "var"}

    def sources(root, stop):
        for n in nodes(root, stop):
            val = None
            if n.get("k") == "decl":
                for v in n["v"]:
                    if v.get("id") in read and v.get("init") is not None:
                        yield from ((v["id"], c) for c in nodes(v["init"]) if c.get("k") in ("call", "mcall") and c.get("inroot"))
            elif n.get("k") == "assign":
                val = n["b"]
                for t in nodes(n["a"]):
                    if t.get("k") == "var" and t["id"] in read:
                        yield from ((t["id"], c) for c in nodes(val) if c.get("k") in ("call", "mcall") and c.get("inroot"))
    pre = list(sources(body, loop)) + list(sources(loop.get("init"), None))
    inner = list(sources(loop.get("body"), None)) + list(sources(loop.get("inc"), None))
    for x, c in pre:
        for y, d in inner:
            if x == y and c.get("f") == d.get("f"):
                loop["rotated"] = True
                c["headof"], d["headof"] = (loop, True), (loop, False)


def solve_equalities(items):
    """Substitutions defined by equality facts that are linear in a symbol with constant coefficient."""
    env = []
    eqs = [q for q, rel in items if rel == "="]
    for _ in range(len(eqs)):
        for q in eqs:
            hit = None
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    s = m[0][0]
                    if all(m2 == m or all(x != s for x, _e in m2) for m2 in q.t):
                        hit = (s, c)
                        break
            if hit:
                s, c = hit
                e = -(q - Poly.sym(s) * c) * Poly.const(Fraction(1) / c)
                env.append((s, e))
                eqs = [p.subst({s: e}) for p in eqs if p is not q]
                eqs = [p for p in eqs if p.t]
                break
        else:
            break
    return env


def apply_eqs(env, p):
    for s, e in env:
        if s in p.symbols():
            p = p.subst({s: e})
    return p


def clause_sound(st, clause, pos, M=None):
    """Check that no assignment satisfies the rows and all bounds whose literals the clause negates.

    pos: {position: variable} of the initial tableau st.A/st.D.
    """
    from poly import feasible
    I = st.I
    strict = st.V == "RationalQ"
    env = solve_equalities(I.facts.items)
    X = {x: value(I, st.V, "X%d" % x) for x in range(st.n)}
    cons = []
    mult = {x: {Poly.const(1)} for x in range(st.n)}

    def put(p, rel):
        for q in (p.split(EPS) if strict and EPS in p.symbols() else (p,)):
            cons.append((q, rel))
    for i in range(st.b):
        row = X[pos[st.nb + i]] * st.D[i]
        mult[pos[st.nb + i]].add(st.D[i])
        for (r, j), a in st.A.items():
            if r == i:
                row = row - a * X[pos[j]]
                mult[pos[j]].add(a)
        put(row, "=")
    cited = []
    alts = []                  # alternatives per cited bound
    for lit in clause:
        hit = [b for b in st.bounds if b.v.get("lit") == -lit]
        cited.append((lit, len(hit)))
        for b in hit:
            x, rel, val = b.v.get("variable"), b.v.get("rel"), b.v.get("value")
            ks = [(k, I.sign(k)) for k in mult[x]]
            for sd, rs in ((1, (GE, EQ)), (-1, (LE, EQ))):
                if rel not in rs:
                    continue
                d = (X[x] - val) * sd
                if strict:
                    d0, d1 = d.split(EPS)
                    alts.append([[(d0 * k * sg, ">") for k, sg in ks if sg],
                                 [(d0 * k, "=") for k, sg in ks if sg] + [(d1 * k * sg, ">=") for k, sg in ks if sg]])
                else:
                    alts.append([[(d * k * sg, ">=") for k, sg in ks if sg]])
    cons += I.facts.items

    def empty(cs):
        cs = [(apply_eqs(env, q), rel) for q, rel in cs]
        for q, rel in cs:
            if not q.t and rel == ">":
                return True
        cs = [(q, rel) for q, rel in cs if q.t]
        for m in {m for q, _ in cs for m in q.t if m}:
            sg = I.facts.mono_sign(m)
            if len(sg) == 1:
                x = next(iter(sg))
                cs.append((Poly({m: x or 1}), ">" if x else "="))
            elif sg == {0, 1} or sg == {0, -1}:
                cs.append((Poly({m: 1 if 1 in sg else -1}), ">="))
        return not feasible(cs)

    def all_empty(cs, i):
        if i == len(alts):
            return empty(cs)
        return all(all_empty(cs + alt, i + 1) for alt in alts[i])
    return all_empty(cons, 0), cited
