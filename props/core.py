"""Scenarios for generic steps of the simplex procedure (shared by several properties).

Each scenario starts from an arbitrary abstract state that satisfies the
invariants of the procedure and analyses one generic iteration (loops that can
reach the pivot operation are cut at their head).
"""
import itertools

from absstate import CoreState, EQ, GE, LE, clause_sound, pivot_loops, require, value
from interp import Cell, CutPath, Infeasible, LazyCell, Ptr, Tup, Undecided, Vec, Violation
from poly import EPS, Poly

RELS = {LE: "<=", GE: ">=", EQ: "="}


def step(prog, V, nb, b, cells, perm=None, queued=(), hook=None, done=None, at=1, level=2, pre=None, lits=(),
         history=False, options=None, entry="solve", **kw):
    """Analyse solve() (or optimize()) from an arbitrary state.

    hook(st) is called when a simplex loop is entered for the at-th iteration,
    done(st, ret) when the function returns before.
    """
    loops = pivot_loops(prog)
    perm = list(range(nb + b)) if perm is None else perm

    def rule(I):
        st = CoreState(I, V, nb, b, cells, perm, level=level, history=history, queued=queued, **kw)
        for k, v in (options or {}).items():
            st.opt.set(k, v)
        st.M0 = {k: st.A[k] / st.D[k[0]] for k in st.A}
        st.pos0 = {p: x for p, x in enumerate(st.perm)}
        st.values0 = {x: st.val(x) for x in range(st.n)}
        st.asserted = []
        ls = list(lits(st)) if callable(lits) else list(lits)
        if pre:
            pre(st)

        def lh(I, n, it):
            if id(n) in loops and it >= at:
                I.loop_hook = None
                if hook:
                    hook(st)
                raise CutPath()
        I.loop_hook = lh
        if entry == "solve":
            ret = st.call("solve", st.ctl, Cell(Vec([Cell(x) for x in ls], "int")))
        else:
            ret = st.call(entry)
        I.loop_hook = None
        if done:
            done(st, ret)
    return rule


def asserts(*spec, lit0=50):
    """lits argument: assert the bounds (variable, relation[, literal]) with arbitrary values."""
    def f(st):
        out = []
        for k, sp in enumerate(spec):
            x, rel = sp[:2]
            lit = sp[2] if len(sp) > 2 else lit0 + k
            c = st.bound(x, rel, val=value(st.I, st.V, "b%d" % (lit0 + k)), lit=lit, level=st.level)
            st.asserted.append(c.v)
            if lit not in out:
                out.append(lit)
        return out
    return f


def check_invariants(st, what):
    st.check_perm(what)
    st.check_rows(what)
    check_queue(st, what)
    check_nonbasic(st, what)


def check_queue(st, what):
    q = st.s.get("conflicts_").items
    for pos in range(st.nb, st.n):
        x = st.s.get("variables_").items[pos].v.get("index")
        if not st.vars[x].get("queued"):
            if not st.bounds_ok(x):
                raise Violation("%s: a basic variable that violates a bound is not queued for repair" % what)
        elif x not in q:
            raise Violation("%s: a variable is marked as queued but is not in the queue" % what)


def check_nonbasic(st, what):
    for pos in range(st.nb):
        x = st.s.get("variables_").items[pos].v.get("index")
        for rel, sg in ((GE, 1), (LE, -1)):
            b = st.known(x, rel)
            if b is not None and st.I.sign((st.val(x) - b.get("value")) * sg) < 0:
                raise Violation("%s: a non-basic variable violates one of its bounds" % what)


def check_all_satisfied(st, what):
    for x in range(st.n):
        if not st.bounds_ok(x):
            raise Violation("%s: variable x%d violates a bound in force" % (what, x))


def check_strongest(st, x, what):
    """The bounds in force are the strongest of the previous and the asserted ones."""
    for rel, sg, name in ((GE, 1, "lower"), (LE, -1, "upper")):
        cands = [b for b in st.asserted if b.get("variable") == x and b.get("rel") in (rel, EQ)]
        ini = st.initial(x, rel)
        if ini is not None:
            cands.append(ini)
        p = st.vars[x].get("lower_bound" if rel == GE else "upper_bound")
        cur = None if p is None else p.cell().v
        if not cands:
            if cur is not None:
                raise Violation("%s: a %s bound is in force although none was asserted" % (what, name))
            continue
        if cur is None:
            raise Violation("%s: no %s bound is in force although one was asserted" % (what, name))
        if not any(cur is c for c in cands):
            raise Violation("%s: the %s bound in force is none of the asserted bounds" % (what, name))
        for c in cands:
            if st.I.sign((c.get("value") - cur.get("value")) * sg) > 0:
                raise Violation("%s: the %s bound in force is weaker than an asserted bound" % (what, name))


def check_clause(st, clause, what, conflicting=True):
    """The clause follows from the rows and the bounds of its literals (and is conflicting)."""
    ok, cited = clause_sound(st, clause, st.pos0)
    if any(n == 0 for _, n in cited):
        raise Violation("%s: the clause contains a literal that is not associated with a bound" % what)
    if not ok:
        raise Violation("%s: the clause does not follow from the rows and the bounds of its literals" % what)
    if conflicting:
        force = set()
        for x in range(st.n):
            for f in ("lower_bound", "upper_bound"):
                c = st.vars[x].f[f]
                if isinstance(c, LazyCell) and not c.done or c.v is None:
                    continue
                force.add(c.v.cell().v.get("lit"))
        force |= {b.get("lit") for b in st.asserted}
        for l in clause:
            if -l not in force:
                raise Violation("%s: the conflict clause contains a literal whose bound is not in force" % what)


def full(b, nb):
    return {(i, j) for i in range(b) for j in range(nb)}
