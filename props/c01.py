"""C01: constraints become equivalent bounds."""
from props.prep import *


def run(ctx):
    ctx.rule("Inequalities with symbolic coefficients, right-hand sides and all relations are set up; the set described by "
             "the resulting bounds and tableau rows has to be the set described by the constraint (equal up to a factor "
             "whose sign determines the relation).")
    prog = ctx.prog("solving", "tableau", "problem")

    def rule(V, nvars, spec, objective=None, options=None, masters=(True,), false=()):
        def f(I):
            iqs = []
            for k, (vs, rel) in enumerate(spec):
                rhs = Poly.sym("r%d" % k)
                iqs.append(({v: coeff(I, "c%d%d" % (k, v)) for v in vs}, rhs, rel, 10 + k))
            ob = {v: coeff(I, "o%d" % v) for v in objective} if objective else None
            master = I.fork(masters, "master")
            truths = {10 + k: (-1 if k in false else 0) for k in range(len(spec))}
            st = Setup(I, V, nvars, iqs, ob, master, options, truths)
            if st.ret is not True:
                raise Violation("setting up the solver fails although the ASP solver accepts all clauses")
            M = st.wellformed()
            for k, (t, rhs, rel, lit) in enumerate(iqs):
                bs = st.bounds(lit)
                if k in false:
                    continue
                if not t:
                    if bs:
                        raise Violation("a constraint without variables is turned into a bound")
                    s = I.sign(rhs)
                    sat = {LE: s >= 0, GE: s <= 0, EQ: s == 0, LT: s > 0, GT: s < 0}[rel]
                    cl = [c for c in st.w.clauses if c == [-lit]]
                    if sat and cl:
                        raise Violation("a constraint without variables that holds is made false (0 %s %s)" % (RN[rel], rhs))
                    if not sat and not cl and master:
                        raise Violation("a constraint without variables that does not hold is not made false (0 %s %s)" % (RN[rel], rhs))
                    continue
                if len(bs) != 1:
                    raise Violation("a constraint is represented by %d bounds instead of one" % len(bs))
                st.equivalent(t, rhs, rel, bs[0], M, "constraint over %d variables" % len(t))
            if len(st.s.get("bounds_").nodes) > len(spec):
                raise Violation("more bounds than constraints are set up")
            o = st.s.get("objective_")
            if bool(o.get("active")) != bool(ob):
                raise Violation("the objective is not activated exactly if there is one")
            if ob:
                obs = [o.get("var")] + ([o.get("bound_var")] if st.opt.get("global_objective").c else [])
                for x in obs:
                    e = st.expr(x, M)
                    if set(e) != set(ob) or any(not I.is_zero(e[v] - ob[v]) for v in ob):
                        raise Violation("the objective row differs from the objective function")
                    if st.s.get("variables_").items[x].v.get("reverse_index") < nvars:
                        raise Violation("the objective is not represented by a basic variable")
                for lit in [q[3] for q in iqs]:
                    for b in st.bounds(lit):
                        if b.get("variable") in obs:
                            raise Violation("a constraint is imposed on the objective row")
                if len(set(obs)) != len(obs):
                    raise Violation("the objective and its bound share a row")
        return f
    for V, rels in (("Rational", (LE, GE, EQ)), ("RationalQ", (LE, GE, EQ, LT, GT))):
        for rel in rels:
            n = "%s, %s" % (V, RN[rel])
            ctx.explore("one variable (%s)" % n, prog, rule(V, 2, [((1,), rel)]))
            ctx.explore("no variables (%s)" % n, prog, rule(V, 1, [((), rel)], masters=(True, False)))
            ctx.explore("two variables (%s)" % n, prog, rule(V, 3, [((2, 0), rel)]))
    for V in ("Rational", "RationalQ"):
        ctx.explore("three variables (%s)" % V, prog, rule(V, 3, [((0, 2, 1), LE)]))
        ctx.explore("mixed (%s)" % V, prog, rule(V, 2, [((0, 1), GE), ((1,), LE), ((1, 0), EQ)]))
        ctx.explore("false literal (%s)" % V, prog, rule(V, 2, [((0, 1), GE), ((0, 1), LE), ((0,), LE)], false=(0,)))
        ctx.explore("objective (%s)" % V, prog, rule(V, 2, [((0, 1), LE)], objective=(1, 0)))
        from interp import Opt
        ctx.explore("objective with global bound (%s)" % V, prog,
                    lambda I, V=V: rule(V, 2, [((0, 1), LE)], objective=(0,), options={"global_objective": Opt(Cell(Poly.sym("ge")))})(I))

    # facts about constraints without variables are only added once, failures are passed on
    def failing(I):
        rel = I.fork((LE, GE, EQ, LT, GT), "relation")
        rhs = Poly.sym("r")
        st = Setup(I, "RationalQ", 1, [({}, rhs, rel, 10)], None, True, None, {10: 0}, True)
        if st.w.failed and st.ret is not False:
            raise Violation("a failure reported by the ASP solver is not passed on")
    ctx.explore("failing clause", prog, failing)

    # exactly these clauses are also added by the propagator for several threads
    def init(V, threads):
        from props.c21 import Atoms, fits

        def f(I):
            p = I.new_struct("Propagator<%s>" % V)
            w = World(level=0, threads=threads)
            w.may_fail = False
            w.theory_atoms = Atoms()
            rels = (LE, GE, EQ) + ((LT, GT) if V == "RationalQ" else ())
            rel = I.fork(rels, "relation")
            rhs = Poly.sym("r")
            new = [inequality(I, [], rhs, rel, 10)]
            w.truths = {10: I.fork((0, 1), "truth")}

            def theory(I, this, args, n):
                fits(I, args, "Inequality").items.extend(new)
            I.overrides["evaluate_theory"] = theory
            I.call_method(Cell(p), "init", Cell(Control(w)))
            s = I.sign(rhs)
            sat = {LE: s >= 0, GE: s <= 0, EQ: s == 0, LT: s > 0, GT: s < 0}[rel]
            if sat and w.clauses:
                raise Violation("a constraint without variables that holds is made false (0 %s %s)" % (RN[rel], rhs))
            if not sat and [-10] not in w.clauses:
                raise Violation("a constraint without variables that does not hold is not made false (0 %s %s)" % (RN[rel], rhs))
        return f
    for V in ("Rational", "RationalQ"):
        for t in (1, 2):
            ctx.explore("no variables, %d threads (%s)" % (t, V), prog, init(V, t))
