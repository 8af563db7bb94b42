"""C09: global optimization over all threads."""
from props.core import *
from props.propag import Control, Model, Opt, Prop, Vec, World, fill_state, lits


def lexsign(I, v):
    v0, v1 = v.split(EPS) if EPS in v.symbols() else (v, Poly.const(0))
    return I.sign(v0) or I.sign(v1)


def run(ctx):
    ctx.rule("The shared objective state is analysed for arbitrary contents: it may only improve, publishes each improvement "
             "under a new generation and never leaves the unbounded state. Each value found is turned into exactly one "
             "lower bound on the bound row (value plus step, on a fresh watched literal made true by a unit clause), and "
             "bounded assignments are discarded by a bound above their value once the problem is known to be unbounded.")
    prog = ctx.prog("solving", "tableau")

    # shared state
    def update(V):
        def f(I):
            st = I.new_struct("ObjectiveState<%s>" % V)
            gen, val, bd = fill_state(I, st, V)
            new, nb = value(I, V, "new"), I.fork((True, False), "new value bounded")
            I.call_method(Cell(st), "update", Cell(Tup([Cell(new), Cell(nb)])))
            g2, v2, b2 = st.get("generation_"), st.get("value_"), st.get("bounded_")
            if g2 < gen:
                raise Violation("the generation of the objective decreases")
            if bool(b2) != (bd and nb):
                raise Violation("the objective state is marked %s although the problem is known to be %s" % (
                    "bounded" if b2 else "unbounded", "unbounded" if b2 else "bounded"))
            if bd and not nb and g2 == gen:
                raise Violation("an unbounded objective is not published under a new generation")
            if bd and nb:
                better = gen == 0 or lexsign(I, new - val) > 0
                want = new if better else val
                if not I.is_zero(v2 - want):
                    raise Violation("the objective state does not hold the best value found so far")
                if better and g2 == gen:
                    raise Violation("an improved objective is not published under a new generation")
        return f

    def read(V):
        def f(I):
            st = I.new_struct("ObjectiveState<%s>" % V)
            gen, val, bd = fill_state(I, st, V)
            seen = I.fork((0, 1, 5), "generation seen")
            if seen > gen:
                return
            c = Cell(seen)
            r = I.call_method(Cell(st), "value", c)
            has = isinstance(r, Opt) and r.c is not None
            if has != (seen != gen):
                raise Violation("an objective value is returned although it has been integrated before" if has else
                                "an improved objective value is not passed to the solver")
            if has:
                t = r.c.v
                if not I.is_zero(t.items[0].v - val) or bool(t.items[1].v) != bd:
                    raise Violation("the value returned is not the best one")
                if c.v != gen:
                    raise Violation("the generation of the value returned is not recorded")
            elif c.v != seen:
                raise Violation("a generation is marked as seen without returning its value")
        return f

    def reset(V):
        def f(I):
            st = I.new_struct("ObjectiveState<%s>" % V)
            fill_state(I, st, V)
            I.call_method(Cell(st), "reset")
            if st.get("generation_") != 0 or not st.get("bounded_"):
                raise Violation("the objective of a previous step survives resetting")
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("publishing values (%s)" % V, prog, update(V))
        ctx.explore("reading values (%s)" % V, prog, read(V))
        ctx.explore("resetting (%s)" % V, prog, reset(V))

    # bounds on the objective
    def eps(I, V):
        e = Poly.sym("step")
        if V == "RationalQ" and I.fork((0, 1), "strict step"):
            return Poly.sym(EPS)
        I.facts.assume(e, ">")
        return e

    def optional(V, e):
        return Opt(Cell(e))

    def solver(I, V, kinds, active=True, level=2, total=False, dir=1):
        """Column x0; rows x1 (bound row) and x2 (objective) have the same coefficient."""
        st = CoreState(I, V, 1, 2, full(2, 1), None, level=level, history=False, queued=(), bounds=kinds, feasible=True,
                       signs={0: 1, 1: 1, (0, 0): dir, (1, 0): dir})
        o = st.s.get("objective_")
        o.set("active", active)
        o.set("var", 2)
        o.set("bound_var", 1)
        o.set("bounded", I.fork((True, False), "bounded before"))
        st.w.total = total
        return st

    def new_bounds(st, n0):
        return [n.v.items for n in st.s.get("bounds_").nodes[n0:]]

    def check_bound(st, before, want, rel, failed_first):
        """exactly one new bound with the given value has been asserted."""
        I = st.I
        nbs = new_bounds(st, before)
        if len(nbs) != 1:
            raise Violation("%d bounds on the objective are added instead of one" % len(nbs))
        lit, b = nbs[0][0].v, nbs[0][1].v
        if b.get("variable") != st.s.get("objective_").get("bound_var"):
            raise Violation("the bound is not placed on the bound row of the objective")
        if b.get("rel") != GE:
            raise Violation("the bound on the objective is not a lower bound")
        d = lexsign(I, b.get("value") - want)
        if rel == "=" and d != 0 or rel == ">" and d <= 0:
            raise Violation("the bound on the objective has value %s instead of one %s %s" % (b.get("value"), rel, want))
        if b.get("lit") != lit or lit <= 1000:
            raise Violation("the bound on the objective is not associated with a fresh literal")
        if not any(w[0] == lit for w in st.w.watches):
            raise Violation("the literal of the bound on the objective is not watched")
        if st.w.clauses.count([lit]) != 1 or len(st.w.clauses) != 1:
            raise Violation("the bound on the objective is not asserted by a unit clause over its literal")

    def integrate(V):
        def f(I):
            kinds = {0: "u", 1: "", 2: ""}
            st = solver(I, V, kinds)
            e = eps(I, V)
            g = I.fork((True, False), "global optimization")
            st.opt.set("global_objective", optional(V, e) if g else Opt())
            state = I.new_struct("ObjectiveState<%s>" % V)
            gen, val, bd = fill_state(I, state, V)
            seen = I.fork((0, 1, 5), "generation integrated before")
            if seen > gen:
                return
            st.s.get("objective_").set("generation", seen)
            n0 = len(st.s.get("bounds_").nodes)
            ret = st.call("integrate_objective", st.ctl, Cell(state))
            if st.w.failed != (ret is False):
                raise Violation("the result reported by the ASP solver is not passed on")
            flag = st.s.get("objective_").get("discard_bounded")
            if not g:
                if new_bounds(st, n0) or st.w.clauses or flag:
                    raise Violation("the objective is bounded although global optimization is disabled")
                return
            if seen == gen:
                if new_bounds(st, n0) or st.w.clauses or flag:
                    raise Violation("the same objective value is integrated twice")
                return
            if st.s.get("objective_").get("generation") != gen:
                raise Violation("the generation of the integrated objective value is not recorded")
            if bool(flag) != (not bd):
                raise Violation("bounded assignments are discarded although the objective is bounded" if flag else
                                "bounded assignments are kept although the problem is unbounded")
            if not bd:
                if new_bounds(st, n0) or st.w.clauses:
                    raise Violation("a bound is derived from an unbounded objective")
                return
            check_bound(st, n0, val + e, "=", False)
            if st.w.failed:
                return
            # a better value found later
            better = value(I, V, "better")
            state.set("generation_", gen + 1)
            state.set("value_", better)
            st.w.clauses.clear()
            n0 = len(st.s.get("bounds_").nodes)
            st.call("integrate_objective", st.ctl, Cell(state))
            check_bound(st, n0, better + e, "=", False)
        return f

    def discard(V):
        def f(I):
            kinds = {0: "u", 1: "", 2: ""}
            st = solver(I, V, kinds, I.fork((True, False), "objective"))
            g = I.fork((True, False), "global optimization")
            st.opt.set("global_objective", optional(V, eps(I, V)) if g else Opt())
            o = st.s.get("objective_")
            o.set("discard_bounded", I.fork((True, False), "problem is unbounded"))
            act = o.get("active") and g and o.get("bounded") and o.get("discard_bounded")
            n0 = len(st.s.get("bounds_").nodes)
            ret = st.call("discard_bounded", st.ctl)
            if st.w.failed != (ret is False):
                raise Violation("the result reported by the ASP solver is not passed on")
            if not act:
                if new_bounds(st, n0) or st.w.clauses:
                    raise Violation("an assignment is discarded although it is unbounded or the problem is bounded")
                return
            check_bound(st, n0, st.val(2), ">", False)
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("integrating the best value (%s)" % V, prog, integrate(V))
        ctx.explore("discarding bounded assignments (%s)" % V, prog, discard(V))

    # the callbacks
    def check(V, total, dir):
        def f(I):
            cap = I.fork((True, False), "objective bounded")
            ch = "u" if dir > 0 else "l"
            st = solver(I, V, {0: ch.upper() + ch if cap else "", 1: "", 2: ""}, total=total, dir=dir)
            if cap:
                b = st.initial(0, LE if dir > 0 else GE)
                if b is None or lexsign(I, b.get("value") - st.val(0)) != 0:
                    return              # optimal vertex only
            e = eps(I, V)
            store = I.fork((0, 1, 2), "store assignments")
            pr = Prop(I, V, [(0, st.s)], {"global_objective": optional(V, e), "store_sat_assignment": store})
            gen, val, bd = fill_state(I, pr.state, V)
            o = st.s.get("objective_")
            o.set("generation", 0)
            before = o.get("bounded")
            n0 = len(st.s.get("bounds_").nodes)
            pr.call("check", st.ctl)
            added = new_bounds(st, n0)
            if gen and bd and not [1 for l, b in added if lexsign(I, b.v.get("value") - val - e) == 0]:
                raise Violation("the best objective value is not integrated when checking an assignment")
            if st.w.failed:
                return
            if total and bool(o.get("bounded")) != cap:
                raise Violation("a total assignment is not optimized: it is reported as %s" % ("bounded" if o.get("bounded") else "unbounded"))
            if total and not bd and cap:
                if not [1 for l, b in added if lexsign(I, b.v.get("value") - st.val(2)) > 0]:
                    raise Violation("a bounded assignment is accepted although the problem is unbounded")
            if total and not cap and len(added) > (1 if gen and bd else 0):
                raise Violation("an unbounded assignment is discarded")
        return f
    for V in ("Rational", "RationalQ"):
        for total in (True, False):
            for d in (1, -1):
                ctx.explore("checking %s assignments (%s, %s)" % ("total" if total else "partial", V, "max at upper" if d > 0 else "max at lower"),
                            prog, check(V, total, d), 20000)

    def model(V):
        def f(I):
            ss = []
            for k in range(2):
                s = I.new_struct("Solver<%s>" % V)
                v = I.new_struct("Solver<%s>::Variable" % V)
                v.set("value", value(I, V, "z%d" % k))
                s.get("variables_").items = [Cell(I.new_struct("Solver<%s>::Variable" % V)), Cell(v)]
                o = s.get("objective_")
                o.set("active", True)
                o.set("var", 1)
                o.set("bounded", I.fork((True, False), "bounded (thread %d)" % k))
                ss.append((0, s))
            act = I.fork((True, False), "objective")
            if not act:
                for _, s in ss:
                    s.get("objective_").set("active", False)
            g = I.fork((True, False), "global optimization")
            pr = Prop(I, V, ss, {"global_objective": optional(V, Poly.sym("e")) if g else Opt()})
            th = I.fork((0, 1), "thread of the model")
            pr.call("on_model", Cell(Model(th)))
            gen, val, bd = (pr.state.get(k) for k in ("generation_", "value_", "bounded_"))
            if not act:
                if gen:
                    raise Violation("an objective value is published although there is no objective")
                return
            if not g:
                return
            z, b = ss[th][1].get("variables_").items[1].v.get("value"), ss[th][1].get("objective_").get("bounded")
            if gen == 0:
                raise Violation("the objective value of a model is not published")
            if bool(bd) != bool(b) or (b and not I.is_zero(val - z)):
                raise Violation("the objective value published for a model is not the one of the thread that found it")
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("publishing the objective of models (%s)" % V, prog, model(V))
