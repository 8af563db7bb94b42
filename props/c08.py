"""C08: optimization keeps the assignment feasible, never worsens the objective and stops only with a certificate."""
from props.core import *


def objective(var):
    def pre(st):
        o = st.s.get("objective_")
        o.set("var", var)
        o.set("active", True)
        o.set("bounded", st.I.fork((False, True), "previous value of the bounded flag"))
        st.obj = var
    return pre


def room(st, x, up):
    """Can x be moved in the given direction?"""
    b = st.up(x) if up else st.lo(x)
    if b is None:
        return True
    return st.I.sign((b.get("value") - st.val(x)) * (1 if up else -1)) > 0


def iteration(st):
    I = st.I
    what = "after one iteration of the optimization"
    st.check_perm(what)
    st.check_rows(what)
    check_all_satisfied(st, what)
    if I.sign(st.val(st.obj) - st.values0[st.obj]) < 0:
        raise Violation("one iteration of the optimization worsens the objective")
    if st.vars[st.obj].get("reverse_index") < st.nb:
        raise Violation("the objective variable leaves the basis")
    now = [c.v.get("index") for c in st.s.get("variables_").items]
    if all(now[p] == st.pos0[p] for p in range(st.n)) and all(I.is_zero(st.val(x) - st.values0[x]) for x in range(st.n)):
        raise Violation("one iteration of the optimization changes neither the assignment nor the basis and is repeated forever")


def entering(st):
    """Bland: the variable that moved is the improving one with the smallest index."""
    I = st.I
    z = st.pos0_inv[st.obj] - st.nb
    cand = []
    for p in range(st.nb):
        if (z, p) in st.M0:
            x = st.pos0[p]
            up = I.sign(st.M0[z, p]) > 0
            b = st.initial(x, LE if up else GE)
            if b is None or I.sign((b.get("value") - st.values0[x]) * (1 if up else -1)) > 0:
                cand.append(x)
    now = [c.v.get("index") for c in st.s.get("variables_").items]
    moved = [st.pos0[p] for p in range(st.nb) if now[p] != st.pos0[p]] or \
            [st.pos0[p] for p in range(st.nb) if not I.is_zero(st.val(st.pos0[p]) - st.values0[st.pos0[p]])]
    if len(moved) > 1:
        raise Violation("one iteration of the optimization moves several non-basic variables")
    if moved and cand and moved[0] != min(cand):
        raise Violation("the entering variable is not the improving non-basic variable with the smallest index")


def leaving(st):
    """Bland: among the rows that limit the step most the variable with the smallest index leaves."""
    I = st.I
    now = [c.v.get("index") for c in st.s.get("variables_").items]
    diff = [p for p in range(st.n) if now[p] != st.pos0[p]]
    if not diff:
        return
    xe, xl = st.pos0[diff[0]], st.pos0[diff[1]]
    for p in range(st.nb, st.n):
        x = st.pos0[p]
        if x < xl and (p - st.nb, diff[0]) in st.M0:
            # a smaller variable at its limit after the step must not have limited the step equally
            d = I.sign(st.val(x) - st.values0[x])
            if d == 0:
                continue
            b = st.initial(x, LE if d > 0 else GE)
            if b is not None and I.is_zero(st.val(x) - b.get("value")):
                raise Violation("among equally limiting rows the variable with the smallest index has to leave the basis")


def finished(st, ret):
    I = st.I
    o = st.s.get("objective_")
    what = "when the optimization stops"
    st.check_perm(what)
    M = st.check_rows(what)
    check_all_satisfied(st, what)
    for x in range(st.n):
        if not I.is_zero(st.val(x) - st.values0[x]):
            raise Violation("the assignment changes without re-examining the objective")
    z = st.vars[st.obj].get("reverse_index") - st.nb
    if o.get("bounded"):
        for j in range(st.nb):
            if (z, j) in M and room(st, st.s.get("variables_").items[j].v.get("index"), I.sign(M[z, j]) > 0):
                raise Violation("the objective is reported to be optimal although it can be improved")
        return
    for j in range(st.nb):
        if (z, j) not in M:
            continue
        up = I.sign(M[z, j]) > 0
        x = st.s.get("variables_").items[j].v.get("index")
        if (st.up(x) if up else st.lo(x)) is not None:
            continue
        ok = True
        for i in range(st.b):
            if (i, j) in M:
                y = st.s.get("variables_").items[st.nb + i].v.get("index")
                yup = (I.sign(M[i, j]) > 0) == up
                if (st.up(y) if yup else st.lo(y)) is not None:
                    ok = False
        if ok:
            return
    raise Violation("the objective is reported to be unbounded although each improving direction is limited by a bound")


def run(ctx):
    ctx.rule("One generic iteration of the optimization from an arbitrary feasible state has to keep all bounds and rows "
             "satisfied and must not worsen the objective; when it stops, the final abstract state has to contain a "
             "certificate: no improving direction (bounded) or an improving direction not limited by any bound "
             "(unbounded). Entering and leaving variables follow Bland's rule.")
    ctx.assume("rows and columns that are not examined are represented by one generic row/column")
    prog = ctx.prog("solving", "tableau")

    def it(extra=()):
        def f(st):
            iteration(st)
            for g in extra:
                g(st)
        return f

    def scen(name, V, nb, b, cells, perm, z, bounds, extra=(), limit=20000, signs=()):
        def pre(st):
            objective(perm[nb + z])(st)
            st.pos0_inv = {x: p for p, x in st.pos0.items()}
        ctx.explore(name, prog, step(prog, V, nb, b, cells, perm, (), it(extra), finished, entry="optimize", feasible=True,
                                     pre=pre, bounds=bounds, signs=signs), limit)
    for V in ("Rational", "RationalQ"):
        scen("one column (%s)" % V, V, 1, 1, full(1, 1), [0, 1], 0, {0: "lu", 1: ""})
    scen("limited by a row (z first)", "Rational", 1, 2, full(2, 1), [0, 1, 2], 0, {0: "u", 1: "", 2: "lu"})
    scen("limited by a row (z last)", "Rational", 1, 2, full(2, 1), [0, 1, 2], 1, {0: "l", 1: "lu", 2: ""})
    scen("limited by a row, permuted", "Rational", 1, 2, full(2, 1), [2, 1, 0], 0, {2: "", 1: "", 0: "lu"})
    scen("sparse column", "Rational", 1, 2, {(0, 0)}, [0, 1, 2], 0, {0: "lu", 1: "", 2: "lu"})
    for perm in ([0, 1, 2], [1, 0, 2], [2, 1, 0]):
        scen("entering variable %s" % perm, "Rational", 2, 1, full(1, 2), perm, 0, {perm[0]: "lu", perm[1]: "lu", perm[2]: ""}, [entering])
    scen("sparse objective", "Rational", 2, 1, {(0, 1)}, [0, 1, 2], 0, {0: "lu", 1: "lu", 2: ""}, [entering])
    for perm, bs, sg, up in (([0, 1, 2, 3], "u", 1, 1), ([3, 1, 2, 0], "l", -1, -1), ([0, 3, 2, 1], "u", 1, -1)):
        z = 0 if bs == "u" else 2
        rs = [i for i in range(3) if i != z]
        scen("leaving variable %s" % perm, "Rational", 1, 3, full(3, 1), perm, z,
             {perm[0]: "", perm[1 + z]: "", perm[1 + rs[0]]: bs, perm[1 + rs[1]]: bs}, [leaving],
             signs={z: 1, (z, 0): up, rs[0]: sg, (rs[0], 0): up * sg * (1 if bs == "u" else -1), rs[1]: 1})
    if ctx.thorough:
        scen("two columns and rows", "Rational", 2, 2, full(2, 2), [0, 1, 2, 3], 0, {0: "lu", 1: "", 2: "", 3: "lu"}, [entering], 200000)
        scen("leaving variable, all bounds", "Rational", 1, 3, full(3, 1), [3, 2, 1, 0], 0, {3: "u", 2: "", 1: "lu", 0: "lu"}, [leaving], 200000)
        scen("strict rows", "RationalQ", 1, 2, full(2, 1), [0, 1, 2], 0, {0: "u", 1: "", 2: "lu"}, [], 200000)
