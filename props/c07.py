"""C07: pivots are selected with Bland's rule and satisfiability is only reported for satisfied bounds."""
from props.core import *


def bland(st):
    """Compare the pivot performed with the one required by Bland's rule (initial state)."""
    I = st.I
    now = [c.v.get("index") for c in st.s.get("variables_").items]
    diff = [p for p in range(st.n) if now[p] != st.pos0[p]]
    if len(diff) != 2 or not diff[0] < st.nb <= diff[1]:
        raise Violation("one iteration does not exchange exactly one basic and one non-basic variable")
    j, i = diff[0], diff[1] - st.nb
    xi, xj = st.pos0[diff[1]], st.pos0[j]
    # leaving variable
    dirs = {}
    for p in range(st.nb, st.n):
        x = st.pos0[p]
        lo, up = st.initial(x, GE), st.initial(x, LE)
        if lo is not None and I.sign(st.values0[x] - lo.get("value")) < 0:
            dirs[x] = (1, lo.get("value"))
        elif up is not None and I.sign(st.values0[x] - up.get("value")) > 0:
            dirs[x] = (-1, up.get("value"))
    if xi not in dirs:
        raise Violation("the leaving variable does not violate a bound")
    if xi != min(dirs):
        raise Violation("the leaving variable is not the violated basic variable with the smallest index")
    d, target = dirs[xi]
    if not I.is_zero(st.val(xi) - target):
        raise Violation("the leaving variable is not set to the bound it violated")
    # entering variable
    cand = []
    for p in range(st.nb):
        if (i, p) not in st.M0:
            continue
        x = st.pos0[p]
        up = I.sign(st.M0[i, p]) * d > 0
        b = st.initial(x, LE if up else GE)
        if b is None or I.sign((b.get("value") - st.values0[x]) * (1 if up else -1)) > 0:
            cand.append(x)
    if xj not in cand:
        raise Violation("the entering variable cannot be moved in the required direction")
    if xj != min(cand):
        raise Violation("the entering variable is not the eligible non-basic variable with the smallest index")


def outcome(st, ret):
    I = st.I
    if ret is True:
        check_all_satisfied(st, "satisfiability is reported")
        return
    # a conflict: there is a violated row none of whose variables can be moved
    for p in range(st.nb, st.n):
        x = st.pos0[p]
        for rel, d in ((GE, 1), (LE, -1)):
            b = st.initial(x, rel)
            if b is None or I.sign((st.values0[x] - b.get("value")) * d) >= 0:
                continue
            stuck = True
            for j in range(st.nb):
                if (p - st.nb, j) not in st.M0:
                    continue
                y = st.pos0[j]
                up = I.sign(st.M0[p - st.nb, j]) * d > 0
                c = st.initial(y, LE if up else GE)
                if c is None or I.sign((c.get("value") - st.values0[y]) * (1 if up else -1)) > 0:
                    stuck = False
            if stuck:
                return
    raise Violation("a conflict is reported although no violated row is tight")


def run(ctx):
    ctx.rule("For one generic iteration from an arbitrary state the exchanged pair of variables is compared with the "
             "pair required by Bland's rule (smallest violated basic variable, smallest eligible non-basic variable); "
             "when the iteration reports satisfiability no variable may violate a bound, when it reports a conflict "
             "a violated row has to be tight.")
    ctx.assume("rows other than the examined ones are represented by one generic row")
    prog = ctx.prog("solving", "tableau")
    for perm, q in (([2, 0, 1], [0, 1]), ([0, 2, 1], [2, 1]), ([1, 2, 0], [2, 0])):
        a, b = perm[1], perm[2]
        for k in (("L!", "U!"), ("u", "L!"), ("l", "u")):
            ctx.explore("leaving variable (%s, %s)" % (perm, "/".join(k)), prog,
                        step(prog, "Rational", 1, 2, full(2, 1), perm, q, bland, outcome,
                             bounds={a: k[0], b: k[1], perm[0]: ""}), 20000)
    for perm in ([0, 1, 2], [1, 0, 2], [2, 0, 1], [2, 1, 0]):
        for k in ("L!", "U!"):
            ctx.explore("entering variable (%s, %s)" % (perm, k), prog,
                        step(prog, "Rational", 2, 1, full(1, 2), perm, [perm[2]], bland, outcome,
                             bounds={perm[2]: k, perm[0]: "lu" if k == "L!" else "l", perm[1]: "u" if k == "L!" else "lu"}), 20000)
    ctx.explore("entering variable (3 columns)", prog,
                step(prog, "Rational", 3, 1, full(1, 3), [2, 0, 1, 3], [3], bland, outcome,
                     bounds={3: "L!", 0: "u", 1: "u", 2: "u"}), 20000)
    ctx.explore("entering variable (sparse row)", prog,
                step(prog, "Rational", 2, 1, {(0, 1)}, None, [2], bland, outcome, bounds={2: "L!", 0: "", 1: "lu"}), 20000)
    ctx.explore("strict values", prog,
                step(prog, "RationalQ", 1, 1, full(1, 1), None, [1], bland, outcome, bounds={1: "lu", 0: "lu"}), 20000)
    # variables that left the basis while being queued are skipped
    ctx.explore("queued variable that became non-basic", prog,
                step(prog, "Rational", 1, 1, full(1, 1), [0, 1], [0, 1], bland, outcome, bounds={1: "L!", 0: "l"}), 20000)
    if ctx.thorough:
        for perm in itertools.permutations(range(4)):
            ctx.explore("deep %s" % (perm,), prog,
                        step(prog, "Rational", 3, 1, full(1, 3), list(perm), [perm[3]], bland, outcome,
                             bounds={perm[3]: "lu!", perm[0]: "lu", perm[1]: "lu", perm[2]: "lu"}), 200000)
