"""C20: the sign heuristic follows the chosen strategy."""
from props.facade import *

LE, GE, EQ = 0, 1, 2
RN = {LE: "<=", GE: ">=", EQ: "="}
LIT = 5


def lexsign(I, v):
    v0, v1 = v.split(EPS) if EPS in v.symbols() else (v, Poly.const(0))
    return I.sign(v0) or I.sign(v1)


def holds(I, val, rel, bound):
    s = lexsign(I, val - bound)
    return s <= 0 if rel == LE else s >= 0 if rel == GE else s == 0


def run(ctx):
    ctx.rule("Propagator::decide is interpreted for arbitrary bounds of a literal and its complement and arbitrary values in "
             "each thread. The sign is flipped exactly if a constraint of the literal disagrees, or one of its complement "
             "agrees, with the chosen strategy; all other decisions are left to the solver, and nothing is modified.")
    prog = ctx.prog("solving", "tableau")
    sel = {k: ctx.enum(prog, "SelectionHeuristic", k) for k in ("None", "Match", "Conflict")}

    def decide(V, mode, pos, neg):
        def f(I):
            fb = I.fork((LIT, -LIT), "fallback")
            th = I.fork((0, 1), "thread")
            p = I.new_struct("Propagator<%s>" % V)
            p.get("options_").set("select", sel[mode])
            slvs, vals = [], []
            for t in range(2):
                s = I.new_struct("Solver<%s>" % V)
                s.f["options_"] = p.f["options_"]
                vv = []
                for i in range(3):
                    v = I.new_struct("Solver<%s>::Variable" % V)
                    x = Poly.sym("v%d_%d" % (t, i))
                    if V == "RationalQ":
                        x = x + Poly.sym(EPS) * Poly.sym("w%d_%d" % (t, i))
                    vv.append(x)
                    v.set("value", x)
                    v.set("index", 2 - i)           # positions do not matter for the values
                    v.set("reverse_index", 2 - i)
                    s.get("variables_").items.append(Cell(v))
                vals.append(vv)
                m = s.get("bounds_")
                for lit, specs in ((7, ((0, LE),)), (fb, pos), (-fb, neg), (-7, ((1, GE),))):
                    for k, (x, rel) in enumerate(specs):
                        b = I.new_struct("Solver<%s>::Bound" % V)
                        y = Poly.sym("b%d_%d" % (lit * (1 if fb > 0 or abs(lit) == 7 else -1), k))
                        b.set("value", y)
                        b.set("variable", x)
                        b.set("rel", rel)
                        b.set("lit", lit)
                        m.nodes.append(Cell(Tup([Cell(lit), Cell(b)])))
                slvs.append(Cell(Tup([Cell(0), Cell(s)])))
            p.get("slvs_").items = slvs
            r = I.call_method(Cell(p), "decide", th, Cell(None), fb)
            r = I.rv(r)
            flip = False
            if mode != "None":
                want = mode == "Match"
                b = {n: [c.v.items[1].v for c in slvs[th].v.items[1].v.get("bounds_").nodes if c.v.items[0].v == n] for n in (fb, -fb)}
                for x in b[fb]:
                    flip |= holds(I, vals[th][x.get("variable")], x.get("rel"), x.get("value")) != want
                for x in b[-fb]:
                    flip |= holds(I, vals[th][x.get("variable")], x.get("rel"), x.get("value")) == want
            if r not in (fb, -fb):
                raise Violation("the literal %s is returned for the fallback %s" % (r, fb))
            if (r == -fb) != flip:
                raise Violation("with strategy %s, the sign of a literal is %s although its constraint%s" % (
                    mode.lower(), "flipped" if r == -fb else "kept", "s ask for the opposite"))
        return f
    for V in ("Rational", "RationalQ"):
        for mode in ("None", "Match", "Conflict"):
            cfg = [((), ()), (((0, LE),), ()), (((0, GE),), ()), (((1, EQ),), ()), ((), ((0, LE),)), ((), ((1, GE),)), ((), ((0, EQ),)),
                   (((0, LE),), ((1, GE),)), (((0, LE), (1, GE)), ()), ((), ((0, GE), (1, EQ)))]
            if ctx.thorough:
                R = (LE, GE, EQ)
                cfg += [(((0, a), (1, b)), ((2, c), (0, d))) for a in R for b in R for c in R for d in (LE, EQ)]
            for k, (pos, neg) in enumerate(cfg):
                ctx.explore("decisions (%s, %s, %d)" % (V, mode, k), prog, decide(V, mode, pos, neg), 20000)
