"""C16: the C interface gives access to exactly the assignment of the variables of the program."""
from props.facade import *


def run(ctx):
    prog = ctx.prog("clingo-lpx", "solving", "problem")
    ctx.rule("The functions of the C interface are interpreted for all patterns of user and auxiliary variables up to the bound, "
             "arbitrary values and two threads: iteration visits each user variable once, in order, and symbols, indices and "
             "values agree.")
    N = 5 if ctx.thorough else 4
    ctx.assume("patterns of at most %d variables; the iteration treats each variable separately" % N)

    def iterate(V):
        def f(I):
            th = Theory(I, prog, V, kinds(I, N))
            t = I.fork((0, 1), "thread")
            idx = Cell(77, "unsigned long")
            th.call("clingolpx_assignment_begin", t, Ptr(idx))
            seen = []
            while True:
                r = th.call("clingolpx_assignment_next", t, Ptr(idx))
                if r is False:
                    break
                if r is not True:
                    raise Undecided("result of next")
                if len(seen) > len(th.ks):
                    raise Violation("the iteration over the assignment does not end")
                i = idx.v
                s = sym_of(th.call("clingolpx_get_symbol", i))
                if th.call("clingolpx_assignment_has_value", t, i) is not True:
                    raise Violation("variable %s visited by the iteration has no value" % s)
                out = out_value(I)
                th.call("clingolpx_assignment_get_value", t, i, Ptr(Cell(out)))
                if out.get("type") != ctx.enum(prog, "clingolpx_value_type", "clingolpx_value_type_symbol"):
                    raise Violation("the value of a variable is not marked as symbol")
                got = sym_of(out.get("symbol"))
                if s not in th.syms:
                    raise Violation("index %s does not belong to a variable of the program" % i)
                want = th.values[t][th.syms.index(s)]
                if got != Sym("string", name=value_text(want)):
                    raise Violation("the value of variable %s in thread %d is reported as %s" % (s, t, got))
                seen.append(s)
            want = [s for s, a in zip(th.syms, th.ks) if not a]
            if seen != want:
                raise Violation("the iteration visits %s but the variables are %s" % (seen, want))
            if th.call("clingolpx_assignment_next", t, Ptr(idx)) is not False:
                raise Violation("the iteration continues after its end")
        return f

    def lookup(V):
        def f(I):
            th = Theory(I, prog, V, kinds(I, 3))
            t = I.fork((0, 1), "thread")
            out = Cell(77, "unsigned long")
            k = I.fork(tuple(range(len(th.ks))) + ("unknown",), "symbol")
            s = Sym("function", "unknown") if k == "unknown" else th.syms[k]
            r = th.call("clingolpx_lookup_symbol", th.csym(s), Ptr(out))
            if k == "unknown":
                if r is not False:
                    raise Violation("an index is returned for an unknown variable")
                return
            if r is not True:
                raise Violation("no index is returned for variable %s" % s)
            if sym_of(th.call("clingolpx_get_symbol", out.v)) != s:
                raise Violation("the index of variable %s belongs to another symbol" % s)
            if out.v == 0:
                raise Violation("index zero, which marks the begin of the assignment, is returned for variable %s" % s)
            v = out_value(I)
            if th.call("clingolpx_assignment_has_value", t, out.v) is not True:
                raise Violation("variable %s has no value" % s)
            th.call("clingolpx_assignment_get_value", t, out.v, Ptr(Cell(v)))
            if sym_of(v.get("symbol")) != Sym("string", name=value_text(th.values[t][k])):
                raise Violation("the value reported for variable %s is not its value in the thread" % s)
        return f

    def bounds(V):
        def f(I):
            th = Theory(I, prog, V, kinds(I, 2))
            i = I.fork((0, len(th.ks) + 1, len(th.ks) + 5), "index")
            if th.call("clingolpx_assignment_has_value", 0, i) is not False:
                raise Violation("index %d, which does not belong to any variable, has a value" % i)
        return f

    def repeated(V):
        """Values do not depend on what has been queried before."""
        def f(I):
            th = Theory(I, prog, V, [False, False])
            out = out_value(I)
            for t, i in ((0, 1), (1, 2), (0, 2), (1, 1)):
                th.call("clingolpx_assignment_get_value", t, i, Ptr(Cell(out)))
                if sym_of(out.get("symbol")) != Sym("string", name=value_text(th.values[t][i - 1])):
                    raise Violation("the value of a variable depends on previous queries")
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("iteration (%s)" % V, prog, iterate(V))
        ctx.explore("lookup (%s)" % V, prog, lookup(V))
        ctx.explore("indices without variable (%s)" % V, prog, bounds(V))
        ctx.explore("repeated queries (%s)" % V, prog, repeated(V))
