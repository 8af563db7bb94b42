"""C15: options have the documented effect, via the command line and via configure."""
from absstate import *  # noqa: F401,F403
from interp import Cell, CxxThrow, FnRef, Native, Opt, PyFn, Ptr, StrPtr, Struct, SymStr, Undecided, Violation
from poly import EPS, Poly, to_poly
from fractions import Fraction

E = Poly.sym(EPS)


def num(c, k=0):
    return ("objective", (Fraction(c), Fraction(k)))


BOOLS = {"yes": True, "on": True, "1": True, "no": False, "off": False, "0": False}


def cases(v):
    return {v, v.upper(), v.capitalize()}


def spec(ctx, prog):
    """key -> (path of the option, value text -> value, invalid values, is flag)."""
    enum = lambda n, ms: {m.lower(): ctx.enum(prog, n, m) for m in ms}
    bad = ["", "x", " ", "none ", " no", "tru", "yess", "ye", "2", "01", "nonee", "-", "\n"]
    obj = {"local": ("objective", None), "global": num(0), "global,e": num(0, 1), "global,0": num(0), "global,5": num(5), "global,1/2": num(Fraction(1, 2)),
           "global,6/4": num(Fraction(3, 2)), "global,-3": num(-3), "global,123456789012345678901234567890": num(123456789012345678901234567890)}
    return {
        "strict": (("strict",), BOOLS, bad + ["true?", "no,", "none", "full"], True),
        "propagate-conflicts": (("options", "propagate_conflicts"), BOOLS, bad + ["none", "full"], True),
        "propagate-bounds": (("options", "propagate_mode"), enum("PropagateMode", ("None", "Changed", "Full")), bad + ["no", "yes", "match", "partial", "changedfull"], False),
        "select": (("options", "select"), enum("SelectionHeuristic", ("None", "Match", "Conflict")), bad + ["full", "no", "matchconflict", "local"], False),
        "store": (("options", "store_sat_assignment"), enum("StoreSATAssignments", ("No", "Partial", "Total")), bad + ["none", "full", "yes", "parti"], False),
        "objective": (("options", "global_objective"), obj, bad + ["globa", "global,", "globale", "global,x", "global,1/0", "global e", "global,1.5x", "global,e1", "local,1", "local,", "loca", ",1", "global,,1", "globalglobal"], False),
    }


def get(I, th, path):
    v = th
    for p in path:
        v = I.rv(v.get(p))
    return v


def norm(I, path, v):
    if path[-1] != "global_objective":
        return v
    if not isinstance(v, Opt):
        raise Undecided("objective option")
    if v.c is None:
        return ("objective", None)
    q = v.c.v
    if isinstance(q, Poly):
        k, c = q.split(EPS)[1], q.split(EPS)[0]
    else:
        c, k = to_poly(I.rv(q.get("c_"))), to_poly(I.rv(q.get("k_")))
    if not c.is_const() or not k.is_const():
        raise Undecided("symbolic step")
    return ("objective", (Fraction(c.const_value()), Fraction(k.const_value())))


class Api:
    """The part of the C API of clingo used to handle options."""

    def __init__(self, I):
        self.I, self.errors, self.table = I, 0, {}
        I.overrides.update({"clingo_set_error": self.error, "clingo_options_add": self.add, "clingo_options_add_flag": self.flag,
                            "Clingo::Detail::handle_cxx_error": self.error, "Clingo::Detail::handle_error": self.handle})

    def error(self, I, this, args, n):
        self.errors += 1

    def handle(self, I, this, args, n):
        if I.rv(args[0]) is not True:
            raise CxxThrow("std::runtime_error")

    def text(self, x):
        v = self.I.rv(x)
        if isinstance(v, StrPtr):
            return v.s[v.i:]
        raise Undecided("option text")

    def put(self, name, e):
        name = name.split(",")[0]
        if name in self.table:
            raise Violation("option %s is registered twice" % name)
        self.table[name] = e

    def add(self, I, this, args, n):
        self.put(self.text(args[2]), ("option", I.rv(args[4]), I.rv(args[5]), I.rv(args[6]), self.text(args[7]) if I.rv(args[7]) is not None else ""))
        return True

    def flag(self, I, this, args, n):
        self.put(self.text(args[2]), ("flag", I.rv(args[4])))
        return True


def func(prog, name):
    f = [g for g in prog.functions.values() if g["name"] == name and g.get("externc")]
    if not f:
        raise Undecided("function %s not found" % name)
    return f[0]


def new(I):
    th = I.new_struct("clingolpx_theory")
    return th, Ptr(Cell(th))


def snapshot(I, th, sp):
    return {k: norm(I, p, get(I, th, p)) for k, (p, _, _, _) in sp.items()}


def run(ctx):
    prog = ctx.prog("clingo-lpx", "problem", "solving")
    sp = spec(ctx, prog)
    ctx.rule("clingolpx_configure, clingolpx_register_options with the registered parsers and clingolpx_validate_options are "
             "interpreted for every documented key and value in several spellings and for texts close to them. Valid values set "
             "exactly their option, invalid ones are rejected without changing any, and untyped pointers are used with the type "
             "of the object registered for them.")

    def prepare(I, k):
        """A configuration in which every option differs from the value to be set where possible."""
        th, p = new(I)
        return th, p

    def configure(k, vals, ok):
        def rule(I):
            api = Api(I)
            th, p = new(I)
            path, table, _, _ = sp[k]
            v = I.fork(vals, "value of " + k)
            init = I.fork(("default", "other"), "previous configuration")
            if init == "other":
                for k2, (p2, t2, _, _) in sp.items():
                    set_other(I, th, p2, t2)
            before = snapshot(I, th, sp)
            r = I.call_function(func(prog, "clingolpx_configure"), None, [p, StrPtr(k), StrPtr(v)])
            compare(I, api, th, before, k, v, I.rv(r), ok, True)
        return rule

    def set_other(I, th, path, table):
        holder = th
        for x in path[:-1]:
            holder = I.rv(holder.get(x))
        if path[-1] == "global_objective":
            holder.set(path[-1], Opt(Cell(Poly.const(7))))
        elif isinstance(I.rv(holder.get(path[-1])), bool):
            holder.set(path[-1], True)
        else:
            holder.set(path[-1], max(table.values()))

    def compare(I, api, th, before, k, v, r, ok, err):
        after = snapshot(I, th, sp)
        if ok:
            if r is not True:
                raise Violation("value '%s' of option %s is rejected" % (v, k))
            want = dict(before)
            want[k] = sp[k][1][v.lower()]
            for x in want:
                if after[x] != want[x]:
                    raise Violation("setting option %s to '%s' sets %s to %s instead of %s" % (k, v, x, after[x], want[x]))
            if api.errors:
                raise Violation("an error is set although value '%s' of option %s is accepted" % (v, k))
        else:
            if r is not False:
                raise Violation("invalid value '%s' of option %s is accepted" % (v, k))
            if after != before:
                raise Violation("the rejected value '%s' of option %s changes the configuration" % (v, k))
            if err and not api.errors:
                raise Violation("no error is set for the invalid value '%s' of option %s" % (v, k))

    def parser(k, vals, ok):
        def rule(I):
            api = Api(I)
            th, p = new(I)
            path, table, _, flag = sp[k]
            r = I.call_function(func(prog, "clingolpx_register_options"), None, [p, Ptr(Cell("options"))])
            if I.rv(r) is not True:
                raise Violation("registering options fails")
            if set(api.table) - set(sp):
                raise Undecided("additional options %s" % sorted(set(api.table) - set(sp)))
            if k not in api.table:
                raise Violation("option %s is not registered" % k)
            e = api.table[k]
            if flag != (e[0] == "flag"):
                raise Violation("option %s is registered as %s" % (k, e[0]))
            v = I.fork(vals, "value of " + k)
            before = snapshot(I, th, sp)
            if flag:
                # clingo stores the parsed Boolean
                c = I.deref(e[1])
                if not isinstance(c.v, bool):
                    raise Violation("flag %s is not stored in a Boolean" % k)
                c.v = table[v.lower()]
                compare(I, api, th, before, k, v, True, True, False)
                return
            if e[3] is not False:
                raise Violation("option %s may be given several times although the last value wins" % k)
            f = e[1]
            if not isinstance(f, FnRef):
                raise Undecided("parser of option %s" % k)
            r = I.call_function(prog.functions[f.f], None, [StrPtr(v), e[2]])
            compare(I, api, th, before, k, v, I.rv(r), ok, False)
        return rule
    for k, (path, table, bad, flag) in sp.items():
        good = sorted({c for v in table for c in cases(v)})
        ctx.explore("configure %s: documented values" % k, prog, configure(k, good, True), native_numbers=True)
        ctx.explore("configure %s: other values" % k, prog, configure(k, sorted(set(bad) - set(good)), False))
        ctx.explore("command line %s: documented values" % k, prog, parser(k, good, True))
        if not flag:
            ctx.explore("command line %s: other values" % k, prog, parser(k, sorted(set(bad) - set(good)), False))

    def unknown(I):
        api = Api(I)
        th, p = new(I)
        before = snapshot(I, th, sp)
        k = I.fork(("", "x", "stric", "strictt", "propagate", "Store!", "objective,"), "key")
        r = I.call_function(func(prog, "clingolpx_configure"), None, [p, StrPtr(k), StrPtr("yes")])
        if I.rv(r) is not False or snapshot(I, th, sp) != before:
            raise Violation("unknown key '%s' is accepted" % k)
        if not api.errors:
            raise Violation("no error is set for the unknown key '%s'" % k)
    ctx.explore("configure: unknown keys", prog, unknown)

    def validate(I):
        api = Api(I)
        th, p = new(I)
        strict = I.fork((False, True), "strict")
        o = I.fork((None, (0, 0), (0, 1), (3, 0), (3, 1), (0, -2)), "step")
        th.set("strict", strict)
        if o is not None:
            I.rv(th.get("options")).set("global_objective", Opt(Cell(Poly.const(o[0]) + Poly.const(o[1]) * E)))
        r = I.rv(I.call_function(func(prog, "clingolpx_validate_options"), None, [p]))
        ok = strict or o is None or o[1] == 0
        if r is not ok:
            raise Violation("a configuration with%s strict mode and step %s is %s" % ("" if strict else "out", o, "accepted" if r else "rejected"))
        if not ok and not api.errors:
            raise Violation("no error is set for an invalid configuration")
    ctx.explore("validation", prog, validate)

    OFF = {"strict": "no", "objective": "local", "propagate-conflicts": "no", "propagate-bounds": "none", "select": "none", "store": "no"}

    def defaults(I):
        c = Cell(None)
        if I.rv(I.call_function(func(prog, "clingolpx_create"), None, [Ptr(c)])) is not True:
            raise Violation("creating a theory fails")
        th = I.deref(I.rv(c)).v
        got = snapshot(I, th, sp)
        for k in sp:
            if k not in OFF:
                continue
            if got[k] != sp[k][1][OFF[k]]:
                raise Violation("option %s is %s instead of '%s' if it is not given" % (k, got[k], OFF[k]))
    ctx.explore("options not given", prog, defaults)
