"""C18: threads only share what is protected."""
from absstate import *  # noqa: F401,F403
from clingo_model import Control, World
from effects import Effects, parts, unwrap, walk
from interp import Cell, MapObj, Mutex, Native, Opt, Ptr, Struct, Sym, Tup, Undecided, Vec, Violation
from poly import Poly
from props.c21 import Run
from props.prep import EQ, GE, LE
from props.propag import Model, fill_state


class Guarded(Cell):
    """A cell that may only be read while the mutex is held, and only be written while it is held exclusively."""
    __slots__ = ("val", "own", "nm")

    def __init__(self, val, own, nm, t=None):
        self.val, self.own, self.nm, self.t = val, own, nm, t

    @property
    def v(self):
        if self.own.on and not self.own.held():
            raise Violation("%s is read without holding the mutex protecting it" % self.nm)
        return self.val

    @v.setter
    def v(self, x):
        if self.own.on and self.own.held() != "exclusive":
            raise Violation("%s is written without holding the mutex protecting it exclusively" % self.nm)
        self.val = x


class Guard:
    """Protects the fields of an object by its mutexes."""

    def __init__(self, st):
        self.on = False
        self.ms = [c.v for c in st.f.values() if isinstance(c.v, Mutex)]
        if not self.ms:
            raise Undecided("the shared state of the objective has no mutex")
        for k, c in st.f.items():
            if not isinstance(c.v, Mutex):
                st.f[k] = Guarded(c.v, self, k, c.t)

    def held(self):
        for m in self.ms:
            if m.mode == "exclusive":
                return "exclusive"
        return next((m.mode for m in self.ms if m.mode), None)


class Poison(Cell):
    """Something another thread modifies at the same time."""
    __slots__ = ("nm",)

    def __init__(self, nm):
        self.nm, self.t = nm, None

    @property
    def v(self):
        raise Violation("%s is accessed although another thread may modify it at the same time" % self.nm)

    @v.setter
    def v(self, x):
        raise Violation("%s is modified although another thread may modify it at the same time" % self.nm)


def deep(v, seen=()):
    """Comparable picture of an abstract value."""
    if isinstance(v, Guarded):
        return deep(v.val, seen)
    if isinstance(v, Poison):
        return "poison"
    if isinstance(v, LazyCell) and not v.done:
        return ("lazy", id(v))
    if isinstance(v, Cell):
        return deep(v.v, seen)
    if id(v) in seen:
        return ("ref", id(v))
    s = seen + (id(v),)
    if isinstance(v, Struct):
        return (v.cls, tuple((k, deep(c, s)) for k, c in v.f.items() if k not in v.refs))
    if isinstance(v, Vec):
        return tuple(deep(c, s) for c in v.items)
    if isinstance(v, Tup):
        return tuple(deep(c, s) for c in v.items)
    if isinstance(v, MapObj):
        return tuple(deep(c, s) for c in v.nodes)
    if isinstance(v, Opt):
        return ("opt", None if v.c is None else deep(v.c, s))
    if isinstance(v, Ptr):
        return ("ptr", id(v.cell()))
    if isinstance(v, Native):
        return ("native", id(v))
    return repr(v)


class Threads(Run):
    """Two threads in the second step of a multi-shot run."""

    def __init__(self, I, V):
        Run.__init__(self, I, V, {"global_objective": Opt(Cell(Poly.const(0))), "select": Run.select})
        self.maybe_false = ()
        self.init([("x", GE, 10), ("y", LE, 11)], 2, ("y",))
        self.propagate(0, (10,), (0, 1))
        self.init([], 2)
        st = self.p.get("objective_state_")
        fill_state(I, st, V)
        self.guard = Guard(st)
        # a thread may have integrated the value or not
        self.calls = ("propagate", "propagate on top level", "check", "check on top level", "undo", "decide", "on_model", "access")

    def act(self, what, t):
        I, p = self.I, Cell(self.p)
        top = what.endswith("top level")
        self.guard.on = True
        try:
            if what.startswith("propagate"):
                I.call_method(p, "propagate", self.control(0 if top else 1, t), Cell(Vec([Cell(11)], "int")))
            elif what.startswith("check"):
                I.call_method(p, "check", self.control(0 if top else 1, t, not top))
            elif what == "undo":
                self.guard.on = False
                I.call_method(p, "propagate", self.control(1, t), Cell(Vec([], "int")))
                self.guard.on = True
                I.call_method(p, "undo", self.control(1, t), Cell(Vec([], "int")))
            elif what == "decide":
                I.call_method(p, "decide", t, Cell(None), 10)
            elif what == "on_model":
                I.call_method(p, "on_model", Cell(Model(t)))
            elif what == "access":
                for i in range(I.rv(I.call_method(p, "n_values", t))):
                    I.call_method(p, "has_value", t, i)
                    I.call_method(p, "get_value", t, i)
                    I.call_method(p, "get_symbol", i)
                I.call_method(p, "get_objective", t)
                I.call_method(p, "lookup_symbol", Cell(Sym("function", "x")))
        finally:
            self.guard.on = False

    def parts(self, own):
        """Picture of everything but the solver of a thread and the protected state."""
        out = {}
        for k, c in self.p.f.items():
            if k == "slvs_":
                out["slvs_"] = len(c.v.items)
                for i, s in enumerate(c.v.items):
                    if i != own:
                        out["the solver of thread %d" % i] = deep(s)
            elif k != "objective_state_" and not isinstance(c, Poison):
                out[k] = deep(c)
        return out


def run(ctx):
    ctx.rule("All pairs of callbacks are interpreted for two threads: apart from the solver of its own thread, a callback may "
             "only write shared state that no callback of the other thread accesses. Fields of the shared objective state may "
             "only be read while their mutex is held and only be written while it is held exclusively. Structurally, "
             "there are no mutable global or static variables and no mutable members besides mutexes.")
    ctx.assume("clingo calls the callbacks of one thread one after another, and init while no thread is solving")
    prog = ctx.prog("solving", "tableau", "problem")
    Run.both = 3
    Run.select = ctx.enum(prog, "SelectionHeuristic", "Match")

    def pair(V, a, first):
        def f(I):
            r = Threads(I, V)
            t, o = (0, 1) if first == 0 else (1, 0)
            before = r.parts(t)
            r.act(a, t)
            after = r.parts(t)
            written = [k for k in before if before[k] != after.get(k)]
            for k in written:
                if k.startswith("the solver") or k == "slvs_":
                    raise Violation("%s is modified by %s in another thread" % (k, a.split(" ")[0]))
            b = I.fork(r.calls, "callback of the other thread")
            for k in written:
                r.p.f[k] = Poison(k)
            r.p.f["slvs_"].v.items[t] = Poison("the solver of thread %d" % t)
            r.act(b, o)
        return f
    for V in ("Rational", "RationalQ") if ctx.thorough else ("Rational",):
        for a in ("propagate", "propagate on top level", "check", "check on top level", "undo", "decide", "on_model", "access"):
            for first in (0, 1):
                ctx.explore("%s in thread %d (%s)" % (a, first, V), prog, pair(V, a, first), 20000)

    whole = ctx.prog("solving", "tableau", "parsing", "problem", "clingo-lpx", "app", "main")

    def globals_():
        E = Effects(whole)
        roots = [f for f in whole.functions.values() if f.get("body") and f["name"] in CALLBACKS]
        reach = E.reachable(roots)
        sites, finds = [], []
        static = {k: v for k, v in whole.vars.items() if v.get("inroot") and not v.get("tls") and not v.get("const")}
        for fid, path in reach.items():
            f = whole.functions[fid]
            for p in parts(f):
                for x in walk(p):
                    for n in modified(x):
                        if n.get("k") == "var" and f["tu"] + ":" + n.get("id", "") in static:
                            finds.append(("variable %s is shared by all threads and modified without protection (reached via %s)" % (
                                n["n"], " -> ".join(path)), "%s:%s" % (f["file"], x.get("l")), f["n"]))
                        elif n.get("k") == "mem" and (n.get("cls"), n["n"]) in mutable and f.get("const"):
                            finds.append(("mutable member %s::%s is modified in a const function" % (n["cls"], n["n"]),
                                          "%s:%s" % (f["file"], x.get("l")), f["n"]))
            sites.append(f["n"])
        return sites, finds
    mutable = {(n, fl["name"]) for n, r in whole.records.items() for fl in r["fields"]
               if fl.get("mutable") and "mutex" not in fl["t"] and "atomic" not in fl["t"]}
    ctx.structural("static variables and mutable members", globals_)


CALLBACKS = ("propagate", "check", "undo", "decide", "on_model", "print_model", "extend_model", "get_value", "has_value", "get_symbol",
             "lookup_symbol", "get_objective")
READS = {"size", "empty", "begin", "end", "cbegin", "cend", "find", "count", "at", "data", "c_str", "front", "back", "rbegin", "rend", "value",
         "has_value", "get", "operator[]", "operator*", "operator->", "str", "lower_bound", "upper_bound", "equal_range"}


def base(n):
    """Object an lvalue expression is part of."""
    while True:
        n = unwrap(n)
        k = n.get("k")
        if k == "mem" and not n.get("arrow"):
            yield n
            n = n["o"]
        elif k in ("index", "sub") and isinstance(n.get("a"), dict):
            n = n["a"]
        elif k == "ocall" and n.get("op") == "[]":
            n = n["args"][0]
        elif k == "mcall" and n.get("n", "").split("::")[-1] in ("at", "front", "back"):
            n = n["o"]
        else:
            yield n
            return


def modified(x):
    """Objects modified by the operation at a node."""
    k = x.get("k")
    out = []
    if k in ("assign", "cassign"):
        out += base(x["a"])
    elif k == "un" and x.get("op") in ("++", "--"):
        out += base(x["e"])
    elif k == "mcall" and isinstance(x.get("o"), dict) and not x.get("const") and not x.get("arrow"):
        m = x.get("n", "").split("::")[-1]
        if m not in READS and (x.get("inroot") is False or m in MUTATORS):
            out += base(x["o"])
    elif k == "ocall" and x.get("args"):
        op = x.get("op", "")
        if op in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<=", ">>=", "|=", "&="):
            out += base(x["args"][0])
    if k in ("call", "mcall", "ctor"):
        for a, t in zip(x.get("args", ()), x.get("pt") or ()):
            if t.endswith("&") and not t.endswith("&&") and "const" not in t:
                out += base(a)
    return out


MUTATORS = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "assign", "pop_back", "push", "pop", "swap", "reset",
            "store", "try_emplace"}
