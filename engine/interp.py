"""Abstract interpreter over the type-resolved syntax tree.

The interpreter evaluates functions of the repository over abstract states:

* numbers are elements of the polynomial-identity/sign domain of poly.py and
  never concrete program data,
* containers are represented by one individual per class of elements named by
  the analysed rule (pivot row/other row, ...),
* calls into clingo, flint and the standard library are replaced by summaries,
* a condition the abstract state does not decide splits the state (trace
  partitioning); both parts are refined with the condition and analysed.

Constructs without a transfer function make the analysed obligation
`Undecided`; this is reported as such and never as a violation.
"""
import functools
import json
import os
import re
import sys
import time
from fractions import Fraction

from poly import EPS, Facts, Poly, to_poly


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class CutPath(Exception):
    """Raised by a rule to stop an analysed trace (for example after one generic iteration)."""


class Violation(Exception):
    def __init__(self, msg, where=None, fn=None):
        Exception.__init__(self, msg)
        self.msg, self.where, self.fn = msg, where, fn


class CxxThrow(Exception):
    def __init__(self, tname, value=None, where=None):
        Exception.__init__(self, tname)
        self.tname, self.value, self.where = tname, value, where


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- values

# Precise tracking of lifetimes and initialisation (rules of C26).
MEMSAFE = False


class Special:
    def __init__(self, msg):
        self.msg = msg

    def __repr__(self):
        return "<%s>" % self.msg


DEAD = Special("a reference or pointer to an element that was moved or removed when its container was modified is used")
UNINIT = Special("a variable is read before it is initialised")


class Cell:
    __slots__ = ("v", "t")

    def __init__(self, v=None, t=None):
        self.v = v
        self.t = t

    def __repr__(self):
        return "&%r" % (self.v,)


class CharCell(Cell):
    """A character of the string stored in another cell."""
    __slots__ = ("own", "i")

    def __init__(self, own, i):
        self.own, self.i, self.t = own, i, "char"

    @property
    def v(self):
        s = self.own.v
        return ord(s[self.i]) if self.i < len(s) else 0

    @v.setter
    def v(self, x):
        s = self.own.v
        if not isinstance(s, str) or not isinstance(x, int) or self.i >= len(s):
            raise Undecided("assignment to a character")
        self.own.v = s[:self.i] + chr(x % 256) + s[self.i + 1:]


class LazyCell(Cell):
    """A cell whose abstract value is determined (partitioned) when first read."""
    __slots__ = ("fn", "done", "val")

    def __init__(self, fn, t=None):
        self.fn, self.done, self.val, self.t = fn, False, None, t

    @property
    def v(self):
        if not self.done:
            self.done = True
            self.val = self.fn()
        return self.val

    @v.setter
    def v(self, x):
        self.done = True
        self.val = x


class Struct:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.refs = set()

    def get(self, n):
        if n not in self.f:
            raise Undecided("no field %s in %s" % (n, self.cls))
        return self.f[n].v

    def set(self, n, v):
        if n not in self.f:
            raise Undecided("no field %s in %s" % (n, self.cls))
        self.f[n].v = v

    def __repr__(self):
        return "%s%r" % (self.cls, {k: c.v for k, c in self.f.items()})


class Vec:
    """std::vector, std::deque, arrays and spans."""

    inv = ()      # positions from which on iterators were invalidated, in order of the modifications
    cap = 0       # number of elements for which no reallocation is needed

    def __init__(self, items=None, et=None):
        self.items = items if items is not None else []
        self.et = et

    def invalidate(self, i):
        self.inv = self.inv + (i,)

    def vals(self):
        return [c.v for c in self.items]

    def __repr__(self):
        return "Vec%r" % (self.vals(),)


class Ptr:
    """Pointer or iterator; either a plain cell or a position in a vector."""
    __slots__ = ("c", "vec", "i", "rev", "s")

    def __init__(self, c=None, vec=None, i=None, rev=False):
        self.c, self.vec, self.i, self.rev = c, vec, i, rev
        self.s = len(vec.inv) if vec is not None else 0

    def stale(self):
        v = self.vec
        return v is not None and len(v.inv) > self.s and min(v.inv[self.s:]) <= self.i

    def cell(self):
        if self.vec is not None:
            i = self.i - 1 if self.rev else self.i
            if 0 <= i < len(self.vec.items):
                return self.vec.items[i]
            return None
        return self.c

    def same(self, o):
        if self.vec is not None and o.vec is not None:
            if self.vec is o.vec:
                return self.i == o.i
        return self.cell() is o.cell() and self.cell() is not None

    def __repr__(self):
        return "Ptr(%r)" % (self.cell(),)


class StrPtr:
    """char const * into a constant string, or a pointer or iterator into the string stored in cell own."""
    __slots__ = ("_s", "i", "own")

    def __init__(self, s, i=0, own=None):
        self._s, self.i, self.own = s, i, own

    @property
    def s(self):
        return self._s if self.own is None else self.own.v

    def at(self, i):
        return StrPtr(self._s, i, self.own)

    def same(self, o):
        if self.own is not None or o.own is not None:
            return self.own is o.own
        return self._s is o._s

    def __repr__(self):
        return "%r+%d" % (self.s, self.i)


class Tup:
    def __init__(self, items, refs=()):
        self.items = items
        self.refs = set(refs)

    def __repr__(self):
        return "Tup%r" % ([c.v for c in self.items],)


class Opt:
    def __init__(self, c=None):
        self.c = c

    def __repr__(self):
        return "Opt(%r)" % (None if self.c is None else self.c.v)


class Variant:
    def __init__(self, alt, c):
        self.alt, self.c = alt, c

    def __repr__(self):
        return "Variant(%s,%r)" % (self.alt, self.c.v)


class MapObj:
    """Maps; nodes are Tup(key, value)."""

    stamp = 0     # number of modifications that may have invalidated iterators
    cap = 0

    def __init__(self, kind, kt=None, vt=None):
        self.kind, self.kt, self.vt = kind, kt, vt
        self.nodes = []

    def inserted(self):
        """One node was added."""
        if "unordered" in self.kind and len(self.nodes) > self.cap:
            self.stamp += 1

    def find_all(self, I, key):
        return [n for n in self.nodes if I.equal(n.v.items[0].v, key)]

    def __repr__(self):
        return "Map%r" % ([n.v for n in self.nodes],)


class MapIt:
    __slots__ = ("m", "node", "s")

    def __init__(self, m, node):
        self.m, self.node = m, node
        self.s = m.stamp

    def stale(self):
        return self.s != self.m.stamp

    def __repr__(self):
        return "MapIt(%r)" % (self.node,)


class PQ:
    def __init__(self, cmp):
        self.items = []
        self.cmp = cmp


class UniquePtr:
    def __init__(self, p=None):
        self.p = p


class Clo:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnRef:
    def __init__(self, f, n):
        self.f, self.n = f, n

    def __repr__(self):
        return "fn " + self.f


class Native:
    """Python-implemented opaque object (clingo objects, streams, locks)."""

    def call(self, I, name, args, node):
        m = getattr(self, "m_" + re.sub(r"\W", "_", name), None)
        if m is None:
            raise Undecided("no model for %s.%s" % (type(self).__name__, name))
        return m(I, *args)


class PyFn(Native):
    def __init__(self, fn):
        self.fn = fn


class NullOpt:
    pass


NULLOPT = NullOpt()


class Sym:
    """Clingo symbol."""
    __slots__ = ("kind", "name", "args", "pos", "num", "opaque")

    def __init__(self, kind, name=None, args=(), pos=True, num=None, opaque=None):
        self.kind, self.name, self.args, self.pos, self.num, self.opaque = kind, name, tuple(args), pos, num, opaque

    def key(self):
        return (self.kind, self.name, self.args, self.pos, self.num, self.opaque)

    def __eq__(self, o):
        return isinstance(o, Sym) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.opaque is not None:
            return "<%s>" % self.opaque
        if self.kind == "number":
            return str(self.num)
        if self.kind == "string":
            return '"%s"' % (self.name,)
        return "%s%s%s" % ("" if self.pos else "-", self.name, "(%s)" % ",".join(map(repr, self.args)) if self.args else "")


SYMTYPE = {"infimum": 0, "number": 1, "string": 4, "function": 5, "supremum": 7}


class SymStr:
    """A string whose content is the text of abstract values (parts)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, SymStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "str" + repr(self.parts)


class Stream(Native):
    def __init__(self):
        self.parts = []

    def m_str(self, I, *a):
        if a:
            s = I.rv(a[0])
            self.parts = [] if s == "" else [s]
            return None
        return I.join(self.parts)

    def m_clear(self, I, *a):
        return None

    def m_flush(self, I, *a):
        return None


@functools.lru_cache(None)
def strip_t(t):
    t = t.strip()
    while True:
        t0 = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
        if t.endswith(" const"):
            t = t[:-6]
        while t.endswith("&"):
            t = t[:-1].rstrip()
        if t == t0:
            return t


@functools.lru_cache(None)
def targs(t):
    """Template arguments of a type string."""
    i = t.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return tuple(out)


NUMS = ("Rational", "Integer", "RationalQ")
UNSIGNED = {"unsigned int": 32, "unsigned long": 64, "unsigned char": 8, "unsigned short": 16, "unsigned long long": 64}
SIGNED = {"int": 32, "long": 64, "short": 16, "signed char": 8, "char": 8, "long long": 64}
VECS = ("std::vector<", "std::deque<", "std::initializer_list<", "Clingo::Span<", "std::array<", "std::list<")
MAPS = ("std::unordered_map<", "std::map<", "std::unordered_multimap<", "std::multimap<")
SETS = ("std::set<", "std::unordered_set<")
EXC_BASES = {
    "std::runtime_error": ["std::exception"],
    "std::logic_error": ["std::exception"],
    "std::overflow_error": ["std::runtime_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::bad_alloc": ["std::exception"],
    "std::bad_optional_access": ["std::exception"],
}


class Program:
    """Union of the extracted translation units."""

    def __init__(self, tus):
        self.functions, self.records, self.enums, self.vars = {}, {}, {}, {}
        self.tus = [d["tu"] for d in tus]
        for d in tus:
            for k, f in d["functions"].items():
                if k not in self.functions:
                    f["tu"] = d["tu"]
                    self.functions[k] = f
            self.records.update(d["records"])
            self.enums.update(d["enums"])
            for k, v in d["vars"].items():
                self.vars[d["tu"] + ":" + k] = v
        self.aliases()
        self.by_n = {}
        for k, f in self.functions.items():
            self.by_n.setdefault(f["n"], []).append(f)

    def aliases(self):
        """Fields that have been renamed get the names the rules use again.

        A field unknown to engine/names.json stands for an expected but missing field of the same class if there are as
        many such fields of its type as missing ones (they correspond in order of declaration)."""
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
        ren = {}
        for cls, want in json.load(open(path)).items():
            r = self.records.get(cls)
            if r is None:
                continue
            have = [(f["name"], f["t"]) for f in r["fields"]]
            names, wnames = {h for h, _ in have}, {w for w, _ in want}
            missing = [(w, t) for w, t in want if w not in names]
            extra = [(h, t) for h, t in have if h not in wnames]
            for t in {t for _, t in missing}:
                m, e = [w for w, u in missing if u == t], [h for h, u in extra if u == t]
                if len(m) == len(e):
                    ren.setdefault(cls, {}).update(zip(e, m))
        if not ren:
            return

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "mem" and n.get("n") in ren.get(n.get("cls"), ()):
                    n["n"] = ren[n["cls"]][n["n"]]
                for x in n.values():
                    walk(x)
            elif isinstance(n, list):
                for x in n:
                    walk(x)
        for cls, m in ren.items():
            for f in self.records[cls]["fields"]:
                f["name"] = m.get(f["name"], f["name"])
        for r in self.records.values():
            walk(r["fields"])
        for f in self.functions.values():
            walk(f)
            for i in f.get("inits") or ():
                if "m" in i:
                    i["m"] = ren.get(f.get("cls"), {}).get(i["m"], i["m"])

    def method(self, cls, name, nparams=None):
        out = [f for f in self.functions.values() if f.get("cls") == cls and f["name"] == name and
               (nparams is None or len(f["params"]) == nparams)]
        return out


class Interp:
    MAXSTEPS = 60000

    def __init__(self, prog, prefix, native_numbers=True):
        self.prog = prog
        self.facts = Facts()
        self.prefix = prefix
        self.trace = []          # (choice, number of options, description)
        self.native_numbers = native_numbers
        self.fresh_n = 0
        self.stack = []
        self.thises = []         # objects whose methods are active
        self.steps = 0
        self.entry = None
        self.functions_seen = set()
        self.lines_seen = set()
        self.ratio = {}
        self.overrides = {}      # function short name -> python callable(I, this, args, node)
        self.globals = {}
        self.loop_hook = None
        self.rot = {}
        self.events = []
        self.lambda_env = {}
        self.where = (None, None)
        self.depth = 0
        self.const_calls = []
        self.canon, self.integers, self.denoms, self.strings = set(), set(), {}, []
        self.live_mutations = {}

    # ------------------------------------------------------- partitioning
    def native(self, t):
        """Whether numbers of type t are represented by abstract numbers."""
        return t in NUMS and (self.native_numbers is True or bool(self.native_numbers) and t in self.native_numbers)

    def choose(self, n, desc=""):
        pos = len(self.trace)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trace.append((c, n, desc))
        return c

    def fork(self, options, desc=""):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.choose(len(options), desc)]

    def factor(self, p):
        """p = m*q with m the monomial common to all terms of p."""
        g = None
        for m in p.t:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {s: min(e, d.get(s, 0)) for s, e in g.items()} | {s: min(e, 0) for s, e in d.items() if s not in g}
        m = tuple(sorted((s, e) for s, e in g.items() if e))
        if not m:
            return m, p
        return m, p * Poly({tuple((s, -e) for s, e in m): 1})

    def sym_sign(self, s):
        ss = self.facts.sym_sign(s)
        if len(ss) > 1:
            ss = self.facts.signs(Poly.sym(s))
        if len(ss) == 1:
            return next(iter(ss))
        r = self.fork(sorted(ss), "sign of %s" % s)
        self.facts.assume(Poly.sym(s), {1: ">", 0: "=", -1: "<"}[r])
        return r

    def sign(self, p):
        p = to_poly(p)
        if p.is_const():
            v = p.const_value()
            return (v > 0) - (v < 0)
        if EPS in p.symbols():
            p0, p1 = p.split(EPS)
            s = self.sign(p0)
            return s if s else self.sign(p1)
        ss = self.facts.signs(p)
        if len(ss) == 1:
            return next(iter(ss))
        m, q = self.factor(p)
        if m:
            r = 1
            for s, e in m:
                x = self.sym_sign(s)
                if x == 0:
                    if e < 0:
                        raise Infeasible()
                    return 0
                if e % 2:
                    r *= x
            return r * self.sign(q)
        s = self.fork(sorted(ss), "sign of %s" % p)
        self.facts.assume(p, {1: ">", 0: "=", -1: "<"}[s])
        return s

    def is_zero(self, p):
        p = to_poly(p)
        if p.is_const():
            return p.const_value() == 0
        if EPS in p.symbols():
            p0, p1 = p.split(EPS)
            return self.is_zero(p0) and self.is_zero(p1)
        ss = self.facts.signs(p)
        if 0 not in ss:
            return False
        if ss == {0}:
            return True
        m, q = self.factor(p)
        if m and (len(m) > 1 or not q.is_const()):
            for s, e in m:
                if e > 0 and self.is_zero(Poly.sym(s)):
                    return True
            return self.is_zero(q)
        if self.fork((0, 1), "%s = 0" % p) == 1:
            self.facts.assume(p, "=")
            return True
        self.facts.assume(p, "!=")
        return False

    def must(self, p, ops):
        """True iff the sign of p is in ops in all refinements of the current state."""
        return self.facts.signs(to_poly(p)) <= set(ops)

    def fresh(self, base, sign=None):
        self.fresh_n += 1
        p = Poly.sym("%s'%d" % (base, self.fresh_n))
        if sign:
            self.facts.assume(p, sign)
        return p

    # ------------------------------------------------------- helpers
    def rv(self, x):
        while isinstance(x, Cell):
            x = x.v
        if type(x) is Special:
            self.ub(x.msg)
        return x

    # lifetimes of elements of containers
    def valid(self, p, node=None):
        if MEMSAFE and isinstance(p, (Ptr, MapIt)) and p.stale():
            self.ub("an iterator or pointer into a container is used after the container was modified", node)

    def relocate(self, c):
        """The object in c moves to a new location; the old one must not be used any more."""
        if isinstance(c, LazyCell) and not c.done:
            n = LazyCell(c.fn, c.t)
            c.v = DEAD
            return n
        v = c.v
        if isinstance(v, Cell) or type(v) is Special:
            return c
        if isinstance(v, Struct):
            for k, x in v.f.items():
                if k not in v.refs:
                    v.f[k] = self.relocate(x)
        elif isinstance(v, Tup):
            v.items = [x if i in v.refs else self.relocate(x) for i, x in enumerate(v.items)]
        elif isinstance(v, (Opt, Variant)) and v.c is not None:
            v.c = self.relocate(v.c)
        elif getattr(v, "raw", False):
            return c
        n = Cell(v, c.t)
        c.v = DEAD
        return n

    def destroy(self, c, node=None):
        """The object in c is deleted."""
        if c.v is DEAD:
            self.ub("an object is deleted twice", node)
        self.kill(c)

    def kill(self, c):
        if not isinstance(c.v if not isinstance(c, LazyCell) or c.done else None, Cell):
            self.relocate(c)

    def grown(self, vec, i, k, deque=False):
        """k elements were inserted at position i of vec."""
        if not MEMSAFE:
            return
        n = len(vec.items)
        if deque:
            vec.invalidate(0)
            if not (i == 0 or i + k == n):
                vec.items[:i] = [self.relocate(c) for c in vec.items[:i]]
                vec.items[i + k:] = [self.relocate(c) for c in vec.items[i + k:]]
            return
        vec.cap = max(vec.cap, n - k)
        if n > vec.cap:
            vec.cap = n
            vec.items[:i] = [self.relocate(c) for c in vec.items[:i]]
            vec.items[i + k:] = [self.relocate(c) for c in vec.items[i + k:]]
            vec.invalidate(0)
        elif k:
            vec.items[i + k:] = [self.relocate(c) for c in vec.items[i + k:]]
            vec.invalidate(i)

    def reserve(self, vec, n):
        if MEMSAFE and not isinstance(n, int):
            vec.cap = 1 << 60
        elif MEMSAFE:
            if n > max(vec.cap, len(vec.items)):
                vec.items[:] = [self.relocate(c) for c in vec.items]
                vec.invalidate(0)
            vec.cap = max(vec.cap, n)

    def removed(self, vec, i, j):
        """Elements i..j-1 are about to be removed."""
        if MEMSAFE and (j > i):
            vec.cap = max(vec.cap, len(vec.items))
            for c in vec.items[i:j]:
                self.kill(c)
            vec.items[j:] = [self.relocate(c) for c in vec.items[j:]]
            vec.invalidate(i)

    def replaced(self, vec):
        """All elements are about to be replaced."""
        if MEMSAFE:
            vec.cap = max(vec.cap, len(vec.items))
            for c in vec.items:
                self.kill(c)
            vec.invalidate(0)

    def loc(self, x):
        return x if isinstance(x, Cell) else Cell(x)

    def ub(self, msg, node=None):
        raise Violation("undefined behaviour: " + msg, self.pos(node), self.stack[-1] if self.stack else None)

    def pos(self, node=None):
        line = node.get("l") if isinstance(node, dict) else None
        fn = self.stack[-1] if self.stack else None
        f = self.prog.functions.get(fn) if fn else None
        file = f["file"] if f else (fn.split("@")[1].split(":")[0] if fn and "@" in fn else "?")
        return "%s:%s" % (file, line if line else self.where[1])

    def join(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                for q in p.parts:
                    out.append(q)
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != "":
                res.append(p)
        if not res:
            return ""
        if len(res) == 1 and isinstance(res[0], str):
            return res[0]
        return SymStr(res)

    def copy(self, v):
        if isinstance(v, Struct):
            s = Struct(v.cls)
            s.refs = set(v.refs)
            for k, c in v.f.items():
                s.f[k] = c if k in v.refs else Cell(self.copy(c.v), c.t)
            return s
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c.v)) for c in v.items], v.et)
        if isinstance(v, Tup):
            return Tup([c if i in v.refs else Cell(self.copy(c.v)) for i, c in enumerate(v.items)], v.refs)
        if isinstance(v, Opt):
            return Opt(None if v.c is None else Cell(self.copy(v.c.v)))
        if isinstance(v, Variant):
            return Variant(v.alt, Cell(self.copy(v.c.v)))
        if isinstance(v, MapObj):
            m = MapObj(v.kind, v.kt, v.vt)
            m.nodes = [Cell(self.copy(n.v)) for n in v.nodes]
            return m
        if isinstance(v, PQ):
            q = PQ(v.cmp)
            q.items = list(v.items)
            return q
        if getattr(v, "raw", False):
            return type(v)(v.v)
        return v

    def move_out(self, c):
        """Value moved out of cell c; leaves the moved-from state behind."""
        v = c.v
        if isinstance(v, Poly):
            c.v = Poly.const(0)
            return v
        if isinstance(v, Struct):
            s = Struct(v.cls)
            s.refs = set(v.refs)
            for k, fc in v.f.items():
                s.f[k] = fc if k in v.refs else Cell(self.move_out(fc), fc.t)
            return s
        if isinstance(v, Vec):
            c.v = Vec([], v.et)
            return v
        if isinstance(v, MapObj):
            c.v = MapObj(v.kind, v.kt, v.vt)
            return v
        if isinstance(v, PQ):
            c.v = PQ(v.cmp)
            return v
        if isinstance(v, Tup):
            return Tup([x if i in v.refs else Cell(self.move_out(x)) for i, x in enumerate(v.items)], v.refs)
        if isinstance(v, Opt):
            return Opt(None if v.c is None else Cell(self.move_out(v.c)))
        if isinstance(v, Variant):
            return Variant(v.alt, Cell(self.move_out(v.c)))
        if isinstance(v, UniquePtr):
            c.v = UniquePtr()
            return v
        if isinstance(v, str):
            c.v = ""
            return v
        return v

    def assign_into(self, c, v):
        """Assign v to the object in cell c keeping sub-cells stable."""
        o = c.v
        if isinstance(o, Struct) and isinstance(v, Struct) and o.cls == v.cls:
            for k in o.f:
                if k in v.f:
                    self.assign_into(o.f[k], v.f[k].v)
            return
        if isinstance(o, Tup) and isinstance(v, Tup):
            for a, b in zip(o.items, v.items):
                self.assign_into(a, b.v)
            return
        if isinstance(o, Vec) and isinstance(v, Vec):
            if o is not v and o.items is not v.items:
                self.replaced(o)
            o.items = v.items
            o.et = v.et or o.et
            return
        if isinstance(o, MapObj) and isinstance(v, MapObj):
            o.nodes = v.nodes
            return
        c.v = v

    def default(self, t):
        t = strip_t(t)
        if self.native(t):
            return Poly.const(0)
        if t in UNSIGNED or t in SIGNED or t in self.prog.enums:
            return 0
        if t == "bool":
            return False
        if t.endswith("*") or t == "std::nullptr_t":
            return None
        if t.startswith(VECS):
            return Vec([], targs(t)[0])
        if t.startswith(MAPS):
            a = targs(t)
            return MapObj(t.split("<")[0], a[0], a[1])
        if t.startswith(("std::pair<", "std::tuple<")):
            return Tup([Cell(self.default(a)) for a in targs(t)])
        if t.startswith("std::optional<"):
            return Opt()
        if t.startswith("std::unique_ptr<"):
            return UniquePtr()
        if t.startswith(("std::basic_string<", "std::basic_string_view<", "std::string")):
            return ""
        if t.startswith("std::priority_queue<"):
            a = targs(t)
            return PQ(a[2] if len(a) > 2 else "std::less<>")
        if t.startswith(("std::basic_ostringstream", "std::basic_stringstream")):
            return Stream()
        if t.startswith(("std::shared_mutex", "std::mutex")):
            return Mutex()
        if t.startswith("std::variant<"):
            a = targs(t)
            return Variant(a[0], Cell(self.default(a[0])))
        if t.startswith("std::function<"):
            return None
        if t == "Clingo::Symbol":
            return Sym("infimum")
        if t.startswith("Clingo::ToIterator<"):
            return "to-iterator"
        if t.startswith(("std::integral_constant<", "std::allocator<")):
            return "tag"
        if t.startswith("std::match_results<"):
            from models import MatchObj
            return MatchObj()
        if t == "fmpq":
            from flint import raw
            return raw("Rational").v
        if t in NUMS:
            return self.construct(t, [])
        if t in self.prog.records:
            return self.new_struct(t)
        if t in ("float", "double"):
            return 0
        if "(*)(" in t:
            return None
        raise Undecided("no default value for type " + t)

    def scalar(self, t):
        t = strip_t(t)
        return t in UNSIGNED or t in SIGNED or t in self.prog.enums or t == "bool" or t.endswith("*") or t in ("float", "double")

    def new_struct(self, t, zero=True):
        """A new object; without zero initialisation members may remain uninitialised."""
        zero = zero or not MEMSAFE
        r = self.prog.records.get(t)
        if r is None:
            raise Undecided("unknown record " + t)
        s = Struct(t)
        for b in r["bases"]:
            if b in self.prog.records:
                bs = self.new_struct(b, zero)
                s.f.update(bs.f)
        for f in r["fields"]:
            ft = f["t"]
            if ft.endswith("&"):
                s.refs.add(f["name"])
                s.f[f["name"]] = Cell(None, ft)
                continue
            if f["name"] == "num_" and t in ("Integer", "Rational"):
                from flint import raw
                s.f["num_"] = raw(t)
                continue
            if f.get("init") is not None:
                v = self.coerce(self.rv(self.eval(f["init"], Frame({}, None))), ft)
            elif not zero and self.scalar(ft):
                v = UNINIT
            elif not zero and strip_t(ft) in self.prog.records and not self.native(strip_t(ft)) and strip_t(ft) not in NUMS:
                v = self.new_struct(strip_t(ft), False)
            else:
                v = self.default(ft)
            s.f[f["name"]] = Cell(v, ft)
        return s

    def coerce(self, v, t):
        t = strip_t(t)
        if self.native(t) and not isinstance(v, Poly):
            if isinstance(v, (int, Fraction)):
                return to_poly(v)
        return v

    # equality of abstract values
    def equal(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.is_zero(to_poly(a) - to_poly(b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return all(self.equal(x.v, y.v) for x, y in zip(a.items, b.items))
        if isinstance(a, Vec) and isinstance(b, Vec):
            return len(a.items) == len(b.items) and all(self.equal(x.v, y.v) for x, y in zip(a.items, b.items))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.same(b)
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return a.node is b.node
        if isinstance(a, Opt) or isinstance(b, Opt):
            ha = isinstance(a, Opt) and a.c is not None or not isinstance(a, (Opt, NullOpt))
            hb = isinstance(b, Opt) and b.c is not None or not isinstance(b, (Opt, NullOpt))
            if ha != hb:
                return False
            if not ha:
                return True
            return self.equal(a.c.v if isinstance(a, Opt) else a, b.c.v if isinstance(b, Opt) else b)
        if isinstance(a, UniquePtr):
            a = a.p
        if isinstance(b, UniquePtr):
            b = b.p
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a == b:
                return True
            raise Undecided("comparison of abstract strings")
        if isinstance(a, StrPtr) and isinstance(b, StrPtr):
            return a.same(b) and a.i == b.i
        if a is None or b is None:
            return a is b
        return a == b

    def less(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.sign(to_poly(a) - to_poly(b)) < 0
        if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
            return a < b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            (va, i), (vb, j) = self.home(a), self.home(b)
            if va is vb and va is not None and a.rev == b.rev:
                return j < i if a.rev else i < j
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if self.less(x, y):
                    return True
                if self.less(y, x):
                    return False
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if isinstance(a, StrPtr) and isinstance(b, StrPtr):
            return a.i < b.i
        if isinstance(a, Sym) and isinstance(b, Sym):
            return self.sym_order(a) < self.sym_order(b)
        raise Undecided("ordering of %s and %s" % (type(a).__name__, type(b).__name__))

    def home(self, p):
        """Position of the element a pointer refers to within a vector of one of the active objects."""
        if p.vec is not None:
            return p.vec, p.i
        c = p.cell()
        for t in reversed(self.thises):
            t = self.rv(t) if t is not None else None
            for f in (t.f.values() if isinstance(t, Struct) else ()):
                if isinstance(f.v, Vec):
                    for i, x in enumerate(f.v.items):
                        if x is c:
                            return f.v, i
        return None, None

    def sym_order(self, s):
        """Key for clingo's order of symbols."""
        k = ("infimum", "number", "string", "function", "supremum").index(s.kind) if s.kind != "string" else 2
        if isinstance(s.name, SymStr) or isinstance(s.num, Poly) or s.opaque is not None:
            raise Undecided("ordering of abstract symbols")
        return (k, s.num or 0, (not s.pos, len(s.args), s.name or "", [self.sym_order(x) for x in s.args]))

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, Poly):
            return not self.is_zero(v)
        if v is None:
            return False
        if isinstance(v, Opt):
            return v.c is not None
        if isinstance(v, UniquePtr):
            return v.p is not None
        if isinstance(v, (Ptr, StrPtr, FnRef, Clo, Native)):
            return True
        raise Undecided("truth value of %s" % type(v).__name__)

    # ------------------------------------------------------- functions
    def find_method(self, cls, name, nargs=None):
        c = cls
        seen = set()
        todo = [c]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            fs = self.prog.method(c, name, nargs)
            if fs:
                return fs
            todo += self.prog.records.get(c, {}).get("bases", [])
        return []

    def call_method(self, obj, name, *args, pick=None):
        """Entry point for rules: call method `name` on a Struct (or cell holding one)."""
        c = self.loc(obj)
        cls = self.rv(c).cls
        fs = self.find_method(cls, name, len(args))
        if pick:
            fs = [f for f in fs if pick in f["id"]]
        if not fs:
            raise Undecided("function %s::%s/%d not found" % (cls, name, len(args)))
        return self.call_function(fs[0], c, list(args))

    def call_function(self, f, this, args, env0=None, node=None):
        """args: list of Cells (by reference) or values."""
        if f.get("body") is None and not f.get("ctor"):
            raise Undecided("no body for " + f["id"])
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            if f.get("const"):
                # nothing can change between the calls of a const function
                key = [id(this)] + [id(a) if isinstance(a, Cell) else a for a in args]
                if sum(1 for k in self.const_calls if k[0] is f and k[1] == key) > 10:
                    raise Violation("endless recursion")
            raise Undecided("call depth exceeded in " + f["id"])
        if self.depth > 60 and f.get("const"):
            self.const_calls.append((f, [id(this)] + [id(a) if isinstance(a, Cell) else a for a in args], this, args))
        env = dict(env0) if env0 else {}
        ps = f["params"]
        for i, p in enumerate(ps):
            if i >= len(args):
                raise Undecided("missing argument for " + f["id"])
            a = args[i]
            if p["t"].endswith("&"):
                c = self.loc(a)
                if isinstance(c.v, Cell):
                    c = c.v
            else:
                v = self.rv(a)
                if isinstance(a, Cell):
                    v = self.copy(v)
                c = Cell(self.coerce(v, p["t"]), p["t"])
            env[p["id"]] = c
        fr = Frame(env, this, f)
        if not self.stack:
            self.entry = f
        self.stack.append(f["id"])
        self.thises.append(this)
        self.functions_seen.add(f["n"])
        try:
            if f.get("ctor"):
                self.run_inits(f, fr)
            if f.get("body") is not None:
                self.exec(f["body"], fr)
            ret = None
        except ReturnEx as r:
            ret = r.v
        finally:
            self.stack.pop()
            self.thises.pop()
            self.depth -= 1
        self.release_locks(fr)
        if not f["rt"].endswith("&") and isinstance(ret, Cell):
            ret = self.copy(ret.v)
        if not f["rt"].endswith("&"):
            ret = self.convert_ret(ret, f["rt"])
        return ret

    def convert_ret(self, v, t):
        t = strip_t(t)
        if self.native(t) and isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return to_poly(v)
        if t.startswith("std::optional<") and not isinstance(v, Opt):
            if v is NULLOPT or v is None:
                return Opt()
            return Opt(Cell(v))
        return v

    def release_locks(self, fr):
        ps = {p["id"] for p in fr.f["params"]} if fr.f else ()
        for i, c in list(fr.env.items()):
            if i not in ps and type(c) is Cell and isinstance(c.v, LockGuard):
                c.v.release(self)

    def run_inits(self, f, fr):
        obj = self.rv(fr.this)
        for i in f.get("inits") or []:
            if i.get("delegate"):
                v = self.rv(self.eval(i["e"], fr))
                if isinstance(v, Struct) and v is not obj:
                    for k in v.f:
                        obj.f[k] = v.f[k]
                continue
            if i.get("base"):
                if strip_t(i["base"]) in self.prog.records:
                    v = self.rv(self.eval(i["e"], fr))
                    if isinstance(v, Struct):
                        for k in v.f:
                            if k in obj.f:
                                obj.f[k] = v.f[k]
                continue
            m = i["m"]
            v = self.eval(i["e"], fr)
            if m in obj.refs:
                obj.f[m] = self.loc(v)
            else:
                old = obj.f.get(m)
                t = old.t if old else None
                obj.f[m] = Cell(self.coerce(self.rv(v), t or ""), t)

    def construct(self, t, args, node=None):
        """Construct an object of record type t with a user provided constructor."""
        fs = [f for f in self.prog.functions.values() if f.get("ctor") and f.get("cls") == t and
              len(f["params"]) == len(args)]
        if len(fs) > 1:
            called = self.prog.functions.get((node or {}).get("f"))
            if called in fs:
                fs = [called]
            elif len(args) == 1 and strip_t(fs[0]["params"][0]["t"]) != self.type_of(args[0]):
                fs = [f for f in fs if strip_t(f["params"][0]["t"]) == self.type_of(args[0])] or fs
        s = self.new_struct(t, not fs)
        if not fs:
            if args:
                raise Undecided("no constructor for " + t)
            return s
        c = Cell(s)
        self.call_function(fs[0], c, args)
        return s

    def call_clo(self, clo, args, fid=None):
        if isinstance(clo, PyFn):
            return clo.fn(self, *args)
        if isinstance(clo, FnRef):
            f = self.prog.functions.get(clo.f)
            if f is None:
                raise Undecided("call of unknown function " + clo.f)
            return self.call_function(f, None, args)
        if isinstance(clo, Struct):
            fs = self.find_method(clo.cls, "operator()", len(args))
            fs = self.overload(fs, args)
            return self.call_function(fs, Cell(clo), args)
        if not isinstance(clo, Clo):
            raise Undecided("call of %s" % type(clo).__name__)
        ops = clo.node["ops"]
        op = None
        if fid:
            op = next((o for o in ops if o["id"] == fid), None)
        if op is None:
            op = ops[0] if len(ops) == 1 else self.overload(ops, args)
        return self.call_function(op, clo.this, args, clo.env)

    def type_of(self, v):
        v = self.rv(v)
        if isinstance(v, Sym):
            return "Clingo::Symbol"
        if isinstance(v, Poly):
            return "Rational"
        if isinstance(v, Struct):
            return v.cls
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        return type(v).__name__

    def overload(self, fs, args):
        best = None
        for f in fs:
            if len(f["params"]) != len(args):
                continue
            if all(strip_t(p["t"]) == self.type_of(a) for p, a in zip(f["params"], args)):
                if best is None or "<" not in f["id"].rsplit("(", 1)[0].split("operator()")[-1]:
                    best = f
        if best is None:
            cands = [f for f in fs if len(f["params"]) == len(args)]
            if len(cands) == 1:
                return cands[0]
            raise Undecided("cannot resolve overload")
        return best

    # ------------------------------------------------------- statements
    def exec(self, n, fr):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("step limit")
        k = n["k"]
        if n.get("l"):
            self.where = (self.stack[-1] if self.stack else None, n["l"])
            self.lines_seen.add((self.stack[-1] if self.stack else "", n["l"]))
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Undecided("statement kind %s" % k)
        m(n, fr)

    def s_block(self, n, fr):
        before = set(fr.env)
        try:
            for s in n["s"]:
                self.exec(s, fr)
        finally:
            for i in set(fr.env) - before:
                c = fr.env[i]
                if type(c) is Cell and isinstance(c.v, LockGuard):
                    c.v.release(self)

    def s_null(self, n, fr):
        pass

    def s_label(self, n, fr):
        self.exec(n["s"], fr)

    def s_expr(self, n, fr):
        v = self.eval(n["e"], fr)
        if isinstance(v, LockGuard):
            v.release(self)         # temporary

    def s_decl(self, n, fr):
        for v in n["v"]:
            self.decl(v, fr)

    def decl(self, v, fr):
        t = v["t"]
        if v.get("static"):
            key = (self.stack[-1] if self.stack else "", v["id"])
            if key in self.globals:
                fr.env[v["id"]] = self.globals[key]
                return
        isref = t.endswith("&")
        if v.get("init") is not None:
            x = self.eval(v["init"], fr)
        else:
            x = self.default(t) if not isref else None
            if strip_t(t) in UNSIGNED or strip_t(t) in SIGNED:
                x = 0
            if MEMSAFE and not v.get("static") and self.scalar(t) and not isref:
                fr.env[v["id"]] = Cell(UNINIT, t)
                return
        if v.get("bindings"):
            if not isref and isinstance(x, Cell):
                x = self.copy(x.v)
            self.bind(v["bindings"], x, fr)
            return
        if isref:
            c = self.loc(x)
        else:
            val = self.rv(x)
            if isinstance(x, Cell):
                val = self.copy(val)
            if t.startswith(("std::optional<",)) and not isinstance(val, Opt):
                val = Opt() if val is NULLOPT else Opt(Cell(val))
            c = Cell(self.coerce(val, t), t)
            if isinstance(val, LockGuard):
                val.owner = fr
        fr.env[v["id"]] = c
        if v.get("static"):
            self.globals[(self.stack[-1] if self.stack else "", v["id"])] = c

    def bind(self, bs, x, fr):
        o = self.rv(x)
        if isinstance(o, Tup):
            cells = o.items
        elif isinstance(o, Struct):
            cells = [o.f[f["name"]] for f in self.prog.records[o.cls]["fields"]]
        else:
            raise Undecided("structured binding of %s" % type(o).__name__)
        for b, c in zip(bs, cells):
            while isinstance(c.v, Cell):
                c = c.v
            fr.env[b["id"]] = c

    def s_if(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        if n.get("constexpr") and "cval" in n:
            self.exec(n["a"] if n["cval"] else n["b"], fr)
            return
        if n.get("cv"):
            self.decl(n["cv"], fr)
        if self.truth(self.eval(n["c"], fr)):
            self.exec(n["a"], fr)
        elif n.get("b"):
            self.exec(n["b"], fr)

    def loop_guard(self, n, it):
        if it > 200:
            raise Undecided("loop bound exceeded at line %s" % n.get("l"))

    def loop_head(self, n, it):
        """Called before the condition of a loop is evaluated (see absstate.rotated for loops whose first evaluation is peeled)."""
        if self.loop_hook and not n.get("rotated"):
            self.loop_hook(self, n, it)

    def call_head(self, n):
        h = n.get("headof")
        if h and self.loop_hook:
            loop, first = h
            self.rot[id(loop)] = 0 if first else self.rot.get(id(loop), -1) + 1
            self.loop_hook(self, loop, self.rot[id(loop)])

    def s_while(self, n, fr):
        it = 0
        while True:
            self.loop_head(n, it)
            if n.get("cv"):
                self.decl(n["cv"], fr)
            if not self.truth(self.eval(n["c"], fr)):
                return
            self.loop_guard(n, it)
            it += 1
            try:
                self.exec(n["body"], fr)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def s_do(self, n, fr):
        it = 0
        while True:
            self.loop_head(n, it)
            self.loop_guard(n, it)
            it += 1
            try:
                self.exec(n["body"], fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if not self.truth(self.eval(n["c"], fr)):
                return

    def s_for(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        it = 0
        while True:
            self.loop_head(n, it)
            if n.get("c") is not None and not self.truth(self.eval(n["c"], fr)):
                return
            self.loop_guard(n, it)
            it += 1
            try:
                self.exec(n["body"], fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if n.get("inc") is not None:
                self.eval(n["inc"], fr)

    def elements(self, r, node=None):
        o = self.rv(r)
        if isinstance(o, Vec):
            i = 0
            n0 = len(o.items)
            items = o.items
            inv = o.inv
            while i < len(o.items):
                yield o.items[i]
                if MEMSAFE and o.inv != inv:
                    self.ub("container modified while iterating over it", node)
                if o.items is not items or len(o.items) != n0:
                    self.ub("container modified while iterating over it", node)
                i += 1
            return
        if isinstance(o, MapObj):
            st = o.stamp
            for c in list(self.map_order(o)):
                yield c
                if MEMSAFE and (o.stamp != st or not any(x is c for x in o.nodes)):
                    self.ub("container modified while iterating over it", node)
            return
        if isinstance(o, str):
            for i, ch in enumerate(o):
                yield CharCell(r, i) if isinstance(r, Cell) else Cell(ord(ch))
            return
        if isinstance(o, Native) and hasattr(o, "elements"):
            for c in o.elements(self):
                yield c
            return
        raise Undecided("iteration over %s" % type(o).__name__)

    def map_order(self, m):
        return m.nodes

    def s_rangefor(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        r = self.eval(n["r"], fr)
        v = n["var"]
        isref = v["t"].endswith("&")
        for c in self.elements(r, n):
            if v.get("bindings"):
                x = c if isref else self.copy(c.v)
                self.bind(v["bindings"], x, fr)
            else:
                while isinstance(c.v, Cell):
                    c = c.v
                fr.env[v["id"]] = c if isref else Cell(self.copy(c.v), v["t"])
            try:
                self.exec(n["body"], fr)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def s_switch(self, n, fr):
        if n.get("init"):
            self.exec(n["init"], fr)
        v = self.rv(self.eval(n["c"], fr))
        body = n["body"]
        stmts = body["s"] if body["k"] == "block" else [body]
        # flatten nested case labels
        flat = []

        def add(s):
            while s is not None and s["k"] in ("case", "default"):
                flat.append(s)
                s = s["s"]
            if s is not None:
                flat.append(s)

        for s in stmts:
            add(s)
        start = None
        for i, s in enumerate(flat):
            if s["k"] == "case" and self.equal(self.eval(s["v"], fr), v):
                start = i
                break
        if start is None:
            for i, s in enumerate(flat):
                if s["k"] == "default":
                    start = i
                    break
        if start is None:
            return
        try:
            for s in flat[start:]:
                if s["k"] in ("case", "default"):
                    continue
                self.exec(s, fr)
        except BreakEx:
            pass

    def s_break(self, n, fr):
        raise BreakEx()

    def s_continue(self, n, fr):
        raise ContinueEx()

    def s_return(self, n, fr):
        if n.get("e") is None:
            raise ReturnEx(None)
        v = self.eval(n["e"], fr)
        rt = fr.f["rt"] if fr.f else ""
        if not rt.endswith("&"):
            if isinstance(v, Cell):
                v = self.copy(self.rv(v))
        else:
            while isinstance(v, Cell) and isinstance(v.v, Cell):
                v = v.v
        raise ReturnEx(v)

    def s_try(self, n, fr):
        st, dp = len(self.stack), self.depth
        try:
            self.exec(n["body"], fr)
        except CxxThrow as e:
            del self.stack[st:]
            self.depth = dp
            for h in n["h"]:
                t = strip_t(h.get("t", ""))
                if h["all"] or t == e.tname or t in EXC_BASES.get(e.tname, []):
                    if h.get("id"):
                        fr.env[h["id"]] = Cell(e.value)
                    old = getattr(self, "current_exc", None)
                    self.current_exc = e
                    try:
                        self.exec(h["body"], fr)
                    finally:
                        self.current_exc = old
                    return
            raise

    # ------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Undecided("expression kind %s (%s)" % (n["k"], n.get("cls")))
        return m(n, fr)

    def val(self, n, fr):
        return self.rv(self.eval(n, fr))

    def e_int(self, n, fr):
        return int(n["v"])

    def e_bool(self, n, fr):
        return n["v"]

    def e_str(self, n, fr):
        return StrPtr(n["v"], 0)

    def e_null(self, n, fr):
        return None

    def e_float(self, n, fr):
        raise Undecided("floating point literal")

    def e_this(self, n, fr):
        if fr.this is None:
            raise Undecided("this outside of a method")
        return Ptr(fr.this)

    def e_zeroinit(self, n, fr):
        return self.default(n["t"])

    def e_fref(self, n, fr):
        return FnRef(n["f"], n["n"])

    def e_enum(self, n, fr):
        return n["v"]

    def e_defarg(self, n, fr):
        return self.eval(n["e"], fr)

    def e_load(self, n, fr):
        v = self.rv(self.eval(n["e"], fr))
        if getattr(v, "raw", False):
            raise Violation("the internal representation of an integer is read as if it was its value")
        return v

    def e_mat(self, n, fr):
        v = self.eval(n["e"], fr)
        return v if isinstance(v, Cell) else Cell(self.coerce(v, n["t"]))

    def e_sizeof(self, n, fr):
        return 8

    def e_var(self, n, fr):
        c = fr.env.get(n["id"])
        if c is not None:
            return c
        if n.get("g"):
            return self.global_var(n, fr)
        raise Undecided("unbound variable " + n["n"])

    def global_var(self, n, fr):
        if n["n"] == "nullopt":
            return NULLOPT
        if n["n"] in ("piecewise_construct", "nothrow", "defer_lock", "adopt_lock"):
            return n["n"]
        if "regex_constants" in n["t"]:
            return n["n"]
        key = ("g", n["id"])
        if key in self.globals:
            return self.globals[key]
        if n["n"] in ("cerr", "cout", "clog") and "ostream" in n["t"]:
            return self.globals.setdefault("std::" + n["n"], Cell(Stream()))
        for k, v in self.prog.vars.items():
            if k.split(":", 1)[1] == n["id"] and v["name"] == n["n"]:
                if v.get("init") is not None:
                    c = Cell(self.rv(self.eval(v["init"], Frame({}, None))), v["t"])
                else:
                    c = Cell(self.default(v["t"]), v["t"])
                self.globals[key] = c
                return c
        if n["n"] in ("value",) and n["t"] in ("const bool", "bool"):
            raise Undecided("type trait value")
        raise Undecided("global variable " + n["n"])

    def deref(self, p, node=None):
        p = self.rv(p)
        if p is None:
            self.ub("null pointer dereference", node)
        if MEMSAFE:
            self.valid(p, node)
        if isinstance(p, Ptr):
            c = p.cell()
            if c is None:
                self.ub("iterator/pointer dereferenced out of range", node)
            return c
        if isinstance(p, UniquePtr):
            return self.deref(p.p, node)
        if isinstance(p, MapIt):
            if p.node is None:
                self.ub("end iterator dereferenced", node)
            return p.node
        if isinstance(p, StrPtr):
            if isinstance(p.s, str):
                if 0 <= p.i < len(p.s):
                    return Cell(ord(p.s[p.i])) if p.own is None else CharCell(p.own, p.i)
                if p.i == len(p.s):
                    return Cell(0)
                self.ub("string read out of range", node)
            raise Undecided("character of an abstract string")
        if isinstance(p, Opt):
            if p.c is None:
                self.ub("empty optional dereferenced", node)
            return p.c
        if isinstance(p, Native):
            return Cell(p)
        raise Undecided("dereference of %s" % type(p).__name__)

    def e_mem(self, n, fr):
        o = self.eval(n["o"], fr)
        if n["arrow"]:
            o = self.deref(o, n)
        s = self.rv(o)
        if isinstance(s, Tup):
            i = {"first": 0, "second": 1}.get(n["n"])
            if i is None:
                raise Undecided("member %s of a tuple" % n["n"])
            c = s.items[i]
            while isinstance(c.v, Cell):
                c = c.v
            return c
        if isinstance(s, Struct):
            if n.get("anon"):
                return self.loc(o)
            if n["n"] not in s.f:
                raise Undecided("field %s of %s" % (n["n"], s.cls))
            return s.f[n["n"]]
        if isinstance(s, Native):
            if n["n"] == "num_" and getattr(s, "raw", False):
                return self.loc(o)
            c = getattr(s, "f_" + n["n"], None)
            if c is not None:
                return c
        raise Undecided("member %s of %s" % (n["n"], type(s).__name__))

    def e_lambda(self, n, fr):
        env = {}
        this = fr.this
        for c in n["caps"]:
            if c.get("this"):
                continue
            if c.get("ref"):
                x = fr.env.get(c["id"])
                if x is None:
                    x = self.loc(self.eval(c["e"], fr))
                env[c["id"]] = x
            else:
                env[c["id"]] = Cell(self.copy(self.rv(self.eval(c["e"], fr))))
        return Clo(n, env, this)

    def e_cond(self, n, fr):
        if self.truth(self.eval(n["c"], fr)):
            return self.eval(n["a"], fr)
        return self.eval(n["b"], fr)

    def e_sub(self, n, fr):
        a = self.val(n["a"], fr)
        i = self.val(n["b"], fr)
        return self.index(a, i, n)

    def e_initlist(self, n, fr):
        t = strip_t(n["t"])
        args = n["args"]
        if t in self.prog.records:
            xs = [self.eval(a, fr) for a in args]
            if len(xs) == 1 and isinstance(self.rv(xs[0]), Struct) and self.rv(xs[0]).cls == t:
                return xs[0]
            s = self.new_struct(t)
            fields = self.prog.records[t]["fields"]
            for f, x in zip(fields, xs):
                if f["name"] in s.refs:
                    s.f[f["name"]] = self.loc(x)
                else:
                    v = self.rv(x)
                    if isinstance(x, Cell):
                        v = self.copy(v)
                    s.f[f["name"]] = Cell(self.conv(v, f["t"]), f["t"])
            return s
        if t.startswith(("std::pair<", "std::tuple<")) and not t.endswith("]"):
            return Tup([Cell(self.val(a, fr)) for a in args])
        if t.endswith("]"):
            return Vec([Cell(self.coerce(self.val(a, fr), t[:t.index("[")])) for a in args], t)
        if len(args) == 1:
            return self.eval(args[0], fr)
        if not args:
            return self.default(t)
        if t == "clingo_propagator" or t.startswith("clingo_"):
            s = Struct(t)
            names = ("init", "propagate", "undo", "check", "decide") if t == "clingo_propagator" else ()
            for i in range(max(len(args), len(names))):
                s.f[names[i] if i < len(names) else "%d" % i] = Cell(self.val(args[i], fr) if i < len(args) else None)
            return s
        raise Undecided("initializer list for " + t)

    def conv(self, v, t):
        t = strip_t(t)
        v = self.coerce(v, t)
        if t.startswith("std::optional<") and not isinstance(v, Opt):
            return Opt() if v is NULLOPT else Opt(Cell(v))
        return v

    def e_stdinit(self, n, fr):
        v = self.val(n["e"], fr)
        if isinstance(v, Vec):
            return v
        raise Undecided("std::initializer_list of %s" % type(v).__name__)

    def e_new(self, n, fr):
        if n.get("init") is not None:
            v = self.val(n["init"], fr)
        else:
            v = self.default(n["at"])
        c = Cell(v)
        self.events.append(("new", strip_t(n["at"]), c))
        return Ptr(c)

    def e_delete(self, n, fr):
        v = self.val(n["e"], fr)
        c = v.cell() if isinstance(v, Ptr) else None
        self.events.append(("delete", c))
        if MEMSAFE and c is not None:
            self.destroy(c, n)
        return None

    def e_throw(self, n, fr):
        if n.get("e") is None:
            e = getattr(self, "current_exc", None)
            if e is None:
                raise Undecided("rethrow without exception")
            raise e
        v = self.val(n["e"], fr)
        raise CxxThrow(strip_t(n["tt"]), v, self.pos(n))

    def wrap(self, v, t):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            t = strip_t(t)
            if t in UNSIGNED:
                return v & ((1 << UNSIGNED[t]) - 1)
            if t in SIGNED:
                b = SIGNED[t]
                v &= (1 << b) - 1
                return v - (1 << b) if v >> (b - 1) else v
        return v

    def e_cast(self, n, fr):
        x = self.eval(n["e"], fr)
        ck = n["ck"]
        if ck == "LValueBitCast":
            return x
        if ck == "ToVoid":
            return None
        v = self.rv(x)
        if ck in ("IntegralCast",):
            if isinstance(v, bool) and n["t"] != "bool":
                v = int(v)
            return self.wrap(v, n["t"])
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if ck == "BitCast" and isinstance(v, Ptr) and n.get("ft", "").replace("const ", "").strip() == "void *":
            self.check_void_cast(v, n)
        if ck in ("NullToPointer", "BitCast", "BaseToDerived", "Dynamic"):
            return v
        if ck == "IntegralToFloating":
            return v                # exact for the counters stored in floating point numbers (below 2^53)
        raise Undecided("cast " + ck)

    def check_void_cast(self, p, n):
        """An untyped pointer may only be used as a pointer to the object it points to."""
        if not n["t"].endswith("*"):
            return
        want = strip_t(n["t"][:-1]).replace("const ", "").strip()
        tv = self.rv(self.deref(p, n))
        if isinstance(tv, Struct) and (want in self.prog.records or want == "bool" or want in SIGNED or want in UNSIGNED):
            if not self.is_derived(tv.cls, want):
                self.ub("an object of type %s is accessed as %s" % (tv.cls, want), n)
        elif isinstance(tv, bool) and want != "bool" and want != "unsigned char":
            self.ub("a Boolean is accessed as %s" % want, n)
        elif isinstance(tv, int) and not isinstance(tv, bool) and want in self.prog.records:
            self.ub("a number is accessed as %s" % want, n)

    def is_derived(self, t, base):
        todo = [t]
        while todo:
            x = todo.pop()
            if x == base:
                return True
            todo += self.prog.records.get(x, {}).get("bases", [])
        return False

    def e_un(self, n, fr):
        op = n["op"]
        if op == "!":
            return not self.truth(self.eval(n["e"], fr))
        if op == "&":
            x = self.eval(n["e"], fr)
            if isinstance(x, FnRef):
                return x
            return Ptr(self.loc(x))
        if op == "*":
            return self.deref(self.eval(n["e"], fr), n)
        if op in ("++", "--"):
            c = self.eval(n["e"], fr)
            old = self.rv(c)
            new = self.add(old, 1 if op == "++" else -1, n)
            c.v = self.wrap(new, n["t"])
            return old if n["post"] else c
        v = self.val(n["e"], fr)
        if op == "-":
            return self.wrap(-int(v) if isinstance(v, bool) else -v, n["t"])
        if op == "+":
            return v
        if op == "~" and isinstance(v, int):
            return self.wrap(~v, n["t"])
        if op in ("__extension__",):
            return v
        raise Undecided("unary " + op)

    def add(self, a, k, node=None):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(a, (int, Fraction, Poly)):
            return a + k
        if MEMSAFE:
            self.valid(a, node)
        if isinstance(a, Ptr) and a.vec is not None:
            k = -k if a.rev else k
            i = a.i + k
            if i < 0 or i > len(a.vec.items):
                self.ub("iterator moved out of range", node)
            return Ptr(None, a.vec, i, a.rev)
        if isinstance(a, StrPtr):
            return a.at(self.add_off(a.i, k))
        if isinstance(a, MapIt):
            nodes = list(self.map_order(a.m))
            if a.node is None:
                self.ub("end iterator incremented", node)
            i = next((j for j, x in enumerate(nodes) if x is a.node), None)
            if i is None:
                raise Undecided("stale map iterator")
            i += k
            return MapIt(a.m, nodes[i] if i < len(nodes) else None)
        if isinstance(a, Ptr):
            raise Undecided("pointer arithmetic on a plain object")
        raise Undecided("arithmetic on %s" % type(a).__name__)

    def add_off(self, i, k):
        return i + k

    def e_assign(self, n, fr):
        if n["op"] != "=":
            raise Undecided("operator " + n["op"])
        b = self.val(n["b"], fr)
        a = self.eval(n["a"], fr)
        if not isinstance(a, Cell):
            raise Undecided("assignment to a value")
        a.v = b
        self.note_write(a, n, fr)
        return a

    def note_write(self, c, n, fr):
        pass

    def e_cassign(self, n, fr):
        b = self.val(n["b"], fr)
        c = self.eval(n["a"], fr)
        c.v = self.wrap(self.arith(n["op"], self.rv(c), b, n), n["t"])
        return c

    def e_bin(self, n, fr):
        op = n["op"]
        if op == "&&":
            return self.truth(self.eval(n["a"], fr)) and self.truth(self.eval(n["b"], fr))
        if op == "||":
            return self.truth(self.eval(n["a"], fr)) or self.truth(self.eval(n["b"], fr))
        if op == ",":
            self.eval(n["a"], fr)
            return self.eval(n["b"], fr)
        a = self.val(n["a"], fr)
        b = self.val(n["b"], fr)
        r = self.arith(op, a, b, n)
        return self.wrap(r, n["t"]) if not isinstance(r, bool) else r

    def arith(self, op, a, b, n=None):
        if MEMSAFE:
            self.valid(a, n)
            self.valid(b, n)
        if op == "==":
            return self.equal(a, b)
        if op == "!=":
            return not self.equal(a, b)
        if op == "<":
            return self.less(a, b)
        if op == ">":
            return self.less(b, a)
        if op == "<=":
            return not self.less(b, a)
        if op == ">=":
            return not self.less(a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op == "+":
            if isinstance(a, int) and isinstance(b, (Ptr, StrPtr, MapIt)):
                a, b = b, a
            return self.add(a, b, n)
        if op == "-":
            if isinstance(b, (int, Poly, Fraction)):
                if isinstance(a, (int, Poly, Fraction)):
                    return a - b
                return self.add(a, -b, n)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if b.vec is not None:
                    if a.vec is b.vec:
                        return (b.i - a.i) if a.rev else (a.i - b.i)
                    c = a.cell()
                    for i, x in enumerate(b.vec.items):
                        if x is c:
                            return i - b.i
                if a.cell() is b.cell():
                    return 0
                raise Undecided("difference of unrelated pointers")
            if isinstance(a, StrPtr) and isinstance(b, StrPtr):
                return a.i - b.i
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            if op == "*":
                return a * b
            if isinstance(a, int) and isinstance(b, int):
                if op == "/":
                    if b == 0:
                        self.ub("division by zero", n)
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                if op == "%":
                    if b == 0:
                        self.ub("division by zero", n)
                    r = abs(a) % abs(b)
                    return r if a >= 0 else -r
                if op == "&":
                    return a & b
                if op == "|":
                    return a | b
                if op == "^":
                    return a ^ b
                if op == "<<":
                    return a << b
                if op == ">>":
                    return a >> b
        raise Undecided("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    # ------------------------------------------------------- calls
    def args(self, n, fr):
        """Evaluate arguments; reference parameters keep cells, others become values."""
        pt = n.get("pt")
        out = []
        for i, a in enumerate(n["args"]):
            x = self.eval(a, fr)
            if pt is not None and i < len(pt) and not pt[i].endswith("&"):
                if isinstance(x, Cell):
                    x = self.copy(self.rv(x))
            out.append(x)
        return out

    def e_call(self, n, fr):
        import models
        if "headof" in n:
            self.call_head(n)
        nm = n.get("n")
        if nm is None:
            fe = self.val(n["fe"], fr)
            args = [self.eval(a, fr) for a in n["args"]]
            return self.call_clo(fe, args)
        if nm in self.overrides:
            return self.overrides[nm](self, None, self.args(n, fr), n)
        if n["inroot"]:
            r = models.number_call(self, n, fr)
            if r is not models.NO:
                return r
            f = self.prog.functions.get(n["f"])
            if f is None:
                raise Undecided("function %s not available" % n["f"])
            return self.call_function(f, None, self.args(n, fr), node=n)
        return models.free_call(self, n, fr)

    def e_ocall(self, n, fr):
        import models
        if n.get("inroot") and n.get("n") not in self.overrides:
            r = models.number_op(self, n, fr)
            if r is not models.NO:
                return r
            f = self.prog.functions.get(n["f"])
            # implicit assignment operators
            if f is None and n["op"] == "=":
                return self.object_assign(n, fr)
            if n["op"] == "()" or (f is None and "lambda@" in n["f"]):
                clo = self.eval(n["args"][0], fr)
                args = self.op_args(n, fr)
                o = self.rv(clo)
                if isinstance(o, (Clo, PyFn)):
                    return self.call_clo(o, args, n["f"])
                if f is not None:
                    return self.call_function(f, self.loc(clo), args, node=n)
            if f is None:
                raise Undecided("operator %s not available" % n["f"])
            if f.get("cls") and not f.get("static"):
                this = self.loc(self.eval(n["args"][0], fr))
                return self.call_function(f, this, self.op_args(n, fr), node=n)
            return self.call_function(f, None, self.args(n, fr), node=n)
        if n.get("n") in self.overrides:
            return self.overrides[n["n"]](self, None, [self.eval(a, fr) for a in n["args"]], n)
        return models.op_call(self, n, fr)

    def op_args(self, n, fr):
        pt = n.get("pt") or []
        out = []
        for i, a in enumerate(n["args"][1:]):
            x = self.eval(a, fr)
            if i < len(pt) and not pt[i].endswith("&") and isinstance(x, Cell):
                x = self.copy(self.rv(x))
            out.append(x)
        return out

    def object_assign(self, n, fr):
        b = self.eval(n["args"][1], fr)
        a = self.eval(n["args"][0], fr)
        pt = (n.get("pt") or [""])[0]
        if isinstance(b, Cell):
            if pt.endswith("&&"):
                if a is b:
                    return a
                v = self.move_out(b)
            else:
                v = self.copy(b.v)
        else:
            v = b
        self.assign_into(a, self.coerce(v, strip_t(pt)))
        return a

    def e_mcall(self, n, fr):
        import models
        if "headof" in n:
            self.call_head(n)
        nm = n.get("n")
        if nm in self.overrides:
            o = self.eval(n["o"], fr)
            if n.get("arrow"):
                o = self.deref(o, n)
            return self.overrides[nm](self, self.loc(o), self.args(n, fr), n)
        o = self.eval(n["o"], fr)
        if n.get("arrow"):
            o = self.deref(o, n)
        obj = self.rv(o)
        if isinstance(obj, Native) and not getattr(obj, "raw", False):
            return obj.call(self, nm.split("::")[-1], self.args(n, fr), n)
        if n["inroot"]:
            r = models.number_method(self, n, o, fr)
            if r is not models.NO:
                return r
            f = None
            if isinstance(obj, Struct):
                # virtual dispatch on the dynamic class
                name = nm.split("::")[-1]
                if n.get("virtual") and not n.get("qualified"):
                    fs = self.find_method(obj.cls, name, len(n["args"]))
                    f = fs[0] if fs else None
            if f is None:
                f = self.prog.functions.get(n["f"])
            if f is None and nm.endswith("operator="):
                return self.object_assign({"args": [n["o"]] + n["args"], "pt": n["pt"]}, fr)
            if f is None:
                raise Undecided("method %s not available" % n["f"])
            return self.call_function(f, self.loc(o), self.args(n, fr), node=n)
        return models.method_call(self, n, o, fr)

    def e_ctor(self, n, fr):
        import models
        return models.construct(self, n, fr)

    def index(self, a, i, node=None):
        a = self.rv(a)
        i = self.rv(i)
        if isinstance(i, Poly):
            if i.is_const():
                i = int(i.const_value())
            else:
                raise Undecided("abstract index")
        if isinstance(a, Vec):
            if not 0 <= i < len(a.items):
                self.ub("index %s out of range of a container of size %d" % (i, len(a.items)), node)
            c = a.items[i]
            while isinstance(c.v, Cell):
                c = c.v
            return c
        if isinstance(a, Ptr):
            return self.deref(self.add(a, i, node), node)
        if isinstance(a, StrPtr):
            return self.deref(a.at(self.add_off(a.i, i)), node)
        if isinstance(a, str):
            if 0 <= i <= len(a):
                return Cell(ord(a[i]) if i < len(a) else 0)
            self.ub("string index out of range", node)
        raise Undecided("index into %s" % type(a).__name__)


class Mutex(Native):
    """A mutex; mode is None, "shared" or "exclusive" (for the analysed thread)."""

    def __init__(self):
        self.mode = None

    def acquire(self, I, mode):
        if self.mode is not None:
            I.ub("mutex locked twice by the same thread")
        self.mode = mode
        I.events.append(("lock", mode))

    def drop(self, I, mode):
        if self.mode != mode:
            I.ub("mutex unlocked that is not locked")
        self.mode = None
        I.events.append(("unlock", mode))

    def m_lock(self, I):
        self.acquire(I, "exclusive")

    def m_lock_shared(self, I):
        self.acquire(I, "shared")

    def m_unlock(self, I):
        self.drop(I, "exclusive")

    def m_unlock_shared(self, I):
        self.drop(I, "shared")


class LockGuard(Native):
    def __init__(self, mutex, mode):
        self.mutex, self.mode, self.owner = mutex, mode, None
        self.held = False

    def release(self, I):
        if self.held:
            self.held = False
            if isinstance(self.mutex, Mutex):
                self.mutex.drop(I, self.mode)

    def m_unlock(self, I):
        self.release(I)

    def m_owns_lock(self, I):
        return self.held

    def m_lock(self, I, adopt=False):
        if isinstance(self.mutex, Mutex) and not adopt:
            self.mutex.acquire(I, self.mode)
        self.held = True


class Frame:
    __slots__ = ("env", "this", "f")

    def __init__(self, env, this, f=None):
        self.env, self.this, self.f = env, this, f


class PathResult:
    def __init__(self, interp, outcome, value=None, exc=None):
        self.I, self.outcome, self.value, self.exc = interp, outcome, value, exc


def run_partition(prog, rule, prefix, native_numbers):
    """Analyse one partition; returns its choices, outcome and what was covered."""
    I = Interp(prog, prefix, native_numbers)
    ok, und, viol = True, None, None
    try:
        rule(I)
    except Infeasible:
        ok = False
    except CutPath:
        pass
    except Undecided as e:
        und = "%s (at %s:%s)" % (e, *(I.where))
    except Violation as v:
        v.state = [(d, c) for c, k, d in I.trace]
        v.facts = [str(f) for f in I.facts.items]
        e = None if I.stack else I.entry
        if v.where is None:
            v.where = "%s:%s" % (e["file"], e["line"]) if e else I.pos()
        if v.fn is None:
            v.fn = e["n"] if e else I.stack[-1] if I.stack else I.where[0]
        try:
            if I.facts.satisfiable():
                viol = v
            else:
                ok = False
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            und = "internal: %s: %s" % (type(e).__name__, e)
    except CxxThrow as e:
        und = "unexpected exception %s at %s" % (e.tname, e.where)
    except RecursionError:
        und = "recursion limit"
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        und = "internal: %s: %s (at %s:%s)" % (type(e).__name__, e, *(I.where))
    return ok, und, viol, [(c, k) for c, k, d in I.trace], I


def explore_from(prog, rule, base, limit, native_numbers, stop_on_violation=True, deadline=None, quota=None):
    """All partitions whose choices start with base; with a quota the remaining prefixes are returned."""
    prefix = list(base)
    n = 0
    undec, viol = [], []
    fns, lines = set(), set()
    rest = []
    t0 = time.time()
    while True:
        ok, und, v, tr, I = run_partition(prog, rule, prefix, native_numbers)
        n += ok
        if und:
            undec.append(und)
        if v:
            viol.append(v)
        fns |= I.functions_seen
        lines |= I.lines_seen
        if viol and stop_on_violation:
            break
        if n >= limit:
            undec.append("partition limit reached")
            break
        i = len(tr) - 1
        while i >= len(base) and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < len(base):
            break
        if quota and time.time() - t0 > quota:
            ch = [t[0] for t in tr]
            for k in range(len(base), len(tr)):
                rest += [ch[:k] + [c] for c in range(tr[k][0] + 1, tr[k][1])]
            break
        prefix = [t[0] for t in tr[:i]] + [tr[i][0] + 1]
        if deadline and time.time() > deadline:
            undec.append("time limit reached")
            break
    return n, undec[:3], viol, fns, lines, rest


_JOB = {}


def _worker(args):
    sys.setrecursionlimit(20000)
    key, base, limit, deadline, quota = args
    name, prog, rule, _, native = _JOB[key]
    n, u, v, f, l, rest = explore_from(prog, rule, base, limit, native, True, deadline, quota)
    return key, n, u, [(x.msg, x.where, x.fn, x.state, x.facts) for x in v], f, l, rest


def explore_many(jobs, budget=700):
    """jobs: [(name, prog, rule, limit, native numbers)]; analysed in parallel.

    Returns {name: (partitions, undecided, violations, functions, lines)}.
    """
    import multiprocessing
    import queue
    deadline = time.time() + budget
    _JOB.clear()
    out = []
    for k, j in enumerate(jobs):
        _JOB[k] = j
        out.append([0, [], [], set(), set()])
    done = queue.Queue()
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        def submit(k, base, quota):
            pool.apply_async(_worker, ((k, base, jobs[k][3], deadline, quota),), callback=done.put,
                             error_callback=done.put)
        open_ = 0
        for k in range(len(jobs)):
            submit(k, [], 0.4)
            open_ += 1
        while open_:
            r = done.get()
            open_ -= 1
            if isinstance(r, BaseException):
                raise r
            k, n, u, vs, f, l, rest = r
            o = out[k]
            o[0] += n
            o[1] += u
            for m in vs:
                v = Violation(*m[:3])
                v.state, v.facts = m[3], m[4]
                if not o[2]:
                    o[2].append(v)
            o[3] |= f
            o[4] |= l
            if o[2]:
                continue
            if o[0] >= jobs[k][3]:
                if rest:
                    o[1].append("partition limit reached")
                continue
            for b in rest:
                submit(k, b, 2.0)
                open_ += 1
    return {j[0]: tuple(o) for j, o in zip(jobs, out)}


def explore(prog, rule, limit=3000, native_numbers=True, stop_on_violation=True):
    """Analyse all refinements of a rule's abstract state sequentially."""
    return explore_from(prog, rule, [], limit, native_numbers, stop_on_violation)[:5]
