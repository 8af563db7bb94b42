"""Relational numeric domain used by the analyser.

Numbers are Laurent polynomials with rational coefficients over symbols
(normal forms, so that algebraically equal expressions coincide no matter how
they are written).  A Facts object is a conjunction of sign facts about such
polynomials, closed under linear consequences (a polyhedron over the monomials)
and sign rules for products.
"""
from fractions import Fraction
from itertools import count

EPS = "eps"  # the infinitesimal of the strict value type


def norm(c):
    """Coefficients are integers where possible."""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def div(a, b):
    """Exact division of coefficients."""
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fraction(a, b)
    return norm(Fraction(a) / b)


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t=None):
        self.t = t or {}
        self._key = None

    @staticmethod
    def const(c):
        if type(c) is not int:
            c = norm(Fraction(c))
        return Poly({(): c} if c else {})

    @staticmethod
    def sym(name):
        return Poly({((name, 1),): 1})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        o = to_poly(o)
        r = dict(self.t)
        for m, c in o.t.items():
            c2 = r.get(m, 0) + c
            if c2:
                r[m] = c2
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-to_poly(o))

    def __rsub__(self, o):
        return to_poly(o) - self

    def __mul__(self, o):
        o = to_poly(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = r.get(m, 0) + c1 * c2
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((s, -e) for s, e in m): div(1, c)})
        # reciprocal of a general polynomial: an opaque symbol (canonical up to scale)
        lead = self.key()[0][1]
        p = Poly({m: div(c, lead) for m, c in self.t.items()})
        return Poly({(("inv", p.key()), 1) and ((("inv[%s]" % p), 1),): div(1, lead)})

    def __truediv__(self, o):
        return self * to_poly(o).inv()

    def symbols(self):
        return {s for m in self.t for s, _ in m}

    def subst(self, env):
        r = Poly()
        for m, c in self.t.items():
            p = Poly.const(c)
            for s, e in m:
                v = env.get(s)
                if v is None:
                    v = Poly.sym(s)
                if e < 0:
                    v = v.inv()
                    e = -e
                for _ in range(e):
                    p = p * v
            r = r + p
        return r

    def split(self, sym):
        """Return (p0, p1) with self = p0 + p1*sym (linear in sym)."""
        a, b = {}, {}
        for m, c in self.t.items():
            d = dict(m)
            e = d.pop(sym, 0)
            if e == 0:
                a[m] = c
            else:
                if e != 1:
                    d[sym] = e - 1
                b[tuple(sorted(d.items()))] = c
        return Poly(a), Poly(b)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            ms = "*".join(s if e == 1 else "%s^%d" % (s, e) for s, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out).replace("+ -", "- ")


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        n = d.get(s, 0) + e
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    raise TypeError("not a number: %r" % (x,))


VERSIONS = count(1)


class Facts:
    """Sign facts: list of (poly, rel) with rel in '>', '>=', '='."""

    MEMO = {0: {}}            # version -> results of queries
    NEXT = {}                 # (version, fact) -> version

    def __init__(self):
        self.items = []
        self.seen = set()
        self.ne = []          # polynomials known to be nonzero
        self.ver = 0

    @property
    def cache(self):
        m = Facts.MEMO.get(self.ver)
        if m is None:
            m = Facts.MEMO[self.ver] = {}
        return m

    def bump(self, k):
        v = Facts.NEXT.get((self.ver, k))
        if v is None:
            if len(Facts.MEMO) > 200000:
                Facts.NEXT.clear()
                Facts.MEMO.clear()
            v = next(VERSIONS)
            Facts.NEXT[self.ver, k] = v
        self.ver = v

    def copy(self):
        f = Facts()
        f.items = list(self.items)
        f.seen = set(self.seen)
        f.ne = list(self.ne)
        f.ver = self.ver
        return f

    # -- monomial signs
    def sym_sign(self, s):
        """Known signs of a symbol as a set."""
        k = ("s", s)
        if k in self.cache:
            return self.cache[k]
        p = Poly.sym(s)
        r = {-1, 0, 1}
        for q, rel in self.items:
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if m == ((s, 1),):
                    sg = 1 if c > 0 else -1
                    if rel == ">":
                        r &= {sg}
                    elif rel == ">=":
                        r &= {0, sg}
                    else:
                        r &= {0}
        if any(q == p or q == -p for q in self.ne):
            r &= {-1, 1}
        self.cache[k] = r
        return r

    def mono_sign(self, m):
        r = {1}
        for s, e in m:
            ss = self.sym_sign(s)
            if e % 2 == 0:
                ss = {abs(x) for x in ss}
            if e < 0:
                ss = ss - {0}
            r = {a * b for a in r for b in ss}
        return r

    def normal(self, p):
        """Divide by the common monomial if its sign is known; returns (q, sign)."""
        if not p.t:
            return p, 1
        exps = None
        syms = p.symbols()
        g = {}
        for s in syms:
            g[s] = min(dict(m).get(s, 0) for m in p.t)
        m = tuple(sorted((s, e) for s, e in g.items() if e))
        if not m:
            return p, 1
        sg = self.mono_sign(m)
        if len(sg) == 1 and 0 not in sg:
            return p * Poly({tuple((s, -e) for s, e in m): 1}), next(iter(sg))
        # partially: drop factors with known signs
        m2 = tuple((s, e) for s, e in m if len(self.sym_sign(s)) == 1 or e % 2 == 0 and 0 not in self.sym_sign(s) or
                   (e < 0 and len(self.sym_sign(s) - {0}) == 1))
        m2 = tuple((s, e) for s, e in m2 if 0 not in (self.sym_sign(s) if e > 0 else {1}))
        if m2:
            sg = self.mono_sign(m2)
            if len(sg) == 1:
                return p * Poly({tuple((s, -e) for s, e in m2): 1}), next(iter(sg))
        return p, 1

    def assume(self, p, rel):
        """Add the fact p rel 0 (rel in '>','<','=','>=','<=','!=')."""
        if rel == "<":
            p, rel = -p, ">"
        elif rel == "<=":
            p, rel = -p, ">="
        if rel == "!=":
            q = self.normal(p)[0]
            self.ne.append(q)
            self.bump((q, "!="))
            return
        if EPS in p.symbols():
            p0, p1 = p.split(EPS)
            if rel == "=":
                self.assume(p0, "=")
                self.assume(p1, "=")
                return
            # lexicographic facts cannot be represented exactly; keep the weak part
            self.assume(p0, ">=")
            return
        q, s = self.normal(p)
        if s < 0:
            q = -q
        k = (q, rel)
        if k in self.seen:
            return
        self.seen.add(k)
        self.items.append(k)
        self.bump(k)

    def signs(self, p):
        """Set of possible signs of p under the facts."""
        p = to_poly(p)
        if not p.t:
            return {0}
        if p.is_const():
            return {1} if p.const_value() > 0 else {-1}
        if EPS in p.symbols():
            p0, p1 = p.split(EPS)
            s0 = self.signs(p0)
            r = s0 - {0}
            if 0 in s0:
                r = r | self.signs(p1)
            return r
        key = ("p", p)
        if key in self.cache:
            return self.cache[key]
        q, s = self.normal(p)
        if len(q.t) == 1:
            (m, c), = q.t.items()
            r = {x * s * (1 if c > 0 else -1) for x in self.mono_sign(m)}
            if len(r) == 1:
                self.cache[key] = r
                return r
        else:
            r = {-1, 0, 1}
        if any(n == q or n == -q for n in self.ne):
            r = r - {0}
        # linear reasoning
        out = set()
        for sg, rel in ((1, ">"), (0, "="), (-1, "<")):
            if sg * s not in {x for x in r}:
                continue
            if self.feasible(q, rel):
                out.add(sg * s)
        if not out:
            out = r
        self.cache[key] = out
        return out

    def _related(self, q):
        """Facts plus products of facts with monomials that line up with q."""
        base = list(self.items)
        res = list(base)
        seen = set(base)
        targets = set(q.t)
        frontier = [f for f in base]
        for _ in range(2):
            new = []
            for f, rel in base:
                for mf in f.t:
                    if mf == ():
                        if all(m == () for m in f.t):
                            continue
                    for mt in list(targets):
                        if mf == mt:
                            continue
                        sc = mono_mul(mt, tuple((s, -e) for s, e in mf))
                        if any(e < 0 and 0 in self.sym_sign(s) for s, e in sc):
                            continue      # would divide by something that may be zero
                        sg = self.mono_sign(sc)
                        if len(sg) != 1 or 0 in sg:
                            if rel != "=":
                                continue
                            sg = {1}
                        g = f * Poly({sc: next(iter(sg))})
                        k = (g, rel)
                        if k not in seen:
                            seen.add(k)
                            new.append(k)
            if not new:
                break
            res.extend(new)
            if len(res) > 60:
                break
            t2 = set(targets)
            for f, _r in new:
                t2 |= set(f.t)
            if t2 == targets or len(t2) > 14:
                break
            targets = t2
        return res

    def feasible(self, p, rel):
        if rel == "<":
            p, rel = -p, ">"
        elif rel == "<=":
            p, rel = -p, ">="
        cons = connected(self._related(p), p) + [(p, rel)]
        # signs of monomials that occur
        monos = set()
        for f, _ in cons:
            monos |= set(f.t)
        for m in monos:
            if m == ():
                continue
            sg = self.mono_sign(m)
            if sg <= {1}:
                cons.append((Poly({m: 1}), ">"))
            elif sg <= {-1}:
                cons.append((Poly({m: -1}), ">"))
            elif sg <= {0}:
                cons.append((Poly({m: 1}), "="))
            elif sg <= {0, 1}:
                cons.append((Poly({m: 1}), ">="))
            elif sg <= {0, -1}:
                cons.append((Poly({m: -1}), ">="))
        return feasible(cons)

    def satisfiable(self):
        """Full consistency test, splitting facts of the form p != 0."""
        if not self.all_consistent():
            return False
        ne = [q for q in self.ne if len(q.t) > 1][:5]
        if not ne:
            return True
        import itertools
        for sg in itertools.product((">", "<"), repeat=len(ne)):
            f = self.copy()
            for q, r in zip(ne, sg):
                f.assume(q, r)
            if f.all_consistent():
                return True
        return False

    def all_consistent(self):
        for q, rel in self.items:
            if len(q.t) == 1:
                (m, c), = q.t.items()
                sg = {x * (1 if c > 0 else -1) for x in self.mono_sign(m)}
                if not (sg & {">": {1}, ">=": {0, 1}, "=": {0}}[rel]):
                    return False
            elif not self.feasible(q, rel):
                return False
        return True

    def consistent(self):
        for q, rel in self.items:
            if len(q.t) == 1:
                (m, c), = q.t.items()
                sg = {x * (1 if c > 0 else -1) for x in self.mono_sign(m)}
                ok = {">": {1}, ">=": {0, 1}, "=": {0}}[rel]
                if not (sg & ok):
                    return False
        monos = set()
        return self.feasible(Poly.const(1), ">")


def connected(cons, p):
    """Constraints connected to p by shared monomials."""
    todo = {m for m in p.t if m}
    rest = list(cons)
    out = []
    change = True
    while change and rest:
        change = False
        nxt = []
        for f, rel in rest:
            if any(m in todo for m in f.t):
                out.append((f, rel))
                todo |= {m for m in f.t if m}
                change = True
            else:
                nxt.append((f, rel))
        rest = nxt
    return out


def feasible(cons):
    """Emptiness test of a polyhedron given by (poly, rel) over its monomials."""
    eqs, ineqs = [], []
    for p, rel in cons:
        if rel == "=":
            eqs.append(dict(p.t))
        else:
            ineqs.append((dict(p.t), rel == ">"))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        e = {m: c for m, c in e.items() if c}
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return False
            continue
        v = vs[0]
        a = e[v]

        def sub(r):
            c = r.get(v)
            if not c:
                return r
            f = div(c, a)
            r = dict(r)
            for m, x in e.items():
                n = r.get(m, 0) - f * x
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
            return r

        eqs = [sub(r) for r in eqs]
        ineqs = [(sub(r), s) for r, s in ineqs]
    # Fourier-Motzkin
    cur = {}

    def push(store, r, s):
        r = {m: c for m, c in r.items() if c}
        if not any(m != () for m in r):
            c = r.get((), 0)
            if c < 0 or (s and c == 0):
                return False
            return True
        k0 = r.get((), 0)
        lead = None
        for m in sorted(x for x in r if x != ()):
            lead = abs(r[m])
            break
        key = tuple(sorted((m, div(c, lead)) for m, c in r.items() if m != ()))
        k0 = div(k0, lead)
        old = store.get(key)
        # key + k0 >(=) 0 : smaller k0 is stronger
        if old is None or k0 < old[0] or (k0 == old[0] and s and not old[1]):
            store[key] = (k0, s)
        return True

    for r, s in ineqs:
        if not push(cur, r, s):
            return False
    while cur:
        # choose variable with the least product
        cnt = {}
        for key in cur:
            for m, c in key:
                a = cnt.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
        pos, neg, nxt = [], [], {}
        for key, (k0, s) in cur.items():
            d = dict(key)
            c = d.get(v)
            if c is None:
                o = nxt.get(key)
                if o is None or k0 < o[0] or (k0 == o[0] and s and not o[1]):
                    nxt[key] = (k0, s)
            elif c > 0:
                pos.append((d, k0, s, c))
            else:
                neg.append((d, k0, s, -c))
        if len(pos) * len(neg) > 4000:
            return True
        for d1, k1, s1, c1 in pos:
            for d2, k2, s2, c2 in neg:
                r = {}
                for m, c in d1.items():
                    r[m] = div(c, c1)
                for m, c in d2.items():
                    r[m] = r.get(m, 0) + div(c, c2)
                r.pop(v, None)
                k = div(k1, c1) + div(k2, c2)
                if k:
                    r[()] = k
                if not push(nxt, r, s1 or s2):
                    return False
        cur = nxt
        if len(cur) > 4000:
            return True
    return True
