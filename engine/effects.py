"""Interprocedural effect analyses over the type-resolved syntax tree.

* escaping exceptions with the call path on which they are raised,
* results of failing calls that are ignored,
* fields written by functions, and the locks held at accesses,
* the call graph including virtual calls, functors and lambdas.
"""
import re

from interp import Undecided, strip_t, targs

# exceptions raised by functions of the standard library used in a way not checked by the type system
STD_THROWS = {
    # checked accesses (at, value, get) only throw if they are misused; they are decided with the values at hand
    "stoi": "std::invalid_argument", "stol": "std::invalid_argument", "stoll": "std::invalid_argument",
    "stoul": "std::invalid_argument", "stoull": "std::invalid_argument", "stod": "std::invalid_argument",
    "stof": "std::invalid_argument", "rethrow_exception": "std::exception",
}
BASES = {
    "std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
    "std::range_error": "std::runtime_error", "std::invalid_argument": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
    "std::out_of_range": "std::logic_error", "std::bad_optional_access": "std::exception",
    "std::bad_variant_access": "std::exception", "std::regex_error": "std::runtime_error",
    "std::bad_function_call": "std::exception", "std::system_error": "std::runtime_error",
}
# clingo functions that only fail if memory is exhausted or if they are applied to objects of the wrong kind
EXT_SAFE = {
    "Clingo::String", "Clingo::Function", "Clingo::Number", "Clingo::Id", "Clingo::operator<<",
    "Clingo::Assignment::is_false", "Clingo::Assignment::is_true", "Clingo::Assignment::truth_value",
    "Clingo::Assignment::level", "Clingo::Assignment::is_fixed", "Clingo::Assignment::value",
}
IGNORED = ("std::bad_alloc",)
CLINGO = "clingo error"


def children(n):
    for k, v in n.items():
        if k in ("pt", "bindings"):
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            yield y


def walk(n, lambdas=True):
    st = [n]
    while st:
        x = st.pop()
        yield x
        if x.get("k") == "lambda" and not lambdas:
            for c in x.get("caps", ()):
                if c.get("e"):
                    st.append(c["e"])
            continue
        st.extend(reversed(list(children(x))))


def unwrap(n):
    while isinstance(n, dict) and n.get("k") in ("mat", "cast", "load", "defarg", "stdinit") and isinstance(n.get("e"), dict):
        n = n["e"]
    return n


def parts(f):
    """Constructor initialisers and body."""
    out = []
    for i in f.get("inits") or ():
        if isinstance(i.get("e"), dict):
            out.append(i["e"])
    if isinstance(f.get("body"), dict):
        out.append(f["body"])
    return out


def derives(prog, t, base):
    t, base = strip_t(t).rstrip("&").strip(), strip_t(base).rstrip("&").strip()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x == base:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in BASES:
            todo.append(BASES[x])
        if x in prog.records:
            todo += [strip_t(b) for b in prog.records[x]["bases"]]
        if x == CLINGO:
            todo.append("std::exception")
    return False


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.by_cls = {}
        for f in prog.functions.values():
            if f.get("cls"):
                self.by_cls.setdefault(f["cls"], []).append(f)
        self.lambdas = {}
        for f in list(prog.functions.values()):
            for p in parts(f):
                self._collect(p, f)
        self.over = {}
        for f in prog.functions.values():
            if f.get("virtual"):
                self.over.setdefault((f["name"], len(f["params"])), []).append(f)
        self.memo = None

    def _collect(self, n, f):
        for x in walk(n):
            if x.get("k") == "lambda":
                self.lambdas[x["id"]] = (x, f)

    # ----------------------------------------------------------- call graph
    def subclasses(self, cls):
        cls = strip_t(cls)
        return [r for r in self.prog.records if r == cls or derives(self.prog, r, cls)]

    def ctor(self, t, n=None):
        return [f for f in self.by_cls.get(strip_t(t), ()) if f.get("ctor") and (n is None or len(f["params"]) >= n)]

    def functor(self, t):
        t = strip_t(t).rstrip("&").strip()
        m = re.match(r"(?:const )?(.*)", t)
        return [f for f in self.by_cls.get(m.group(1), ()) if f["name"] == "operator()"]

    def targets(self, n):
        """Functions of the repository a call, construction or reference node may execute."""
        k = n.get("k")
        out = []
        if k in ("call", "mcall", "ocall", "ctor", "inhctor"):
            f = self.prog.functions.get(n.get("f"))
            if k == "mcall" and n.get("virtual") and not n.get("qualified"):
                nm = n["n"].split("::")[-1]
                cls = n["n"].rsplit("::", 1)[0]
                subs = None
                if f is not None:
                    subs = set(self.subclasses(f["cls"]))
                else:
                    ot = strip_t(n["o"].get("t", "")).replace("const ", "").rstrip("*& ").strip()
                    if ot in self.prog.records:
                        subs = set(self.subclasses(ot))
                for g in self.over.get((nm, len(n.get("pt", ()))), ()):
                    if subs is None or g["cls"] in subs:
                        out.append(g)
            if f is not None and f not in out:
                out.append(f)
            if f is None and n.get("n"):
                # functions of the standard library call their arguments
                args = list(n.get("args", ()))
                for a in args:
                    u = unwrap(a)
                    if u.get("k") == "fref" and u.get("f") in self.prog.functions:
                        out.append(self.prog.functions[u["f"]])
                    elif u.get("k") == "un" and unwrap(u.get("e", {})).get("k") == "fref":
                        g = self.prog.functions.get(unwrap(u["e"]).get("f"))
                        if g:
                            out.append(g)
                    if u.get("t") and not n.get("externc"):
                        out += self.functor(u["t"])
                if n["n"].split("::")[-1] in ("make_unique", "make_shared"):
                    m = re.search(r"make_(?:unique|shared)<(.*)", n.get("f") or "")
                    ts = targs(n.get("rt", ""))
                    if ts:
                        out += self.ctor(ts[0], len(args))
                if n["n"].split("::")[-1] in ("emplace_back", "emplace", "resize", "push_back", "try_emplace") and n.get("o"):
                    for t in targs(strip_t(n["o"].get("t", "")).rstrip("*& ")):
                        for u in [t] + (list(targs(t)) if t.startswith("std::pair<") else []):
                            if u in self.prog.records:
                                out += self.ctor(u)
        return out

    def callees(self, f):
        out = []
        for p in parts(f):
            for x in walk(p):
                for g in self.targets(x):
                    out.append((g, x.get("l")))
        return out

    def reachable(self, roots, stop=lambda f: False):
        """Functions reachable from the roots with the call path."""
        seen = {}
        todo = [(f, (f["n"],)) for f in roots]
        while todo:
            f, path = todo.pop(0)
            if f["id"] in seen or stop(f):
                continue
            seen[f["id"]] = path
            for g, l in self.callees(f):
                if g["id"] not in seen:
                    todo.append((g, path + (g["n"],)))
        return seen

    # ----------------------------------------------------------- exceptions
    def throws(self, f):
        """Exceptions leaving a function: type -> path of (function, line)."""
        if self.memo is None:
            self.memo = {g["id"]: {} for g in self.prog.functions.values()}
            for lam, _ in self.lambdas.values():
                for op in lam["ops"]:
                    self.memo.setdefault(op["id"], {})
            changed = True
            fs = list(self.prog.functions.values())
            while changed:
                changed = False
                for g in fs:
                    r = self._function(g)
                    if set(r) - set(self.memo[g["id"]]):
                        self.memo[g["id"]] = {**r, **self.memo[g["id"]]}
                        changed = True
        return self.memo.get(f["id"]) if f["id"] in self.memo else self._function(f)

    def inside(self, f):
        """Exceptions raised in a function, even if it is declared noexcept."""
        self.throws(f)
        out = {}
        for p in parts(f):
            self._node(p, f, out, {})
        return out

    def _function(self, f):
        if f.get("noexcept"):
            return {}
        out = {}
        for p in parts(f):
            self._node(p, f, out, {})
        return out

    def _add(self, out, t, path):
        t = strip_t(t)
        if t not in IGNORED and t not in out:
            out[t] = path

    def _node(self, n, f, out, caught):
        k = n.get("k")
        if k == "try":
            inner = {}
            self._node(n["body"], f, inner, caught)
            for h in n["h"]:
                hit = {t: p for t, p in inner.items() if h["all"] or derives(self.prog, t, h["t"])}
                for t in hit:
                    del inner[t]
                self._node(h["body"], f, out, hit)
            for t, p in inner.items():
                self._add(out, t, p)
            return
        if k == "throw":
            if n.get("tt"):
                self._add(out, n["tt"], ((f["n"], n.get("l")),))
            else:
                for t, p in caught.items():
                    self._add(out, t, p)
        if k == "lambda":
            # executed where it is created at the latest (callbacks are only used during the call)
            for op in n["ops"]:
                if not op.get("noexcept"):
                    for p in parts(op):
                        self._node(p, f, out, {})
            return
        if k in ("call", "mcall", "ocall", "ctor", "inhctor"):
            line = n.get("l")
            for g in self.targets(n):
                for t, p in self.memo.get(g["id"], {}).items():
                    self._add(out, t, ((f["n"], line),) + p)
            if n.get("f") not in self.prog.functions and not n.get("noexcept"):
                nm = n.get("n") or ""
                if n.get("ethrow") and nm not in EXT_SAFE:
                    self._add(out, CLINGO, ((f["n"], line), (nm, None)))
                if nm.startswith("std::") and nm.split("::")[-1] in STD_THROWS:
                    s = nm.split("::")[-1]
                    self._add(out, STD_THROWS[s], ((f["n"], line), (nm, None)))
        for c in children(n):
            self._node(c, f, out, caught)

    # ------------------------------------------------------------ statements
    def falls_through(self, s):
        """Whether control may leave a statement normally."""
        k = s.get("k") if s else None
        if k in ("return", "break", "continue"):
            return k != "return" and False
        if k == "expr":
            return unwrap(s["e"]).get("k") != "throw"
        if k == "block":
            for x in s.get("s", ()):
                if not self.falls_through(x):
                    return False
            return True
        if k == "if":
            return s.get("else") is None or self.falls_through(s["then"]) or self.falls_through(s["else"])
        if k == "try":
            return self.falls_through(s["body"]) or any(self.falls_through(h["body"]) for h in s["h"])
        return True


def path_text(p):
    return " -> ".join("%s%s" % (a, ":%s" % b if b else "") for a, b in p)
