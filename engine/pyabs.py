"""A small abstract interpreter for the Python sources: unknown objects are opaque and calls of them are recorded."""
import ast

from interp import Undecided, Violation


class Opaque:
    """An object of a library identified by how it has been obtained."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return self.path


class Raised(Exception):
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Func:
    def __init__(self, node, env, this=None, cls=None):
        self.node, self.env, self.this, self.cls = node, env, this, cls


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class Class:
    def __init__(self, name, node, bases):
        self.name, self.node, self.bases = name, node, bases
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}
        self.consts = {}
        for n in node.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
            for t in ts:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = n.value


class Module:
    """Interprets the definitions of a module; models: path -> python callable(ev, args, kwargs)."""

    def __init__(self, text, models, truth):
        self.tree = ast.parse(text)
        self.models, self.truth = models, truth
        self.log = []
        self.steps = 0
        self.env = {}
        self.mainbody = None
        for s in self.tree.body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and getattr(s.test.left, "id", None) == "__name__":
                self.mainbody = s.body
                continue
            self.exec(s, self.env)

    # ------------------------------------------------------------ helpers
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.steps += 1
        if self.steps > 5000:
            raise Undecided("too many steps in Python code")
        if isinstance(f, Func):
            a = f.node.args
            if a.vararg or a.kwarg:
                raise Undecided("parameters in Python code")
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) for x in ast.walk(f.node)) or isinstance(f.node, ast.AsyncFunctionDef):
                raise Undecided("kind of function in Python code")
            ps = [p.arg for p in a.posonlyargs + a.args]
            vals = ([f.this] if f.this is not None else []) + list(args)
            env = {"__parent__": f.env, "__cls__": f.cls, "__self__": f.this}
            if len(vals) > len(ps):
                raise Violation("too many arguments in a call of %s" % getattr(f.node, "name", "a lambda"))
            env.update(zip(ps, vals))
            for k, v in kw.items():
                if k not in ps and k not in [p.arg for p in a.kwonlyargs]:
                    raise Violation("unexpected argument %s" % k)
                env[k] = v
            dv = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
            dv.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            ps = ps + [p.arg for p in a.kwonlyargs]
            for p in ps:
                if p not in env:
                    if p not in dv:
                        raise Violation("argument %s is missing in a call of %s" % (p, getattr(f.node, "name", "a lambda")))
                    env[p] = self.eval(dv[p], f.env)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                for s in f.node.body:
                    self.exec(s, env)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, Class):
            if f.name in self.models:
                return self.models[f.name](self, args, kw)
            o = Obj(f)
            if "__init__" in f.methods:
                self.call(Func(f.methods["__init__"], self.env, o, f), args, kw)
            return o
        if isinstance(f, Opaque):
            if f.path in self.models:
                return self.models[f.path](self, args, kw)
            self.log.append((f.path, list(args), dict(kw)))
            return Opaque(f.path + "()")
        if callable(f):
            return f(*args, **kw)
        raise Undecided("call of %r in Python code" % (f,))

    def method(self, o, name):
        if name not in o.cls.methods:
            raise Undecided("method %s not found" % name)
        return self.bound(o.cls, name, o)

    def bound(self, cls, name, o=None):
        node = cls.methods[name]
        ds = [d.id if isinstance(d, ast.Name) else None for d in node.decorator_list]
        if ds == ["staticmethod"]:
            return Func(node, self.env, None, cls)
        if ds == ["classmethod"]:
            return Func(node, self.env, cls, cls)
        if ds == ["property"] and o is not None:
            return self.call(Func(node, self.env, o, cls), [])
        if ds and ds != ["override"]:
            raise Undecided("decorator in Python code")
        return Func(node, self.env, o, cls)

    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.get("__parent__") if e is not self.env else None
            if e is None and n in self.env:
                return self.env[n]
        b = {"str": self.to_str, "sorted": lambda x, key=None, reverse=False: sorted(self.iter(x), key=None if key is None else lambda y: self.call(key, [y]), reverse=bool(reverse)),
             "reversed": lambda x: self.iter(x)[::-1], "enumerate": lambda x, start=0: [(i + start, y) for i, y in enumerate(self.iter(x))],
             "zip": lambda *xs: list(zip(*[self.iter(x) for x in xs])), "any": lambda x: any(self.is_true(y) for y in self.iter(x)), "all": lambda x: all(self.is_true(y) for y in self.iter(x)),
             "range": lambda *a: list(range(*a)), "next": lambda x, *d: (self.iter(x) + list(d))[0], "len": lambda x: len(self.iter(x)), "int": lambda x: x, "super": None, "list": lambda x: list(self.iter(x)),
             "True": True, "False": False, "None": None, "print": None, "bool": self.is_true, "iter": lambda x: list(self.iter(x)), "tuple": lambda x: list(self.iter(x)),
             "map": lambda f, x: [self.call(f, [y]) for y in self.iter(x)], "filter": lambda f, x: [y for y in self.iter(x) if self.is_true(self.call(f, [y]))]}
        if n in b and b[n] is not None:
            return b[n]
        return Opaque(n)

    def to_str(self, v):
        if isinstance(v, (Opaque, Obj)):
            raise Undecided("text of %r" % (v,))
        return str(v)

    def iter(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Undecided("iteration over %r" % (v,))

    def is_true(self, v):
        if isinstance(v, (Opaque, Obj)):
            return self.truth(v)
        return bool(v)

    # ---------------------------------------------------------- statements
    def block(self, ss, env):
        for s in ss:
            self.exec(s, env)

    def exec(self, s, env):
        if isinstance(s, ast.Expr):
            self.eval(s.value, env)
        elif isinstance(s, (ast.Import,)):
            for a in s.names:
                env[a.asname or a.name.split(".")[0]] = Opaque(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                m = s.module or ""
                env[a.asname or a.name] = Opaque("." * s.level + ((m + ".") if m else "") + a.name)
        elif isinstance(s, ast.ClassDef):
            env[s.name] = Class(s.name, s, [self.eval(b, env) for b in s.bases])
        elif isinstance(s, ast.FunctionDef):
            if s.decorator_list:
                raise Undecided("decorator in Python code")
            env[s.name] = Func(s, env)
        elif isinstance(s, ast.Assign):
            v = self.eval(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            v, w = self.lookup(s.target.id, env), self.eval(s.value, env)
            if isinstance(v, Opaque) or isinstance(w, Opaque):
                raise Undecided("arithmetic in Python code")
            self.assign(s.target, v + w, env)
        elif isinstance(s, ast.Return):
            raise Ret(self.eval(s.value, env) if s.value else None)
        elif isinstance(s, ast.If):
            self.block(s.body if self.is_true(self.eval(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            for v in self.iter(self.eval(s.iter, env)):
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            while self.is_true(self.eval(s.test, env)):
                self.steps += 1
                if self.steps > 5000:
                    raise Undecided("too many steps in Python code")
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env)
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, ast.With):
            cms = []
            for i in s.items:
                c = self.eval(i.context_expr, env)
                self.log.append(("enter", [c], {}))
                cms.append(c)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, c, env)
            self.block(s.body, env)
            for c in reversed(cms):
                self.log.append(("exit", [c], {}))
        elif isinstance(s, ast.Pass):
            pass
        else:
            raise Undecided("Python statement %s" % type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            else:
                raise Undecided("assignment to an attribute of %r" % (o,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iter(v)
            if len(vs) != len(t.elts):
                raise Undecided("unpacking in Python code")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        else:
            raise Undecided("Python assignment")

    # --------------------------------------------------------- expressions
    def eval(self, n, env):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("Python expression " + k)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Lambda(self, n, env):
        return Func(n, env)

    def e_Tuple(self, n, env):
        return tuple(self.eval(x, env) for x in n.elts)

    def e_List(self, n, env):
        return [self.eval(x, env) for x in n.elts]

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Dict(self, n, env):
        return {self.eval(k, env): self.eval(v, env) for k, v in zip(n.keys, n.values)}

    def e_Attribute(self, n, env):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
            return Opaque("super." + n.attr)
        o = self.eval(n.value, env)
        if isinstance(o, Obj):
            if n.attr in o.attrs:
                return o.attrs[n.attr]
            if n.attr in o.cls.methods:
                return self.method(o, n.attr)
            if n.attr in o.cls.consts:
                return self.eval(o.cls.consts[n.attr], self.env)
            return Opaque("self." + n.attr)
        if isinstance(o, Opaque):
            return Opaque(o.path + "." + n.attr)
        if isinstance(o, Class):
            if n.attr in o.methods:
                return self.bound(o, n.attr)
            if n.attr in o.consts:
                return self.eval(o.consts[n.attr], self.env)
            raise Undecided("attribute of a class")
        if isinstance(o, (str, list)) and n.attr in ("join", "append", "extend", "format", "sort", "upper", "lower", "strip"):
            if n.attr == "join":
                return lambda x: o.join(self.iter(x))
            if n.attr == "format":
                return lambda *a, **k: o.format(*[self.to_str(x) for x in a], **{i: self.to_str(x) for i, x in k.items()})
            return getattr(o, n.attr)
        if hasattr(o, "py_" + n.attr):
            return getattr(o, "py_" + n.attr)
        raise Undecided("attribute %s of %r" % (n.attr, o))

    def e_Call(self, n, env):
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iter(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for a in n.keywords:
            if a.arg is None:
                raise Undecided("** in Python code")
            kw[a.arg] = self.eval(a.value, env)
        return self.call(f, args, kw)

    def e_JoinedStr(self, n, env):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Undecided("format of Python text")
                out += self.to_str(self.eval(v.value, env))
        return out

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower, env) if n.slice.lower else None
            hi = self.eval(n.slice.upper, env) if n.slice.upper else None
            if isinstance(o, (list, tuple, str)):
                return o[lo:hi]
            if isinstance(o, Opaque):
                return Opaque("%s[%s:%s]" % (o.path, "" if lo is None else lo, "" if hi is None else hi))
        i = self.eval(n.slice, env)
        if isinstance(o, (list, tuple, str)) and isinstance(i, int):
            if not -len(o) <= i < len(o):
                raise Violation("index %d out of range in Python code" % i)
            return o[i]
        raise Undecided("subscript in Python code")

    def e_BinOp(self, n, env):
        a, b = self.eval(n.left, env), self.eval(n.right, env)
        if isinstance(n.op, ast.Add) and type(a) is type(b) and isinstance(a, (str, list, int)):
            return a + b
        if isinstance(n.op, ast.Mod) and isinstance(a, str):
            return a % tuple(self.to_str(x) for x in (b if isinstance(b, tuple) else (b,)))
        if isinstance(n.op, ast.Mult) and isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a * b
        raise Undecided("arithmetic in Python code")

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.is_true(v)
        if isinstance(n.op, ast.USub) and isinstance(v, int):
            return -v
        raise Undecided("operator in Python code")

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.eval(x, env)
            t = self.is_true(v)
            if t != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n, env):
        if len(n.ops) != 1:
            raise Undecided("comparison in Python code")
        a, b = self.eval(n.left, env), self.eval(n.comparators[0], env)
        op = n.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and b is None:
            return (a is None) == isinstance(op, ast.Is)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided("comparison in Python code")
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return a != b
        if isinstance(op, ast.Lt):
            return a < b
        if isinstance(op, ast.Gt):
            return b < a
        if isinstance(op, ast.LtE):
            return not b < a
        if isinstance(op, ast.GtE):
            return not a < b
        if isinstance(op, (ast.In, ast.NotIn)):
            return (a in b) == isinstance(op, ast.In)
        raise Undecided("comparison in Python code")

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.is_true(self.eval(n.test, env)) else n.orelse, env)

    def comp(self, n, env):
        out = []

        def go(gs, e0):
            if not gs:
                out.append(self.eval(n.elt, e0))
                return
            for v in self.iter(self.eval(gs[0].iter, e0)):
                e = {"__parent__": e0}
                self.assign(gs[0].target, v, e)
                if all(self.is_true(self.eval(c, e)) for c in gs[0].ifs):
                    go(gs[1:], e)
        go(n.generators, env)
        return out

    e_ListComp = e_GeneratorExp = comp
