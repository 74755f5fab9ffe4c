"""Loads the current source of the code under test, either plain (native) or
transformed for symbolic execution.  Nothing is ever put in sys.modules."""
import ast
import builtins
import math
import operator
import os
import types

from . import core, rt
from .values import is_sym

REPO = os.environ.get("PSX_REPO", "/repo")


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Truth(ast.NodeTransformer):
    """What __bool__ returns must be a plain truth value."""

    def visit_Return(self, node):
        if node.value is not None:
            node.value = _call("_psx_truth", node.value)
        return node

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = \
        visit_FunctionDef


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.scope = [modname]

    # -- function entry markers
    def _function(self, node):
        self.scope.append(node.name)
        mark = ast.Expr(_call("_psx_fn", ast.Constant(".".join(self.scope))))
        self.generic_visit(node)
        self.scope.pop()
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and \
           isinstance(body[0].value, ast.Constant) and \
           isinstance(body[0].value.value, str):
            i = 1
        node.body = body[:i] + [mark] + body[i:]
        if node.name == "__bool__":
            node.body = [Truth().visit(x) for x in node.body]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    # -- operators
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return _call("_psx_in", l, r)
        if isinstance(op, ast.NotIn):
            return _call("_psx_notin", l, r)
        if isinstance(op, ast.Eq):
            return _call("_psx_eq", l, r)
        if isinstance(op, ast.NotEq):
            return _call("_psx_ne", l, r)
        if isinstance(op, (ast.Is, ast.IsNot)) and \
           isinstance(r, ast.Constant) and isinstance(r.value, bool):
            c = _call("_psx_isc", l, r)
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = ast.Constant("")
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                args.append(ast.Tuple([self.visit(v.value),
                                       ast.Constant(v.conversion), spec],
                                      ast.Load()))
        return _call("_psx_fstr", *args)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in rt.MC_NAMES:
            return ast.Call(func=_name("_psx_mcall"),
                            args=[f.value, ast.Constant(f.attr)] + node.args,
                            keywords=node.keywords)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and \
           not isinstance(node.slice, ast.Slice):
            return _call("_psx_getitem", node.value, node.slice)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if len(node.keys) < 2 or \
           all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        out = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                out.append(ast.Starred(ast.Call(
                    func=ast.Attribute(v, "items", ast.Load()), args=[],
                    keywords=[]), ast.Load()))
            else:
                out.append(ast.Tuple([k, v], ast.Load()))
        return _call("_psx_mkdict", ast.List(out, ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.BitOr):
            return _call("_psx_or", node.left, node.right)
        if isinstance(node.op, ast.Mod):
            return _call("_psx_mod", node.left, node.right)
        return node

    def visit_MatchClass(self, node):
        self.generic_visit(node)
        if isinstance(node.cls, ast.Name) and node.cls.id in rt.PATTERNS:
            n = "_psx_t_" + node.cls.id
            if not node.patterns:
                node.cls = _name(n)
            elif len(node.patterns) == 1 and not node.kwd_patterns and \
                    isinstance(node.patterns[0], ast.MatchAs) and \
                    node.patterns[0].pattern is None:
                cls = ast.MatchClass(_name(n), [], [], [])
                if node.patterns[0].name is None:
                    return cls
                return ast.MatchAs(cls, node.patterns[0].name)
        return node

    def visit_Assign(self, node):
        if len(node.targets) > 1 or isinstance(node.targets[0],
                                               (ast.Tuple, ast.List)):
            def deep(t):
                return any(isinstance(x, ast.Subscript) and
                           isinstance(x.ctx, ast.Store) and
                           not isinstance(x.slice, ast.Slice)
                           for x in ast.walk(t))
            if any(deep(t) for t in node.targets):
                return self._spread(node)
        self.generic_visit(node)
        if len(node.targets) == 1 and \
           isinstance(node.targets[0], ast.Subscript) and \
           not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(_call("_psx_setitem", t.value, t.slice,
                                  node.value))
        return node

    def _spread(self, node):
        """a, b[k] = c[l] = v, one target at a time"""
        tmp = "_psx_v"
        out = [ast.Assign([_name(tmp, ast.Store())], self.visit(node.value))]
        for t in node.targets:
            later = []

            def cut(x):
                if isinstance(x, ast.Subscript) and \
                   not isinstance(x.slice, ast.Slice):
                    n = "_psx_v%d" % len(later)
                    later.append(ast.Expr(_call(
                        "_psx_setitem", self.visit(x.value),
                        self.visit(x.slice), _name(n))))
                    return _name(n, ast.Store())
                if isinstance(x, (ast.Tuple, ast.List)):
                    x.elts = [cut(y) for y in x.elts]
                    return x
                if isinstance(x, ast.Starred):
                    x.value = cut(x.value)
                    return x
                return self.visit(x)

            t = cut(t)
            out.append(ast.Assign([t], _name(tmp)))
            out.extend(later)
        return out


    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            # obj and key are evaluated once
            self.generic_visit(node)
            tmp_o, tmp_k = "_psx_o", "_psx_k"
            val = ast.BinOp(_call("_psx_getitem", _name(tmp_o), _name(tmp_k)),
                            node.op, node.value)
            if isinstance(node.op, ast.Mod):
                val = _call("_psx_mod", val.left, val.right)
            return [ast.Assign([_name(tmp_o, ast.Store())], t.value),
                    ast.Assign([_name(tmp_k, ast.Store())], t.slice),
                    ast.Expr(_call("_psx_setitem", _name(tmp_o),
                                   _name(tmp_k), val))]
        self.generic_visit(node)
        ops = {ast.Mod: "_psx_mod", ast.BitOr: "_psx_ior"}
        if type(node.op) in ops and isinstance(t, ast.Name):
            return ast.Assign([t], _call(ops[type(node.op)], _name(t.id),
                                         node.value))
        if isinstance(node.op, ast.BitOr) and isinstance(t, ast.Attribute):
            return ast.Assign([t], _call(
                "_psx_ior", ast.Attribute(t.value, t.attr, ast.Load()),
                node.value))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and \
               not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(_call("_psx_delitem", t.value, t.slice)))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("_psx_mkset", ast.ListComp(node.elt, node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("_psx_mkset", ast.List(node.elts, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call("_psx_mkdict", ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name("Exception")
        elif isinstance(node.type, ast.Name) and \
                node.type.id == "BaseException":
            node.type = _name("Exception")
        return node


_CODE = {}


def compile_file(path, modname, symbolic):
    st = os.stat(path)
    key = (path, symbolic, st.st_mtime_ns)
    code = _CODE.get(key)
    if code is None:
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        if symbolic:
            tree = Transform(modname).visit(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        _CODE[key] = code
    return code


FUNCS = set()


def mark(name):
    FUNCS.add(name)


class Modules:
    """A private module universe: fresh copies of the code under test."""

    def __init__(self, symbolic, stubs, extra_builtins=None, roots=None):
        self.symbolic = symbolic
        self.stubs = stubs
        self.mods = {}
        self.roots = roots or {}
        b = dict(builtins.__dict__)
        if symbolic:
            b.update(rt.OVERLAY)
        if extra_builtins:
            b.update(extra_builtins)
        b["__import__"] = self.import_
        self.builtins = b

    def path(self, name):
        if name in self.roots:
            return self.roots[name]
        rel = name.replace(".", "/")
        for cand in (os.path.join(REPO, rel, "__init__.py"),
                     os.path.join(REPO, rel + ".py")):
            if os.path.exists(cand):
                return cand
        return None

    def ours(self, name):
        top = name.split(".")[0]
        return top == "paf" or name in self.roots

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.stubs:
            m = self.stubs[name]
            self.mods[name] = m
            self._attach(name, m)
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path = self.path(name)
        if path is None:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        m = types.ModuleType(name)
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g["__file__"] = path
        if path.endswith("__init__.py"):
            g["__path__"] = [os.path.dirname(path)]
            g["__package__"] = name
        else:
            g["__package__"] = name.rpartition(".")[0]
        if self.symbolic:
            g.update(rt.HELPERS)
            g["_psx_fn"] = mark
        self.mods[name] = m
        self._attach(name, m)
        exec(compile_file(path, name, self.symbolic), g)
        return m

    def _attach(self, name, m):
        if "." in name:
            p, _, leaf = name.rpartition(".")
            pm = self.mods.get(p)
            if pm is not None:
                setattr(pm, leaf, m)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.stubs and not self.ours(name):
            if not fromlist and name.split(".")[0] in self.stubs:
                return self.stubs[name.split(".")[0]]
            return self.stubs[name]
        if self.ours(name):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and \
                       (self.path(name + "." + f) or
                            name + "." + f in self.stubs):
                        self.load(name + "." + f)
                return m
            return self.load(name.split(".")[0])
        top = name.split(".")[0]
        if self.symbolic and name in OWN:
            return OWN[name]
        if top in self.stubs and "." in name:
            builtins.__import__(name)
            m = self.stubs[top]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)


class StubModule(types.ModuleType):
    """A module whose unspecified attributes come from the real one."""

    def __init__(self, name, real=None, **attrs):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        real = self.__dict__.get("_real")
        if real is None:
            raise AttributeError(n)
        return getattr(real, n)


def _finite(real, result):
    def fn(x):
        if is_sym(x):
            return result
        return real(x)
    return fn


MATH = StubModule("math", math, isfinite=_finite(math.isfinite, True),
                  isnan=_finite(math.isnan, False),
                  isinf=_finite(math.isinf, False),
                  fabs=lambda x: rt.OVERLAY["abs"](x) if is_sym(x)
                  else math.fabs(x))


def itemgetter(*keys):
    if len(keys) == 1:
        return lambda x: rt.r_getitem(x, keys[0])
    return lambda x: tuple(rt.r_getitem(x, k) for k in keys)


OWN = {"math": MATH, "operator": StubModule(
    "operator", operator, itemgetter=itemgetter,
    getitem=rt.r_getitem, setitem=rt.r_setitem, delitem=rt.r_delitem,
    contains=lambda a, b: rt.r_in(b, a), eq=rt.r_eq, ne=rt.r_ne,
    or_=rt.r_or, mod=rt.r_mod,
    methodcaller=lambda n, *a, **k: lambda x: rt.r_mcall(x, n, *a, **k))}
