"""What a harness sees: inputs, assumptions, checks, observations."""
import enum
import itertools
import re
from fractions import Fraction

import z3

from . import core, rt, loader
from .values import (Sym, SymBool, SymInt, SymReal, SymStr, LazyStr, Dec,
                     Opaque, SymBytes, SymBytesText, mk_real, mk_str, bexpr, is_sym,
                     sym_and, sym_or, sym_not, CHAR_MAX)

NOCHECK = object()


class Base:
    def re_stub(self):
        from . import restub
        return restub.make()

    def load_cut(self, stubs, extra_builtins=None, roots=None):
        """A fresh copy of the code under test."""
        return loader.Modules(self.symbolic, stubs, extra_builtins, roots)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._choice(name, len(options))]

    def all_of(self, bs):
        return sym_and(bs)

    def any_of(self, bs):
        return sym_or(bs)

    def neg(self, b):
        return sym_not(b)

    def implies(self, a, b):
        return sym_or([sym_not(a), b])

    def eq(self, a, b):
        return rt.eq(a, b)

    def shows(self, text, spec, v):
        """Does the printed text show v, formatted with spec?"""
        if isinstance(text, LazyStr):
            return sym_or([self._shown(p, spec, v) for p in text.parts])
        return self._shown(text, spec, v)

    def _shown(self, p, spec, v):
        if isinstance(p, (Dec, Opaque)):
            if spec[-1] == "f" and (isinstance(p, Dec) or
                                    p.spec[-1:] in ("d", "x")):
                return False        # no decimals there
            if p.v is v:
                return True
            if isinstance(p, Opaque) and not is_sym(p.v) and \
               p.spec.startswith("%"):
                return self._shown(p.spec % (p.v,), spec, v)
            if isinstance(p.v, (str, SymStr, LazyStr)) != \
               isinstance(v, (str, SymStr, LazyStr)):
                return False
            return rt.eq(p.v, v)
        if isinstance(v, SymStr) or isinstance(p, SymStr):
            if not isinstance(v, (str, SymStr)):
                if is_sym(v):
                    return False
                v = spec % v
            return rt.r_in(v, p)
        if is_sym(v):
            return False
        return re.search("(?<![0-9A-Za-z])%s(?![0-9A-Za-z])" %
                         re.escape(spec % v), p) is not None

    def pick_str(self, name, options):
        return self.choice(name, options)


class SymCtx(Base):
    symbolic = True

    def __init__(self, path, params):
        self.p = path
        self.params = params

    # -- inputs
    def _choice(self, name, n):
        name = self.p.unique(name)
        k = self.p.choose(n)
        self.p.inputs.append((name, "choice", k))
        return k

    def int(self, name, lo=None, hi=None):
        name = self.p.unique(name)
        v = z3.Int(name)
        self.p.inputs.append((name, "int", v))
        if lo is not None:
            self.p.assume(v >= lo)
        if hi is not None:
            self.p.assume(v <= hi)
        return SymInt(v)

    def real(self, name, lo, hi, den=8):
        """A time or duration: a multiple of 1/den (a power of two) in
        [lo, hi]."""
        name = self.p.unique(name)
        v = z3.Int(name)
        self.p.inputs.append((name, "real%d" % den, v))
        self.p.assume(v >= int(lo * den))
        self.p.assume(v <= int(hi * den))
        return SymReal(v, den)

    def bool(self, name):
        name = self.p.unique(name)
        v = z3.Bool(name)
        self.p.inputs.append((name, "bool", v))
        return SymBool(v)

    def char(self, name, alphabet=None):
        name = self.p.unique(name)
        v = z3.Int(name)
        self.p.inputs.append((name, "int", v))
        if alphabet is None:
            self.p.assume(z3.And(v >= 1, v <= CHAR_MAX))
        else:
            from .values import ch_in
            c = ch_in(v, [ord(x) for x in alphabet])
            self.p.assume(c.e if isinstance(c, SymBool) else c)
        return v

    def string(self, name, n, alphabet=None):
        if n == 0:
            return ""
        return SymStr([self.char("%s[%d]" % (name, i), alphabet)
                       for i in range(n)])

    def blob(self, items):
        """Bytes with the given values."""
        return SymBytes(items)

    # -- logic
    def assume(self, c):
        if isinstance(c, SymBool):
            self.p.assume(c.e)
        elif not c:
            raise core.Infeasible()

    def check(self, c, label, detail=""):
        self.p.check(c.e if isinstance(c, SymBool) else bool(c), label,
                     detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def observe(self, tag, value):
        self.p.observed.append((tag, value))

    def reach(self, label):
        self.p.reach(label)

    def feasible(self, c):
        """Can c be true here? (diagnostics only)"""
        if isinstance(c, SymBool):
            return self.p.query(c.e)
        return bool(c)


class ConcCtx(Base):
    symbolic = False

    def __init__(self, assignment, params):
        self.a = assignment
        self.params = params
        self.names = {}
        self.observed = []
        self.used = set()
        self.reached = {}

    def unique(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def _get(self, name, default):
        name = self.unique(name)
        self.used.add(name)
        return self.a.get(name, default)

    def _choice(self, name, n):
        k = self._get(name, 0)
        return k if k < n else 0

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def real(self, name, lo, hi, den=8):
        return float(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def string(self, name, n, alphabet=None):
        dflt = ord(alphabet[0]) if alphabet else ord("a")
        return "".join(chr(self._get("%s[%d]" % (name, i), dflt))
                       for i in range(n))

    def blob(self, items):
        return bytes(items)

    def assume(self, c):
        if not c:
            raise core.Infeasible()

    def check(self, c, label, detail=""):
        if not c:
            raise core.Violation(label, detail)

    def fail(self, label, detail=""):
        raise core.Violation(label, detail)

    def observe(self, tag, value):
        self.observed.append((tag, normal(value)))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def feasible(self, c):
        return bool(c)


# ---- observations -----------------------------------------------------

ANY = "<any>"


def normal(v, model=None):
    """Plain, comparable form of an observed value."""
    if isinstance(v, SymBool):
        return bool(z3.is_true(model.eval(v.e, model_completion=True)))
    if isinstance(v, SymInt):
        return model.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymReal):
        r = model.eval(v.n, model_completion=True)
        return float(Fraction(r.as_long(), v.d))
    if isinstance(v, SymStr):
        return "".join(chr(c if isinstance(c, int) else
                           model.eval(c, model_completion=True).as_long())
                       for c in v.cs)
    if isinstance(v, LazyStr):
        out = ""
        for p in v.parts:
            if isinstance(p, Opaque):
                return ANY
            out += str(normal(p.v if isinstance(p, Dec) else p, model))
        return out
    if isinstance(v, SymBytesText):
        return ANY
    if isinstance(v, enum.Enum):
        return v.name
    if isinstance(v, bool) or v is None or isinstance(v, (str, int, float)):
        return v
    if isinstance(v, dict):
        return {"dict": sorted(([normal(k, model), normal(x, model)]
                                for k, x in v.items()), key=repr)}
    if isinstance(v, (set, frozenset)):
        return {"set": sorted((normal(x, model) for x in v), key=repr)}
    if hasattr(v, "__iter__"):
        return [normal(x, model) for x in v]
    return type(v).__name__


def same(a, b):
    if a == ANY or b == ANY:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b and type(a) == type(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b
