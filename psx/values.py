"""Symbolic values.  They only exist in symbolic runs."""
import math
from fractions import Fraction
import z3

from . import core

IDHASH = 0x5bd1e995
STRHASH = 0x1b873593


class Sym:
    """Base class of all symbolic values."""
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=0):
    """Does x contain a symbolic value (looking into plain containers)?"""
    if isinstance(x, Sym):
        return True
    if depth > 4:
        return False
    t = type(x)
    if t is tuple or t is list or isinstance(x, (set, frozenset)):
        for e in x:
            if has_sym(e, depth + 1):
                return True
    elif t is dict or isinstance(x, dict):
        for k, v in dict.items(x):
            if has_sym(k, depth + 1) or has_sym(v, depth + 1):
                return True
    return False


# ---- booleans ---------------------------------------------------------

class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.cur().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(self.e == o.e)
        if isinstance(o, bool):
            return mk_bool(self.e if o else z3.Not(self.e))
        if isinstance(o, (int, float, SymInt, SymReal)):
            return SymInt(self._int()) == o
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(z3.And(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return SymInt(self._int()) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(z3.Or(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return sym_not(self == o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return SymInt(self._int()) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymInt(self._int()) - o

    def __mul__(self, o):
        return SymInt(self._int()) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return SymInt(self._int()) < o

    def __le__(self, o):
        return SymInt(self._int()) <= o

    def __gt__(self, o):
        return SymInt(self._int()) > o

    def __ge__(self, o):
        return SymInt(self._int()) >= o

    def __repr__(self):
        return "<SymBool>"


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def sym_not(b):
    if isinstance(b, SymBool):
        return mk_bool(z3.Not(b.e))
    return not b


def bexpr(b):
    """python bool or SymBool -> z3 Bool"""
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def sym_and(bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mk_bool(z3.And(*es) if len(es) > 1 else es[0])


def sym_or(bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mk_bool(z3.Or(*es) if len(es) > 1 else es[0])


# ---- numbers ----------------------------------------------------------

def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def rpair(x):
    """(z3 Int numerator, positive int denominator) of a number"""
    if isinstance(x, SymReal):
        return x.n, x.d
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        f = Fraction(x)
        return z3.IntVal(f.numerator), f.denominator
    e = iexpr(x)
    if e is not None:
        return e, 1
    return None


def scale(e, k):
    return e if k == 1 else e * k


def common(a, b):
    """Two pairs brought to one denominator."""
    (n1, d1), (n2, d2) = a, b
    if d1 == d2:
        return n1, n2, d1
    g = math.gcd(d1, d2)
    return scale(n1, d2 // g), scale(n2, d1 // g), d1 // g * d2


def _isreal(x):
    return isinstance(x, (SymReal, float))


def _inf(x):
    return isinstance(x, float) and (x != x or x in (float("inf"),
                                                     float("-inf")))


class Num(Sym):
    __slots__ = ()

    def _arith(self, o, op, swap=False):
        if _isreal(self) or _isreal(o):
            if _inf(o):
                return NotImplemented
            x, y = rpair(self), rpair(o)
            if y is None:
                return NotImplemented
            if swap:
                x, y = y, x
            a, b, d = common(x, y)
            return mk_real(op(a, b), d)
        a, b = iexpr(self), iexpr(o)
        if b is None:
            return NotImplemented
        if swap:
            a, b = b, a
        return mk_int(op(a, b))

    def _mul(self, o):
        if _isreal(self) or _isreal(o):
            if _inf(o):
                return NotImplemented
            x, y = rpair(self), rpair(o)
            if y is None:
                return NotImplemented
            return mk_real(x[0] * y[0], x[1] * y[1])
        a, b = iexpr(self), iexpr(o)
        if b is None:
            return NotImplemented
        return mk_int(a * b)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * int(self)
        return self._mul(o)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * int(self)
        return self._mul(o)

    def __neg__(self):
        return self._arith(0, lambda a, b: b - a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._arith(0, lambda a, b: z3.If(a >= b, a, -a))

    def __truediv__(self, o):
        if _inf(o):
            return NotImplemented
        y = rpair(o)
        if y is None:
            return NotImplemented
        if is_sym(o):
            if o == 0:
                raise ZeroDivisionError("division by zero")
            raise core.Inconclusive("division by a symbolic number")
        if o == 0:
            raise ZeroDivisionError("division by zero")
        f = Fraction(o)
        n, d = rpair(self)
        num, den = f.denominator, f.numerator
        if den < 0:
            num, den = -num, -den
        return mk_real(scale(n, num), d * den)

    def __rtruediv__(self, o):
        if _inf(o) or rpair(o) is None:
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("division by zero")
        raise core.Inconclusive("division by a symbolic number")

    def _cmp(self, o, op, infres):
        if _inf(o):
            if o != o:
                return False
            return infres(o)
        if _isreal(self) or _isreal(o):
            x, y = rpair(self), rpair(o)
            if y is None:
                return NotImplemented
            a, b, _ = common(x, y)
            return mk_bool(z3.simplify(op(a, b)))
        a, b = iexpr(self), iexpr(o)
        if b is None:
            return NotImplemented
        return mk_bool(simp(op(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        if self is o:
            return True
        r = self._cmp(o, lambda a, b: a == b, lambda i: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sym_not(self == o)

    def __bool__(self):
        return bool(self != 0)

    def is_integer(self):
        return bool(self == to_int(self))


def simp(e):
    """Cheap constant folding: identical or numeral operands only."""
    if e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if a.eq(b):
            return z3.simplify(e)
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.simplify(e)
        if z3.is_rational_value(a) and z3.is_rational_value(b):
            return z3.simplify(e)
    return e


class SymInt(Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return IDHASH

    def __int__(self):
        return core.cur().concretise(self.e)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __floordiv__(self, o):
        if _isreal(o):
            return NotImplemented
        b = iexpr(o)
        if b is None:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o > 0:
            return mk_int(self.e / b)
        return mk_int((-self.e) / (-b))

    def __rfloordiv__(self, o):
        return SymInt(iexpr(o)) // self

    def __mod__(self, o):
        if _isreal(o):
            return NotImplemented
        b = iexpr(o)
        if b is None:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % int(self)
        return SymInt(iexpr(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return int(self) ** o

    def __and__(self, o):
        # masks 2^k - 1 only; everything else is enumerated
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return int(self) & (int(o) if is_sym(o) else o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | (int(o) if is_sym(o) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ (int(o) if is_sym(o) else o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    def __invert__(self):
        return -1 - self

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, *a, **k):
        return int(self).to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __str__(self):
        return "<SymInt>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<SymInt>"


class SymReal(Num):
    """n / d with a symbolic integer n"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=1):
        self.n = n
        self.d = d

    def __hash__(self):
        return IDHASH

    def __int__(self):
        t = to_int(self)
        return core.cur().concretise(t.e) if is_sym(t) else t

    def __trunc__(self):
        return to_int(self)

    def __float__(self):
        raise core.Inconclusive("float() of a symbolic real in native code")

    def __round__(self, n=None):
        # ties go to the even neighbour, as for exact binary fractions
        digits = n or 0
        if digits >= 0:
            num, den = self.n * 10 ** digits, self.d
        else:
            num, den = self.n, self.d * 10 ** -digits
        down = num / den
        twice = 2 * (num - down * den)
        r = z3.If(z3.Or(twice > den,
                        z3.And(twice == den, down % 2 == 1)), down + 1, down)
        if n is None:
            return mk_int(r)
        if digits >= 0:
            return mk_real(r, 10 ** digits)
        return mk_real(r * 10 ** -digits, 1)

    def __floor__(self):
        return mk_int(self.n / self.d)

    def __ceil__(self):
        return mk_int(-((-self.n) / self.d))

    def __floordiv__(self, o):
        q = self / o
        if not is_sym(q):
            return float(math.floor(q))
        return mk_real(q.n / q.d, 1)

    def __mod__(self, o):
        return self - (self // o) * o

    def __str__(self):
        return "<SymReal>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<SymReal>"


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


def mk_real(n, d=1):
    s = z3.simplify(n)
    if z3.is_int_value(s):
        f = Fraction(s.as_long(), d)
        v = float(f)
        if Fraction(v) == f:
            return v
    return SymReal(s, d)


def to_int(x):
    if isinstance(x, SymReal):
        if x.d == 1:
            return mk_int(x.n)
        return mk_int(z3.If(x.n >= 0, x.n / x.d, -((-x.n) / x.d)))
    return x


def sym_min(a, b):
    if is_sym(a) or is_sym(b):
        return ite(b < a, b, a)
    return b if b < a else a


def sym_max(a, b):
    if is_sym(a) or is_sym(b):
        return ite(b > a, b, a)
    return b if b > a else a


def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and \
       not isinstance(a, bool) and not isinstance(b, bool):
        return mk_int(z3.If(c.e, iexpr(a), iexpr(b)))
    if isinstance(a, (float, SymReal)) and isinstance(b, (float, SymReal)):
        x, y, d = common(rpair(a), rpair(b))
        return mk_real(z3.If(c.e, x, y), d)
    return a if c else b


# ---- strings ----------------------------------------------------------

WS = sorted(set(list(range(9, 14)) + list(range(28, 32)) + [32, 0x85, 0xa0]))
CHAR_MAX = 0x24f    # symbolic characters range over 0..CHAR_MAX


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ea = z3.IntVal(a) if isinstance(a, int) else a
    eb = z3.IntVal(b) if isinstance(b, int) else b
    return mk_bool(simp(ea == eb))


def ch_in(a, codes):
    if isinstance(a, int):
        return a in codes
    codes = sorted(codes)
    parts = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        if i == j:
            parts.append(a == codes[i])
        else:
            parts.append(z3.And(a >= codes[i], a <= codes[j]))
        i = j + 1
    if not parts:
        return False
    return mk_bool(z3.Or(*parts) if len(parts) > 1 else parts[0])


class EscChar:
    """A symbolic character known to stand for itself in a regex pattern."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def mk_str(cs):
    cs = tuple(cs)
    for c in cs:
        if not isinstance(c, int):
            return SymStr(cs)
    return "".join(map(chr, cs))


def codes(s):
    if isinstance(s, SymStr):
        return s.cs
    if isinstance(s, LazyStr):
        return codes(s.force())
    return tuple(map(ord, s))


def is_strlike(s):
    return isinstance(s, (str, SymStr, LazyStr))


class StrBase(Sym):
    __slots__ = ()


class SymStr(StrBase):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mk_str((c,))

    def __hash__(self):
        return STRHASH

    def __bool__(self):
        return len(self.cs) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[int(x) if is_sym(x) else x
                        for x in (i.start, i.stop, i.step)])
            return mk_str(self.cs[i])
        return mk_str((self.cs[int(i)],))

    def __add__(self, o):
        if isinstance(o, LazyStr):
            return LazyStr([self] + o.parts)
        if isinstance(o, (str, SymStr)):
            return mk_str(self.cs + codes(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk_str(codes(o) + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return mk_str(self.cs * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        raise core.Inconclusive("symbolic format string")

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, LazyStr):
            return o == self
        if not isinstance(o, (str, SymStr)):
            return False
        oc = codes(o)
        if len(oc) != len(self.cs):
            return False
        return sym_and(ch_eq(a, b) for a, b in zip(self.cs, oc))

    def __ne__(self, o):
        return sym_not(self == o)

    def _less(self, o, strict):
        a, b = self.cs, codes(o)
        for x, y in zip(a, b):
            if not ch_eq(x, y):
                ex = z3.IntVal(x) if isinstance(x, int) else x
                ey = z3.IntVal(y) if isinstance(y, int) else y
                return mk_bool(z3.simplify(ex < ey))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return self._less(o, True)

    def __le__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return self._less(o, False)

    def __gt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return sym_not(self._less(o, False))

    def __ge__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return sym_not(self._less(o, True))

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def match_at(self, sub, i):
        sc = codes(sub)
        if i < 0 or i + len(sc) > len(self.cs):
            return False
        return sym_and(ch_eq(a, b) for a, b in zip(self.cs[i:i + len(sc)],
                                                   sc))

    def contains(self, sub):
        if not is_strlike(sub):
            raise TypeError("'in <string>' requires string as left operand")
        n = len(codes(sub))
        return sym_or(self.match_at(sub, i)
                      for i in range(len(self.cs) - n + 1))

    def _range(self, start, end):
        n = len(self.cs)
        start = 0 if start is None else int(start)
        end = n if end is None else int(end)
        s = slice(start, end).indices(n)
        return s[0], s[1]

    def startswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        v = SymStr(self.cs[s:e])
        if isinstance(p, tuple):
            return sym_or(v.match_at(x, 0) for x in p)
        return v.match_at(p, 0)

    def endswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        v = SymStr(self.cs[s:e])
        if isinstance(p, tuple):
            return sym_or(v.match_at(x, len(v.cs) - len(codes(x)))
                          for x in p)
        return v.match_at(p, len(v.cs) - len(codes(p)))

    def find(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        n = len(codes(sub))
        for i in range(s, e - n + 1):
            if self.match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        n = len(codes(sub))
        for i in range(e - n, s - 1, -1):
            if self.match_at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        n = 0
        i = 0
        step = len(codes(sub))
        if step == 0:
            return len(self.cs) + 1
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += step

    def _strip_set(self, chars):
        if chars is None:
            return WS
        cs = codes(chars)
        if not all(isinstance(c, int) for c in cs):
            raise core.Inconclusive("strip() of symbolic characters")
        return list(cs)

    def lstrip(self, chars=None):
        st = self._strip_set(chars)
        i = 0
        while i < len(self.cs) and ch_in(self.cs[i], st):
            i += 1
        return mk_str(self.cs[i:])

    def rstrip(self, chars=None):
        st = self._strip_set(chars)
        i = len(self.cs)
        while i > 0 and ch_in(self.cs[i - 1], st):
            i -= 1
        return mk_str(self.cs[:i])

    def strip(self, chars=None):
        v = self.lstrip(chars)
        return v.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            rest = list(self.cs)
            i = 0
            while i < len(rest):
                if ch_in(rest[i], WS):
                    if cur:
                        out.append(mk_str(cur))
                        cur = []
                        if 0 <= maxsplit <= len(out):
                            tail = mk_str(rest[i:])
                            tail = tail.lstrip()
                            if len(tail):
                                out.append(tail)
                            return out
                else:
                    cur.append(rest[i])
                i += 1
            if cur:
                out.append(mk_str(cur))
            return out
        n = len(codes(sep))
        if n == 0:
            raise ValueError("empty separator")
        start = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mk_str(self.cs[start:i]))
            start = i + n
        out.append(mk_str(self.cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise core.Inconclusive("rsplit on whitespace")
        n = len(codes(sep))
        out = []
        end = len(self.cs)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.insert(0, mk_str(self.cs[i + n:end]))
            end = i
        out.insert(0, mk_str(self.cs[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk_str(self.cs[:i]), sep, mk_str(self.cs[i + len(codes(sep)):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk_str(self.cs[:i]), sep, mk_str(self.cs[i + len(codes(sep)):]))

    def removeprefix(self, p):
        if self.startswith(p):
            return mk_str(self.cs[len(codes(p)):])
        return self

    def removesuffix(self, p):
        if len(codes(p)) and self.endswith(p):
            return mk_str(self.cs[:-len(codes(p))])
        return self

    def splitlines(self, keepends=False):
        nl = [10, 11, 12, 13, 28, 29, 30, 0x85]
        out, cur = [], []
        i = 0
        while i < len(self.cs):
            c = self.cs[i]
            if ch_in(c, nl):
                end = [c]
                if ch_eq(c, 13) and i + 1 < len(self.cs) and \
                   ch_eq(self.cs[i + 1], 10):
                    end.append(self.cs[i + 1])
                    i += 1
                out.append(mk_str(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk_str(cur))
        return out

    def replace(self, old, new, count=-1):
        n = len(codes(old))
        if n == 0:
            raise core.Inconclusive("replace of empty string")
        out = []
        i = 0
        done = 0
        while i < len(self.cs):
            if (count < 0 or done < count) and self.match_at(old, i):
                out.extend(codes(new))
                i += n
                done += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk_str(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.cs)
            out.extend(codes(x))
            first = False
        return mk_str(out)

    def translate(self, table):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.extend(map(ord, chr(c).translate(table)))
                continue
            hit = False
            for k, v in table.items():
                if ch_eq(c, k):
                    hit = True
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(codes(v))
                    break
            if not hit:
                out.append(c)
        return mk_str(out)

    def _classed(self, pred):
        st = [c for c in range(CHAR_MAX + 1) if pred(chr(c))]
        return sym_and(ch_in(c, st) for c in self.cs)

    def isdigit(self):
        return self._classed(str.isdigit)

    def isdecimal(self):
        return self._classed(str.isdecimal)

    def isnumeric(self):
        return self._classed(str.isnumeric)

    def isspace(self):
        return self._classed(str.isspace)

    def isalpha(self):
        return self._classed(str.isalpha)

    def isalnum(self):
        return self._classed(str.isalnum)

    def isascii(self):
        return sym_and(ch_in(c, range(128)) for c in self.cs)

    def isprintable(self):
        return self._classed(str.isprintable)

    def _case(self, f):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.extend(map(ord, f(chr(c))))
                continue
            groups = {}
            for k in range(CHAR_MAX + 1):
                t = f(chr(k))
                if t != chr(k):
                    d = ord(t) - k if len(t) == 1 and ord(t) <= CHAR_MAX \
                        else None
                    groups.setdefault(d, []).append(k)
            if ch_in(c, [k for g in groups.values() for k in g]):
                for d, g in sorted(groups.items(),
                                   key=lambda dg: -len(dg[1])):
                    if ch_in(c, g):
                        if d is None:
                            v = core.cur().concretise(c)
                            out.extend(map(ord, f(chr(v))))
                        else:
                            out.append(c + d)
                        break
            else:
                out.append(c)
        return mk_str(out)

    def lower(self):
        return self._case(str.lower)

    def upper(self):
        return self._case(str.upper)

    def casefold(self):
        return self._case(str.casefold)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytesText(self)

    def zfill(self, n):
        return mk_str((48,) * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, c=" "):
        return mk_str(self.cs + codes(c) * max(0, n - len(self.cs)))

    def rjust(self, n, c=" "):
        return mk_str(codes(c) * max(0, n - len(self.cs)) + self.cs)

    def format(self, *a, **k):
        raise core.Inconclusive("symbolic format string")

    def __format__(self, spec):
        return "<SymStr>"

    def __str__(self):
        return "<SymStr/%d>" % len(self.cs)

    __repr__ = __str__

    def realise(self):
        return "".join(chr(c if isinstance(c, int) else
                           core.cur().concretise(c)) for c in self.cs)


class SymBytesText(Sym):
    """The encoding of a symbolic string; only length>0 and decode are known."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def __len__(self):
        return len(self.s)

    def __eq__(self, o):
        if isinstance(o, SymBytesText):
            return self.s == o.s
        if isinstance(o, bytes):
            try:
                return self.s == o.decode("utf-8")
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return STRHASH


class Dec:
    """Decimal rendering of a symbolic integer inside a LazyStr."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Opaque:
    """A rendering whose text is not modelled (float, hex, repr, ...)."""
    __slots__ = ("v", "spec")

    def __init__(self, v, spec=""):
        self.v = v
        self.spec = spec

    def is_hex(self):
        return isinstance(self.v, SymInt) and \
            self.spec.lstrip("%") in ("x", "X", "02x", "02X")


class LazyStr(StrBase):
    """Result of formatting: text pieces and decimal renderings."""
    __slots__ = ("parts", "_forced")

    def __init__(self, parts):
        self.parts = parts
        self._forced = None

    def force(self):
        if self._forced is not None:
            return self._forced
        cs = []
        for p in self.parts:
            if isinstance(p, Dec):
                cs.extend(dec_codes(p.v))
            elif isinstance(p, Opaque) and p.is_hex():
                cs.extend(hex_codes(p.v, p.spec))
            elif isinstance(p, Opaque):
                raise core.Inconclusive("text of an unmodelled rendering "
                                        "is needed (%s)" % p.spec)
            else:
                cs.extend(codes(p))
        self._forced = mk_str(cs)
        return self._forced

    def __add__(self, o):
        if isinstance(o, LazyStr):
            return LazyStr(self.parts + o.parts)
        if isinstance(o, (str, SymStr)):
            return LazyStr(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return LazyStr([o] + self.parts)
        return NotImplemented

    def __eq__(self, o):
        if self is o:
            return True
        if len(self.parts) == 1 and isinstance(self.parts[0], Dec):
            v = self.parts[0].v
            if isinstance(o, LazyStr) and len(o.parts) == 1 and \
               isinstance(o.parts[0], Dec):
                return v == o.parts[0].v
            if isinstance(o, (str, SymStr)):
                return dec_equal(v, codes(o))
        if not is_strlike(o):
            return False
        if isinstance(o, (str, SymStr)) and self.differs(o):
            return False
        return self.force() == (o.force() if isinstance(o, LazyStr) else o)

    def differs(self, o):
        """Certainly another text than o (a literal start or the length of
        the literal parts alone tell)."""
        n = sum(len(p) for p in self.parts if isinstance(p, (str, SymStr)))
        if n > len(o):
            return True
        p = self.parts[0] if self.parts else ""
        return isinstance(p, str) and isinstance(o, str) and \
            not o.startswith(p)

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return STRHASH

    def __bool__(self):
        for p in self.parts:
            if not isinstance(p, (str, SymStr)) or len(p) > 0:
                return True
        return False

    def encode(self, *a, **k):
        return SymBytesText(self)

    def __format__(self, spec):
        return "<LazyStr>"

    def __str__(self):
        return "<LazyStr>"

    __repr__ = __str__

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __contains__(self, s):
        f = self.force()
        return s in f if isinstance(f, str) else f.__contains__(s)

    def __lt__(self, o):
        return lift(self.force()) < o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)


def lift(s):
    """native str -> SymStr so that symbolic operands are understood"""
    return SymStr(codes(s)) if isinstance(s, str) else s


def dec_equal(v, cs):
    """Is cs the canonical decimal rendering of v?  One formula."""
    n = len(cs)
    if n == 0:
        return False
    if not is_sym(v):
        return SymStr(cs) == str(v)
    ve = v.e

    def digits(cc):
        val = z3.IntVal(0)
        conds = []
        for c in cc:
            ce = z3.IntVal(c) if isinstance(c, int) else c
            conds.append(z3.And(ce >= 48, ce <= 57))
            val = val * 10 + (ce - 48)
        return conds, val

    alts = []
    conds, val = digits(cs)
    first = z3.IntVal(cs[0]) if isinstance(cs[0], int) else cs[0]
    if n > 1:
        conds.append(first != 48)
    alts.append(z3.And(*(conds + [ve == val])))
    if n > 1:
        conds, val = digits(cs[1:])
        second = z3.IntVal(cs[1]) if isinstance(cs[1], int) else cs[1]
        conds += [first == 45, second != 48, ve == -val]
        alts.append(z3.And(*conds))
    return mk_bool(z3.simplify(z3.Or(*alts)))


def dec_codes(v):
    """Characters of str(v); forks on the number of digits."""
    if not is_sym(v):
        return list(map(ord, str(v)))
    if isinstance(v, SymBool):
        return list(map(ord, str(bool(v))))
    out = []
    if v < 0:
        out.append(45)
        v = -v
    n = 1
    while n < 20 and v >= 10 ** n:
        n += 1
    if not is_sym(v):
        return out + list(map(ord, str(v)))
    for i in range(n - 1, -1, -1):
        d = z3.simplify((v.e / (10 ** i)) % 10 + 48)
        out.append(d.as_long() if z3.is_int_value(d) else d)
    return out


def hex_codes(v, spec):
    """Characters of '%02x' % v and the like; forks on the number of
    digits."""
    out = []
    if v < 0:
        raise core.Inconclusive("hexadecimal rendering below zero")
    n = 2 if "02" in spec else 1
    while n < 16 and v >= 16 ** n:
        n += 1
    ten = 55 if spec[-1] == "X" else 87
    for i in range(n - 1, -1, -1):
        d = (v.e / (16 ** i)) % 16
        d = z3.simplify(z3.If(d < 10, d + 48, d + ten))
        out.append(d.as_long() if z3.is_int_value(d) else d)
    return out


class SymBytes(Sym):
    """Bytes, some of them symbolic."""
    __slots__ = ("items",)
    _pytype = bytes

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.items[i])
        return self.items[i]

    def __add__(self, o):
        return SymBytes(self.items + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.items)

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)) or len(o) != len(self):
            return False
        return sym_and([a == b for a, b in zip(self, o)])

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return STRHASH

    def hex(self, sep="", group=1):
        if group != 1:
            raise core.Inconclusive("grouped hexadecimal rendering")
        cs = []
        for i, b in enumerate(self.items):
            if i:
                cs.extend(codes(sep))
            if is_sym(b):
                cs.extend(hex_codes(b, "02x"))
            else:
                cs.extend(codes("%02x" % b))
        return mk_str(cs)

    def decode(self, *a, **k):
        raise core.Inconclusive("text of symbolic bytes")


def parse_int(s, base=10):
    """int(s) for a symbolic string; forks per character."""
    cs = list(codes(s))

    def space(c):
        return ch_in(c, [9, 10, 11, 12, 13, 32, 0x85, 0xa0])
    while cs and space(cs[0]):
        cs.pop(0)
    while cs and space(cs[-1]):
        cs.pop()

    def bad():
        raise ValueError("invalid literal for int() with base %d: %s" %
                         (base, s))
    neg = False
    if cs and ch_in(cs[0], [43, 45]):
        neg = bool(ch_eq(cs[0], 45))
        cs.pop(0)
    if base == 16 and len(cs) >= 2 and ch_eq(cs[0], 48) and \
       ch_in(cs[1], [ord("x"), ord("X")]):
        cs = cs[2:]
        if cs and ch_eq(cs[0], 95):
            cs.pop(0)
    if base not in (10, 16):
        raise core.Inconclusive("int() with base %d" % base)
    if not cs:
        bad()
    val = 0
    prev_digit = False
    for i, c in enumerate(cs):
        if ch_in(c, range(48, 58)):
            d = c - 48
            prev_digit = True
        elif base == 16 and ch_in(c, range(97, 103)):
            d = c - 87
            prev_digit = True
        elif base == 16 and ch_in(c, range(65, 71)):
            d = c - 55
            prev_digit = True
        elif ch_eq(c, 95):
            if not prev_digit or i == len(cs) - 1:
                bad()
            prev_digit = False
            continue
        else:
            bad()
        d = d if isinstance(d, int) else SymInt(d)
        val = val * base + d
    if not prev_digit:
        bad()
    return -val if neg else val
