"""Run-time support for transformed code: operators and builtins that must
understand symbolic operands."""
import builtins
import collections
import collections.abc
import re as _re
import string as _string

from . import core
from .values import (Sym, SymBool, SymInt, SymReal, SymStr, LazyStr, StrBase,
                     SymBytesText, SymBytes, Dec, Opaque, is_sym, has_sym, is_strlike,
                     sym_and, sym_or, sym_not, lift, mk_str, codes, to_int,
                     mk_int, parse_int, ite)

DICTS = (dict,)
VIEWS = (collections.abc.KeysView, collections.abc.ValuesView,
         collections.abc.ItemsView)


# ---- equality ---------------------------------------------------------

_CONT = (dict, set, frozenset, list, tuple, collections.deque)


def eq(a, b):
    """a == b, structurally for built-in containers with symbolic content."""
    if a is b:
        return True
    if isinstance(a, _CONT) and isinstance(b, _CONT) and \
       (has_sym(a) or has_sym(b)):
        return cont_eq(a, b)
    return a == b


def cont_eq(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        bi = list(b.items())
        return sym_and(sym_or(sym_and([eq(ka, kb), eq(va, vb)])
                              if not _plain_ne(ka, kb) else False
                              for kb, vb in bi)
                       for ka, va in list(a.items()))
    if isinstance(a, (set, frozenset)):
        if not isinstance(b, (set, frozenset)) or len(a) != len(b):
            return False
        return sym_and(sym_or(eq(x, y) for y in b) for x in a)
    if isinstance(a, list) != isinstance(b, list) or \
       isinstance(a, tuple) != isinstance(b, tuple) or \
       isinstance(b, (dict, set, frozenset)) or len(a) != len(b):
        return False
    return sym_and(eq(x, y) for x, y in zip(a, b))


def _plain_ne(a, b):
    return not is_sym(a) and not is_sym(b) and a != b


def r_eq(a, b):
    return eq(a, b)


def r_ne(a, b):
    if isinstance(a, _CONT) and isinstance(b, _CONT):
        return sym_not(eq(a, b))
    return a != b


# ---- containers -------------------------------------------------------

def needs(cont, item):
    if is_sym(item) or (type(item) is tuple and has_sym(item)):
        return True
    for k in cont:
        if is_sym(k) or (type(k) is tuple and has_sym(k)):
            return True
    return False


MISSING = object()


def find_key(d, k):
    """The key of d equal to k (forking on symbolic equality)."""
    if isinstance(k, (list, dict, set)):
        hash(k)
    for x in dict.keys(d) if type(d) is dict else list(d):
        if x is k:
            return x
    for x in list(d):
        if type(x) is type(k) or is_sym(x) or is_sym(k):
            if eq(x, k):
                return x
        elif x == k:
            return x
    return MISSING


def r_in(item, cont):
    if isinstance(cont, dict):
        if getattr(cont, "_lazy", False):
            return item in cont
        if needs(cont, item):
            if isinstance(item, (list, dict, set)):
                hash(item)
            return sym_or(eq(k, item) for k in list(cont))
        return item in cont
    if isinstance(cont, (set, frozenset)):
        if needs(cont, item):
            if isinstance(item, (list, dict)):
                hash(item)
            return sym_or(eq(k, item) for k in cont)
        return item in cont
    if isinstance(cont, (list, tuple, collections.deque) + VIEWS):
        if has_sym(item) or any(has_sym(x) for x in cont):
            return sym_or(eq(k, item) for k in cont)
        return item in cont
    if isinstance(cont, range) and isinstance(item, (SymInt, SymReal)):
        if cont.step == 1:
            r = sym_and([item >= cont.start, item < cont.stop])
            if isinstance(item, SymReal):
                r = sym_and([r, item == to_int(item)])
            return r
        return sym_or(item == x for x in cont)
    if isinstance(cont, str) and is_sym(item):
        if not is_strlike(item):
            raise TypeError("'in <string>' requires string as left operand")
        return lift(cont).contains(item)
    if isinstance(cont, SymStr):
        return cont.contains(item)
    if isinstance(cont, LazyStr):
        return r_in(item, cont.force())
    return item in cont


def r_notin(item, cont):
    return sym_not(r_in(item, cont))


def r_getitem(obj, key):
    if isinstance(obj, dict) and not getattr(obj, "_lazy", False) and \
       needs(obj, key):
        k = find_key(obj, key)
        if k is MISSING:
            if isinstance(obj, collections.defaultdict) and \
               obj.default_factory is not None:
                v = obj.default_factory()
                obj[key] = v
                return v
            if hasattr(type(obj), "__missing__") and \
               not isinstance(obj, collections.defaultdict):
                return type(obj).__missing__(obj, key)
            raise KeyError(key)
        return obj[k]
    return obj[key]


def r_setitem(obj, key, val):
    if isinstance(obj, dict) and not getattr(obj, "_lazy", False) and \
       needs(obj, key):
        k = find_key(obj, key)
        if k is MISSING:
            k = key
        obj[k] = val
        return
    obj[key] = val


def r_delitem(obj, key):
    if isinstance(obj, dict) and not getattr(obj, "_lazy", False) and \
       needs(obj, key):
        k = find_key(obj, key)
        if k is MISSING:
            raise KeyError(key)
        del obj[k]
        return
    del obj[key]


def merge(d, o):
    """d updated by o"""
    for k in list(o.keys() if hasattr(o, "keys") else ()):
        r_setitem(d, k, r_getitem(o, k))
    if not hasattr(o, "keys"):
        for k, v in list(o):
            r_setitem(d, k, v)


def r_or(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and \
       (has_sym(a) or has_sym(b)):
        d = a.copy()
        merge(d, b)
        return d
    return a | b


def r_ior(a, b):
    if isinstance(a, dict) and (has_sym(a) or has_sym(b)):
        merge(a, b)
        return a
    a |= b
    return a


def r_dict(*a, **kw):
    d = {}
    if len(a) == 1 and (has_sym(a[0]) or not isinstance(a[0], dict)):
        merge(d, a[0])
    elif a:
        d = dict(*a)
    for k in kw:
        r_setitem(d, k, kw[k])
    return d


def r_fromkeys(it, v=None):
    d = {}
    for k in it:
        r_setitem(d, k, v)
    return d


def r_truth(x):
    return True if x else False


class OSet(set):
    """A set that iterates in insertion order (so that re-execution is
    deterministic) and compares symbolic elements by value."""
    _pytype = set

    def __init__(self, items=()):
        set.__init__(self)
        self._l = []
        for x in items:
            self.add(x)

    def _find(self, x):
        hash(x)
        if not needs(self._l, x):
            if not set.__contains__(self, x):
                return MISSING
            for y in self._l:
                if y is x or y == x:
                    return y
        return find_key(self._l, x)

    def __iter__(self):
        n = len(self._l)
        for x in list(self._l):
            if len(self._l) != n:
                raise RuntimeError("Set changed size during iteration")
            yield x
        if len(self._l) != n:
            raise RuntimeError("Set changed size during iteration")

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __contains__(self, x):
        return self._find(x) is not MISSING

    def add(self, x):
        if self._find(x) is MISSING:
            self._l.append(x)
            set.add(self, x)

    def _drop(self, y):
        self._l = [z for z in self._l if z is not y]
        set.discard(self, y)

    def remove(self, x):
        y = self._find(x)
        if y is MISSING:
            raise KeyError(x)
        self._drop(y)

    def discard(self, x):
        y = self._find(x)
        if y is not MISSING:
            self._drop(y)

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        y = self._l[0]
        self._drop(y)
        return y

    def clear(self):
        self._l = []
        set.clear(self)

    def copy(self):
        return OSet(self._l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return OSet(copy.deepcopy(x, memo) for x in self._l)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def union(self, *its):
        r = OSet(self._l)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = OSet(self._l)
        for it in its:
            o = OSet(it)
            r = OSet(x for x in r._l if x in o)
        return r

    def difference(self, *its):
        r = OSet(self._l)
        for it in its:
            for x in list(it):
                r.discard(x)
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(OSet(o).difference(self))

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        for x in list(self._l):
            if not all(x in OSet(it) for it in its):
                self._drop(x)

    def issubset(self, o):
        o = o if isinstance(o, OSet) else OSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _bin(f):
        def g(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return f(self, o)
        return g

    __or__ = _bin(lambda a, b: a.union(b))
    __ror__ = _bin(lambda a, b: OSet(b).union(a))
    __and__ = _bin(lambda a, b: a.intersection(b))
    __rand__ = __and__
    __sub__ = _bin(lambda a, b: a.difference(b))
    __rsub__ = _bin(lambda a, b: OSet(b).difference(a))
    __xor__ = _bin(lambda a, b: a.symmetric_difference(b))
    __rxor__ = __xor__
    __le__ = _bin(lambda a, b: a.issubset(b))
    __ge__ = _bin(lambda a, b: a.issuperset(b))
    __lt__ = _bin(lambda a, b: len(a) < len(b) and a.issubset(b))
    __gt__ = _bin(lambda a, b: len(a) > len(b) and a.issuperset(b))

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference_update(self, o):
        self._l = self.symmetric_difference(o)._l
        set.clear(self)
        set.update(self, self._l)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


def mkset(items=(), cls=OSet):
    items = list(items)
    if cls is OSet:
        return OSet(items)
    if not any(has_sym(x) for x in items):
        return cls(items)
    return cls(OSet(items)._l)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        r_setitem(d, k, v)
    return d


_MC_DICT = {"get", "pop", "setdefault", "update", "move_to_end"}
_MC_SET = {"add", "remove", "discard", "update"}
MC_NAMES = {"get", "pop", "setdefault", "update", "add", "remove", "discard",
            "join", "startswith", "endswith", "find", "rfind", "index",
            "rindex", "count", "replace", "split", "rsplit", "strip",
            "lstrip", "rstrip", "partition", "rpartition", "format",
            "removeprefix", "removesuffix", "format_map", "insert",
            "move_to_end", "translate"}


def r_mcall(obj, name, *args, **kw):
    t = type(obj)
    if t is str:
        if name == "format":
            if any(custom(a) for a in args) or \
               any(custom(a) for a in kw.values()):
                return str_format(obj, args, kw)
        elif name == "join":
            items = list(args[0])
            if any(is_sym(x) for x in items):
                for x in items:
                    if not is_strlike(x):
                        raise TypeError("sequence item: expected str instance")
                parts = []
                for i, x in enumerate(items):
                    if i and obj:
                        parts.append(obj)
                    parts.append(x)
                return concat(parts)
            return obj.join(items)
        elif any(has_sym(a) for a in args):
            return getattr(lift(obj), name)(*args, **kw)
    elif isinstance(obj, dict) and not getattr(obj, "_lazy", False):
        if name in _MC_DICT:
            if name == "update" and isinstance(obj, collections.Counter):
                other = args[0] if args else {}
                if has_sym(obj) or has_sym(other):
                    for k in list(other):
                        n = r_getitem(other, k) if isinstance(other, dict) \
                            else 1
                        r_setitem(obj, k, r_getitem(obj, k) + n)
                    return None
            elif name == "update":
                other = args[0] if args else {}
                if has_sym(obj) or has_sym(other) or has_sym(kw):
                    it = other.items() if hasattr(other, "items") else other
                    for k, v in list(it):
                        r_setitem(obj, k, v)
                    for k, v in kw.items():
                        r_setitem(obj, k, v)
                    return None
            elif args and needs(obj, args[0]):
                k = find_key(obj, args[0])
                dflt = args[1] if len(args) > 1 else kw.get("default")
                if name == "get":
                    return dflt if k is MISSING else obj[k]
                if name == "pop":
                    if k is MISSING:
                        if len(args) > 1:
                            return dflt
                        raise KeyError(args[0])
                    return obj.pop(k)
                if name == "setdefault":
                    if k is MISSING:
                        obj[args[0]] = dflt
                        return dflt
                    return obj[k]
                if name == "move_to_end":
                    if k is MISSING:
                        raise KeyError(args[0])
                    return obj.move_to_end(k, *args[1:], **kw)
    elif isinstance(obj, set) and not isinstance(obj, OSet) and \
            name in _MC_SET:
        if name == "update":
            for it in args:
                for x in list(it):
                    r_mcall(obj, "add", x)
            return None
        if args and needs(obj, args[0]):
            k = find_key(obj, args[0])
            if name == "add":
                if k is MISSING:
                    set.add(obj, args[0])
            elif k is MISSING:
                if name == "remove":
                    raise KeyError(args[0])
            else:
                set.remove(obj, k)
            return None
    return getattr(obj, name)(*args, **kw)


# ---- text -------------------------------------------------------------

def concat(parts):
    flat = []
    for p in parts:
        if isinstance(p, LazyStr):
            flat.extend(p.parts)
        elif p == "" and isinstance(p, str):
            continue
        else:
            flat.append(p)
    if all(isinstance(p, str) for p in flat):
        return "".join(flat)
    if all(isinstance(p, (str, SymStr)) for p in flat):
        cs = []
        for p in flat:
            cs.extend(codes(p))
        return mk_str(cs)
    return LazyStr(flat)


_BUILTIN_STR = {object.__str__, BaseException.__str__}


def custom(x):
    """Might rendering x involve symbolic text?"""
    if is_sym(x):
        return True
    if isinstance(x, (str, int, float, bytes, type(None), type)):
        return False
    if isinstance(x, (dict, set, frozenset, list, tuple, collections.deque)):
        return has_sym(x) or any(custom(y) for y in
                                 (x.values() if isinstance(x, dict) else x))
    return True


def sym_str(x):
    if isinstance(x, (SymStr, LazyStr)):
        return x
    if isinstance(x, SymInt):
        return LazyStr([Dec(x)])
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, Sym):
        return LazyStr([Opaque(x, "str")])
    if isinstance(x, BaseException):
        if type(x).__str__ in (BaseException.__str__, KeyError.__str__,
                               OSError.__str__):
            if has_sym(x.args):
                if len(x.args) == 1:
                    return sym_str(x.args[0])
                return LazyStr([Opaque(x, "exception")])
            return str(x)
        return type(x).__str__(x)
    if isinstance(x, (dict, set, frozenset, list, tuple, collections.deque)):
        if custom(x):
            return LazyStr([Opaque(x, "container")])
        return str(x)
    m = type(x).__str__
    if m is object.__str__:
        m = type(x).__repr__
        if m is object.__repr__:
            return str(x)
    if getattr(m, "__objclass__", None) is not None:
        return str(x)
    return m(x)


_FMT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)"
                   r"(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?"
                   r"(?P<conv>.)", _re.S)


def r_mod(a, b):
    if not isinstance(a, (str, SymStr, LazyStr)):
        return a % b
    if isinstance(a, (SymStr, LazyStr)):
        return concat([a]) if False else _mod_sym(a, b)
    args = b if isinstance(b, tuple) else (b,)
    if not any(custom(x) for x in args):
        return a % b
    return do_format(a, b)


def _mod_sym(a, b):
    raise core.Inconclusive("symbolic format string")


def do_format(fmt, b):
    parts = []
    pos = 0
    args = list(b) if isinstance(b, tuple) else [b]
    is_map = isinstance(b, dict)
    nxt = 0
    for m in _FMT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            parts.append("%")
            continue
        if m.group("key") is not None:
            val = r_getitem(b, m.group("key"))
        else:
            if m.group("width") == "*" or m.group("prec") == "*":
                raise core.Inconclusive("'*' in format")
            if nxt >= len(args):
                raise TypeError("not enough arguments for format string")
            val = args[nxt]
            nxt += 1
        spec = "%" + m.group("flags") + (m.group("width") or "") + \
            ("." + m.group("prec") if m.group("prec") else "") + conv
        plain = spec == "%" + conv
        if conv in "sra":
            if custom(val) and conv == "s" and plain:
                parts.append(sym_str(val))
            elif custom(val):
                parts.append(LazyStr([Opaque(val, spec)]))
            else:
                parts.append(spec % (val,))
        elif conv in "diu":
            if isinstance(val, (SymInt, SymBool)):
                if isinstance(val, SymBool):
                    val = SymInt(val._int())
                parts.append(LazyStr([Dec(val) if plain
                                      else Opaque(val, spec)]))
            elif isinstance(val, SymReal):
                v = to_int(val)
                parts.append(LazyStr([Dec(v) if plain and is_sym(v)
                                      else Opaque(v, spec)]))
            elif is_sym(val):
                parts.append(spec % ("x",))      # native TypeError
            else:
                parts.append(spec % (val,))
        elif conv in "xXoeEfFgGc":
            if isinstance(val, (SymInt, SymBool, SymReal)):
                if conv in "xXo" and isinstance(val, SymReal):
                    spec % 1.5                   # native TypeError
                parts.append(LazyStr([Opaque(val, spec)]))
            elif is_sym(val):
                parts.append(spec % (b"x",) if conv == "c" else
                             spec % ("x",))
            else:
                parts.append(spec % (val,))
        else:
            parts.append(spec % (val,))
    parts.append(fmt[pos:])
    if not is_map and nxt < len(args):
        raise TypeError("not all arguments converted during string "
                        "formatting")
    return concat(parts)


def fmt_value(val, conv, spec):
    if is_sym(spec):
        raise core.Inconclusive("symbolic format spec")
    if not custom(val):
        if conv == ord("r"):
            val = repr(val)
        elif conv == ord("a"):
            val = ascii(val)
        elif conv == ord("s"):
            val = str(val)
        return format(val, spec)
    if conv in (ord("r"), ord("a")) and isinstance(val, SymInt) and \
       spec == "":
        return LazyStr([Dec(val)])
    if conv in (ord("r"), ord("a")):
        return LazyStr([Opaque(val, "repr")])
    if isinstance(val, (SymInt,)) and conv == -1:
        if spec in ("", "d"):
            return LazyStr([Dec(val)])
        if spec[-1:] in "sq":
            format(1, spec)
        return LazyStr([Opaque(val, spec)])
    if isinstance(val, SymReal) and conv == -1:
        if spec[-1:] in "dxs" and spec:
            format(1.5, spec)
        return LazyStr([Opaque(val, spec)])
    if isinstance(val, (SymStr, LazyStr)) or conv == ord("s") or \
       type(val).__format__ is object.__format__:
        if spec == "" or spec == "s":
            return sym_str(val)
        if is_strlike(val):
            format("x", spec)
        return LazyStr([Opaque(val, spec)])
    return format(val, spec)


def r_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(fmt_value(*p))
    return concat(out)


def str_format(fmt, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            val = args[auto]
            auto += 1
        elif field.isdigit():
            val = args[int(field)]
        elif _re.fullmatch(r"\w+", field):
            val = kw[field]
        else:
            m = _re.match(r"\w*", field)
            base = m.group(0)
            if base == "":
                base_v = args[auto]
                auto += 1
            elif base.isdigit():
                base_v = args[int(base)]
            else:
                base_v = kw[base]
            val = base_v
            for a, i in _re.findall(r"\.(\w+)|\[([^\]]+)\]",
                                    field[m.end():]):
                val = getattr(val, a) if a else \
                    r_getitem(val, int(i) if i.isdigit() else i)
        out.append(fmt_value(val, ord(conv) if conv else -1, spec or ""))
    return concat(out)


# ---- builtins ---------------------------------------------------------

class StandIn:
    """Stands in for a builtin type in transformed modules."""

    def __init__(self, real, call, symtypes):
        self.__dict__["real_type"] = real
        self.__dict__["_call"] = call
        self.__dict__["_symtypes"] = symtypes
        self.__dict__["__name__"] = real.__name__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        a = getattr(self.real_type, n)
        if self.real_type is str and type(a) is type(str.strip):
            # str.strip and the like, used as functions
            return lambda x, *args, **kw: r_mcall(x, n, *args, **kw) \
                if is_strlike(x) else a(x, *args, **kw)
        return a

    def __mro_entries__(self, bases):
        return (self.real_type,)

    def __instancecheck__(self, x):
        return r_isinstance(x, self)

    def __subclasscheck__(self, c):
        return issubclass(unwrap(c), self.real_type)

    def __eq__(self, o):
        return unwrap(o) is self.real_type

    def __ne__(self, o):
        return unwrap(o) is not self.real_type

    def __hash__(self):
        return hash(self.real_type)

    def __repr__(self):
        return repr(self.real_type)

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)

    def __getitem__(self, i):
        return self.real_type[i]


def unwrap(t):
    if isinstance(t, StandIn):
        return t.real_type
    if isinstance(t, tuple):
        return tuple(unwrap(x) for x in t)
    return t


def pytype(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymReal):
        return float
    if isinstance(x, StrBase):
        return str
    if isinstance(x, (SymBytesText, SymBytes)):
        return bytes
    pt = getattr(x, "_pytype", None)
    if pt is not None:
        return pt
    return type(x)


def r_isinstance(x, t):
    t = unwrap(t)
    if is_sym(x):
        pt = pytype(x)
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            if isinstance(y, tuple):
                if r_isinstance(x, y):
                    return True
            elif isinstance(y, type) and issubclass(pt, y):
                return True
            elif not isinstance(y, type) and isinstance(x, y):
                return True
        return False
    return isinstance(x, t)


def r_type(*a):
    if len(a) != 1:
        return type(*a)
    t = pytype(a[0]) if is_sym(a[0]) or isinstance(a[0], OSet) \
        else type(a[0])
    return STANDIN_OF.get(t, t)


def r_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    if is_strlike(x) and (is_sym(x) or any(is_sym(y) for y in a[1:])):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        return parse_int(x, base)
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return mk_int(x._int())
    if isinstance(x, SymReal):
        return to_int(x)
    return int(*a, **k)


def r_float(*a):
    if a and isinstance(a[0], SymReal):
        return a[0]
    if a and isinstance(a[0], (SymInt, SymBool)):
        from .values import mk_real, iexpr
        return mk_real(iexpr(a[0]))
    if a and is_strlike(a[0]) and is_sym(a[0]):
        return float(lift(a[0]).realise())
    return float(*a)


def r_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], (SymInt, SymReal)):
        return a[0] != 0
    return bool(*a)


def r_str(*a, **k):
    if len(a) == 1 and not k and custom(a[0]):
        return sym_str(a[0])
    if a and hasattr(a[0], "_wire"):
        return a[0].decode(*a[1:], **k)
    if a and isinstance(a[0], SymBytesText):
        return a[0].s
    return str(*a, **k)


def r_bytes(*a, **k):
    if a and (is_sym(a[0]) or hasattr(a[0], "_wire")):
        if pytype(a[0]) is bytes:
            return a[0]
        if pytype(a[0]) is str:
            if len(a) == 1 and "encoding" not in k:
                raise TypeError("string argument without an encoding")
            return a[0].encode(*a[1:], **k)
    return bytes(*a, **k)


def r_repr(x):
    if isinstance(x, SymInt):
        return LazyStr([Dec(x)])
    if custom(x) and (is_sym(x) or has_sym(x)):
        return LazyStr([Opaque(x, "repr")])
    return repr(x)


def _pick(items, key, better):
    best = items[0]
    kb = best if key is None else key(best)
    for x in items[1:]:
        kx = x if key is None else key(x)
        c = better(kx, kb)
        if key is None and isinstance(c, SymBool):
            best = ite(c, x, best)
            kb = best
        elif c:
            best, kb = x, kx
    return best


def _minmax(native, better):
    def f(*a, **k):
        key = k.get("key")
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            return native(items)
        if key is None and not any(is_sym(x) for x in items):
            return native(items)
        return _pick(items, key, better)
    return f


r_min = _minmax(min, lambda a, b: a < b)
r_max = _minmax(max, lambda a, b: a > b)


def r_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def r_ord(c):
    if isinstance(c, StrBase):
        cs = codes(c)
        if len(cs) != 1:
            raise TypeError("ord() expected a character")
        return mk_int(cs[0]) if not isinstance(cs[0], int) else cs[0]
    return ord(c)


def r_chr(i):
    if isinstance(i, SymInt):
        return SymStr((i.e,))
    return chr(i)


def _opaque(native, name):
    def f(x, *a):
        if is_sym(x):
            if not isinstance(x, (SymInt, SymBool)):
                native(1.5)
            return LazyStr([Opaque(x, name)])
        return native(x, *a)
    return f


def _names(obj):
    return dir(obj)


def r_getattr(obj, name, *d):
    if is_sym(name):
        for n in _names(obj):
            if name == n:
                return getattr(obj, n, *d)
        if d:
            return d[0]
        raise AttributeError(name)
    return getattr(obj, name, *d)


def r_hasattr(obj, name):
    if is_sym(name):
        for n in _names(obj):
            if name == n:
                return True
        return False
    return hasattr(obj, name)


def r_format(x, spec=""):
    return fmt_value(x, -1, spec)


def r_callable(x):
    return callable(x)


def r_is_const(x, const):
    """x is True / x is False"""
    if isinstance(x, SymBool):
        return bool(x) is const
    return x is const


STANDINS = {
    "int": StandIn(int, r_int, (SymInt, SymBool)),
    "float": StandIn(float, r_float, (SymReal,)),
    "bool": StandIn(bool, r_bool, (SymBool,)),
    "str": StandIn(str, r_str, (StrBase,)),
    "bytes": StandIn(bytes, r_bytes, (SymBytesText, SymBytes)),
    "set": StandIn(set, mkset, ()),
    "frozenset": StandIn(frozenset, lambda *a: mkset(*a, cls=frozenset)
                         if a else frozenset(), ()),
    "dict": StandIn(dict, r_dict, ()),
}
STANDINS["dict"].__dict__["fromkeys"] = r_fromkeys


class _Meta(type):
    def __instancecheck__(cls, x):
        return r_isinstance(x, cls.real)


# classes for use in class patterns
PATTERNS = {n: _Meta("_psx_t_" + n, (), {"real": s.real_type})
            for n, s in STANDINS.items() if n not in ("set", "frozenset")}
STANDIN_OF = {s.real_type: s for s in STANDINS.values()}

OVERLAY = dict(STANDINS)
OVERLAY.update({
    "isinstance": r_isinstance, "type": r_type, "min": r_min, "max": r_max,
    "sum": r_sum, "ord": r_ord, "chr": r_chr, "repr": r_repr,
    "hex": _opaque(hex, "hex"), "oct": _opaque(oct, "oct"),
    "bin": _opaque(bin, "bin"), "getattr": r_getattr, "hasattr": r_hasattr,
    "format": r_format,
})

HELPERS = {
    "_psx_eq": r_eq, "_psx_ne": r_ne, "_psx_in": r_in,
    "_psx_notin": r_notin, "_psx_getitem": r_getitem,
    "_psx_setitem": r_setitem, "_psx_delitem": r_delitem,
    "_psx_mcall": r_mcall, "_psx_mod": r_mod, "_psx_fstr": r_fstr,
    "_psx_mkset": mkset, "_psx_mkdict": mkdict, "_psx_isc": r_is_const,
    "_psx_or": r_or, "_psx_ior": r_ior, "_psx_truth": r_truth,
}
HELPERS.update({"_psx_t_" + n: t for n, t in PATTERNS.items()})
