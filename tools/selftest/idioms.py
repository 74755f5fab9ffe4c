"""Idioms of Python, see run.py"""
import bisect, collections, contextlib, copy, dataclasses, enum, functools, heapq, itertools, operator, typing
from collections import OrderedDict, defaultdict, deque, Counter, namedtuple, ChainMap
from types import SimpleNamespace, MappingProxyType

@dataclasses.dataclass
class D:
    a: int
    b: str = "x"

@dataclasses.dataclass(frozen=True)
class FD:
    a: int
    b: str = "x"

@dataclasses.dataclass(order=True)
class OD:
    a: int
    b: int = dataclasses.field(default=0, compare=False)

class NT(typing.NamedTuple):
    a: int
    b: str

P = namedtuple("P", "a b")

class Color(enum.Enum):
    RED = 1
    GREEN = 2

class IColor(enum.IntEnum):
    RED = 1
    GREEN = 2

class Fl(enum.Flag):
    A = 1
    B = 2

@functools.total_ordering
class TO:
    def __init__(self, a): self.a = a
    def __lt__(self, o): return self.a < o.a
    def __eq__(self, o): return self.a == o.a

def f_dataclass_eq(i, j, s, t): return D(i, s) == D(j, t), D(i, s) == D(i, s)
def f_frozen_key(i, j, s, t): return {FD(i): 1}.get(FD(j), 0), FD(i) in {FD(j)}
def f_order(i, j, s, t): return OD(i) < OD(j), max(OD(i, 1), OD(j, 2)).b
def f_nt(i, j, s, t): return NT(i, s) == NT(j, t), NT(i, s)._replace(a=j).a, P(i, s) == (j, t)
def f_nt_key(i, j, s, t): return {P(i, s): 1}.get(P(j, t))
def f_enum(i, j, s, t):
    try: return Color(i).name
    except ValueError: return "none"
def f_ienum(i, j, s, t): return i == IColor.RED, IColor.RED < i
def f_to(i, j, s, t): return TO(i) <= TO(j), TO(i) > TO(j), sorted([TO(i), TO(j)])[0].a
def f_match(i, j, s, t):
    match (i, s):
        case (1, _): return "one"
        case (2, "x"): return "two x"
        case (k, "y") if k > j: return "y"
        case (1 | 3 | 5, str()): return "odd"
        case _: return "other"
def f_match_dict(i, j, s, t):
    match {"a": i, "b": s}:
        case {"a": 1}: return "one"
        case {"a": int(x), "b": "q"}: return x
        case {"b": str(y), **rest}: return y, len(rest)
def f_match_class(i, j, s, t):
    match D(i, s):
        case D(a=1): return 1
        case D(a=x, b="k"): return x
        case _: return 0
def f_walrus(i, j, s, t):
    if (k := i + j) > 3: return k
    return -k
def f_chain(i, j, s, t): return 0 <= i < j <= 5
def f_ternary(i, j, s, t): return (i if i > j else j), s or t, i and j, not s
def f_counter(i, j, s, t):
    c = Counter(); c[i] += 1; c[j] += 1; c.update([i]); return c[i], len(c), sum(c.values())
def f_counter_sub(i, j, s, t):
    c = Counter([i, j]); c.subtract([i]); return c[j], max(c.values()), c.most_common(1)[0][1]
def f_defaultdict(i, j, s, t):
    d = defaultdict(list); d[i].append(1); d[j].append(2); return len(d), d[i], d.get(5, None)
def f_odict(i, j, s, t):
    d = OrderedDict(); d[i] = 1; d[j] = 2; d.move_to_end(i); return list(d.values()), d.popitem(last=False)[1]
def f_chainmap(i, j, s, t): return ChainMap({i: 1}, {j: 2})[j]
def f_proxy(i, j, s, t): return MappingProxyType({i: 1}).get(j), j in MappingProxyType({i: 1})
def f_ns(i, j, s, t): return SimpleNamespace(a=i).a + SimpleNamespace(a=j).a, SimpleNamespace(a=i) == SimpleNamespace(a=j)
def f_dictcomp(i, j, s, t):
    d = {k: v for k, v in [(i, 1), (j, 2)]}; return len(d), d[i]
def f_setcomp(i, j, s, t): return len({k % 3 for k in (i, j)}), {i, j} == {j, i}, {i} | {j} == {i}, {i} <= {i, j}, {i}.isdisjoint({j})
def f_dictmerge(i, j, s, t):
    d = {i: 1} | {j: 2}; d |= {3: 3}; e = {**{i: 1}, **{j: 5}}; return len(d), d[j], e[i]
def f_dict_fromkeys(i, j, s, t): return len(dict.fromkeys([i, j])), len(dict([(i, 1), (j, 2)])), len(dict(zip((i, j), (1, 2))))
def f_itemgetter(i, j, s, t): return operator.itemgetter(i)({1: "a", 2: "b", i: "c"}), operator.attrgetter("a")(D(i)), operator.lt(i, j), operator.eq(i, j)
def f_contains(i, j, s, t): return operator.contains([i], j), operator.contains({i}, j), operator.countOf([i, j], j)
def f_bisect(i, j, s, t):
    l = sorted([i, j, 3]); bisect.insort(l, 2); return l, bisect.bisect_left(l, i), bisect.bisect(l, j)
def f_bisect_key(i, j, s, t):
    l = sorted([D(i), D(j)], key=lambda d: d.a); return bisect.bisect_left(l, 3, key=lambda d: d.a)
def f_heap(i, j, s, t):
    h = []; heapq.heappush(h, (i, 0)); heapq.heappush(h, (j, 1)); heapq.heappush(h, (2, 2)); return heapq.heappop(h), heapq.nsmallest(1, h), len(h)
def f_sorted(i, j, s, t): return sorted([i, j, 3], reverse=True), sorted([(i, "a"), (j, "b")], key=lambda x: (-x[0], x[1])), sorted([s, t]), min(i, j), max([i, j], default=0), min([(i, 1), (j, 0)])
def f_sort_inplace(i, j, s, t):
    l = [i, j, 1]; l.sort(key=functools.cmp_to_key(lambda a, b: b - a)); l.reverse(); return l
def f_groupby(i, j, s, t): return [len(list(g)) for k, g in itertools.groupby(sorted([i, j]))]
def f_itertools(i, j, s, t): return list(itertools.accumulate([i, j])), list(itertools.takewhile(lambda x: x > 2, [i, j])), list(itertools.filterfalse(lambda x: x > 2, [i, j])), list(itertools.chain.from_iterable([[i], [j]])), list(itertools.compress([1, 2], [i > 1, j > 1])), next(itertools.dropwhile(lambda x: x < i, [0, 1, 2, 3, 9]), None), list(itertools.islice([5, 6, 7], 2))
def f_reduce(i, j, s, t): return functools.reduce(lambda a, b: a + b, [i, j], 0), functools.reduce(operator.or_, [i > 1, j > 2]), functools.partial(max, i)(j)
@functools.lru_cache(maxsize=None)
def cached(x): return x * 2
def f_lru(i, j, s, t): return cached(i), cached(j)
class CP:
    def __init__(self, a): self.b = a
    @functools.cached_property
    def a(self): return self.b + 1
    @staticmethod
    def st(x): return x
    @classmethod
    def cl(cls, x): return cls(x)
    @property
    def p(self): return self.b
    @p.setter
    def p(self, v): self.b = v
    def __contains__(self, x): return x == self.b
    def __getitem__(self, k): return k + self.b
    def __len__(self): return 3
    def __bool__(self): return self.b > 2
    def __iter__(self): yield self.b
    def __call__(self, x): return x + self.b
    def __enter__(self): return self
    def __exit__(self, *a): return a[0] is KeyError
    def __hash__(self): return hash(self.b)
    def __eq__(self, o): return isinstance(o, CP) and self.b == o.b
def f_class(i, j, s, t):
    x = CP.cl(i); x.p = x.p + 1
    with x as y:
        {}[j]
    return x.a, CP.st(j), j in x, x[j], bool(x), list(x), x(j), x == CP(j), x != CP(j), len({CP(i), CP(j)})
def f_try(i, j, s, t):
    try:
        r = [1, 2, 3][i]
    except IndexError:
        r = "idx"
    else:
        r = r + 1
    finally:
        q = 3
    return r, q
def f_suppress(i, j, s, t):
    d = {i: 1}
    with contextlib.suppress(KeyError):
        del d[j]
    return len(d)
@contextlib.contextmanager
def ctx(x):
    yield x + 1
def f_ctxm(i, j, s, t):
    with ctx(i) as k: return k == j
def f_exitstack(i, j, s, t):
    l = []
    with contextlib.ExitStack() as st:
        st.callback(l.append, i); st.callback(l.append, j)
    return l
def gen(i, j):
    n = 0
    while n < 4:
        if n == i: return
        yield n
        n += 1
def f_gen(i, j, s, t): return list(gen(i, j)), any(x > j for x in gen(i, j)), next((x for x in [i, j] if x > 3), None), sum(1 for x in (i, j) if x > 2)
def gsend():
    x = yield 0
    while True: x = yield x + 1
def f_send(i, j, s, t):
    g = gsend(); next(g); return g.send(i), g.send(j)
def f_unpack(i, j, s, t):
    a, *b = [i, j, 3]; (c, d), e = (i, j), s; a, c = c, a; return a, b, c, d, e, [*b, i], {*b} == {j, 3}
def f_for_else(i, j, s, t):
    for k in (1, 2, j):
        if k == i: break
    else: return "none"
    return k
def f_while_else(i, j, s, t):
    n = 3
    while n:
        n -= 1
        if n == i: break
        if n == j: continue
    else: return "done"
    return n
def f_list(i, j, s, t):
    l = [i, j, 3, i]; l.remove(j); return l, l.count(i), l.index(i), 3 in l, l[-1:], l + [j], l * 2, l == [i, 3, i], [i, 1] < [j, 2]
def f_list_del(i, j, s, t):
    l = [i, j]; del l[0]; l.insert(0, j); l.extend([i]); l[:] = [x for x in l if x != i]; return l, l.pop() if l else None
def f_deque(i, j, s, t):
    d = deque([i, j], maxlen=3); d.appendleft(3); d.rotate(1); d.append(4); 
    try: d.remove(i)
    except ValueError: pass
    return list(d), j in d, d.count(j), d[0]
def f_tuple(i, j, s, t): return (i, s) in [(j, t)], (i, s) == (j, t), (i, 1) < (j, 1), (i, j).index(j), (i,) + (j,), hash((1, 2)) == hash((1, 2))
def f_isinst(i, j, s, t): return isinstance(i, int), isinstance(s, (str, bytes)), type(i) is int, type(s) == str, type(i).__name__, isinstance(i, bool), callable(i), isinstance(i, int | str), isinstance(True, int)
def f_int(i, j, s, t): return int(i), int(str(i)) == i, float(i) / 2, divmod(i, 3), i // 2, i % 3, -i, abs(i - j), i ** 2, round(i / 2), bool(i), i & 1, i | 4, i ^ 1, i << 2, i >> 1, ~i, (i).bit_length() if False else 0, pow(i, 2), sum([i, j]), i / 2
def f_int_str(i, j, s, t):
    try: return int(s)
    except ValueError as e: return "bad"
def f_str(i, j, s, t): return s + t, s * 2, s == t, s < t, s.upper() == t.upper(), s.isdigit(), s in t, s.startswith(t), s[:1], s[::-1] == t, len(s), "a" in s, s.strip() == "", s.find("a"), ",".join([s, t]) == "a,b", s.isspace(), s.isalpha(), s.replace("a", "b"), s.split("a"), s.partition("a"), s.count("a"), s not in ("a", "b")
def f_str2(i, j, s, t): return [ord(c) for c in s], "".join(c for c in s if c != "a"), "".join(reversed(s)), s.zfill(3) if False else 0, list(enumerate(s)), s.lower(), s.title() if False else 0, s.removeprefix("a"), s.rstrip("a"), s.splitlines() if False else 0, s.isdecimal(), s.isalnum() if False else 0, s.casefold() if False else 0
def f_fstr(i, j, s, t): return f"{s}-{t}" == "a-b", f"{i}" == "3", "%s" % s == t, "%d" % i == str(j), "{}".format(s) == t, "{0}{1}".format(s, t) == "ab", str(i) + s == "3a", f"{i=}" == "i=3", "{a}".format(a=s) == "a", "%(a)s" % {"a": s} == t
def f_lambda(i, j, s, t):
    fs = [lambda x, k=k: x + k for k in (i, j)]; return [f(1) for f in fs], list(map(lambda x: x + 1, (i, j))), list(filter(None, (i, j))), list(filter(lambda x: x > 3, (i, j))), all(map(lambda x: x > 0, (i, j)))
def f_dispatch(i, j, s, t):
    return {1: lambda: "one", 2: lambda: "two"}.get(i, lambda: "other")(), {"a": 1, "b": 2}.get(s), ["x", "y", "z"][j] if 0 <= j < 3 else None, getattr(D(3), "a" if i > 1 else "b"), ("no", "yes")[i > j], ("no", "yes")[bool(i)]
def f_setattr(i, j, s, t):
    d = D(1); setattr(d, "a", i); d.__dict__["b"] = j; return d.a, getattr(d, "zz", j), hasattr(d, "a"), vars(d)["a"], copy.copy(d).a, dataclasses.replace(d, a=j).a, dataclasses.asdict(d)["a"], copy.deepcopy([i, {j: s}])[0]
def f_global(i, j, s, t):
    n = 0
    def inc():
        nonlocal n
        n += i
    inc(); inc(); return n
def f_starargs(i, j, s, t):
    def g(*a, k=0, **kw): return sum(a) + k + kw.get("z", 0)
    return g(i, j), g(*[i, j], k=i), g(**{"z": j}), max(*[i, j])
def f_assert(i, j, s, t):
    try:
        assert i < j, "oops %d" % i
    except AssertionError as e: return "assert"
    return "ok"
def f_raise(i, j, s, t):
    try:
        try:
            if i > j: raise KeyError(i)
            if i == j: raise ValueError(s)
        except KeyError as e: raise RuntimeError("x") from e
    except (RuntimeError, ValueError) as e: return type(e).__name__, e.__cause__ is None, e.args[0] == "x"
    return None
def f_dictview(i, j, s, t):
    d = {i: 1, j: 2}; return list(d.items())[0][1], j in d.keys(), 2 in d.values(), (i, 1) in d.items(), d.keys() == {i, j}, list(reversed(d.values())), len(d.keys() & {i}), d.keys() - {i} == set(), sorted(d), max(d, key=d.get), min(d.values()), next(iter(d)), list(d)
def f_dict2(i, j, s, t):
    d = {i: 1}; d.setdefault(j, 2); d.update({i: 3}, a=4) ; x = d.pop(j, None); return len(d), x, d == {i: 3, "a": 4}, d.get(i), i in d, d.copy() == d, d.popitem()
def f_deldict(i, j, s, t):
    d = {i: 1, 5: 2}
    for k in list(d):
        if k == j: del d[k]
    return len(d), list(d.values())
def f_frozenset(i, j, s, t): return frozenset([i, j]) == frozenset([j]), len(frozenset([i, j])), frozenset([i]) in {frozenset([j])}
def f_set2(i, j, s, t):
    x = {i}; x.add(j); x.discard(3); x ^= {4}; x -= {5}; x &= {i, 4}; return sorted(x), len(x), x.union([j]) == {i, j}, set() == x
def f_range(i, j, s, t): return i in range(3), i in range(1, 9, 2), len(range(3)), [k for k in range(min(i, 4))] if i >= 0 else None
def f_zip(i, j, s, t): return list(zip([i, j], [s, t])), list(zip(*[(i, j), (j, i)])), dict(enumerate([i, j]))[0], list(reversed([i, j])), list(itertools.zip_longest([i], [j, 3], fillvalue=0)), list(itertools.product([i], [j, 1])), list(itertools.starmap(operator.add, [(i, j)])), list(itertools.pairwise([i, j, 3])), list(itertools.repeat(i, 2))
def f_any(i, j, s, t): return any([i > 3, j > 3]), all([i > 3, j > 3]), any((i == 2, s == "a")), all(x == i for x in [j, j]), sum(x == i for x in [i, j, 3]), bool([]) or i > 3
def f_slots(i, j, s, t):
    class S:
        __slots__ = ("a",)
        def __init__(self, a): self.a = a
    return S(i).a + 1, S(j).a == i
def f_inherit(i, j, s, t):
    class A:
        def __init__(self, a): self.a = a
        def v(self): return self.a
    class B(A):
        def __init__(self, a, b):
            super().__init__(a); self.b = b
        def v(self): return super().v() + self.b
    return B(i, j).v(), isinstance(B(i, j), A), issubclass(B, A)
def f_excgroup(i, j, s, t):
    class E(Exception):
        def __init__(self, code, *a):
            super().__init__(code, *a); self.code = code
    try:
        raise E(i, s)
    except E as e: return e.code == j, len(e.args), e.args[1]
def f_del_slice(i, j, s, t):
    l = [1, 2, 3, 4]; del l[:2]; l[0:1] = [i, j]; return l, l[i] if 0 <= i < 2 else None, l[-1], l[::2]
def f_nested(i, j, s, t): return [(a, b) for a in (i, j) for b in (1, 2) if a > b], {a: [b for b in (i, j) if b != a] for a in (1, 2)}, [x if x > 2 else -x for x in (i, j)]
def f_none(i, j, s, t):
    x = None if i > 2 else j
    return x is None, x or 7, x if x is not None else 9, [v for v in (x, i) if v is not None]
def f_bytes(i, j, s, t): return s.encode() == b"a", s.encode("utf-8").decode() == s
def f_float(i, j, s, t): return i * 0.5 > j, i + 0.25, max(i * 1.5, j), min(0.5, i), float(i) == i, i / 4 <= j, (i / 2).is_integer() if False else 0, int(i / 2 + 0.5), i - 0.5
def f_annot(i, j, s, t):
    x: int = i
    y: "str" = s
    return x == j, y == t
def f_star_index(i, j, s, t):
    m = [[i, 1], [j, 2]]; m[0][0] += 1; m[1][1] -= i; return m, sum(map(sum, m)), [r[0] for r in m], list(map(list, zip(*m)))
def f_global_dict_of_tuples(i, j, s, t):
    d = {}; d[(i, s)] = 1; d[(j, t)] = 2; d.setdefault((1, "a"), 5); return len(d), d.get((i, s)), (1, "a") in d, d.pop((j, t), None)
def f_g1_multi(i, j, s, t):
    d = {}; e = {5: 0}
    a = d[i] = e[j] = 7
    d[j], x = 1, 2
    (y, *e[i]) = [1, 2, 3]
    return a, d[i], e[j], x, y, len(d), len(e)
def f_g2_mix(i, j, s, t):
    d = {3: 1} | {i: 2}; e = {**{3: 1}, i: 2, j: 4}; f = dict([(3, 1), (i, 2)], a=5); g = {i: 1}; g |= {3: 9}
    return len(d), d[3], len(e), e[3], len(f), f[3], len(g), g[3], dict(f) == f, dict.fromkeys([3, i, j], 0)[3], len(dict.fromkeys([3, i, j]))
def f_g3_ordered(i, j, s, t):
    d = OrderedDict([(3, 0)]); d[i] = 1; d[j] = 2; d.move_to_end(i); d.pop(3, None); return list(d.items()), list(reversed(d)), len(d)
def f_g4_counter(i, j, s, t):
    c = Counter(); c[3] += 1; c.update([i, j]); c[i] -= 1; return c[3], len(c), sorted(c.values())
def f_g5_defdict(i, j, s, t):
    d = defaultdict(set); d[3].add(1); d[i].add(2); d[j] |= {3}; d[i] ^= {2, 4}; return sorted(d[3]), len(d), sorted(d[i])
class Tr:
    def __init__(self, a): self.a = a
    def __bool__(self):
        if self.a == 3: return self.a < 2
        return self.a > 2
    def __len__(self): return 2
def f_g6_bool(i, j, s, t): return bool(Tr(i)), not Tr(j), 5 if Tr(i) else 6, Tr(i) and 1 or 2
def f_g7_match(i, j, s, t):
    r = []
    for v in (i, s, None, 1.5, [i], {"k": i}, True, (i, j), b"x"):
        match v:
            case bool(): r.append("bool")
            case int(x) if x > 2: r.append("big")
            case int(_): r.append("int")
            case str(x): r.append(x)
            case None: r.append("none")
            case float(): r.append("float")
            case [int(x), int(y)]: r.append(x + y)
            case [x]: r.append(x)
            case {"k": int(x)}: r.append(x)
            case bytes(): r.append("b")
            case _: r.append("?")
    return r
def f_g8_unbound(i, j, s, t): return list(map(str.strip, [s, "x "])), str.upper(s), list(map(str, [i, s])) == ["3", "a"], sorted([s, t], key=str.lower), list(map(str.isdigit, s)), str.join(",", [s, t]) == "a,b"
def f_h1_str(i, j, s, t): return s.rpartition("a"), s.rsplit("a", 1), s.rfind("a"), s.split(None, 1), s.split(), s.split(" "), s.lstrip(), s.strip("ab"), s.index("a") if "a" in s else -1, s.isascii(), s.isidentifier() if False else 0
def f_h2_iter(i, j, s, t):
    it = iter(s); r = []
    for ch in it:
        if ch == "a": r.append(next(it, "end"))
        else: r.append(ch)
    return r
def f_h3_zip(i, j, s, t): return [a + b for a, b in zip(s, s[1:])], [(k, c) for k, c in enumerate(s) if c != "a"], {c: 1 for c in s} == {"a": 1}, set(s) == {"a"}, len(set(s)), sorted(s), max(s, default="z"), list(s) == ["a"], tuple(s), s[-1:] == "b", s[0] if s else "", [*s]
def f_h4_trans(i, j, s, t): return s.translate({ord("a"): "x"}), s.translate(str.maketrans("ab", "xy")), s.translate(str.maketrans({"a": None, "b": "\\b"}))
def f_h5_slice(i, j, s, t):
    if not s: return None
    k = s.find("b")
    return s[:k], s[k:], s[k + 1:], s[max(k, 0)], s[min(i, 2):] if i >= 0 else None, (s + t)[len(s):]
import re
def f_h6_re(i, j, s, t): return bool(re.match(r"a+b?$", s)), bool(re.fullmatch("[ab]*", s)), re.sub("a", "x", s), re.split("a", s), re.findall(r"\w", s), [m.start() for m in re.finditer("a", s)], re.search("b", s) is None
def f_h7_cmp(i, j, s, t): return s in ("a", "b"), s in {"a", "b"}, s in {"a": 1}, s in "ab ", {"a": 1, "b": 2}.get(s), s > "a", s >= t, s.startswith(("a", "b")), s.endswith("a"), ("%s" % s) in ["a"], s is None, s != "", s == "" or s[0] == "a", not s, s.__len__()
def f_h8_join(i, j, s, t): return "".join(["\\" + c if c in "ab" else c for c in s]), "".join(map(lambda c: c * 2, s)), "%s=%s" % (s, t), "-".join(s), s + "=" + t, "x".join([s]) == s, (s + t).count("a"), "".join(sorted(s)), "".join(reversed(s)), "({})".format(s), f"({s})({t})"
def f_h9_num(i, j, s, t):
    def num(x):
        try: return int(x)
        except ValueError: return None
    return num(s), num(s + "3"), s.isdigit() and int(s) > 2, s.isnumeric(), num(str(i)) == i, str(i).isdigit(), len(str(i)), str(i)[0] == "3", str(i) in ("1", "2"), "%02d" % 3
def f_i1_oset(i, j, s, t):
    x = set(); x.add(i); y = {3, j}; x.update(y); z = x - y; x.symmetric_difference_update({3}); w = frozenset(x) & y
    return len(x), z == {i}, sorted(x), len(w), x >= y, x > y, min(x, default=0), sum(x), any(k == 3 for k in x), x == set(y), 3 in x, set(map(lambda a: a % 2, y)), [k for k in sorted(y)], len(y & x), len(y | x)
def f_i2_tuplekey(i, j, s, t):
    x = {(i, 1)}; x.add((3, 1)); x.discard((j, 1)); return len(x), (3, 1) in x, ((i, j) == (3, 3)), [p for p in [(i, 1), (j, 2)] if p == (3, 1)], max((i, 1), (j, 0)), sorted([(i, 1), (j, 0), (3, 2)])
def f_i3_time(i, j, s, t):
    a = i * 0.5; b = j + 0.25
    return a < b, min(a, b), max(a, b, 1), round(a), int(b), abs(a - b), a == b, sorted([a, b, 1]), b // 1, b % 1 == 0.25, (a, 1) < (b, 0), -a, a * b if False else 0, float(j), a + b, sum([a, b]), divmod(j, 2), (a if a > b else b), bool(a), not b, min([a], default=3), a / 2, 2 * b, 1 - a
def f_i4_cm(i, j, s, t):
    class M:
        def __init__(self): self.l = []
        def __enter__(self): self.l.append(i); return self
        def __exit__(self, et, e, tb): self.l.append(et is not None); return et is ValueError
    m = M()
    try:
        with m:
            if i > 3: raise ValueError()
            if i < 0: raise KeyError()
    except KeyError: m.l.append("key")
    return m.l
def f_i5_finally(i, j, s, t):
    r = []
    def g():
        for k in range(3):
            try:
                if k == i: return k
                if k == j: continue
                r.append(k)
            finally: r.append("f")
        return None
    return g(), r
def f_i6_abc(i, j, s, t):
    import abc
    class A(abc.ABC):
        @abc.abstractmethod
        def f(self): ...
        def g(self): return self.f() + 1
    class B(A):
        def f(self): return i
    return B().g(), isinstance(B(), A)
def f_i7_descr(i, j, s, t):
    class E(enum.IntFlag):
        A = 1
        B = 2
    m = 0
    if i > 1: m |= E.A
    if j > 1: m |= E.B
    return int(m), bool(m & E.A), m == 3, E(3) == E.A | E.B
def f_i8_type(i, j, s, t):
    T = {int: "int", str: "str", float: "f"}
    return T[type(i)], T.get(type(s)), type(i) in (int, float), type(i) in T, type(s) is not str, isinstance(s, tuple([int, str])), issubclass(type(i), int), type(i)(3), type(s)("x") == s, type(i) == type(j), int in T, isinstance(i, typing.Hashable), isinstance(i, (bool,)), type(True) is bool
def f_j1_re(i, j, s, t):
    u = s + t
    m = re.match(r"(a*)(b)?( |3)*", u)
    return m.groups(), m.span(2), m.group(1), m.lastindex if False else 0, re.sub(r"([ab])", r"\\\1", u), re.sub("a*", "-", u), re.sub("a|b", lambda m: m.group().upper(), u), re.split("(a)|b", u), re.split("a", u, maxsplit=1), re.findall("(a)(b?)", u), re.findall("a*", u), re.subn("b", "", u, count=1), re.compile("(?P<x>a)b?").search(u) is not None
def f_j2_re(i, j, s, t):
    u = s + t
    m = re.search("(?P<x>a|b)(?P<y>.)?$", u)
    if m is None: return None
    return m["x"], m.groupdict(), m.start(), m.end("y"), m.expand(r"\g<x>!"), re.match("(.)\\1", u) is None if False else 0, re.fullmatch("(.*?)(b*)", u).groups(), re.fullmatch("a(?!b).*|.*(?<=a)b", u) is None
