"""Model of the `re` module for patterns and texts with symbolic characters.

Concrete patterns applied to concrete text go to the real module.  Otherwise
the pattern is parsed by the real regex parser and matching is encoded as a
formula over the characters."""
import re as _re
try:
    import re._parser as _parser
    import re._constants as _c
except ImportError:                         # pragma: no cover (python < 3.11)
    import sre_parse as _parser
    import sre_constants as _c

from . import core
from .loader import StubModule
from .values import (SymStr, LazyStr, EscChar, StrBase, codes, mk_str, ch_eq,
                     ch_in, sym_and, sym_or, sym_not, CHAR_MAX, is_sym, is_strlike)

SPECIAL = [ord(c) for c in ".^$*+?{}[]\\|()"]
BASE = 0xE000


def escape(p):
    if not is_sym(p):
        return _re.escape(p)
    out = []
    for c in codes(p):
        if isinstance(c, int):
            out.extend(map(ord, _re.escape(chr(c))))
        else:
            out.append(EscChar(c))
    return mk_str(out)


class Match:
    """That there is a match is decided; where, once it is asked for."""

    def __init__(self, text, pattern, mode, spans=None):
        self.string = text
        self.re = pattern
        self.mode = mode
        self.spans = spans

    def _spans(self):
        if self.spans is None:
            self.spans = self.re._find(codes(self.string), 0, self.mode)
        return self.spans

    def _no(self, g):
        if isinstance(g, str):
            if g not in self.re.real.groupindex:
                raise IndexError("no such group")
            return self.re.real.groupindex[g]
        if not 0 <= g <= self.re.real.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._spans().get(self._no(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else mk_str(codes(self.string)[a:b])

    def group(self, *gs):
        if len(gs) <= 1:
            return self._one(gs[0] if gs else 0)
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default)
                     for g in range(1, self.re.real.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.re.real.groupindex}

    def expand(self, template):
        out = []
        for x in self.re._template(template):
            x = x if isinstance(x, str) else self._one(x)
            out.extend(codes(x if x is not None else ""))
        return mk_str(out)


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        self.ph = {}
        if is_sym(pattern):
            txt = []
            for c in codes(pattern):
                if isinstance(c, int):
                    txt.append(chr(c))
                    continue
                if not isinstance(c, EscChar):
                    if ch_in(c, SPECIAL):
                        txt.append(chr(core.cur().concretise(c)))
                        continue
                    e = c
                else:
                    e = c.e
                k = BASE + len(self.ph)
                self.ph[k] = e
                txt.append(chr(k))
            self.text = "".join(txt)
        else:
            self.text = pattern
        self.real = _re.compile(self.text, flags)
        self.tree = None

    def _char(self, code):
        return self.ph.get(code, code)

    def _run(self, s, mode):
        if not is_strlike(s):
            return getattr(self.real, mode)(s)      # the native TypeError
        if not is_sym(s) and not self.ph:
            return getattr(self.real, mode)(s)
        self._parsed()
        cs = codes(s)
        starts = range(len(cs) + 1) if mode == "search" else (0,)
        conds = []
        for st in starts:
            for end, c in self._seq(list(self.tree), {st: True}, cs).items():
                if mode != "fullmatch" or end == len(cs):
                    conds.append(c)
        return Match(s, self, mode) if sym_or(conds) else None

    def _parsed(self):
        if self.tree is None:
            if self.real.flags & _re.LOCALE:
                raise core.Inconclusive("regex flags")
            self.tree = _parser.parse(self.text, self.flags)
        return list(self.tree)

    # -- where it matches: by backtracking, one way or the other at each
    # character
    def _find(self, cs, start, mode, nonempty_at=None):
        """{group: (from, to)} of the first match, or None"""
        for st in range(start, len(cs) + 1) if mode == "search" else (start,):
            for end, gs in self._back(self._parsed(), st, cs, {}):
                if mode == "fullmatch" and end != len(cs):
                    continue
                if nonempty_at is not None and end == st == nonempty_at:
                    continue
                gs = dict(gs)
                gs[0] = (st, end)
                return gs
        return None

    def _back(self, items, i, cs, gs):
        if not items:
            yield i, gs
            return
        (op, av), rest = items[0], items[1:]
        if op is _c.SUBPATTERN:
            for j, g in self._back(list(av[-1]), i, cs, gs):
                if av[0] is not None:
                    g = dict(g)
                    g[av[0]] = (i, j)
                yield from self._back(rest, j, cs, g)
        elif op is _c.BRANCH:
            for alt in av[1]:
                for j, g in self._back(list(alt), i, cs, gs):
                    yield from self._back(rest, j, cs, g)
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, sub = av
            for j, g in self._rep(list(sub), lo, hi, op is _c.MAX_REPEAT, i,
                                  cs, gs):
                yield from self._back(rest, j, cs, g)
        elif op is _c.GROUPREF:
            a, b = gs.get(av, (-1, -1))
            if a >= 0 and i + b - a <= len(cs) and sym_and(
                    [ch_eq(x, y) for x, y in zip(cs[a:b],
                                                 cs[i:i + b - a])]):
                yield from self._back(rest, i + b - a, cs, gs)
        else:
            for j, cond in self._item(op, av, {i: True}, cs).items():
                if cond:
                    yield from self._back(rest, j, cs, gs)

    def _rep(self, sub, lo, hi, greedy, i, cs, gs, n=0):
        def more():
            if n < hi:
                for j, g in self._back(sub, i, cs, gs):
                    if j > i or n < lo:
                        yield from self._rep(sub, lo, hi, greedy, j, cs, g,
                                             n + 1)
        if greedy:
            yield from more()
        if n >= lo:
            yield i, gs
        if not greedy:
            yield from more()

    def _every(self, s):
        cs = codes(s)
        pos, last = 0, None
        while pos <= len(cs):
            gs = self._find(cs, pos, "search", last)
            if gs is None:
                return
            yield Match(s, self, "search", gs)
            pos = gs[0][1]
            last = pos if pos == gs[0][0] else None

    def _template(self, repl):
        if is_sym(repl):
            raise core.Inconclusive("symbolic replacement")
        t = _parser.parse_template(repl, self.real)
        if isinstance(t, tuple):                # before python 3.12
            groups, lits = t
            t = list(lits)
            for i, g in groups:
                t[i] = g
        return [x for x in t if x != ""]

    def _plainly(self, *xs):
        return not self.ph and not any(is_sym(x) for x in xs)

    def finditer(self, s):
        if self._plainly(s) or not is_strlike(s):
            return self.real.finditer(s)
        return self._every(s)

    def findall(self, s):
        if self._plainly(s) or not is_strlike(s):
            return self.real.findall(s)
        n = self.real.groups
        return [m.group() if n == 0 else m._one(1, "") if n == 1
                else m.groups("") for m in self._every(s)]

    def subn(self, repl, s, count=0):
        if not is_strlike(s) or self._plainly(s) and not callable(repl) and \
           not is_sym(repl):
            return self.real.subn(repl, s, count)
        cs = codes(s)
        out = []
        n = pos = 0
        for m in self._every(s):
            a, b = m.span()
            out.extend(cs[pos:a])
            out.extend(codes(repl(m) if callable(repl) else m.expand(repl)))
            pos = b
            n += 1
            if n == count:
                break
        out.extend(cs[pos:])
        return mk_str(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if self._plainly(s) or not is_strlike(s):
            return self.real.split(s, maxsplit)
        cs = codes(s)
        out = []
        pos = 0
        for m in self._every(s):
            a, b = m.span()
            out.append(mk_str(cs[pos:a]))
            out.extend(m.groups())
            pos = b
            if maxsplit and len(out) >= maxsplit * (1 + self.real.groups):
                break
        out.append(mk_str(cs[pos:]))
        return out

    def search(self, s, *a):
        return self._run(s, "search")

    def match(self, s, *a):
        return self._run(s, "match")

    def fullmatch(self, s, *a):
        return self._run(s, "fullmatch")

    def __getattr__(self, n):
        real = self.__dict__.get("real")
        if real is None or self.ph:
            raise core.Inconclusive("regex method " + n)
        return getattr(real, n)

    # positions: {index: condition}
    def _seq(self, items, pos, cs):
        for op, av in items:
            pos = self._item(op, av, pos, cs)
            if not pos:
                break
        return pos

    @staticmethod
    def _add(out, i, c):
        if c is False:
            return
        out[i] = c if i not in out else sym_or([out[i], c])

    def _one(self, pos, cs, test):
        out = {}
        for i, c in pos.items():
            if i < len(cs):
                t = test(cs[i])
                self._add(out, i + 1, sym_and([c, t]))
        return out

    def _item(self, op, av, pos, cs):
        fl = self.real.flags
        eq = ch_same if fl & _re.IGNORECASE else ch_eq
        if op is _c.LITERAL:
            k = self._char(av)
            return self._one(pos, cs, lambda x: eq(x, k))
        if op is _c.NOT_LITERAL:
            k = self._char(av)
            return self._one(pos, cs, lambda x: sym_not(eq(x, k)))
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            return self._look(op is _c.ASSERT, av[0], list(av[1]), pos, cs)
        if op is _c.ANY:
            if fl & _re.DOTALL:
                return self._one(pos, cs, lambda x: True)
            return self._one(pos, cs, lambda x: sym_not(ch_eq(x, 10)))
        if op is _c.IN:
            return self._one(pos, cs, lambda x: self._in(av, x))
        if op is _c.AT:
            out = {}
            n = len(cs)
            for i, c in pos.items():
                if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
                    t = i == 0
                    if av is _c.AT_BEGINNING and fl & _re.MULTILINE and i:
                        t = ch_eq(cs[i - 1], 10)
                elif av is _c.AT_END_STRING:
                    t = i == n
                elif av is _c.AT_END:
                    t = i == n
                    if i < n and (i == n - 1 or fl & _re.MULTILINE):
                        t = ch_eq(cs[i], 10)
                else:
                    raise core.Inconclusive("regex anchor")
                self._add(out, i, sym_and([c, t]))
            return out
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, sub = av
            out = {}
            cur = dict(pos)
            k = 0
            while True:
                if k >= lo:
                    for i, c in cur.items():
                        self._add(out, i, c)
                if k == hi or k > len(cs) + lo:
                    return out
                cur = self._seq(list(sub), cur, cs)
                if not cur:
                    return out
                k += 1
        if op is _c.SUBPATTERN:
            return self._seq(list(av[-1]), pos, cs)
        if op is _c.BRANCH:
            out = {}
            for alt in av[1]:
                for i, c in self._seq(list(alt), pos, cs).items():
                    self._add(out, i, c)
            return out
        raise core.Inconclusive("regex construct %s" % op)

    def _look(self, wanted, direction, sub, pos, cs):
        """Lookahead (direction 1) and lookbehind (-1)."""
        out = {}
        for i, c in pos.items():
            if direction > 0:
                hits = list(self._seq(sub, {i: True}, cs).values())
            else:
                hits = []
                for j in range(i + 1):
                    r = self._seq(sub, {j: True}, cs)
                    if i in r:
                        hits.append(r[i])
            t = sym_or(hits)
            self._add(out, i, sym_and([c, t if wanted else sym_not(t)]))
        return out

    def _in(self, items, x):
        xs = variants(x) if self.real.flags & _re.IGNORECASE else [x]
        neg = any(op is _c.NEGATE for op, _ in items)
        r = sym_or([self._plain_in(items, y) for y in xs])
        return sym_not(r) if neg else r

    def _plain_in(self, items, x):
        alts = []
        for op, av in items:
            if op is _c.NEGATE:
                continue
            if op is _c.LITERAL:
                alts.append(ch_eq(x, self._char(av)))
            elif op is _c.RANGE:
                alts.append(ch_in(x, range(av[0], min(av[1], CHAR_MAX) + 1))
                            if not isinstance(x, int) else
                            av[0] <= x <= av[1])
            elif op is _c.CATEGORY:
                alts.append(self._cat(av, x))
            else:
                raise core.Inconclusive("regex set item %s" % op)
        return sym_or(alts)

    def _cat(self, cat, x):
        name = str(cat).split("_")[-1].lower()
        esc = {"digit": r"\d", "space": r"\s", "word": r"\w"}[name]
        if "NOT" in str(cat):
            esc = esc.upper()
        rx = _re.compile(esc)
        if isinstance(x, int):
            return rx.match(chr(x)) is not None
        return ch_in(x, [k for k in range(CHAR_MAX + 1)
                         if rx.match(chr(k))])


# ---- IGNORECASE -------------------------------------------------------

_SHIFTS = {}


def shifts():
    """{delta: characters c for which c and c + delta are the same but for
    their case}, as the real module has it."""
    if not _SHIFTS:
        every = "".join(map(chr, range(CHAR_MAX + 1)))
        for k in range(CHAR_MAX + 1):
            for x in _re.findall(_re.escape(chr(k)), every, _re.I):
                if ord(x) != k:
                    _SHIFTS.setdefault(ord(x) - k, []).append(k)
    return _SHIFTS


def ch_same(x, k):
    """Equality of characters apart from case."""
    alts = [ch_eq(x, k)]
    for d, cs in shifts().items():
        if isinstance(k, int):
            if k in cs:
                alts.append(ch_eq(x, k + d))
        else:
            alts.append(sym_and([ch_in(k, cs), ch_eq(x, k + d)]))
    return sym_or(alts)


def variants(x):
    """Characters one of which is in a set if x is in it ignoring case."""
    if isinstance(x, int):
        return [x] + [x + d for d, cs in shifts().items() if x in cs]
    import z3
    return [x] + [z3.If(z3.Or([x == k for k in cs]), x + d, x)
                  for d, cs in shifts().items()]


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    return Pattern(p, flags)


def make():
    return StubModule(
        "re", _re, escape=escape, compile=compile,
        search=lambda p, s, flags=0: compile(p, flags).search(s),
        match=lambda p, s, flags=0: compile(p, flags).match(s),
        fullmatch=lambda p, s, flags=0: compile(p, flags).fullmatch(s),
        sub=lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s,
                                                                    count),
        subn=lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s,
                                                                      count),
        split=lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(
            s, maxsplit),
        findall=lambda p, s, flags=0: compile(p, flags).findall(s),
        finditer=lambda p, s, flags=0: compile(p, flags).finditer(s))
