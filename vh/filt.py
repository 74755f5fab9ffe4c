"""C20, C21, C22: the filter language."""
from vh.base import cut
import vh.refilter as rf


def outcome(f):
    return "accepted" if f is not None else "rejected"


def try_parse(c, m, s):
    try:
        return m.parse(s)
    except m.ParseError:
        return None


def parse_any(c, shape):
    """shape: string with '?' for an arbitrary character."""
    m = cut(c).load("paf.filter")
    s = ""
    for i, ch in enumerate(shape):
        s = s + (c.string("c%d" % i, 1) if ch == "?" else ch)
    f = try_parse(c, m, s)
    c.observe("result", outcome(f))
    try:
        want, liberal = rf.parse(s)
    except rf.Bad:
        c.reach("bad")
        c.check(f is None, "accepts text outside the grammar")
        return
    except rf.Liberal:
        return
    if liberal:
        if f is None:
            return
    else:
        c.reach("good")
        c.check(f is not None, "rejects text of the grammar")
    txt = str(f)
    c.observe("text", txt)
    back = try_parse(c, m, txt)
    c.check(back is not None, "printed filter does not parse")
    # same structure: same reading by the reference
    try:
        again, _ = rf.parse(txt)
    except (rf.Bad, rf.Liberal):
        c.fail("printed filter is outside the grammar")
    c.check(same_filter(c, want, again),
            "parsed structure differs from the grammar's")
    probe(c, f, want)


def parse_deep(c):
    """Nesting far beyond the interpreter's recursion limit."""
    m = cut(c).load("paf.filter")
    n = 15000
    op, cl = c.choice("shape", [("(!", ")"), ("(&(a=b)", ")"),
                                ("(|(a=b)", ")"), ("(!", "")])
    f = try_parse(c, m, op * n + "(x=" + c.string("v", 1) + ")" + cl * n)
    c.observe("result", outcome(f))
    c.reach("deep")


def same_filter(c, a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("and", "or"):
        if len(a[1]) != len(b[1]):
            return False
        return c.all_of([same_filter(c, x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "not":
        return same_filter(c, a[1], b[1])
    if a[0] == "sub":
        if len(a[3]) != len(b[3]):
            return False
        for i in (2, 4):
            if (a[i] is None) != (b[i] is None):
                return False
            if a[i] is not None and not c.eq(a[i], b[i]):
                return False
        return c.all_of([c.eq(a[1], b[1])] +
                        [c.eq(x, y) for x, y in zip(a[3], b[3])])
    return c.all_of([c.eq(x, y) for x, y in zip(a[1:], b[1:])])


def leafs(f):
    if f[0] in ("and", "or"):
        out = []
        for g in f[1]:
            out += leafs(g)
        return out
    if f[0] == "not":
        return leafs(f[1])
    return [f]


def probe(c, f, want):
    """Matching agrees with the reference on property sets built from the
    filter's own keys and operands."""
    ls = leafs(want)
    props = []
    for l in ls[:2]:
        if l[0] in ("gt", "lt"):
            props.append((l[1], l[2] + c.choice("delta", [0, 1, -1])))
        elif l[0] == "eq":
            props.append((l[1], l[2]))
        elif l[0] == "present":
            props.append((l[1], "x"))
        else:
            v = (l[2] or "") + "".join([x for x in l[3]]) + (l[4] or "")
            props.append((l[1], v))
    k = c.choice("drop", list(range(len(props) + 1)))
    props = props[:k]
    c.check(c.eq(bool(f.match(rf.props_dict(props))),
                 rf.matches(c, want, props)),
            "matching disagrees with the grammar's structure")


# ---- C21 --------------------------------------------------------------

def leaf(c, kind, tag, klen, vlen, ints=(-999, 999)):
    key = c.string(tag + "k", klen)
    if kind == "present":
        return ("present", key)
    if kind == "eq":
        return ("eq", key, c.string(tag + "v", vlen))
    if kind in ("gt", "lt"):
        return (kind, key, c.int(tag + "i", ints[0], ints[1]))
    # kind is a substring shape such as "i*m*f", "*f", "i*"
    parts = kind.split("*")
    lit = []
    for i, p in enumerate(parts):
        lit.append(c.string("%s%d" % (tag, i), vlen if p else 0))
    return ("sub", key, lit[0] if parts[0] else None, lit[1:-1],
            lit[-1] if parts[-1] else None)


SUBS = ["i*", "*f", "i*f", "*m*", "i*m*", "*m*f", "i*m*f"]


def value(c, tag, kind):
    if kind == "int":
        return c.int(tag)
    if kind == "smallint":
        return c.int(tag, -99, 99)
    return c.string(tag, kind)


def same_on(c, f, g, props):
    d = rf.props_dict(props)
    return c.eq(bool(f.match(d)), bool(g.match(d)))


def roundtrip(c, kinds, klen, vlen, ptypes, wrap=None):
    """parse -> print -> parse is the identity (up to meaning)."""
    m = cut(c).load("paf.filter")
    ls = [leaf(c, k, "l%d" % i, klen, vlen) for i, k in enumerate(kinds)]
    f = ls[0] if wrap is None else (
        ("not", ls[0]) if wrap == "not" else (wrap, ls))
    src = rf.unparse(f)
    p = try_parse(c, m, src)
    c.check(p is not None, "rejects text of the grammar")
    txt = str(p)
    c.observe("text", txt)
    q = try_parse(c, m, txt)
    c.check(q is not None, "printed filter does not parse")
    c.check(c.eq(str(q), txt), "reprinted filter differs")
    props = []
    for i, t in enumerate(ptypes):
        props.append((c.string("pk%d" % i, klen), value(c, "pv%d" % i, t)))
    want = rf.matches(c, f, props)
    d = rf.props_dict(props)
    a = bool(p.match(d))
    c.check(c.eq(a, want), "matching differs from the filter's meaning")
    c.check(c.eq(bool(q.match(d)), a), "reparsed filter matches differently")
    c.observe("match", a)
    c.reach("match" if a else "no match")


def escape_text(c, n, role):
    """escape() makes any text usable as key, value or substring."""
    m = cut(c).load("paf.filter")
    s = c.string("s", n)
    e = m.escape(s)
    c.observe("escaped", e)
    if role == "key":
        f = try_parse(c, m, "(" + e + "=v)")
        other = c.string("o", n)
        c.check(f is not None, "escaped key does not parse")
        a = bool(f.match({other: {"v"}}))
    elif role == "value":
        f = try_parse(c, m, "(k=" + e + ")")
        other = c.string("o", n)
        c.check(f is not None, "escaped value does not parse")
        a = bool(f.match({"k": {other}}))
    else:
        f = try_parse(c, m, "(k=*" + e + "*)")
        other = c.string("o", n)
        c.check(f is not None, "escaped substring does not parse")
        a = bool(f.match({"k": {other}}))
    c.check(c.eq(a, c.eq(s, other)), "escaped text does not denote itself")
    c.reach("same" if a else "different")


# ---- C22 --------------------------------------------------------------

def match_leaf(c, kind, klen, vlen, ptypes, samekey):
    m = cut(c).load("paf.filter")
    f = leaf(c, kind, "l", klen, vlen)
    p = try_parse(c, m, rf.unparse(f))
    c.check(p is not None, "rejects text of the grammar")
    props = []
    for i, t in enumerate(ptypes):
        k = f[1] if samekey else c.string("pk%d" % i, klen)
        props.append((k, value(c, "pv%d" % i, t)))
    d = rf.props_dict(props)
    a = p.match(d)
    c.check(isinstance(a, bool), "match does not return a truth value")
    c.check(c.eq(a, rf.matches(c, f, props)),
            "matching differs from the documented meaning")
    c.observe("match", bool(a))
    c.reach("match" if a else "no match")


def match_tree(c, tree, values):
    """tree: nested tuples with leaf numbers; leaf i is (k<i>=v)."""
    m = cut(c).load("paf.filter")

    def build(t):
        if isinstance(t, int):
            if t % 2:
                return ("gt", "k%d" % t, t)
            return ("eq", "k%d" % t, "v")
        if t[0] == "not":
            return ("not", build(t[1]))
        return (t[0], [build(x) for x in t[1:]])
    f = build(tree)
    p = try_parse(c, m, rf.unparse(f))
    c.check(p is not None, "rejects text of the grammar")
    props = []
    for i in range(values):
        if i % 2:
            props.append(("k%d" % i, c.int("p%d" % i, 0, 9)))
        elif c.choice("has%d" % i, [True, False]):
            props.append(("k%d" % i, c.string("p%d" % i, 1)))
    a = p.match(rf.props_dict(props))
    c.check(c.eq(bool(a), rf.matches(c, f, props)),
            "matching differs from the documented meaning")
    c.observe("match", bool(a))
    c.reach("match" if a else "no match")
