"""Independent reference for the filter language (protocol specification,
section "Filter Representation").

A filter is a tuple:
  ("present", key) ("eq", key, text) ("gt"|"lt", key, int)
  ("sub", key, initial|None, [middle...], final|None)
  ("not", f) ("and"|"or", [f...])
"""

SPECIAL = "()*\\&|=<>"


class Bad(Exception):
    """Not derivable from the grammar."""


class Liberal(Exception):
    """Outside the grammar, but a parser may accept it (integer spelling,
    unescaped exclamation mark)."""


class Rd:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.n = len(s)
        self.liberal = False

    def peek(self):
        if self.i >= self.n:
            raise Bad()
        return self.s[self.i]

    def at(self, ch):
        return self.peek() == ch

    def need(self, ch):
        if not self.at(ch):
            raise Bad()
        self.i += 1

    def text(self):
        out = ""
        while True:
            ch = self.peek()
            if ch == "\\":
                self.i += 1
                ch = self.peek()
                if ch in SPECIAL or ch == "!":
                    out += ch
                    self.i += 1
                else:
                    raise Bad()
            elif ch in SPECIAL:
                return out
            else:
                if ch == "!":
                    self.liberal = True
                out += ch
                self.i += 1


def integer(rd, t):
    if len(t) == 0:
        raise Bad()
    neg = t[0] == "-"
    d = t[1:] if neg else t
    if len(d) == 0:
        raise Bad()
    canonical = True
    v = 0
    for ch in d:
        if ch in "0123456789":
            v = v * 10 + (ord(ch) - 48)
        else:
            canonical = False
    if canonical and (len(d) == 1 or d[0] != "0"):
        return -v if neg else v
    # not an integer of the grammar: definitely rejected unless Python's
    # liberal integer syntax admits it
    for ch in t:
        if not (ch in "0123456789+-_" or ch.isdigit() or ch.isspace()):
            raise Bad()
    if t[0].isspace() or t[-1].isspace():
        raise Bad()
    raise Liberal()


def comp(rd):
    if rd.at("&") or rd.at("|"):
        op = "and" if rd.at("&") else "or"
        rd.i += 1
        fs = []
        while not rd.at(")"):
            fs.append(flt(rd))
        if len(fs) < 2:
            raise Bad()
        return (op, fs)
    if rd.at("!"):
        rd.i += 1
        return ("not", flt(rd))
    key = rd.text()
    if len(key) == 0:
        raise Bad()
    if rd.at("="):
        rd.i += 1
        first = rd.text()
        if not rd.at("*"):
            if len(first) == 0:
                raise Bad()
            return ("eq", key, first)
        rd.i += 1
        mid = []
        while True:
            t = rd.text()
            if not rd.at("*"):
                break
            if len(t) == 0:
                raise Bad()
            rd.i += 1
            mid.append(t)
        if len(first) == 0 and not mid and len(t) == 0:
            return ("present", key)
        return ("sub", key, first if len(first) else None, mid,
                t if len(t) else None)
    if rd.at(">") or rd.at("<"):
        op = "gt" if rd.at(">") else "lt"
        rd.i += 1
        return (op, key, integer(rd, rd.text()))
    raise Bad()


def flt(rd):
    rd.need("(")
    f = comp(rd)
    rd.need(")")
    return f


def parse(s):
    """-> (filter, liberal?)"""
    rd = Rd(s)
    f = flt(rd)
    if rd.i != rd.n:
        raise Bad()
    return f, rd.liberal


def esc(t):
    out = ""
    for ch in t:
        if ch in SPECIAL or ch == "!":
            out += "\\"
        out += ch
    return out


# ---- matching ---------------------------------------------------------

def is_int(v):
    return isinstance(v, int)


def piece_match(c, v, initial, mid, final):
    """Does text v begin with initial, contain mid in order without overlap
    and end with final?"""
    n = len(v)
    lo = 0
    conds = []
    if initial is not None:
        if n < len(initial):
            return False
        conds.append(v[:len(initial)] == initial)
        lo = len(initial)
    hi = n
    if final is not None:
        hi = n - len(final)
        if hi < lo:
            return False
        conds.append(v[hi:] == final)
    conds.append(place(c, v, lo, hi, mid))
    return c.all_of(conds)


def place(c, v, lo, hi, mid):
    if not mid:
        return True
    m = mid[0]
    alts = []
    for i in range(lo, hi - len(m) + 1):
        alts.append(c.all_of([v[i:i + len(m)] == m,
                              place(c, v, i + len(m), hi, mid[1:])]))
    return c.any_of(alts)


def matches(c, f, props):
    """props: list of (key, value); the value is a string or an integer."""
    k = f[0]
    if k == "not":
        return c.neg(matches(c, f[1], props))
    if k == "and":
        return c.all_of([matches(c, g, props) for g in f[1]])
    if k == "or":
        return c.any_of([matches(c, g, props) for g in f[1]])
    alts = []
    for key, v in props:
        same = c.eq(key, f[1])
        if k == "present":
            alts.append(same)
        elif k == "eq":
            if is_int(v):
                alts.append(c.all_of([same, c.eq(str(v), f[2])]))
            else:
                alts.append(c.all_of([same, c.eq(v, f[2])]))
        elif k == "gt":
            if is_int(v):
                alts.append(c.all_of([same, v > f[2]]))
        elif k == "lt":
            if is_int(v):
                alts.append(c.all_of([same, v < f[2]]))
        elif k == "sub":
            if not is_int(v):
                alts.append(c.all_of([same, piece_match(c, v, f[2], f[3],
                                                        f[4])]))
    return c.any_of(alts)


def unparse(f):
    """Some text of the grammar denoting f."""
    k = f[0]
    if k == "not":
        return "(!" + unparse(f[1]) + ")"
    if k in ("and", "or"):
        return "(" + ("&" if k == "and" else "|") + \
            "".join([unparse(g) for g in f[1]]) + ")"
    if k == "present":
        return "(" + esc(f[1]) + "=*)"
    if k == "eq":
        return "(" + esc(f[1]) + "=" + esc(f[2]) + ")"
    if k in ("gt", "lt"):
        return "(" + esc(f[1]) + (">" if k == "gt" else "<") + \
            str(f[2]) + ")"
    s = "(" + esc(f[1]) + "="
    if f[2] is not None:
        s += esc(f[2])
    s += "*"
    for m in f[3]:
        s += esc(m) + "*"
    if f[4] is not None:
        s += esc(f[4])
    return s + ")"


def props_dict(props):
    d = {}
    for k, v in props:
        if k in d:
            d[k].add(v)
        else:
            d[k] = {v}
    return d
