"""Decoding and encoding of single messages."""
import json as real_json

import psx.env as penv
from psx.lazy import LazyDict, ABSENT

MAX = (1 << 63) - 1
BIG = 1 << 66

FIELD = {
    "client-id": "I", "protocol-minimum-version": "I",
    "protocol-maximum-version": "I", "protocol-version": "I",
    "track-type": "S", "service-id": "I", "generation": "I",
    "service-props": "P", "ttl": "I", "orphan-since": "N",
    "subscription-id": "I", "filter": "S", "client-address": "S",
    "time": "I", "idle": "N", "latency": "N", "match-type": "S",
    "fail-reason": "S",
}
TYPES = ("request", "accept", "notify", "inform", "complete", "fail")
F = ((), ("fail-reason",))
E = ((), ())
HELLO = {"request": (("client-id", "protocol-minimum-version",
                      "protocol-maximum-version"), ()),
         "complete": (("protocol-version",), ()), "fail": F}
RECORD = ("generation", "service-props", "ttl", "client-id")
SPEC2 = {
    "hello": HELLO,
    "subscribe": {"request": (("subscription-id",), ("filter",)),
                  "accept": E,
                  "notify": (("match-type", "service-id"),
                             RECORD + ("orphan-since",)),
                  "complete": E, "fail": F},
    "unsubscribe": {"request": (("subscription-id",), ()), "complete": E,
                    "fail": F},
    "subscriptions": {"request": E, "accept": E,
                      "notify": (("subscription-id", "client-id"),
                                 ("filter",)),
                      "complete": E, "fail": F},
    "services": {"request": ((), ("filter",)), "accept": E,
                 "notify": (("service-id",) + RECORD, ("orphan-since",)),
                 "complete": E, "fail": F},
    "publish": {"request": (("service-id", "generation", "service-props",
                             "ttl"), ()), "complete": E, "fail": F},
    "unpublish": {"request": (("service-id",), ()), "complete": E,
                  "fail": F},
    "ping": {"request": E, "complete": E, "fail": F},
    "clients": {"request": E, "accept": E,
                "notify": (("client-id", "client-address", "time"), ()),
                "complete": E, "fail": F},
}
SPEC3 = dict(SPEC2)
SPEC3["clients"] = dict(SPEC2["clients"])
SPEC3["clients"]["notify"] = (("client-id", "client-address", "time", "idle",
                               "protocol-version"), ("latency",))
SPEC3["track"] = {"request": E, "accept": E, "notify": (("track-type",), ()),
                  "inform": (("track-type",), ()), "complete": E, "fail": F}
SPEC = {2: SPEC2, 3: SPEC3}


def cases():
    return [(v, cmd, t) for v in (2, 3) for cmd in SPEC[v]
            for t in SPEC[v][cmd]]


class Raw:
    pass


def literal(text, value):
    return penv.Raw(text, value)


def junk(c, name):
    """Any JSON value that is not what a field expects, more or less."""
    return [
        lambda: None, lambda: True, lambda: False,
        lambda: c.int(name + "/any", -BIG, BIG), lambda: 0.5, lambda: -0.5,
        lambda: "x", lambda: "", lambda: "1", lambda: [], lambda: ["x"],
        lambda: {}, lambda: {"k": ["x"]},
        lambda: literal("NaN", float("nan")),
        lambda: literal("Infinity", float("inf")),
        lambda: literal("-Infinity", -float("inf")),
        lambda: literal("1e999", float("inf")),
        lambda: literal("-1e999", -float("inf")),
    ]


def props_values(c, name):
    def elem():
        return c.choice(name + "/elem", [
            lambda: "s", lambda: "", lambda: c.int(name + "/elem", -BIG, BIG),
            lambda: None, lambda: True, lambda: False, lambda: 0.5,
            lambda: [], lambda: ["s"], lambda: {},
            lambda: literal("NaN", float("nan")),
            lambda: literal("-1e999", -float("inf"))])()

    return [
        lambda: {}, lambda: {"k": []}, lambda: {"k": ["s"], "": [1]},
        lambda: {"k": [elem()]}, lambda: {"a": ["x", 7], "k": [elem(), "y"]},
        lambda: {"k": None}, lambda: {"k": "s"}, lambda: {"k": 5},
        lambda: {"k": {}}, lambda: {"k": {"s": 1}}, lambda: {"k": True},
    ]


def slot(c, name, kind, optional, free=True):
    """A thunk deciding the value of a field (a valid one unless free)."""
    def thunk():
        if not free:
            opts = [{"I": lambda: c.int(name + "/int", 0, MAX),
                     "N": lambda: c.real(name + "/real", 0, 1 << 40),
                     "S": lambda: c.string(name + "/str", 1),
                     "P": lambda: {"k": ["s", c.int(name + "/elem")]}}[kind]]
            if optional:
                opts.append(lambda: ABSENT)
            return c.choice(name, opts)()
        good = {"I": [lambda: c.int(name + "/int", 0, MAX)],
                "N": [lambda: c.int(name + "/int", 0, BIG),
                      lambda: c.real(name + "/real", 0, 1 << 40)],
                "S": [lambda: c.string(name + "/str", 1)],
                "P": props_values(c, name)}[kind]
        opts = good + [lambda: ABSENT] + junk(c, name)
        return c.choice(name, opts)()
    return thunk


def absent_or(c, name, values):
    def thunk():
        return c.choice(name, [lambda: ABSENT] + values)()
    return thunk


def is_integer(c, v):
    """bool or symbolic"""
    return isinstance(v, int) and not isinstance(v, bool)


def good_value(c, kind, v):
    if isinstance(v, penv.Raw):
        return False
    if kind == "S":
        return isinstance(v, str)
    if kind == "I":
        return is_integer(c, v) and c.all_of([v >= 0, v <= MAX])
    if kind == "N":
        return (is_integer(c, v) or isinstance(v, float)) and v >= 0
    if not isinstance(v, dict):
        return False
    for k, xs in v.items():
        if not isinstance(xs, list):
            return False
        for x in xs:
            if isinstance(x, penv.Raw) or \
               not (isinstance(x, str) or is_integer(c, x)):
                return False
    return True


def same_value(c, kind, got, v):
    if kind != "P":
        # a number must not silently become another type
        return c.eq(got, v)
    if not isinstance(got, dict):
        return False
    if sorted(got.keys()) != sorted([k for k in v if v[k] != []]) and \
       sorted(got.keys()) != sorted(v.keys()):
        return False
    for k, xs in v.items():
        gs = list(got[k]) if k in got else []
        for x in xs:
            if not c.any_of([c.eq(x, g) for g in gs]):
                return False
        for g in gs:
            if not c.any_of([c.eq(x, g) for x in xs]):
                return False
    return True


class Decoder:
    def __init__(self, c):
        self.c = c
        self.env = penv.Env(c)
        self.m = c.load_cut(self.env.stubs())
        self.proto = self.m.load("paf.proto")

    def parse(self, version, wire):
        try:
            return self.proto.Message.parse(version, wire)
        except self.proto.ProtocolError as e:
            text = str(e)
            return None


def decode(c, version, cmd, mtype, free=1):
    """A message whose header is valid; `free` of its fields are anything,
    the others valid."""
    d = Decoder(c)
    must, may = SPEC[version or 2][cmd][mtype]
    extra = [f for f in ("latency", "filter") if f not in must + may][0]
    names = ["ta-id"] + list(must + may) + [extra]
    pick = []
    for i in range(free):
        n = c.choice("free field", names)
        names = names[names.index(n) + 1:]
        pick.append(n)
        if names == []:
            break
    slots = [("ta-cmd", lambda: cmd),
             ("ta-id", slot(c, "ta-id", "I", False, "ta-id" in pick)),
             ("msg-type", lambda: mtype)]
    for f in must + may:
        slots.append((f, slot(c, f, FIELD[f], f in may, f in pick)))
    if extra in pick:
        slots.append((extra, absent_or(c, extra, [lambda: "x",
                                                  lambda: None])))
        slots.append(("unknown", absent_or(c, "unknown", [lambda: 1])))
    judge(d, LazyDict(slots), version, cmd, mtype, must, may)


def judge(d, tree, version, cmd, mtype, must, may):
    c = d.c
    kinds = {"ta-id": "I"}
    for f in must + may:
        kinds[f] = FIELD[f]

    def good(name):
        v = tree.seen[name]
        if name in ("ta-cmd", "msg-type"):
            return True
        if name not in kinds:
            return v is ABSENT
        if v is ABSENT:
            return name in may
        return good_value(c, kinds[name], v)

    if not c.symbolic:
        tree.decide_all()
        wire = d.env.encode(dict(tree))
    else:
        wire = d.env.encode(tree)
    msg = d.parse(version, wire)
    if msg is None:
        for name in list(tree.seen):
            if not good(name):
                c.reach("rejected")
                c.observe("rejected", True)
                return
        tree.decide_all()
        c.check(not c.all_of([good(n) for n in tree.seen]),
                "valid message rejected")
        c.observe("rejected", True)
        return
    tree.decide_all()
    for n in tree.seen:
        c.check(good(n), "invalid message accepted", n)
    c.reach("accepted")
    c.check(c.eq(msg.cmd(), cmd), "wrong command")
    c.check(c.eq(msg.msg_type, mtype), "wrong message type")
    c.check(c.eq(msg.ta_id, tree.seen["ta-id"]), "wrong transaction identity")
    c.check(len(msg.args) == len(must), "wrong number of arguments")
    for i, f in enumerate(must):
        c.check(same_value(c, FIELD[f], msg.args[i], tree.seen[f]),
                "mandatory field altered", f)
    n = 0
    for f in may:
        py = f.replace("-", "_")
        v = tree.seen[f]
        if v is ABSENT:
            c.check(msg.optargs.get(py) is None, "field out of nothing", f)
        else:
            n += 1
            c.check(py in msg.optargs and
                    same_value(c, FIELD[f], msg.optargs[py], v),
                    "optional field altered", f)
    c.check(len([k for k in msg.optargs if msg.optargs[k] is not None]) == n,
            "unexpected optional fields")
    c.observe("accepted", [msg.ta_id, n])


def names(c, name, good):
    """Header strings: valid ones, near misses and anything else."""
    def thunk():
        opts = [lambda g=g: g for g in good]
        opts += [lambda: ABSENT, lambda: c.string(name + "/1", 1),
                 lambda: c.string(name + "/4", 4), lambda: good[0] + " ",
                 lambda: good[0].upper()] + junk(c, name)
        return c.choice(name, opts)()
    return thunk


def header(c, version):
    """A message without fields whose header is anything."""
    d = Decoder(c)
    cmds = list(SPEC[3])
    tree = LazyDict([("ta-cmd", names(c, "ta-cmd", cmds)),
                     ("ta-id", slot(c, "ta-id", "I", False)),
                     ("msg-type", names(c, "msg-type", TYPES)),
                     ("unknown", absent_or(c, "unknown", [lambda: 1]))])
    if not c.symbolic:
        tree.decide_all()
        wire = d.env.encode(dict(tree))
    else:
        wire = d.env.encode(tree)
    msg = d.parse(version, wire)

    def known(v, options):
        if not isinstance(v, str) or isinstance(v, penv.Raw):
            return None
        for o in options:
            if c.eq(v, o):
                return o
        return None

    def bad():
        """True, False or None when nothing can be said yet."""
        cmd = mtype = None
        for n, v in tree.seen.items():
            if n == "ta-cmd":
                cmd = known(v, SPEC[version or 2])
                if cmd is None:
                    return True
            elif n == "msg-type":
                mtype = known(v, TYPES)
                if mtype is None:
                    return True
            elif n == "ta-id":
                if v is ABSENT or not good_value(c, "I", v):
                    return True
            elif v is not ABSENT:
                return True
        if cmd is not None and mtype is not None:
            if mtype in SPEC[version or 2][cmd]:
                return SPEC[version or 2][cmd][mtype][0] != ()
            return None     # a type this command does not use: either way
        return False

    if msg is None:
        b = bad()
        if not b and b is not None:
            tree.decide_all()
            b = bad()
        c.check(b is not False, "valid message rejected")
        c.reach("rejected")
        c.observe("rejected", True)
    else:
        tree.decide_all()
        c.check(bad() is not True, "invalid message accepted")
        c.reach("accepted")
        c.check(c.eq(msg.cmd(), tree.seen["ta-cmd"]), "wrong command")
        c.check(c.eq(msg.ta_id, tree.seen["ta-id"]), "wrong transaction")
        c.check(c.eq(msg.msg_type, tree.seen["msg-type"]), "wrong type")
        c.observe("accepted", msg.ta_id)


def toplevel(c, version):
    """Documents that are no objects, and no documents at all."""
    d = Decoder(c)
    k = c.choice("document", ["utf8", "json", "deep"] + junk(c, "top"))
    if isinstance(k, str):
        wire = d.env.fault(k)
    else:
        wire = d.env.encode(k())
    msg = d.parse(version, wire)
    c.check(msg is None, "invalid message accepted")
    c.reach("rejected")


# beyond what symbolic strings are made of: half a surrogate pair, which JSON
# escapes can express, and characters outside the basic plane
ODD = "\ud800 \u20ac \U0001f600"


def spelling(c, version):
    """Valid messages, written in the ways JSON can be written."""
    d = Decoder(c)
    text = c.choice("text", ["\u00e9", "\u20ac\U0001f600", "\ud83d",
                             "a\"\\/\b\n\u2028"])
    kw = c.choice("style", [{}, {"indent": 2}, {"separators": (",", ":")},
                            {"sort_keys": True}])
    raw = c.choice("raw", [False, True])
    if raw and text == "\ud83d":
        c.assume(False)
    tree = {"ta-cmd": "publish", "ta-id": 7, "msg-type": "request",
            "service-id": 1, "generation": 2, "ttl": 3,
            "service-props": {text: [text, 4]}}
    text = real_json.dumps(tree, ensure_ascii=not raw, **kw)
    if c.choice("blanks", [False, True]):
        text = " \r\n\t%s\n" % text
    msg = d.parse(version, text.encode("utf-8"))
    c.check(msg is not None, "valid message rejected")
    want = [1, 2, tree["service-props"], 3]
    c.check(len(msg.args) == 4 and
            all([same_value(c, "P" if i == 2 else "I", msg.args[i], want[i])
                 for i in range(4)]), "mandatory field altered")
    c.reach("accepted")


# ---- C16 --------------------------------------------------------------

def some_value(c, f, small=False):
    kind = FIELD[f]
    if kind == "I":
        return c.int(f, 0, MAX)
    if kind == "N":
        if c.choice(f + " float", [False, True]):
            return c.real(f, 0, 1 << 40, 1024)
        return c.int(f, 0, MAX)
    if kind == "S":
        n = c.choice(f + " length", [0, 1, 2, "odd"])
        if n == "odd":
            return ODD
        return c.string(f, n)
    return c.choice(f, [
        lambda: {}, lambda: {"k": {c.int(f)}},
        lambda: {"k": {c.string(f, 1), c.int(f)}, "": {""}},
        lambda: {"a": {"x"}, "b": {0, "0"}},
        lambda: {ODD: {ODD, 1}}])()


def roundtrip(c, version, cmd, mtype):
    d = Decoder(c)
    must, may = SPEC[version][cmd][mtype]
    ta_type = d.proto.lookup_type(version, cmd)
    ta_id = c.int("ta-id", 0, MAX)
    args = [some_value(c, f) for f in must]
    given = {}
    optargs = {}
    for f in may:
        k = c.choice(f + " given", ["yes", "no", "none"])
        if k == "yes":
            given[f] = some_value(c, f)
            optargs[f.replace("-", "_")] = given[f]
        elif k == "none":
            optargs[f.replace("-", "_")] = None
    before = dict(optargs)
    m = d.proto.Message(ta_type, ta_id, mtype, tuple(args), optargs)
    wire = m.to_wire()
    tree = d.env.decode(wire)
    c.check(c.eq(d.env.decode(m.to_wire()), tree),
            "encoded differently the second time")
    want = {"ta-cmd": cmd, "ta-id": ta_id, "msg-type": mtype}
    for i, f in enumerate(must):
        want[f] = args[i]
    for f in given:
        want[f] = given[f]
    c.check(isinstance(tree, dict) and sorted(tree.keys()) ==
            sorted(want.keys()), "encoding has other fields than given")
    for f in want:
        if f == "service-props":
            c.check(wire_form(c, tree[f], want[f]), "properties misencoded")
        else:
            c.check(c.eq(tree[f], want[f]), "field misencoded", f)
    msg = d.parse(version, wire)
    c.check(msg is not None, "own message rejected")
    c.check(c.all_of([c.eq(msg.cmd(), cmd), c.eq(msg.ta_id, ta_id),
                      c.eq(msg.msg_type, mtype)]), "header altered")
    c.check(len(msg.args) == len(must), "arguments altered")
    for i, f in enumerate(must):
        c.check(same_obj(c, msg.args[i], args[i]), "argument altered", f)
    for f in may:
        py = f.replace("-", "_")
        if f in given:
            c.check(py in msg.optargs and
                    same_obj(c, msg.optargs[py], given[f]),
                    "optional argument altered", f)
        else:
            c.check(msg.optargs.get(py) is None, "argument out of nothing")
    c.reach("survived")
    c.observe("sent", [msg.ta_id, len(given)])
    c.check(sorted(before.keys()) == sorted(optargs.keys()),
            "encoding consumes the caller's arguments")
    # nothing of it is left in the next one
    other = d.proto.Message(ta_type, 7, mtype, tuple(args), {}).to_wire()
    tree = d.env.decode(other)
    c.check(c.eq(tree["ta-id"], 7) and len(tree) == 3 + len(must),
            "message carries fields of an earlier one")
    nxt = d.parse(version, other)
    c.check(nxt is not None and c.eq(nxt.ta_id, 7) and
            c.eq(msg.ta_id, ta_id), "message altered by a later one")
    for f in may:
        py = f.replace("-", "_")
        c.check(nxt.optargs.get(py) is None,
                "optional argument of an earlier message")
        if f in given:
            c.check(py in msg.optargs and
                    same_obj(c, msg.optargs[py], given[f]),
                    "optional argument altered by a later message", f)


def wire_form(c, tree, props):
    if not isinstance(tree, dict):
        return False
    if sorted(tree.keys()) != sorted(props.keys()):
        return False
    for k in props:
        if not isinstance(tree[k], list) or len(tree[k]) != len(props[k]):
            return False
        for x in props[k]:
            if not c.any_of([c.eq(x, y) for y in tree[k]]):
                return False
    return True


def same_obj(c, got, want):
    if not isinstance(want, dict):
        return c.eq(got, want)
    if not isinstance(got, dict) or \
       sorted(got.keys()) != sorted(want.keys()):
        return False
    for k in want:
        if len(got[k]) != len(want[k]):
            return False
        for x in want[k]:
            if not c.any_of([c.eq(x, y) for y in got[k]]):
                return False
    return True
