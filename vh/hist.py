"""Scripted histories with symbolic arguments.

A script is a string of steps separated by blanks; `a|b|c` is a free choice
between steps.  A step is `<peer>.<operation>[:<options>]` or `wait`.
Arguments not fixed by an option are symbolic over their whole range."""
from vh.world import World, MAX

# letter -> (client id, address, attributes)
PEERS = {
    "A": (1, "ux:a", {}),
    "B": (2, "ux:b", {}),
    "C": (3, "ux:c", {}),
    "Q": (4, "ux:q", {}),
    "O": (9, "ux:o", {}),
    "X": (21, "tcp:10.0.0.9:5001", {}),
    "Y": (22, "tcp:10.0.0.9:5002", {}),
    "Z": (23, "tcp:10.0.0.8:5001", {}),
    "S": (31, "tls:10.0.0.9:6001",
          {"tls.peer_subject_key_id": b"\x01\x0a"}),
    "T": (32, "tls:10.0.0.7:6001",
          {"tls.peer_subject_key_id": b"\x01\x0a"}),
}

# text and reference structure
FILTERS = [
    (None, None),
    ("(k>5)", ("gt", "k", 5)),
    ("(!(k>5))", ("not", ("gt", "k", 5))),
    ("(&(k=*)(j<3))", ("and", [("present", "k"), ("lt", "j", 3)])),
    ("(k=x*)", ("sub", "k", "x", [], None)),
    ("(|(k=x)(k=7))", ("or", [("eq", "k", "x"), ("eq", "k", "7")])),
]

LISTING = ("C02", "C04", "C05", "C06", "C07", "C08", "C30")


def options(text):
    out = {}
    for ch in ("s", "g", "t", "v", "f", "i", "p", "k", "d", "n"):
        k = text.find(ch)
        if k >= 0:
            n = ""
            for d in text[k + 1:]:
                if d not in "0123456789":
                    break
                n += d
            out[ch] = int(n) if n != "" else 0
    return out


def make_props(c, kind, v=None):
    """0: one integer, 1: two keys, 2: a one-character string, 3: none,
    4: a key with a string and an integer value, 5: a one-digit string"""
    val = c.int("val") if v is None else v
    if kind == 0:
        return [("k", val)]
    if kind == 1:
        return [("k", val), ("j", c.int("val2"))]
    if kind == 2:
        return [("k", c.string("str", 1, "xy"))]
    if kind == 3:
        return []
    if kind == 5:
        return [("k", c.string("digit", 1, "0123456789"))]
    return [("k", c.string("str", 1, "xy")), ("k", val)]


class Hist:
    def __init__(self, c, judge, version=2, ttl_max=None, limited=False,
                 **world):
        self.c = c
        self.limited = limited
        self.w = World(c, judge, **world)
        self.version = version
        self.ttl_max = MAX if ttl_max is None else ttl_max
        self.peers = {}
        self.waiting = []
        self.crowd = []

    def sym(self, o, key, name, hi=MAX):
        if key in o:
            return o[key]
        return self.c.int(name, 0, hi)

    def step(self, tok):
        c, w = self.c, self.w
        limited = self.limited
        if "|" in tok:
            tok = c.choice("step", tok.split("|"))
        if tok == "-":
            return
        if tok.startswith("wait"):
            if ":" in tok:
                a, b = tok[5:].split("-")
                w.advance(c.real("dt", float(a), float(b)))
            else:
                w.advance(c.real("dt", 0, 200))
            return
        if tok == "crowd.bye":
            for p in self.crowd:
                w.disconnect(p)
            return
        who, op = tok.split(".")
        o = {}
        if ":" in op:
            op, opt = op.split(":")
            o = options(opt)
        if op == "flap":
            # comes back again and again, its service kept
            for i in range(12):
                p = self.peers.get(who)
                if p is None or p.gone or p.cid is None:
                    return
                if i % 3 != 1:
                    w.publish(p, 600, i // 2, [("k", i // 2)], 60)
                w.disconnect(p)
                self.come(who, o)
            return
        if op in ("hi", "come"):
            self.come(who, o, op == "hi")
            return
        p = self.peers.get(who)
        if p is None or p.gone:
            # not connected (any more): nothing to do
            if limited or op in ("shake", "early"):
                return
            c.assume(False)
        if op == "shake":
            v = o.get("v", self.version)
            w.hello(p, o.get("i", PEERS[who[0]][0]), v, v)
            return
        if op == "bye" or op == "err":
            w.disconnect(p, "close" if op == "bye" else 104)
            return
        if p.cid is None:
            # its hello was refused: it gives up
            if op == "early":
                w.early(p)
            return
        if op == "pub":
            w.publish(p, self.sym(o, "s", "sid"), self.sym(o, "g", "gen"),
                      make_props(c, o.get("p", 0), o.get("v")),
                      self.sym(o, "t", "ttl", self.ttl_max))
        elif op == "unpub":
            w.unpublish(p, self.sym(o, "s", "sid"))
        elif op == "sub":
            text, ref = FILTERS[o.get("f", 0)]
            w.subscribe(p, self.sym(o, "i", "sub"), text, ref)
        elif op == "unsub":
            w.unsubscribe(p, self.sym(o, "i", "sub"))
        elif op == "busy":
            for i in range(12):
                w.publish(p, 600 + i % 2, i, [("k", i)], 50)
                w.subscribe(p, 610)
                w.ping(p)
                w.unsubscribe(p, 610)
                if i % 4 == 3:
                    w.unpublish(p, 601)
        elif op in ("ping", "early"):
            w.ping(p)
        elif op == "ls":
            text, ref = FILTERS[o.get("f", 0)]
            w.list_services(p, LISTING, text, ref)
        elif op == "lsub":
            w.list_subscriptions(p, ("C03", "C05", "C07", "C30"))
        elif op == "lcl":
            w.list_clients(p, ("C03", "C12", "C30", "C34"))
        elif op == "track":
            w.track(p)
        elif op in ("query", "reply", "gossip"):
            w.inform(p, op)
        else:
            raise ValueError(tok)

    def come(self, who, o, hello=True):
        cid, addr, attrs = PEERS[who[0]]
        if "i" in o:
            cid = o["i"]
        if "n" in o:
            addr = "tcp:10.0.1.%d:5001" % o["n"]
        v = o.get("v", self.version)
        old = self.peers.get(who)
        if old is not None and not old.gone:
            self.c.assume(False)
        p = self.w.arrive(addr, attrs, self.w.doms[o.get("d", 0)],
                          o.get("k", 0))
        self.w.settle()
        if not p.accepted():
            # waits for a slot; says hello once it got one
            self.c.reach("not admitted")
            self.waiting.append((who, p, cid, v, hello))
            return
        if hello:
            self.w.hello(p, cid, v, v)
        self.peers[who] = p

    def admitted(self):
        for x in list(self.waiting):
            who, p, cid, v, hello = x
            if p.accepted():
                self.c.reach("admitted later")
                self.waiting.remove(x)
                if hello and not p.gone:
                    self.w.hello(p, cid, v, v)
                self.peers[who] = p


KINDS = {"c": "clients", "s": "services", "b": "subscriptions"}


def gather(h, n):
    """n clients with a service and a subscription each."""
    w = h.w
    for i in range(n):
        p = w.client(1000 + i, "ux:x%d" % i, version=2 + i % 2)
        h.crowd.append(p)
        w.publish(p, 2000 + i, i, [("c", i), ("d", "t%d" % (i % 3))],
                  10 + (i * 7) % n)
        w.subscribe(p, 3000 + i, "(c=%d)" % (i + 1), ("eq", "c", str(i + 1)))


def run(c, judge, script, version=2, ttl_max=None, limits="", crowd=0,
        **world):
    """limits: pairs of u(ser) or t(otal) and c(lients), s(ervices) or
    b (subscriptions), each made symbolic"""
    lims = {"u": {}, "t": {}}
    for x in limits.split(","):
        if x != "":
            base = crowd if x[0] == "t" else 0
            lims[x[0]][KINDS[x[1]]] = c.int("limit " + x, base, base + 3)
    h = Hist(c, tuple(judge), version, ttl_max, limits != "", user_limits=lims["u"],
             total_limits=lims["t"], **world)
    gather(h, crowd)
    for tok in script.split(" "):
        h.step(tok)
        h.admitted()
