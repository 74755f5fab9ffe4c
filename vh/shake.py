"""Handshake: before it, its outcome, and who may use an identity."""
from vh.world import World, MAX, hello_fields
from vh.hist import make_props


def request_fields(c, cmd, sym):
    """Well-formed arguments of a request."""
    if cmd == "publish":
        return {"service-id": c.int(sym + "sid", 0, MAX),
                "generation": c.int(sym + "gen", 0, MAX),
                "service-props": {"k": [c.int(sym + "val")]},
                "ttl": c.int(sym + "ttl", 0, MAX)}
    if cmd == "unpublish":
        return {"service-id": c.int(sym + "sid", 0, MAX)}
    if cmd == "subscribe":
        f = {"subscription-id": c.int(sym + "sub", 0, MAX)}
        if c.choice(sym + "filtered", [False, True]):
            f["filter"] = c.choice(sym + "filter", ["(k>5)", "(k", ""])
        return f
    if cmd == "unsubscribe":
        return {"subscription-id": c.int(sym + "sub", 0, MAX)}
    if cmd == "services" and c.choice(sym + "filtered", [False, True]):
        return {"filter": c.choice(sym + "filter", ["(k=*)", "(("])}
    return {}


def before(c, judge, cmds, version, prior):
    """Requests on a connection without a completed handshake.  `prior`: how
    the peer already failed to shake hands."""
    w = World(c, tuple(judge))
    o = w.client(9, "ux:o", version=version)
    w.subscribe(o, 7)
    w.publish(o, c.int("sid", 0, MAX), c.int("gen", 0, MAX),
              make_props(c, 0), c.int("ttl", 0, MAX))
    cid = c.int("cid", 0, MAX)
    c.assume(c.neg(c.eq(cid, 9)))
    p = w.arrive("ux:p")
    if prior == "version":
        w.hello(p, cid, 8, 9)
    elif prior == "taken":
        w.hello(p, 9, version, version)
    for cmd in cmds:
        attempt(w, p, cmd)
        w.list_services(o, ("C10",))
        w.list_subscriptions(o, ("C10",))
        w.list_clients(o, ("C10",))
    if p.alive() and prior != "taken":
        c.reach("still alive")
        w.hello(p, cid, version, version)
        w.ping(p)
        w.publish(p, c.int("sid2", 0, MAX), 1, [], 5, extra=("C10",))
        w.list_services(o, ("C10",))
        again(w, p, c.int("cid2", 0, MAX))
        w.ping(p)
        w.list_clients(o, ("C10",))


def again(w, p, cid):
    """Another hello on an established connection, offering anything."""
    lo, hi = w.c.int("again min", 0, MAX), w.c.int("again max", 0, MAX)
    w.c.assume(lo <= hi)
    w.hello(p, cid, lo, hi)


def attempt(w, p, cmd):
    c = w.c
    if p.gone:
        return
    r = w.request(p, cmd, request_fields(c, cmd, cmd + " "))
    w.run()
    w.collect()
    if cmd == "track" and p.closed():
        # not a command of the provisional version
        p.gone = True
        w.settle()
        return
    w.expect("C10", p.alive(), "connection dropped before the handshake")
    w.expect("C10", r.reply.kind == "fail" and
             r.reply.reason == "no-hello" and len(r.reply.msgs) == 1,
             "request before hello not answered with no-hello")
    c.reach("refused")
    w.settle()


def versions(c, judge, lo, hi, prior=None):
    """A domain limited to lo..hi; the client offers any range.  prior: how
    an attempt with any other range failed before."""
    w = World(c, tuple(judge), versions=(lo, hi))
    o = None
    if prior == "taken":
        o = w.client(1, "ux:o", version=hi)
    p = w.arrive("ux:p")
    if prior is not None:
        a, b = c.int("first min", 0, MAX), c.int("first max", 0, MAX)
        r = w.hello(p, 1, a, b)
        if p.cid is not None or p.gone:
            return
        c.reach("failed once")
    if o is not None:
        w.disconnect(o)
    a, b = c.int("min", 0, MAX), c.int("max", 0, MAX)
    r = w.hello(p, 1, a, b)
    c.observe("hello", [r.kind, r.reason])
    if p.cid is None:
        c.reach("refused")
        w.hello(p, 1, lo, hi)
        if p.cid is None:
            return
    c.reach("version %d" % p.version)
    again(w, p, 1)
    # formats and commands are those of the selected version
    w.publish(p, 5, 1, [("k", 1)], 10)
    w.list_clients(p, ("C11", "C03"))
    ta = w.request(p, "track", {})
    w.run()
    w.collect()
    if p.version == 2:
        w.expect("C11", p.closed() or ta.reply.kind == "fail",
                 "version 3 command accepted on a version 2 connection")
        if p.closed():
            w.lost(p)
    else:
        w.expect("C11", p.alive() and ta.reply.accepted,
                 "track refused on a version 3 connection")
        w.ping(p)
    w.collect()


ADDRS = [
    ("ux:a", {}),
    ("uxf:/run/b", {}),
    ("tcp:1.2.3.4:5", {}),
    ("tcp:1.2.3.4:6", {}),
    ("tcp:1.2.3.40:5", {}),
    ("tcp:[::1]:5", {}),
    ("tcp:[::1]:6", {}),
    ("tcp:[::2]:5", {}),
    ("tls:1.2.3.4:5", {}),
    ("tls:1.2.3.5:5", {}),
    ("tls:1.2.3.4:5", {"tls.peer_subject_key_id": b"\x01\xff"}),
    ("tls:9.9.9.9:5", {"tls.peer_subject_key_id": b"\x01\xff"}),
    ("tls:1.2.3.4:5", {"tls.peer_subject_key_id": b"\x01\x0f"}),
    ("tls:1.2.3.4:5", {"tls.peer_subject_key_id": b"\x11\x0f"}),
]


def host(c, name, kind):
    """The text of a numeric host address."""
    if kind == "v4":
        return "10." + c.string(name + "0", 1, "0123456789") + ".0." + \
            c.string(name + "1", 1, "123456789") + \
            c.string(name + "2", 1, "0123456789")
    h = "0123456789abcdef"
    return "[fe80::" + c.string(name + "0", 1, h) + ":" + \
        c.string(name + "1", 1, h) + "]"


def users(c, judge, kind, first, second, length=20, version=3):
    """An orphan's owner left.  May another connection take it over?  Two
    addresses alike but for any characters in the host, the port, and any
    byte of the subject key identifier."""
    w = World(c, tuple(judge))

    def address(name, how):
        port = str(c.int(name + " port", 0, 65535)) if how != "key" else "1"
        return "%s:%s:%s" % ("tls" if how in ("key", "none") else how,
                             host(c, name, kind) if how != "key" else
                             "10.0.0.1", port)

    def attrs(name, how):
        if how != "key":
            return {}
        raw = [1] * length
        raw[at] = c.int(name + " byte", 0, 255)
        return {"tls.peer_subject_key_id": c.blob(raw)}
    at = c.choice("position", list(range(length))) if first == "key" else 0
    p = w.arrive(address("a", first), attrs("a", first))
    w.hello(p, 1, version, version)
    w.publish(p, 1, 1, [], 50)
    w.disconnect(p)
    q = w.arrive(address("b", second), attrs("b", second))
    w.hello(q, 1 if c.choice("same client", [False, True]) else 2,
            version, version)
    if q.cid is not None:
        w.publish(q, 1, 2, [], 60, extra=("C12",))
    c.reach("same user" if p.user == q.user else "other user")


def identity(c, judge, first, script, version=2):
    """Two connections, any two addresses, any two client identities."""
    w = World(c, tuple(judge))
    o = w.client(9, "ux:o", version=version)
    a1 = ADDRS[first]
    a2 = c.choice("address", ADDRS)
    cid1, cid2 = c.int("cid1", 0, MAX), c.int("cid2", 0, MAX)
    c.assume(c.neg(c.eq(cid1, 9)))
    c.assume(c.neg(c.eq(cid2, 9)))
    p = w.arrive(a1[0], a1[1])
    w.hello(p, cid1, version, version)
    q = None
    for op in script.split(" "):
        if "|" in op:
            op = c.choice("step", op.split("|"))
        if op == "pub":
            w.publish(p, 1, c.int("gen", 0, MAX), [],
                      c.int("ttl", 0, 100))
        elif op == "unpub":
            w.unpublish(p, 1)
        elif op == "bye":
            w.disconnect(p)
        elif op == "back":
            p = w.arrive(a1[0], a1[1])
            w.hello(p, cid1, version, version)
        elif op == "wait":
            w.advance(c.real("dt", 0, 200))
        elif op == "q":
            q = w.arrive(a2[0], a2[1])
            w.hello(q, cid2, version, version)
        elif op == "retry":
            w.hello(q, cid2, version, version)
        elif op == "qpub":
            if q.cid is not None:
                w.publish(q, c.int("qsid", 0, MAX), 5, [], 50,
                          extra=("C12",))
        elif op == "qunpub":
            if q.cid is not None:
                w.unpublish(q, 1, extra=("C12",))
        elif op == "ping":
            w.ping(p)
    w.list_clients(o, ("C12",))
    w.list_services(o, ("C12",))
