"""Peers that break the rules, and connections that break."""
import psx.env as penv
from vh.world import World, MAX, hello_fields
from vh.hist import make_props
import vh.codec as codec
from vh.codec import SPEC, FIELD, TYPES, ABSENT

J = ("C13",)


class Scene:
    """An observer O, a bystander A and the hostile peer P."""

    def __init__(self, c, judge, version, state, addr="ux:p", attrs=None,
                 **world):
        self.c = c
        self.version = version
        self.state = state
        w = self.w = World(c, tuple(judge), **world)
        self.o = w.client(9, "ux:o", version=version)
        w.subscribe(self.o, 90)
        self.a = w.client(5, "ux:a", version=5 - version)
        w.publish(self.a, 50, 3, [("k", 1)], 30)
        w.subscribe(self.a, 51, "(k=*)", ("present", "k"))
        p = self.p = w.arrive(addr, attrs)
        self.sub_ta = self.track_ta = None
        self.cid = 7
        if state == "fresh":
            return
        w.hello(p, self.cid, version, version)
        if state == "busy":
            w.publish(p, 70, 1, [("k", 2)], c.int("ttl", 0, MAX))
            w.subscribe(p, 71, "(k>1)", ("gt", "k", 1))
            self.sub_ta = p.tas[-1].ta_id
            if version == 3:
                ta = w.request(p, "track", {})
                w.run()
                w.collect()
                self.track_ta = ta.ta_id

    def judge_drop(self, must_react=True):
        """P did something; it was answered or dropped."""
        w, p = self.w, self.p
        before = len(p.conn().outbox) if p.accepted() else 0
        w.run()
        if p.closed():
            self.c.reach("dropped")
            w.lost(p)
        elif must_react:
            w.expect("C13", len(p.conn().outbox) > before,
                     "message neither answered nor its sender dropped")
        w.settle()

    def after(self):
        """Everybody else is as before; P lost at most itself."""
        w, p, o, a = self.w, self.p, self.o, self.a
        w.list_services(o, J)
        w.list_subscriptions(o, J)
        w.list_clients(o, J)
        w.ping(a)
        w.publish(a, 50, 4, [("k", 3)], 30, extra=J)
        w.unpublish(a, 50, extra=J)
        if p.gone:
            # its identity is free again
            q = w.arrive("ux:p")
            w.hello(q, self.cid, 2, 2)
            w.expect(J, q.cid is not None, "identity not free again")
            w.ping(q)
        elif p.cid is not None:
            w.ping(p)
        w.list_services(o, J)
        w.list_clients(o, J)


def field(c, judge, version, cmd, state, short=False):
    """A request with one field that is not what it should be."""
    s = Scene(c, judge, version, state)
    must, may = SPEC[version][cmd]["request"]
    free = c.choice("bad field", ["ta-id"] + list(must + may) + ["unknown"])
    tree = {"ta-cmd": cmd, "msg-type": "request"}
    bad = free == "unknown"
    for f in ("ta-id",) + must + may:
        kind = "I" if f == "ta-id" else FIELD[f]
        if f != free:
            if f not in may:
                tree[f] = {"I": 77, "S": "(k=1)", "P": {"k": ["s", 1]}}[kind]
            continue
        v = codec.slot(c, f, kind, f in may)()
        if v is ABSENT:
            bad = f not in may
        else:
            tree[f] = v
            bad = not codec.good_value(c, kind, v)
    if free == "unknown":
        tree["unknown"] = 1
    c.assume(bad)
    s.p.send_raw(tree)
    s.judge_drop()
    s.after()


def sample(c, f):
    kind = FIELD[f]
    if kind == "I":
        return c.int(f, 0, MAX)
    if kind == "S":
        if f == "track-type":
            return c.choice(f, ["query", "reply", "x"])
        return "(k=1)"
    if kind == "N":
        return 1.5
    return {"k": [c.int(f)]}


def kind(c, judge, version, state, mtype):
    """A well-formed message of a type out of place, or with the identity of
    a transaction that is open for another purpose."""
    s = Scene(c, judge, version, state)
    cmd = c.choice("cmd", list(SPEC[version]))
    ids = [77, 0]
    if s.sub_ta is not None:
        ids.append(s.sub_ta)
    if s.track_ta is not None:
        ids.append(s.track_ta)
    ta_id = c.choice("ta-id", ids)
    open_ids = [x for x in (s.sub_ta, s.track_ta) if x is not None]
    if mtype == "request" and ta_id not in open_ids:
        c.assume(False)         # a plain request
    if cmd == "track" and mtype == "inform" and ta_id == s.track_ta and \
       s.track_ta is not None:
        c.assume(False)         # C34
    tree = {"ta-cmd": cmd, "ta-id": ta_id, "msg-type": mtype}
    must, may = SPEC[version][cmd].get(mtype, ((), ()))
    for f in must:
        tree[f] = sample(c, f)
    if c.choice("optional", [False, True]):
        for f in may:
            tree[f] = sample(c, f)
    s.p.send_raw(tree)
    s.judge_drop()
    s.after()


def document(c, judge, version, state):
    """Not a message at all."""
    s = Scene(c, judge, version, state)
    k = c.choice("document", ["utf8", "json", "deep", "cmd", "type"] +
                 codec.junk(c, "top"))
    if k == "cmd" or k == "type":
        tree = {"ta-cmd": "ping", "ta-id": 77, "msg-type": "request"}
        f = "ta-cmd" if k == "cmd" else "msg-type"
        v = c.choice("header", [lambda: ABSENT,
                                lambda: c.string("header/str", 4)] +
                     codec.junk(c, "header"))()
        if v is ABSENT:
            del tree[f]
        else:
            if isinstance(v, str) and not isinstance(v, penv.Raw):
                for x in (SPEC[3] if k == "cmd" else ("request", "fail")):
                    c.assume(c.neg(c.eq(v, x)))
            tree[f] = v
        s.p.send_raw(tree)
    elif isinstance(k, str):
        s.p.push(s.w.env.fault(k))
    else:
        s.p.push(s.w.env.encode(k()))
    s.judge_drop()
    s.after()


def arguments(c, judge, version, state):
    """Valid messages with unusual arguments are answered."""
    s = Scene(c, judge, version, state)
    w, p = s.w, s.p
    what = c.choice("what", ["hello", "filter", "list", "publish", "own",
                             "foreign", "odd filter"])
    if state == "fresh" and what != "hello":
        c.assume(False)
    if what == "odd filter":
        w.subscribe(p, c.int("sub", 0, MAX), "(k=%s)" % codec.ODD,
                    ("eq", "k", codec.ODD))
    elif what == "hello":
        w.hello(p, c.int("cid", 0, MAX), c.int("min", 0, MAX),
                c.int("max", 0, MAX))
        if p.cid is not None:
            s.cid = p.cid
        elif p.cid is None:
            c.reach("refused")
    elif what == "filter":
        text = c.choice("filter", ["", "(", "(a", "(&)", "(a=b)x", "\0",
                                   "(a>x)", "(!(a=b)", "(((((((",
                                   codec.ODD])
        w.subscribe(p, c.int("sub", 0, MAX), text, bad=True)
    elif what == "list":
        r = w.call(p, "services", {"filter": c.choice(
            "filter", ["", "(", "a=b", "(a=)", "(a=b))"])})
        w.expect(J, r.kind == "fail" and
                 r.reason == "invalid-filter-syntax",
                 "bad filter not refused")
    elif what == "publish":
        n = c.choice("props", [0, 1, 2, 3, 4])
        props = [[], [("", ""), ("k", c.int("val")), ("k", "1")],
                 [("k", c.string("str", 2)), ("", c.int("val"))],
                 [(codec.ODD, codec.ODD)],
                 [("k", codec.ODD[:1]), ("\0", "\0")]][n]
        w.publish(p, c.int("sid", 0, MAX), c.int("gen", 0, MAX), props,
                  c.int("ttl2", 0, MAX), extra=J)
    elif what == "own":
        w.unpublish(p, c.int("sid", 0, MAX), extra=J)
    else:
        w.unsubscribe(p, c.int("sub", 0, MAX))
    c.reach(what)
    s.after()


ERRORS = (104, 32, 110, 71, 5, 12, 2)   # reset, pipe, timeout, protocol, ...


def broken(c, judge, version, state, where):
    """The connection fails at some point."""
    tp = "tcp:1.2.3.4:5" if where in ("keepalive", "transport") else \
        "tls:1.2.3.4:5" if where == "ski" else "ux:p"
    e = c.choice("errno", ERRORS)
    attrs = {}
    if where == "ski":
        attrs["tls.peer_subject_key_id"] = penv.oserror(e)
    elif where == "transport":
        attrs["xcm.transport"] = penv.oserror(e)
    elif where == "address":
        attrs["xcm.remote_addr"] = penv.oserror(e)
    s = Scene(c, judge, version,
              "fresh" if where in ("keepalive", "transport", "ski",
                                   "address") else state, tp, attrs)
    w, p = s.w, s.p
    if where == "receive":
        p.push(penv.oserror(e))
    elif where == "close":
        p.push(b"")
    elif where == "request+receive":
        ta = w.request(p, "ping", {})
        p.push(penv.oserror(e))
    elif where == "send":
        p.conn().tx_error = e
        w.request(p, "ping", {})
    elif where == "notify":
        p.conn().tx_error = e
        w.request(s.a, "publish", {
            "service-id": 55, "generation": 0, "service-props": {"k": [9]},
            "ttl": 5})
        rec_event(w, s.a)
    elif where == "multi":
        # fails in the midst of a listing
        p.conn().window = c.choice("sent", [0, 1, 2])
        w.request(p, "services", {})
        w.run()
        p.conn().tx_error = e
    elif where in ("keepalive", "transport", "ski"):
        if where == "keepalive":
            w.env.set_attr_errno = e
        r = w.request(p, "hello", hello_fields(7, version, version))
        w.run()
        w.collect()
        w.env.set_attr_errno = 0
        if p.closed():
            w.lost(p)
        elif r.reply.ok():
            p.cid = 7
            p.version = version
            p.shake_time = w.env.now
            p.user = "ip:1.2.3.4"
        c.reach("handshake")
        w.settle()
        s.after()
        return
    w.run()
    if where == "address":
        # not accepted; nothing is left of it
        w.expect(J, p.conn() is None or p.closed(),
                 "connection kept although it could not be set up")
        w.dom.peers.remove(p)
        p.gone = True
    elif p.closed():
        c.reach("dropped")
        w.lost(p)
    else:
        w.expect(J, where == "notify" and state != "busy",
                 "dead connection kept")
        p.conn().tx_error = None
    w.settle()
    s.after()


def rec_event(w, a):
    """Model of the publish above."""
    from vh.world import Rec
    new = Rec(55, 0, [("k", 9)], 5, a.cid, a.user, None)
    w.dom.recs.append(new)
    w.event(w.dom, "add", None, new)


def accepting(c, judge, version, limit):
    """Errors from accepting and finishing."""
    tl = {"clients": c.int("limit", 2, 4)} if limit else None
    s = Scene(c, judge, version, "fresh", total_limits=tl)
    w = s.w
    if limit:
        w.env.finish_errno = c.choice("finish", [0, 11, 104])
    e = c.choice("errno", ERRORS + (103, 24, 11))
    n = c.choice("position", [0, 1, 2])
    d = w.dom
    for i in range(3):
        if i == n:
            d.socks[0].pending.append(penv.oserror(e))
        q = w.arrive("ux:q", run=False)
    w.run()
    if not limit:
        for q in d.peers:
            w.expect(J, q.alive(), "connection not accepted")
    w.env.finish_errno = 0
    w.list_services(s.o, J)
    w.ping(s.a)
    w.disconnect(s.a)
    if limit:
        w.list_clients(s.o, J)


def flood(c, judge, version, state):
    """Several hostile messages and a disconnect at once."""
    s = Scene(c, judge, version, state)
    w, p = s.w, s.p
    kinds = ["ping", "publish", "junk", "close", "error", "hello"]
    for i in range(3):
        k = c.choice("message", kinds)
        if k == "ping":
            w.request(p, "ping", {})
        elif k == "publish":
            w.request(p, "publish", {"service-id": 700, "generation": 1,
                                     "service-props": {}, "ttl": 0})
        elif k == "junk":
            p.push(w.env.fault("json"))
        elif k == "close":
            p.push(b"")
        elif k == "error":
            p.push(penv.oserror(104))
        else:
            w.request(p, "hello", hello_fields(7, version, version))
        if k in ("junk", "close", "error"):
            break
    c.assume(k in ("junk", "close", "error"))
    w.run()
    w.expect(J, p.closed(), "hostile connection kept")
    p.cid = 7 if p.cid is None else p.cid
    w.lost(p)
    # a TTL of zero: what it published is gone at once
    w.run(w.env.now + 0.125)
    w.settle()
    s.after()
