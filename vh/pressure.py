"""Clients that do not take their messages as fast as they are produced."""
from vh.world import World, Ta

BOUND = 256         # a backlog of this many messages must stop reception


class Tap:
    """What p is expected to be sent, in order, and what it was sent."""

    def __init__(self, w, p):
        self.w = w
        self.p = p
        self.want = []          # (transaction, message type, tag)
        self.granted = 0

    def check(self):
        w, p = self.w, self.p
        got = [w.env.decode(wire) for t, wire in p.conn().outbox]
        w.expect("C17", p.alive(), "connection dropped under backpressure")
        n = len(self.want)
        if p.conn().window is not None:
            n = min(n, self.granted)
        w.expect("C17", len(got) == n,
                 "fewer messages sent than the transport takes"
                 if len(got) < n else "more messages sent than produced")
        w.c.observe("sent", len(got))
        for msg, (ta, kind, tag) in zip(got, self.want):
            ok = msg["ta-id"] == ta and msg["msg-type"] == kind
            if ok and tag is not None:
                ok = w.c.all_of([w.c.eq(msg[k], v) for k, v in tag])
            w.expect("C17", ok, "message lost, repeated or out of order")

    def grant(self, n):
        conn = self.p.conn()
        if n is None:
            conn.window = None
        else:
            conn.window += n
            self.granted += n
        self.w.env.spin = 0


def raw(w, p, cmd, ta, fields=None):
    tree = {"ta-cmd": cmd, "ta-id": ta, "msg-type": "request"}
    for k, v in (fields or {}).items():
        tree[k] = v
    p.send_raw(tree)


def setup(c, judge, version, start, tracked=False):
    """`tracked`: p has a query of the server's to answer."""
    w = World(c, tuple(judge), idle=(30, 30) if tracked else None)
    a = w.client(5, "ux:a", version=version)
    p = w.client(7, "ux:p", version=version)
    w.subscribe(p, 70)
    sub = p.tas[-1].ta_id
    if tracked:
        w.track(p)
        w.advance(c.real("silence", 16, 20))
        c.check(p.alive(), "harness: dropped")
    tap = Tap(w, p)
    tap.sub = sub
    n = len(p.conn().outbox)
    del p.conn().outbox[:]
    p.taken = 0
    p.conn().window = start
    tap.granted = start
    tap.next = 100
    tap.gen = 0
    return w, a, p, tap


def act(w, a, p, tap, what):
    """One action and the messages it produces for p."""
    t = tap.next
    tap.next += 1
    if what == "ping":
        raw(w, p, "ping", t)
        tap.want.append((t, "complete", None))
    elif what == "list":
        raw(w, p, "services", t)
        tap.want.append((t, "accept", None))
        if tap.gen:
            tap.want.append((t, "notify", [("generation", tap.gen)]))
        tap.want.append((t, "complete", None))
    elif what == "event":
        tap.gen += 1
        raw(w, a, "publish", t, {
            "service-id": 9, "generation": tap.gen, "service-props": {},
            "ttl": 5})
        tap.want.append((tap.sub, "notify", [
            ("match-type", "appeared" if tap.gen == 1 else "modified"),
            ("generation", tap.gen)]))
    w.run()


def ping(w, a):
    conn = a.conn()
    n = len(conn.outbox)
    raw(w, a, "ping", 9999)
    w.run()
    w.expect("C17", a.alive() and len(conn.outbox) == n + 1,
             "another client was held back")
    w.c.reach("others unaffected")


def small(c, judge, version, steps, most):
    """Any interleaving of work and small grants by the transport."""
    start = c.int("start", 0, most)
    w, a, p, tap = setup(c, judge, version, start)
    for i in range(steps):
        what = c.choice("act", ["ping", "list", "event", "grant"])
        if what == "grant":
            tap.grant(c.int("grant", 1, most))
            w.run()
            c.reach("granted")
        else:
            act(w, a, p, tap, what)
        tap.check()
    tap.grant(None)
    w.run()
    tap.check()
    act(w, a, p, tap, "ping")
    tap.check()
    c.reach("drained")


def swamp(c, judge, version, n, mode, low, high, tracked=False):
    """A client with a backlog: no further requests until it has drained."""
    w, a, p, tap = setup(c, judge, version, 0, tracked)
    conn = p.conn()
    if mode == "requests":
        for i in range(n):
            raw(w, p, "ping", 1000 + i)
            tap.want.append((1000 + i, "complete", None))
        w.run()
        w.expect("C17", len(conn.inbox) >= n - BOUND,
                 "no bound on the backlog")
        w.expect("C17", conn.outbox == [], "sent without room")
        taken = n - len(conn.inbox)
        c.reach("held back")
    else:
        for i in range(n):
            act(w, a, p, tap, "event")
        raw(w, p, "ping", 1000)
        w.run()
        w.expect("C17", len(conn.inbox) == 1,
                 "request accepted in spite of the backlog")
        tap.want.append((1000, "complete", None))
        c.reach("held back")
    # the transport takes some
    k = c.int("grant", low, high)
    tap.grant(k)
    w.run()
    w.expect("C17", len(conn.outbox) == min(k, len(tap.want)),
             "fewer messages sent than the transport takes")
    tap.grant(None)
    w.run()
    w.expect("C17", conn.inbox == [], "requests not accepted again")
    tap.check()
    act(w, a, p, tap, "ping")
    tap.check()
    # others were never held back
    ping(w, a)
    c.reach("drained")


def leaves(c, judge, version, n, how):
    """A client leaves, or is cut off, with a backlog."""
    w, a, p, tap = setup(c, judge, version, c.int("start", 0, 3))
    for i in range(n):
        act(w, a, p, tap, c.choice("act", ["event", "ping", "list"]))
    tap.check()
    if how == "close":
        p.push(b"")
    else:
        p.conn().tx_error = 104
    w.run()
    w.expect("C17", p.closed() or tap.granted >= len(tap.want),
             "dead connection kept")
    if not p.closed():
        p.conn().tx_error = None
    n = len(p.conn().outbox)
    for i in range(2):
        raw(w, a, "publish", 900 + i, {
            "service-id": 9, "generation": 100 + i, "service-props": {},
            "ttl": 5})
        w.run()
    if p.closed():
        w.expect("C17", len(p.conn().outbox) == n, "sent after its end")
        w.lost(p)
    ping(w, a)


def flood(c, judge, version, n, low, high):
    """One request with a great many replies, taken in two portions."""
    w, a, p, tap = setup(c, judge, version, 0)
    conn = p.conn()
    for i in range(n):
        raw(w, a, "publish", 10000 + i, {
            "service-id": 100 + i, "generation": 1, "service-props": {},
            "ttl": 5})
        tap.want.append((tap.sub, "notify", [("service-id", 100 + i)]))
    w.run()
    raw(w, p, "services", 1000)
    raw(w, a, "ping", 9998)
    w.run()
    # the listing waits for the backlog to drain
    tap.grant(n)
    w.run()
    tap.check()
    tap.want.append((1000, "accept", None))
    for i in range(n):
        tap.want.append((1000, "notify", [("service-id", 100 + i)]))
    tap.want.append((1000, "complete", None))
    k = c.int("grant", low, high)
    tap.grant(k)
    w.run()
    w.expect("C17", len(conn.outbox) == min(n + k, len(tap.want)),
             "fewer messages sent than the transport takes")
    tap.grant(None)
    w.run()
    tap.check()
    act(w, a, p, tap, "ping")
    tap.check()
    ping(w, a)
    c.reach("drained")
