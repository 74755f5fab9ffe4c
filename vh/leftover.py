"""What remains of clients that are gone."""
from psx.walk import size
from vh.world import World
from vh.hist import Hist

ALL = tuple("C%02d" % i for i in range(1, 35))
TWO = {"clients": 2, "services": 2, "subscriptions": 2}

class State:
    """What is visible of a server from the outside."""

    def __init__(self, w):
        e = w.env
        self.fds = set(e.fds)
        self.watched = set()
        for ep in e.epolls:
            self.watched |= set(ep.table)
        self.targets = [s.target for s in e.servers]
        self.timeout = e.last_timeout
        self.open = len([s for s in e.socks if not s.closed])

    def waits(self):
        return self.timeout is None or self.timeout < 0


def compare(w, before, timers=True):
    c = w.c
    now = State(w)
    c.check(now.fds == before.fds and now.open == before.open,
            "descriptor left behind")
    c.check(now.watched == before.watched, "descriptor left in the poll set")
    c.check(now.targets == before.targets, "server socket not listening as "
            "before")
    if timers:
        c.check(now.waits(), "timer left behind")


def probe(w, first):
    """A session that uses every resource to its limit."""
    users = [("ux:a", {}), ("tcp:10.1.1.1:1", {})]
    if first:
        users.reverse()
    for addr, attrs in users:
        ps = []
        for cid in (1, 2):
            p = w.arrive(addr, attrs)
            w.settle()
            w.expect("C29", p.accepted(), "connection not admitted")
            r = w.hello(p, cid, 2, 3)
            w.expect("C29", r.ok(), "hello refused although nobody is there")
            ps.append(p)
        a, b = ps
        w.list_services(a, ALL)
        w.list_subscriptions(b, ALL)
        w.list_clients(a, ALL)
        for i, p in ((1, a), (2, b)):
            r = w.publish(p, i, 0, [("k", i)], 1)
            w.expect("C29", r.ok(), "publication refused although nothing "
                     "exists")
            r = w.subscribe(p, i)
            w.expect("C29", r.kind is None, "subscription refused although "
                     "none exists")
        r = w.publish(a, 3, 0, [], 1)
        w.expect("C29", r.failed("insufficient-resources"),
                 "limit no longer enforced")
        w.list_services(a, ALL)
        w.list_subscriptions(b, ALL)
        w.list_clients(b, ALL)
        for p in ps:
            w.disconnect(p)
        w.advance(4)


def gone(c, judge, script, version=2, idle=None, jitters=(0.5,), ttl_max=40,
         lims=True):
    """A history, then everybody leaves; the server is as new."""
    fresh = World(c, (), versions=(2, 3), idle=idle, jitters=(0.5,),
                  user_limits=TWO, total_limits=TWO)
    probe(fresh, False)
    h = Hist(c, tuple(judge), version, ttl_max, True, versions=(2, 3),
             idle=idle, jitters=jitters,
             user_limits=TWO if lims else None,
             total_limits=TWO if lims else None)
    w = h.w
    before = State(w)
    c.assume(before.waits())
    for tok in script.split(" "):
        h.step(tok)
        h.admitted()
    for d in w.doms:
        for p in d.peers:
            if p.accepted() and not p.gone:
                w.disconnect(p)
            elif not p.accepted():
                p.gone = True
                w.run()
                h.admitted()
                if p.accepted() and p.alive():
                    w.disconnect(p)
        d.peers = [p for p in d.peers if not p.gone]
    w.advance(c.real("dt", 0, ttl_max) if idle is None else 10)
    if w.dom.recs != []:
        c.reach("orphans still there")
    w.advance(ttl_max + 10)
    c.check(w.dom.recs == [], "model: orphans outlive their time")
    compare(w, before)
    c.reach("all gone")
    if lims:
        w.judge = ALL
        probe(w, c.choice("order", [False, True]))
        compare(w, before)
        c.reach("as new")


def cycles(c, judge, script, version=2, idle=None, rounds=4):
    """Clients come and go while others stay; nothing accumulates."""
    h = Hist(c, tuple(judge), version, 0, True, versions=(2, 3), idle=idle)
    w = h.w
    o = w.client(9, "ux:o", version=2)
    w.subscribe(o, 900)
    w.publish(o, 900, 1, [("k", 1)], 50)
    before = State(w)
    sizes = []
    toks = [c.choice("step", t.split("|")) for t in script.split(" ")]
    for i in range(rounds):
        # the script may use the letters below for fresh identities
        for tok in toks:
            h.step(tok.replace("#", str(100 + i)))
        for p in list(h.peers.values()):
            if not p.gone:
                w.disconnect(p)
        w.dom.peers = [p for p in w.dom.peers if not p.gone]
        w.advance(4)
        compare(w, before, False)
        h.peers.clear()
        w.env.log.clear()
        # what the observer was told is the observer's
        for p in w.dom.peers:
            del p.conn().outbox[:]
            p.taken = 0
        for ta in o.tas:
            del ta.reply.msgs[:]
        sizes.append(size(w.dom.server) + size(w.loop))
    c.check(not all([a < b for a, b in zip(sizes, sizes[1:])]),
            "the server grows with every client that comes and goes")
    c.reach("no growth")
