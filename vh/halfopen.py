"""Admission of many connections at once."""
import psx.env as penv
from vh.world import World


def burst(c, judge, n, socks, top, errors=False, low=0, deep=False):
    """n connections arrive at once on any of the sockets; up to `top`
    clients are allowed.  Then some complete their handshake in time, the
    others are evicted, and those that waited are admitted."""
    limit = None if top is None else c.int("limit", low, top)
    w = World(c, tuple(judge), socks=tuple("ux:srv%d" % i
                                           for i in range(socks)),
              total_limits={"clients": limit})
    d = w.dom
    if errors:
        w.env.finish_errno = c.choice("finish", [0, 11, 104])
        e = c.choice("accept error", [11, 103])
        k = c.choice("at", [0, 1, n - 1])
    peers = []
    for i in range(n):
        sock = c.choice("socket", range(socks)) if n <= 4 else i % socks
        if errors and i == k:
            d.socks[sock].pending.append(penv.oserror(e))
        peers.append(w.arrive("ux:%d" % i, sock=sock, run=False))
    w.run()
    w.settle()
    early = [p for p in peers if p.accepted()]
    if len(early) < n:
        c.reach("some wait")
    if len(early) == n:
        c.reach("all admitted")
    w.advance(c.real("dt", 0, 1.875) if deep else 1.5)
    done = early[0:1] if n > 4 else \
        [p for p in early if c.choice("completes", [True, False])]
    for p in done:
        w.hello(p, 100 + peers.index(p), 2, 2)
    w.advance(c.real("dt", 0, 6))
    if deep:
        w.advance(c.real("dt", 0, 6))
    if done:
        if not done[0].gone:
            w.disconnect(done[0], c.choice("how", ["close", 104]))
    late = w.arrive("ux:late", sock=socks - 1)
    w.settle()
    if late.accepted():
        w.hello(late, 99, 2, 2)
        w.list_clients(late, judge)
