"""A server nobody wants anything from sleeps."""
from vh.hist import Hist
from vh.pressure import raw

GRACE = 4           # everything half-open is gone by then


def asleep(c, judge, script, version=2, idle=None, period=600, ttl_max=40,
           limits=None, slow=None):
    """After the history, the process is woken up by what is due and by
    nothing else.  `slow`: a client which stops reading and then asks for
    something."""
    h = Hist(c, tuple(judge), version, ttl_max, limits is not None,
             versions=(2, 3), idle=idle, total_limits=limits)
    w = h.w
    for tok in script.split(" "):
        h.step(tok)
        h.admitted()
    p = h.peers.get(slow)
    if p is not None and p.alive():
        p.conn().window = c.int("window", 0, 1)
        raw(w, p, c.choice("asks", ["services", "clients", "ping"]), 5000)
        c.reach("slow reader")
    w.run(w.env.now + GRACE)
    due = len([r for r in w.dom.recs if r.orphan is not None])
    if idle is not None:
        due += len([p for p in w.dom.peers if p.alive()])
    n = w.env.polls
    sent = sum([len(p.conn().outbox) for p in w.dom.peers if p.alive()])
    w.run(w.env.now + period)
    c.observe("woken", w.env.polls - n)
    c.check(w.env.polls - n <= 3 + 2 * due,
            "the idle server is woken up again and again")
    if due == 0:
        now = sum([len(p.conn().outbox) for p in w.dom.peers if p.alive()])
        c.check(now == sent, "the idle server sends messages")
        c.reach("slept")
    else:
        c.reach("woken for what was due")
