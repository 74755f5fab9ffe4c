"""Reply sequences when several requests are under way at once."""
from vh.world import World, MAX, hello_fields

SINGLES = ["ping", "publish", "unpublish", "unsubscribe", "hello"]
MULTI = ["subscribe", "services", "subscriptions", "clients"]


def args(c, cmd, cid, version):
    if cmd == "publish":
        return {"service-id": c.choice("sid", [1, 2]), "generation":
                c.int("gen", 0, 3), "service-props": {"k": [c.int("val")]},
                "ttl": 9}
    if cmd == "unpublish":
        return {"service-id": c.choice("sid", [1, 3])}
    if cmd == "subscribe":
        f = {"subscription-id": c.int("sub", 0, MAX)}
        x = c.choice("filter", [None, "(k>5)", "(k"])
        if x is not None:
            f["filter"] = x
        return f
    if cmd == "unsubscribe":
        return {"subscription-id": c.int("sub", 0, MAX)}
    if cmd == "services":
        x = c.choice("filter", [None, "(k>5)", "("])
        return {} if x is None else {"filter": x}
    if cmd == "hello":
        return hello_fields(cid, 2, version)
    return {}


def pipeline(c, judge, version, first, n, shaken=True, window=None):
    """n requests are sent before the server gets to see any of them."""
    w = World(c, tuple(judge), ids="any")
    o = w.client(9, "ux:o", version=version)
    w.publish(o, 1, 1, [("k", 7)], 10)
    p = w.arrive("ux:p")
    if shaken:
        w.hello(p, 4, version, version)
    cmds = SINGLES + MULTI + (["track"] if version == 3 else [])
    tas = []
    for i in range(n):
        cmd = first if i == 0 else c.choice("cmd", cmds)
        if not shaken and cmd in ("track", "hello"):
            c.assume(False)
        f = args(c, cmd, 4, version)
        tas.append((w.request(p, cmd, f), f))
    w.run()
    w.collect()
    w.expect("C14", p.alive(), "connection dropped on valid requests")
    judge_replies(w, p, tas, shaken)
    if not shaken:
        return
    open_subs = [ta for ta, f in tas if ta.cmd == "subscribe" and
                 ta.reply.kind is None]
    before = [len(ta.reply.notes) for ta in open_subs]
    # later changes are notified in the open transactions only
    w.request(o, "publish", {"service-id": 5, "generation": 1,
                             "service-props": {"k": [9]}, "ttl": 9})
    w.run()
    w.collect()
    for ta, k in zip(open_subs, before):
        c.reach("notified")
        w.expect("C14", len(ta.reply.notes) == k + 1,
                 "change not notified in an open transaction")
    # and a terminated identity can be used again
    for ta, f in tas:
        if ta.reply.kind is not None:
            again = w.request(p, "ping", {}, ta.ta_id)
            w.run()
            w.collect()
            w.expect("C14", p.alive() and again.reply.kind == "complete",
                     "terminated transaction identity not usable again")
            c.reach("reused")
            break


def judge_replies(w, p, tas, shaken):
    c = w.c
    cancelled = []
    for ta, f in tas:
        r = ta.reply
        kinds = [m["msg-type"] for t, m in r.msgs]
        c.observe(ta.cmd, kinds)
        if not shaken:
            w.expect("C14", kinds == ["fail"],
                     "not a single failure before the handshake")
            continue
        if ta.cmd in ("subscribe", "track"):
            w.expect("C14", kinds == ["fail"] or kinds[:1] == ["accept"],
                     "request not answered")
        elif ta.cmd in MULTI:
            w.expect("C14", kinds == ["fail"] or
                     (len(kinds) >= 2 and kinds[0] == "accept" and
                      kinds[-1] == "complete"), "request not answered")
        else:
            w.expect("C14", kinds in (["fail"], ["complete"]),
                     "request not answered once")
        if ta.cmd == "unsubscribe" and r.kind == "complete":
            cancelled.append((ta, f["subscription-id"]))
    for ta, f in tas:
        if ta.cmd != "subscribe" or not shaken:
            continue
        hit = [u for u, s in cancelled if c.eq(s, f["subscription-id"]) and
               u is not None]
        if ta.reply.kind == "complete":
            c.reach("cancelled")
            w.expect("C14", hit != [], "subscription completed without "
                     "being cancelled")
    subs = [ta for ta, f in tas if ta.cmd == "subscribe" and
            ta.reply.kind == "complete"]
    w.expect("C14", not shaken or len(subs) == len(cancelled),
             "cancelled subscription not completed")
