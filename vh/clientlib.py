"""The client library against an arbitrary server."""
import psx.env as penv
from vh.codec import (SPEC, FIELD, TYPES, MAX, slot, some_value, same_value,
                      same_obj, wire_form)
from psx.lazy import ABSENT

KIND = {"hello": "single", "subscribe": "multi", "unsubscribe": "single",
        "subscriptions": "multi", "services": "multi", "publish": "single",
        "unpublish": "single", "ping": "single", "clients": "multi",
        "track": "two-way"}
ADDR = "ux:server"


class ClientEnv(penv.Env):
    def __init__(self, c):
        penv.Env.__init__(self, c)
        self.conns = []
        self.connects = []
        self.refuse = 0
        self.window = None

    def connect(self, addr, attrs):
        self.connects.append((addr, dict(attrs)))
        if self.refuse:
            raise penv.oserror(self.refuse)
        conn = penv.FakeConn(self, addr)
        conn.window = self.window
        self.conns.append(conn)
        return conn


class Rec:
    """A response callback that remembers what it is told."""

    def __init__(self, lib, name, then=None):
        self.lib = lib
        self.name = name
        self.then = then

    def __call__(self, *pos, **opt):
        self.lib.calls.append((self.name, pos, opt))
        if self.then is not None:
            self.then(*pos, **opt)


class Transaction:
    """What the server knows of one."""

    def __init__(self, cmd, ta_id, rec):
        self.cmd = cmd
        self.ta_id = ta_id
        self.rec = rec
        self.state = "requesting"

    def next(self, mtype):
        """The state after a message; None when it does not fit."""
        if self.state == "over":
            return None
        if mtype == "fail":
            return "over"
        kind = KIND[self.cmd]
        if self.state == "requesting":
            if kind == "single" and mtype == "complete":
                return "over"
            if kind != "single" and mtype == "accept":
                return "accepted"
            return None
        if mtype == "notify":
            return "accepted"
        if mtype == "complete":
            return "over"
        return None


class Lib:
    def __init__(self, c):
        self.c = c
        self.env = ClientEnv(c)
        self.m = c.load_cut(self.env.stubs())
        self.client = self.m.load("paf.client")
        self.calls = []             # callbacks run
        self.seen = 0               # messages of the client looked at
        self.cl = None
        self.conn = None
        self.readied = 0
        self.tas = []

    # -- running the code under test
    def run(self, fn, *args, **kw):
        """("ok", result) or ("error", exception of the library)"""
        try:
            return "ok", fn(*args, **kw)
        except self.client.Error as e:
            text = str(e)
            return "error", e
        except Exception as e:
            self.c.fail("unexpected exception", type(e).__name__)

    def ready(self):
        self.readied += 1

    def start(self, version, client_id=None, track=False, window=None):
        """An established session, without blocking."""
        c = self.c
        self.version = version
        cid = c.int("client", 0, MAX) if client_id is None else client_id
        conf = self.client.ServerConf(ADDR)
        r, x = self.run(self.client.connect, conf, client_id=cid,
                        ready_cb=self.ready, track=track)
        c.check(r == "ok", "connecting failed", str(x))
        self.cl = x
        self.conn = self.env.conns[-1]
        req = self.sent()
        c.check(len(req) == 1, "connecting sends other than one request")
        self.same_request(req[0], "hello", [cid, 2, 3])
        t = Transaction("hello", req[0]["ta-id"], None)
        self.tas.append(t)
        self.give(dict(self.head(t, "complete"), **{
            "protocol-version": version}))
        r, x = self.run(self.cl.process)
        c.check(r == "ok" and self.readied == 1,
                "established session not reported")
        t.state = "over"
        self.conn.window = window
        return self.cl

    # -- wire
    def sent(self):
        out = self.conn.outbox if self.conn else self.env.conns[-1].outbox
        new = out[self.seen:]
        self.seen = len(out)
        return [self.env.decode(m) for t, m in new]

    def head(self, t, mtype):
        return {"ta-cmd": t.cmd, "ta-id": t.ta_id, "msg-type": mtype}

    def give(self, tree):
        self.conn.inbox.append(self.env.encode(tree))

    def same_request(self, tree, cmd, args, mtype="request"):
        """Compare with (values in order of mandatory, optional fields)."""
        c = self.c
        must, may = SPEC[3 if cmd == "track" else 2][cmd][mtype]
        want = {}
        for f, v in zip(must + may, args):
            if v is not None:
                want[f] = v
        c.check(sorted(tree.keys()) == sorted(
            list(want.keys()) + ["ta-cmd", "ta-id", "msg-type"]),
            "request has other fields than asked for", str(sorted(tree)))
        c.check(tree["ta-cmd"] == cmd and tree["msg-type"] == mtype,
                "wrong request sent")
        for f in want:
            if FIELD[f] == "P":
                c.check(wire_form(c, tree[f], want[f]),
                        "properties altered")
            else:
                c.check(c.eq(tree[f], want[f]), "argument altered", f)
        ta = tree["ta-id"]
        if mtype == "request":
            for t in self.tas:
                if t.state != "over":
                    c.check(not c.eq(ta, t.ta_id),
                            "transaction identity in use")
            c.check(isinstance(ta, int) and ta >= 0 and ta <= MAX,
                    "bad transaction identity")

    # -- operations
    def arguments(self, op):
        c = self.c
        must, may = SPEC[self.version][op]["request"]
        args = [some_value(c, f) for f in must]
        opts = [some_value(c, f) if c.choice(f + " given", [False, True])
                else None for f in may]
        return args + opts

    def call(self, op, args, cb=None):
        """The call, its arguments by position or name as documented."""
        cl = self.cl
        if op == "subscribe":
            if args[1] is None:
                return cl.subscribe(args[0], cb)
            return cl.subscribe(args[0], cb, filter=args[1])
        if op == "services":
            if cb is None and args[0] is None:
                return cl.services()
            return cl.services(response_cb=cb, filter=args[0])
        if op == "track":
            return cl.track(cb)
        if op == "hello":
            return cl.hello(response_cb=cb)
        fn = {"publish": cl.publish, "unpublish": cl.unpublish,
              "unsubscribe": cl.unsubscribe,
              "subscriptions": cl.subscriptions, "ping": cl.ping,
              "clients": cl.clients}[op]
        if cb is None:
            return fn(*args)
        return fn(*args, response_cb=cb)

    def plain(self, op):
        """Arguments where they do not matter."""
        return {"publish": [7, 1, {"k": {"v"}}, 5], "unpublish": [7],
                "subscribe": [8, None], "unsubscribe": [8],
                "services": [None]}.get(op, [])

    def issue(self, op, name=None, args=None, then=None):
        """An asynchronous request that goes out at once."""
        c = self.c
        rec = Rec(self, name or op, then)
        args = self.plain(op) if args is None else args
        r, x = self.run(self.call, op, args, rec)
        c.check(r == "ok", "request failed", str(x))
        req = self.sent()
        c.check(len(req) == 1, "other than one request sent")
        if op != "hello":
            self.same_request(req[0], op, args)
        c.check(c.eq(x, req[0]["ta-id"]), "returned another identity")
        t = Transaction(op, req[0]["ta-id"], rec)
        t.sent_args = args
        self.tas.append(t)
        return t

    # -- messages of the server
    def fields(self, cmd, mtype, free):
        """Valid field values as they are on the wire."""
        c = self.c
        must, may = SPEC[self.version].get(cmd, {}).get(mtype, ((), ()))
        d = {}
        for f in must:
            v = slot(c, f, FIELD[f], False, False)()
            dict.__setitem__(d, f, v)
        given = c.choice("optional", ["all", "none"]) if may and free \
            else "none"
        if given == "all":
            for f in may:
                if f == "orphan-since" and not c.choice(
                        "orphan", [False, True]):
                    continue
                d[f] = slot(c, f, FIELD[f], False, False)()
        return d

    def delivered(self, n, t, mtype, fields):
        """Exactly one callback, for this message, with its values."""
        c = self.c
        c.check(len(self.calls) > n, "message not delivered", mtype)
        c.check(len(self.calls) == n + 1, "message delivered twice", mtype)
        name, pos, opt = self.calls[n]
        c.check(name == t.rec.name, "delivered to another transaction")
        self.same_call(t, mtype, fields, pos, opt)

    def same_call(self, t, mtype, fields, pos, opt):
        c = self.c
        c.check(len(pos) >= 2 and c.eq(pos[0], t.ta_id),
                "delivered with another identity")
        c.check(pos[1].name == mtype.upper(), "delivered as another event",
                mtype)
        self.same_fields(t.cmd, mtype, fields, pos[2:], opt)

    def same_fields(self, cmd, mtype, fields, pos, opt):
        c = self.c
        must, may = SPEC[self.version][cmd][mtype]
        c.check(len(pos) == len(must), "delivered with other arguments")
        for f, x in zip(must, pos):
            c.check(same_value(c, FIELD[f], x, fields[f]),
                    "delivered value altered", f)
        n = 0
        for f in may:
            k = f.replace("-", "_")
            if f in fields:
                n += 1
                c.check(k in opt and
                        same_value(c, FIELD[f], opt[k], fields[f]),
                        "delivered value altered", f)
            else:
                c.check(opt.get(k) is None, "value out of nothing", f)
        c.check(len([k for k in opt if opt[k] is not None]) == n,
                "delivered with other values")


# ---- C27 --------------------------------------------------------------

def one_message(lib, i, cmds, free=True):
    """Any message; returns (transaction or None, type, fields, wire)."""
    c = lib.c
    kind = c.choice("message", ["message", "broken"]) if i == 0 else "message"
    if kind == "broken":
        how = c.choice("how", ["utf8", "json", "closed", "missing", "extra",
                               "scalar", "null id"])
        t = lib.tas[-1]
        if how in ("utf8", "json"):
            return None, how, {}, lib.env.fault(how)
        if how == "closed":
            return None, how, {}, b""
        if how == "scalar":
            return None, how, {}, lib.env.encode([])
        d = lib.head(t, c.choice("type", TYPES))
        if how == "missing":
            del d[c.choice("which", ["ta-cmd", "ta-id", "msg-type"])]
        elif how == "extra":
            d["surplus"] = 1
        else:
            d["ta-id"] = None
        return None, how, {}, lib.env.encode(d)
    ta = c.int("ta", 0, MAX)
    t = None
    for x in lib.tas:
        if c.eq(ta, x.ta_id):
            t = x
            break
    others = [x for x in cmds]
    if t is not None and t.cmd not in others:
        others.append(t.cmd)
    if i == 0:
        cmd = c.choice("cmd", others + ["ping", "nonsense"])
        mtype = c.choice("type", TYPES)
    elif t is None:
        cmd = cmds[0]
        mtype = c.choice("type", ["notify", "fail"])
    else:
        cmd = c.choice("cmd", [t.cmd, "ping"])
        mtype = c.choice("type", TYPES if cmd == t.cmd else
                         ["complete", "fail"])
    nxt = None
    if t is not None and cmd == t.cmd:
        nxt = t.next(mtype)
    fields = lib.fields(cmd, mtype, free and nxt is not None)
    d = {"ta-cmd": cmd, "ta-id": ta, "msg-type": mtype}
    d.update(fields)
    return (t if nxt is not None else None), mtype, fields, \
        lib.env.encode(d)


def arrive(lib, i, cmds, free):
    """One message arrives and is judged."""
    c = lib.c
    t, mtype, fields, wire = one_message(lib, i, cmds, free)
    n = len(lib.calls)
    lib.conn.inbox.append(wire)
    r, x = lib.run(lib.cl.process)
    if t is not None:
        c.check(r == "ok", "fitting message refused", str(x))
        lib.delivered(n, t, mtype, fields)
        t.state = t.next(mtype)
        c.reach("delivered")
        if t.state == "over":
            c.reach("ended")
    else:
        c.check(r == "error" and
                isinstance(x, lib.client.ProtocolError),
                "unfitting message not reported", mtype)
        c.check(len(lib.calls) == n, "unfitting message delivered", mtype)
        c.reach("refused")
    c.check(lib.sent() == [], "sent something unasked for")
    c.observe("arrived", r)
    return r == "ok" or not isinstance(wire, bytes) or wire != b""


def replies(c, version, cmds, n, advance=0):
    """n arbitrary messages within concurrent transactions."""
    lib = Lib(c)
    lib.start(version)
    for k in cmds:
        lib.issue(k, "%s%d" % (k, len(lib.tas)))
    if advance:
        for t in lib.tas[1:1 + advance]:
            if KIND[t.cmd] != "single":
                lib.give(lib.head(t, "accept"))
                lib.run(lib.cl.process)
                t.state = "accepted"
    lib.calls = []
    for i in range(n):
        if not arrive(lib, i, cmds, i < 2):
            return


def pipelined(c, version, cmd, n):
    """Messages that arrive together are handled in order; all that precede
    the first unfitting one are delivered."""
    lib = Lib(c)
    lib.start(version)
    a = lib.issue(cmd, "a")
    b = lib.issue(cmd, "b")
    want = []
    bad = False
    for i in range(n):
        t = c.choice("ta", [a, b])
        mtype = c.choice("type", ["accept", "notify", "complete", "fail"])
        fields = {}
        for f in SPEC[version][cmd].get(mtype, ((), ()))[0]:
            fields[f] = slot(c, f, FIELD[f], False, False)()
        lib.give(dict(lib.head(t, mtype), **fields))
        nxt = t.next(mtype)
        if bad:
            continue
        if nxt is None:
            bad = True
        else:
            t.state = nxt
            want.append((t, mtype, fields))
    r, x = lib.run(lib.cl.process)
    c.check((r == "error") == bad, "unfitting message not told from fitting")
    c.check(len(lib.calls) == len(want), "other messages delivered than fit")
    for (name, pos, opt), (t, mtype, fields) in zip(lib.calls, want):
        c.check(name == t.rec.name, "delivered to another transaction")
        lib.same_call(t, mtype, fields, pos, opt)
    c.reach("refused" if bad else "delivered")
    c.observe("delivered", len(want))


def within(c, version, cmd, op):
    """A callback that issues the next request, even on its final message."""
    lib = Lib(c)
    lib.start(version)
    box = []

    def then(ta_id, event, *args, **opt):
        if event.name == want.upper() and box == []:
            box.append(lib.call(op, lib.plain(op), Rec(lib, "inner")))

    t = lib.issue(cmd, "outer", then=then)
    if KIND[cmd] == "single":
        script = [c.choice("end", ["complete", "fail"])]
    else:
        script = ["accept"] + ["notify"] * c.choice("notes", [0, 1]) + \
            [c.choice("end", ["complete", "fail"])]
    want = c.choice("at", script)
    for k in script:
        fields = lib.fields(cmd, k, False)
        n = len(lib.calls)
        lib.give(dict(lib.head(t, k), **fields))
        r, x = lib.run(lib.cl.process)
        c.check(r == "ok", "fitting message refused", str(x))
        lib.delivered(n, t, k, fields)
        t.state = t.next(k)
    req = lib.sent()
    c.check(len(req) == 1, "other than one request sent")
    lib.same_request(req[0], op, lib.plain(op))
    inner = Transaction(op, req[0]["ta-id"], Rec(lib, "inner"))
    first = "complete" if KIND[op] == "single" else "accept"
    n = len(lib.calls)
    lib.give(lib.head(inner, first))
    r, x = lib.run(lib.cl.process)
    c.check(r == "ok", "fitting message refused", str(x))
    lib.delivered(n, inner, first, {})
    c.reach("delivered")
    # the outer one is over
    lib.give(lib.head(t, c.choice("late", ["complete", "fail", "accept"])))
    n = len(lib.calls)
    r, x = lib.run(lib.cl.process)
    c.check(r == "error", "unfitting message not reported")
    c.check(len(lib.calls) == n, "callback after the final message")
    c.reach("refused")


def hello_reply(c, blocking):
    """Any message in place of the answer to the handshake."""
    lib = Lib(c)
    lib.version = 2
    env = lib.env
    t = Transaction("hello", None, None)
    state = {}
    cid = c.int("client", 0, MAX)

    def answer():
        lib.conn = env.conns[-1]
        req = lib.sent()
        c.check(len(req) == 1, "connecting sends other than one request")
        lib.same_request(req[0], "hello", [cid, 2, 3])
        t.ta_id = req[0]["ta-id"]
        how = c.choice("how", ["complete", "fail", "reason", "odd", "utf8",
                               "json", "closed", "reset"])
        state["how"] = how
        if how == "complete":
            v = c.int("version", 0, MAX)
            state["ok"] = c.any_of([c.eq(v, 2), c.eq(v, 3)])
            state["v"] = v
            lib.give(dict(lib.head(t, "complete"), **{
                "protocol-version": v}))
        elif how == "fail":
            lib.give(lib.head(t, "fail"))
        elif how == "reason":
            state["reason"] = c.choice("reason", ["unsupported", "x"])
            lib.give(dict(lib.head(t, "fail"), **{
                "fail-reason": state["reason"]}))
        elif how == "odd":
            mtype = c.choice("type", TYPES)
            cmd = c.choice("cmd", ["hello", "ping", "track"])
            ta = c.int("ta", 0, MAX)
            if cmd == "hello" and mtype == "fail":
                c.assume(not c.eq(ta, t.ta_id))
            if cmd == "hello" and mtype == "complete":
                if c.choice("lacking", [False, True]):
                    lib.give({"ta-cmd": cmd, "ta-id": ta,
                              "msg-type": mtype})
                    return
                c.assume(not c.eq(ta, t.ta_id))
                lib.give({"ta-cmd": cmd, "ta-id": ta, "msg-type": mtype,
                          "protocol-version": 2})
                return
            lib.give({"ta-cmd": cmd, "ta-id": ta, "msg-type": mtype})
        elif how == "closed":
            lib.conn.inbox.append(b"")
        elif how == "reset":
            lib.conn.inbox.append(penv.oserror(104))
        else:
            lib.conn.inbox.append(env.fault(how))

    def feed(ep, timeout):
        if env.conns and state == {}:
            answer()
        return None

    conf = lib.client.ServerConf(ADDR)
    if blocking:
        env.on_poll = feed
        r, x = lib.run(lib.client.connect, conf, client_id=cid)
    else:
        r, x = lib.run(lib.client.connect, conf, client_id=cid,
                       ready_cb=lib.ready)
        c.check(r == "ok", "connecting failed", str(x))
        lib.cl = x
        answer()
        r, x = lib.run(lib.cl.process)
    good = state["how"] == "complete" and bool(state["ok"])
    if good:
        c.check(r == "ok", "established session refused", str(x))
        cl = lib.cl or x
        c.check(c.eq(cl.proto_version, state["v"]), "wrong version in use")
        if not blocking:
            c.check(lib.readied == 1, "established session not reported")
        c.reach("established")
    else:
        c.check(r == "error", "failed handshake not reported", state["how"])
        c.check(lib.readied == 0, "failed handshake reported as ready")
        if "reason" in state:
            c.check(state["reason"] in str(x), "reason not reported")
        c.reach("refused")
    c.observe("outcome", r)


# ---- C28 --------------------------------------------------------------

def script_of(c, lib, op, free=True):
    """What the server does about a request: (type, fields) pairs."""
    how = c.choice("outcome", ["complete", "fail", "reason"])
    out = []
    if KIND[op] != "single" and (how == "complete" or
                                 c.choice("accepted", [False, True])):
        out.append(("accept", {}))
        if op != "track":
            for i in range(c.choice("notes", [0, 1, 2])):
                out.append(("notify", lib.fields(op, "notify", i == 0)))
    if how == "complete":
        f = {}
        if op == "hello":
            f["protocol-version"] = lib.version
        out.append(("complete", f))
    elif how == "fail":
        out.append(("fail", {}))
    else:
        out.append(("fail", {"fail-reason": c.string("reason", 2)}))
    return out


def earlier(c, lib, op):
    """A synchronous call that is over by the time of another one."""
    ends = c.choice("earlier", ["complete", "fail", "reason"])
    st = {"n": 0}

    def feed(ep, timeout):
        st["n"] += 1
        if st["n"] > 1:
            return None
        req = lib.sent()
        t = Transaction(op, req[0]["ta-id"], None)
        if KIND[op] != "single":
            lib.give(lib.head(t, "accept"))
            lib.give(dict(lib.head(t, "notify"),
                          **lib.fields(op, "notify", False)))
        f = {}
        if ends == "complete":
            f = {"protocol-version": lib.version} if op == "hello" else {}
        elif ends == "reason":
            f = {"fail-reason": "earlier"}
        lib.give(dict(lib.head(t, "complete" if ends == "complete" else
                               "fail"), **f))
        return None

    lib.env.on_poll = feed
    try:
        r, x = lib.run(lib.call, op, lib.plain(op) if op != "hello" else [])
    except penv.Quiet:
        c.fail("call does not return after its transaction ended")
    c.check(r == ("ok" if ends == "complete" else "error"),
            "wrong outcome of a call", str(x))


def asked(c, version, op):
    """What goes out for an asynchronous request, with any arguments."""
    lib = Lib(c)
    lib.start(version)
    first = lib.issue(op, "first", lib.arguments(op))
    if op != "track":
        lib.issue(op, "second", lib.arguments(op))
    c.check(lib.calls == [], "delivered something of its own")
    c.observe("ta", first.ta_id)
    c.reach("asked")


def sync(c, version, op, others=False, window=False, before=None):
    """A synchronous call while other transactions are under way."""
    lib = Lib(c)
    cl = lib.start(version)
    env = lib.env
    side = None
    if before is not None:
        earlier(c, lib, before)
    if others:
        side = lib.issue("subscribe", "side")
        lib.give(lib.head(side, "accept"))
        lib.run(cl.process)
        side.state = "accepted"
    args = lib.arguments(op) if op != "hello" else []
    if window:
        lib.conn.window = 0
    st = {"todo": None, "given": [], "side": [], "lost": False}
    lib.calls = []
    t = Transaction(op, None, None)

    def feed(ep, timeout):
        conn = lib.conn
        if conn.window == 0 and conn.target & penv.SO_SENDABLE:
            conn.window = c.choice("window", [1, None])
            st["blocked"] = True
            return None
        if conn.inbox or st["lost"]:
            return None
        if st["todo"] is None:
            if conn.target & penv.SO_SENDABLE and not conn.outbox[lib.seen:]:
                return None
            req = lib.sent()
            c.check(len(req) == 1, "other than one request sent")
            if op == "hello":
                lib.same_request(req[0], op, [cl.client_id, 2, 3])
            else:
                lib.same_request(req[0], op, args)
            t.ta_id = req[0]["ta-id"]
            st["todo"] = script_of(c, lib, op)
        if side is not None and side.state == "accepted" and \
           len(st["side"]) < 2 and c.choice("side first", [False, True]):
            f = {"match-type": "appeared",
                 "service-id": c.int("service", 0, MAX)}
            k = c.choice("side", ["notify", "complete"])
            lib.give(dict(lib.head(side, k), **(f if k == "notify" else {})))
            side.state = side.next(k)
            st["side"].append((k, f if k == "notify" else {}))
            return None
        if st["todo"]:
            k, f = st["todo"].pop(0)
            st["given"].append((k, f))
            env.advance_to(env.now + 0.25)
            lib.give(dict(lib.head(t, k), **f))
        return None

    env.on_poll = feed
    t0 = env.now
    try:
        r, x = lib.run(lib.call, op, args)
    except penv.Quiet:
        c.fail("call does not return after its transaction ended")
    c.check(st["todo"] == [], "call returned before its transaction ended")
    c.check(lib.sent() == [], "sent something unasked for")
    if window:
        c.check("blocked" in st, "harness: never blocked")
        c.reach("blocked")
    c.check(len(lib.calls) == len(st["side"]),
            "messages of another transaction not delivered once")
    for (name, pos, opt), (k, f) in zip(lib.calls, st["side"]):
        c.check(name == "side", "delivered to another transaction")
        lib.same_call(side, k, f, pos, opt)
        c.reach("other delivered")
    k, f = st["given"][-1]
    c.observe("outcome", r)
    if k == "fail":
        c.check(r == "error" and
                isinstance(x, lib.client.TransactionError),
                "failed request not reported as such", str(x))
        if "fail-reason" in f:
            c.check(has_reason(c, x, f["fail-reason"]),
                    "server's reason not reported", str(x))
        c.reach("failed")
        return
    c.check(r == "ok", "granted request reported as failed", str(x))
    c.reach("granted")
    if op == "ping":
        c.check(c.all_of([x >= 0, x <= env.now - t0]) and
                c.eq(x, env.now - t0), "wrong latency")
    elif op == "hello":
        c.check(len(x) == 1 and c.eq(x[0], version), "wrong version returned")
    elif KIND[op] == "multi":
        notes = [f for k, f in st["given"] if k == "notify"]
        c.check(len(x) == len(notes), "wrong number of results")
        must = SPEC[version][op]["notify"][0]
        for got, f in zip(x, notes):
            got = list(got)
            opt = {}
            if len(got) == len(must) + 1:
                opt = got.pop()
                c.check(isinstance(opt, dict), "malformed result")
            lib.same_fields(op, "notify", f, got, opt)


def has_reason(c, e, reason):
    """Does the exception's text hold the reason?"""
    text = str(e)
    n = len(text)
    k = len(reason)
    hits = []
    for i in range(0, n - k + 1):
        hits.append(c.eq(text[i:i + k], reason))
    return c.any_of(hits)


def lost(c, version, op):
    """The connection is lost during a synchronous call."""
    lib = Lib(c)
    cl = lib.start(version)
    env = lib.env
    when = c.choice("when", ["before", "while", "after accept"])
    how = c.choice("how", ["closed", "reset", "pipe"])
    if when == "before" and how == "pipe":
        lib.conn.tx_error = c.choice("errno", [32, 104, 110])
    st = {"n": 0}
    if when == "before" and how != "pipe":
        lib.conn.inbox.append(b"" if how == "closed" else
                              penv.oserror(104))

    def feed(ep, timeout):
        st["n"] += 1
        if st["n"] == 1 and when == "after accept" and KIND[op] != "single":
            req = lib.sent()
            t = Transaction(op, req[0]["ta-id"], None)
            lib.give(lib.head(t, "accept"))
        elif not lib.conn.inbox:
            lib.conn.inbox.append(b"" if how == "closed" else penv.oserror(
                c.choice("errno", [32, 104, 110])))
        return None

    env.on_poll = feed
    try:
        r, x = lib.run(lib.call, op, lib.plain(op))
    except penv.Quiet:
        c.fail("call does not return after the connection is lost")
    c.check(r == "error", "lost connection not reported")
    c.reach("reported")
    c.observe("outcome", r)


def queued(c, version, n, slots):
    """Requests while the transport takes only some messages."""
    lib = Lib(c)
    cl = lib.start(version)
    conn = lib.conn
    conn.window = c.choice("window", range(slots + 1))
    want = []
    ops = ["publish", "ping", "services", "unpublish"]
    for i in range(n):
        op = c.choice("op", ops[:2]) if i else "subscribe"
        args = lib.arguments(op) if i == 1 else lib.plain(op)
        r, x = lib.run(lib.call, op, args, Rec(lib, "r%d" % i))
        c.check(r == "ok", "request failed while the transport blocks",
                str(x))
        want.append((op, args, x))
        k = c.choice("then", ["nothing", "more", "process"])
        if k == "more":
            conn.window += c.choice("slots", range(1, slots + 1))
        if k == "process":
            r, x = lib.run(cl.process)
            c.check(r == "ok", "processing failed", str(x))
    if len(conn.outbox) - lib.seen < n:
        c.reach("held back")
    rounds = 0
    conn.window = conn.window + c.choice("slots", [0, 1])
    while True:
        while conn.ready():
            rounds += 1
            c.check(rounds <= 4 * n + 8, "no progress while draining")
            r, x = lib.run(cl.process)
            c.check(r == "ok", "processing failed", str(x))
        if conn.window > 0:
            break
        conn.window = 1
    req = lib.sent()
    c.check(len(req) == n, "other than one message per request",
            str(len(req)))
    for tree, (op, args, ta) in zip(req, want):
        lib.same_request(tree, op, args)
        c.check(c.eq(tree["ta-id"], ta), "returned another identity")
        lib.tas.append(Transaction(op, tree["ta-id"], None))
    c.reach("drained")
    # not polled for sending when there is nothing left to send
    c.check(not conn.ready(), "busy waiting with nothing to send")
    c.observe("sent", len(req))


def fresh(c, version, n):
    """Identities stay distinct however transactions end in between."""
    lib = Lib(c)
    lib.start(version)
    for i in range(n):
        op = c.choice("op", ["ping", "subscribe", "hello"])
        t = lib.issue(op, "r%d" % i)
        for x in lib.tas[1:]:
            if x.state != "over" and c.choice("ends", [False, True]):
                lib.give(lib.head(x, "fail"))
                r, e = lib.run(lib.cl.process)
                c.check(r == "ok", "fitting message refused", str(e))
                x.state = "over"
                c.reach("ended")
    c.observe("issued", len(lib.tas))


def tracking(c, n, own=False):
    """Queries of the server are answered once each, by a tracker of its
    own or by the program; unsolicited replies are reported."""
    lib = Lib(c)
    lib.start(3, track=True)
    req = lib.sent()
    c.check(len(req) == 1, "tracking not requested once")
    lib.same_request(req[0], "track", [])
    t = Transaction("track", req[0]["ta-id"], None)
    lib.give(lib.head(t, "accept"))
    r, x = lib.run(lib.cl.process)
    c.check(r == "ok", "fitting message refused", str(x))
    asked = 0
    for i in range(n):
        k = c.choice("what", ["query", "reply", "ask", "blocked query"])
        if k == "ask":
            r, x = lib.run(lib.cl.tracker.query)
            c.check(r == "ok", "query failed", str(x))
            req = lib.sent()
            c.check(len(req) == 1, "other than one query sent")
            lib.same_request(req[0], "track", ["query"], "inform")
            c.check(c.eq(req[0]["ta-id"], t.ta_id), "wrong transaction")
            asked += 1
            continue
        if k == "blocked query":
            lib.conn.window = 0
        lib.give(dict(lib.head(t, "notify"), **{
            "track-type": "reply" if k == "reply" else "query"}))
        r, x = lib.run(lib.cl.process)
        if k == "reply":
            if asked == 0:
                c.check(r == "error", "unsolicited reply not reported")
                c.reach("unsolicited")
                return
            asked -= 1
            c.check(r == "ok", "fitting message refused", str(x))
            c.check(lib.sent() == [], "sent something unasked for")
            c.reach("reply taken")
            continue
        c.check(r == "ok", "fitting message refused", str(x))
        if k == "blocked query":
            c.check(lib.sent() == [], "sent while blocked")
            lib.conn.window = None
            c.check(lib.conn.ready(), "not waiting to send")
            r, x = lib.run(lib.cl.process)
            c.check(r == "ok", "processing failed", str(x))
        req = lib.sent()
        c.check(len(req) == 1, "query not answered once")
        lib.same_request(req[0], "track", ["reply"], "inform")
        c.check(c.eq(req[0]["ta-id"], t.ta_id), "wrong transaction")
        c.reach("answered")
    c.observe("asked", asked)


def connecting(c):
    """What is connected to, with what; failures are library errors."""
    lib = Lib(c)
    env = lib.env
    conf = lib.client.ServerConf(c.string("addr", 2))
    for a in ("tls.cert_file", "tls.key_file", "tls.tc_file"):
        if c.choice(a, [False, True]):
            conf.attrs[a] = c.string(a, 1)
    lo = c.int("lo", 0, 5)
    hi = c.int("hi", 0, 5)
    c.assume(lo <= hi)
    conf.proto_version_min = lo
    conf.proto_version_max = hi
    env.refuse = c.choice("refuse", [0, 111, 11, 2])
    given = dict(conf.attrs)
    blocked = c.choice("blocked", [None, 0])
    env.window = blocked
    cid = c.choice("client", [None, 5])
    track = c.choice("track", [False, True])
    r, x = lib.run(lib.client.connect, conf, client_id=cid,
                   ready_cb=lib.ready, track=track)
    usable = c.all_of([lo <= 3, hi >= 2])
    if env.refuse or not usable:
        c.check(r == "error", "hopeless connection not reported")
        c.reach("refused")
        return
    c.check(r == "ok", "connecting failed", str(x))
    c.check(len(env.connects) == 1, "other than one connection made")
    addr, attrs = env.connects[0]
    c.check(c.eq(addr, conf.addr), "connected to another address")
    c.check(attrs.get("xcm.blocking") is False, "connection blocks")
    c.check(sorted(attrs.keys()) == sorted(list(given.keys()) +
                                           ["xcm.blocking"]),
            "connected with other attributes")
    for a in given:
        c.check(c.eq(attrs[a], given[a]), "attribute altered", a)
    lib.cl = x
    lib.conn = env.conns[0]
    c.check(x.fileno() == lib.conn.fileno(), "wrong descriptor")
    if blocked == 0:
        c.check(lib.sent() == [], "sent while blocked")
        lib.conn.window = None
        c.check(lib.conn.ready(), "not waiting to send")
        lib.run(x.process)
    req = lib.sent()
    c.check(len(req) == 1, "connecting sends other than one request")
    who = req[0]["client-id"]
    if cid is not None:
        c.check(c.eq(who, cid), "wrong client identity")
    c.check(c.all_of([who >= 0, who <= MAX]), "client identity out of range")
    lib.same_request(req[0], "hello", [who, lo, hi])
    c.reach("connected")
    r, e = lib.run(x.close)
    c.check(r == "ok" and lib.conn.closed, "connection left open")
