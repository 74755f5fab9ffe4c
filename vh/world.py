"""A server process driven at wire level, next to a model of what the
properties say it must do.

Every judgement belongs to one or more properties.  A harness enables the
properties it decides; where the code deviates from another property's rule
the history is abandoned (that property's own check reports it), so the model
stays meaningful."""
import psx.env as penv
import vh.refilter as rf

MAX = (1 << 63) - 1
SLACK = 1.0 / 64
SHAKE_TIME = 2          # a handshake must be completed within
CLEAN_TIME = 1          # and is checked this often
FAR = 10 ** 6           # idle limit that no bounded history reaches

SINGLE = ("hello", "publish", "unpublish", "unsubscribe", "ping")
LISTS = ("services", "subscriptions", "clients")

# command -> (mandatory, optional) fields of notify and complete messages
NOTIFY = {
    "services": (("service-id", "generation", "service-props", "ttl",
                  "client-id"), ("orphan-since",)),
    "subscriptions": (("subscription-id", "client-id"), ("filter",)),
    "clients2": (("client-id", "client-address", "time"), ()),
    "clients3": (("client-id", "client-address", "time", "idle",
                  "protocol-version"), ("latency",)),
    "subscribe": (("match-type", "service-id"),
                  ("generation", "service-props", "ttl", "client-id",
                   "orphan-since")),
    "track": (("track-type",), ()),
}
COMPLETE = {"hello": ("protocol-version",)}


class Rec:
    """An existing service."""

    def __init__(self, sid, gen, props, ttl, owner, user, orphan):
        self.sid = sid
        self.gen = gen
        self.props = props          # list of (key, value)
        self.ttl = ttl
        self.owner = owner          # client id
        self.user = user
        self.orphan = orphan        # time or None

    def copy(self):
        return Rec(self.sid, self.gen, self.props, self.ttl, self.owner,
                   self.user, self.orphan)


class Sub:
    def __init__(self, sub_id, peer, ta, text, ref):
        self.sub_id = sub_id
        self.peer = peer
        self.ta = ta
        self.text = text
        self.ref = ref
        self.events = []            # (kind, before, after) since last settle
        self.seen = []              # Rec as the subscriber believes them


class Reply:
    def __init__(self):
        self.accepted = False
        self.kind = None            # "complete", "fail" or None
        self.reason = None
        self.notes = []
        self.msgs = []
        self.complete = None

    def ok(self):
        return self.kind == "complete"

    def failed(self, reason):
        return self.kind == "fail" and self.reason == reason


class Ta:
    def __init__(self, ta_id, cmd, version):
        self.ta_id = ta_id
        self.cmd = cmd
        self.version = version
        self.state = "requested"
        self.reply = Reply()


class Tracking:
    def __init__(self, ta):
        self.ta = ta
        self.since = None           # time of the server's open query
        self.latency = None
        self.owed = 0               # replies owed by the server


class Peer:
    def __init__(self, w, dom, addr, attrs, sock):
        self.w = w
        self.dom = dom
        self.addr = addr
        self.attrs = attrs
        self.pending = penv.Pending(addr, attrs)
        self.sock = sock
        self.next_ta = 0
        self.taken = 0
        self.tas = []               # open transactions
        self.cid = None             # client id after a completed handshake
        self.tried = None           # client id of the first hello attempt
        self.version = None
        self.tracking = None
        self.gone = False           # the model expects it to be closed
        self.shake_time = None
        self.arrived = None
        self.last_seen = None
        self.before = None
        self.limits = []            # idle limits since it was last seen
        self.claimed = None         # time its identity was last claimed
        self.new = []               # messages of the last collection
        self.user = user_of(addr, attrs)

    def conn(self):
        return self.pending.conn

    def accepted(self):
        return self.pending.conn is not None

    def closed(self):
        return self.conn() is not None and self.conn().closed

    def alive(self):
        return self.conn() is not None and not self.conn().closed

    def push(self, wire):
        self.pending.inbox.append(wire)

    def send_raw(self, tree):
        self.push(self.w.env.encode(tree))


def user_of(addr, attrs):
    proto = addr.split(":")[0]
    ski = attrs.get("tls.peer_subject_key_id")
    if proto == "tls" and ski is not None and not isinstance(ski, Exception):
        return "ski:" + ":".join(["%02x" % b for b in ski])
    if proto in ("tls", "tcp"):
        return "ip:" + ":".join(addr.split(":")[1:-1])
    return "default"


class Domain:
    """The model of one domain."""

    def __init__(self, name, versions, idle, user_limits, total_limits):
        self.name = name
        self.versions = versions
        self.idle = idle
        self.user_limits = user_limits
        self.total_limits = total_limits
        self.recs = []
        self.subs = []
        self.peers = []
        self.server = None
        self.socks = []


class SockConf:
    def __init__(self, addr, tls_attrs):
        self.addr = addr
        self.tls_attrs = tls_attrs


NOLIMIT = {"clients": None, "services": None, "subscriptions": None}


class World:
    def __init__(self, c, judge, versions=(2, 3), idle=None,
                 user_limits=None, total_limits=None, socks=("ux:srv",),
                 names=(None,), jitters=(0.5,), ids=None,
                 per=None):
        self.c = c
        self.judge = judge
        self.ids = ids              # transaction identities: None, "any"
        self.env = penv.Env(c)
        self.env.jitters = jitters
        self.m = c.load_cut(self.env.stubs())
        self.doms = []
        self.loop = self.m.load("paf.eventloop").EventLoop()
        self.m.load("paf.logging")
        conf = self.m.load("paf.conf")
        sd = self.m.load("paf.sd")
        server = self.m.load("paf.server")
        for i, name in enumerate(names):
            # what this domain is configured with
            x = {"versions": versions, "idle": idle, "socks": socks,
                 "user_limits": user_limits, "total_limits": total_limits}
            if per is not None:
                for k, v in per[i].items():
                    x[k] = v
            d = Domain(name, x["versions"], x["idle"] or (FAR, FAR),
                       dict(NOLIMIT, **(x["user_limits"] or {})),
                       dict(NOLIMIT, **(x["total_limits"] or {})))
            d.limited = x["idle"] is not None
            addrs = [a if i == 0 else "%s-%d" % (a, i) for a in x["socks"]]
            n = len(self.env.servers)
            d.server = server.create(
                name, [SockConf(a, {}) for a in addrs],
                sd.resources(**d.user_limits), sd.resources(**d.total_limits),
                conf.ProtoVersionLimitConf(d.versions[0], d.versions[1]),
                sd.IdleLimit(d.idle[0], d.idle[1]), self.loop)
            d.socks = self.env.servers[n:]
            self.doms.append(d)
        self.dom = self.doms[0]
        self.run()

    # ---- judging ------------------------------------------------------
    def expect(self, aspects, cond, label, detail=""):
        if isinstance(aspects, str):
            aspects = (aspects,)
        for a in aspects:
            if a in self.judge:
                self.c.check(cond, label, detail)
                return
        self.c.assume(cond)

    def judged(self, *aspects):
        for a in aspects:
            if a in self.judge:
                return True
        return False

    # ---- time ---------------------------------------------------------
    def run(self, until=None):
        """Run the server until nothing more happens (before `until`)."""
        self.env.horizon = self.env.now if until is None else until
        self.env.spin = 0
        try:
            self.loop.run()
            self.c.fail("the event loop returned without being stopped")
        except penv.Quiet:
            pass

    def advance(self, dt):
        t = self.env.now + dt
        self.run(t)
        self.collect()
        self.drops()
        self.expire()
        self.settle()

    def drops(self):
        self.evicted()
        self.silence()

    # ---- half-open connections ----------------------------------------
    def evicted(self):
        """Judge which connections without handshake were dropped."""
        for d in self.doms:
            for p in list(d.peers):
                if p.cid is not None or p.gone or not p.accepted():
                    continue
                t0 = p.conn().opened_at
                if p.alive():
                    self.expect("C19", self.env.now - t0 <=
                                SHAKE_TIME + CLEAN_TIME + SLACK,
                                "half-open connection kept")
                    self.c.reach("half-open")
                    continue
                t = p.conn().closed_at
                self.expect("C19", t - t0 >= SHAKE_TIME,
                            "connection dropped before its handshake time "
                            "was up")
                self.expect("C19", t - t0 <=
                            SHAKE_TIME + CLEAN_TIME + SLACK,
                            "half-open connection dropped late")
                self.c.reach("evicted")
                self.lost(p, t)

    # ---- idle limits --------------------------------------------------
    def limit_of(self, p):
        """The idle limit of a version 3 connection as of now."""
        lo, hi = p.dom.idle
        ttls = [r.ttl for r in p.dom.recs if r.owner == p.cid and
                r.orphan is None]
        if ttls == []:
            return hi
        low = ttls[0]
        for t in ttls[1:]:
            low = min(low, t)
        return min(hi, max(lo, low))

    def limited(self, p):
        return p.version == 3 and p.cid is not None and not p.gone and \
            p.dom.limited

    def seen(self, p):
        """p sent something the server handled."""
        if self.limited(p):
            p.limits = [self.limit_of(p)]
            p.claimed = None

    def limits_changed(self, d, but=None):
        """Somebody's set of services changed."""
        for p in d.peers:
            if p is not but and self.limited(p):
                p.limits = p.limits + [self.limit_of(p)]

    def raced(self, p):
        """Dropped at the very instant of a request: either is right."""
        if self.limited(p) and p.closed():
            lo = p.limits[0]
            for x in p.limits[1:]:
                lo = min(lo, x)
            self.c.assume(self.env.now - p.before < lo * 0.475)

    def silence(self):
        """Judge which silent connections were dropped."""
        c = self.c
        for d in self.doms:
            for p in list(d.peers):
                if p.version == 2 and p.cid is not None and p.alive():
                    # all there is to notice that a version 2 peer died
                    on = p.conn().set_attrs.get("tcp.keepalive", True)
                    self.expect("C18", on, "keepalive of the transport "
                                "switched off on a version 2 connection")
                if not self.limited(p):
                    continue
                lo = hi = p.limits[0]
                for x in p.limits[1:]:
                    lo, hi = min(lo, x), max(hi, x)
                silent = self.env.now - p.last_seen
                if p.alive():
                    self.expect("C18", silent <= hi * 1.05 + SLACK,
                                "silent client not dropped")
                    self.c.reach("silent but alive")
                    continue
                t = p.conn().closed_at
                early = t - p.last_seen < lo * 0.95 - SLACK
                if p.claimed is None:
                    self.expect("C18", c.neg(early),
                                "client dropped too early")
                else:
                    # somebody claimed its identity: half the limit
                    self.expect("C18", c.any_of([
                        c.neg(early), t - p.claimed >= lo * 0.5 - SLACK]),
                        "claimed client dropped too early")
                self.expect("C18", t - p.last_seen <= hi * 1.05 + SLACK,
                            "silent client dropped too late")
                if p.tracking is not None:
                    self.expect(("C18", "C34"), p.tracking.since is not None,
                                "tracking client not queried before it was "
                                "dropped")
                self.c.reach("dropped for silence")
                self.lost(p, t)

    def expire(self):
        """Model: orphans whose time has come are gone."""
        now = self.env.now
        for d in self.doms:
            for r in list(d.recs):
                if r.orphan is not None:
                    due = r.orphan + r.ttl
                    # at the very instant of expiry either answer is right
                    self.c.assume(self.c.any_of([due <= now - SLACK,
                                                 due >= now + SLACK]))
                    if due <= now:
                        self.c.reach("expired")
                        d.recs.remove(r)
                        self.event(d, "rem", r, None, due)

    # ---- model events -------------------------------------------------
    def event(self, d, kind, before, after, due=None):
        for s in d.subs:
            s.events.append((kind, before, after, due))

    def find(self, d, sid):
        for r in d.recs:
            if r.sid == sid:
                return r
        return None

    def find_sub(self, d, sub_id):
        for s in d.subs:
            if s.sub_id == sub_id:
                return s
        return None

    def owned(self, d, cid):
        return [r for r in d.recs if r.owner == cid]

    def holder(self, d, cid):
        """The live, handshaked peer using this client identity."""
        for p in d.peers:
            if p.cid is not None and not p.gone and p.cid == cid:
                return p
        return None

    def used(self, d, what, user=None):
        if what == "clients":
            xs = [p.user for p in d.peers if p.cid is not None and
                  not p.gone]
        elif what == "services":
            xs = [r.user for r in d.recs]
        else:
            xs = [s.peer.user for s in d.subs]
        return len([x for x in xs if user is None or x == user])

    def room(self, d, what, user):
        """Is there room for one more? (symbolic when the limit is)"""
        conds = []
        ul, tl = d.user_limits[what], d.total_limits[what]
        if ul is not None:
            conds.append(ul > self.used(d, what, user))
        if tl is not None:
            conds.append(tl > self.used(d, what))
        return self.c.all_of(conds)

    # ---- peers --------------------------------------------------------
    def arrive(self, addr="ux:p", attrs=None, dom=None, sock=0, run=True):
        """A connection attempt."""
        d = self.dom if dom is None else dom
        p = Peer(self, d, addr, attrs or {}, d.socks[sock])
        p.arrived = self.env.now
        d.peers.append(p)
        d.socks[sock].pending.append(p.pending)
        if run:
            self.run()
        return p

    def client(self, cid, addr="ux:p", attrs=None, version=2, dom=None,
               sock=0):
        """A connection with a completed handshake."""
        p = self.arrive(addr, attrs, dom, sock)
        self.hello(p, cid, version, version)
        return p

    def request(self, p, cmd, fields, ta_id=None, msg_type="request"):
        if ta_id is None and self.ids == "any":
            ta_id = self.c.int("ta", 0, MAX)
            for x in p.tas:
                self.c.assume(self.c.neg(self.c.eq(x.ta_id, ta_id)))
        elif ta_id is None:
            ta_id = p.next_ta
            p.next_ta += 1
        tree = {"ta-cmd": cmd, "ta-id": ta_id, "msg-type": msg_type}
        for k, v in fields.items():
            tree[k] = v
        p.before = p.last_seen
        p.last_seen = self.env.now
        ta = None
        if msg_type == "request":
            ta = Ta(ta_id, cmd, p.version)
            p.tas.append(ta)
        p.send_raw(tree)
        return ta

    def call(self, p, cmd, fields, ta_id=None):
        """Issue a request and let the server handle it."""
        ta = self.request(p, cmd, fields, ta_id)
        self.run()
        self.collect()
        self.raced(p)
        self.drops()
        self.c.assume(not p.gone)
        if p.conn().window is None:
            self.expect(("C13", "C14"), p.alive(),
                        "connection dropped on a valid request")
            self.answered(ta)
        self.seen(p)
        return ta.reply

    def answered(self, ta):
        r = ta.reply
        if ta.cmd in ("subscribe", "track"):
            self.expect("C14", r.accepted or r.kind is not None,
                        "request not answered")
        else:
            self.expect("C14", r.kind is not None, "request not answered")

    def collect(self):
        """Take the messages the server sent to every peer."""
        for d in self.doms:
            for p in d.peers:
                p.new = []
                conn = p.conn()
                if conn is None:
                    continue
                while p.taken < len(conn.outbox):
                    t, wire = conn.outbox[p.taken]
                    p.taken += 1
                    msg = self.env.decode(wire)
                    p.new.append((t, msg))
                    self.take(p, t, msg)

    def take(self, p, t, msg):
        c = self.c
        ok = isinstance(msg, dict)
        self.expect("C14", ok and "ta-id" in msg and "ta-cmd" in msg and
                    "msg-type" in msg, "message lacks its header")
        ta = None
        for x in p.tas:
            if x.ta_id == msg["ta-id"]:
                ta = x
        self.expect("C14", ta is not None,
                    "message for an unknown or terminated transaction")
        self.expect("C14", c.eq(msg["ta-cmd"], ta.cmd),
                    "message carries another transaction's command")
        kind = msg["msg-type"]
        r = ta.reply
        r.msgs.append((t, msg))
        if kind == "accept":
            self.expect("C14", ta.cmd not in SINGLE and
                        ta.state == "requested", "accept out of place")
            ta.state = "accepted"
            r.accepted = True
            self.fields(msg, (), ())
        elif kind == "notify":
            self.expect(("C14", "C01"), ta.state == "accepted",
                        "notification before accept or in a transaction "
                        "without notifications")
            name = ta.cmd
            if name == "clients":
                name = "clients%d" % ta.version
            must, may = NOTIFY[name]
            self.fields(msg, must, may)
            r.notes.append((t, msg))
            if ta.cmd == "track":
                self.track_note(p, t, msg["track-type"])
            if ta.cmd == "subscribe":
                mt = msg["match-type"]
                extra = [f for f in may if f in msg]
                if mt == "disappeared":
                    self.expect(("C14", "C01"), extra == [],
                                "fields in a disappeared notification")
                else:
                    self.expect(("C14", "C01"),
                                mt in ("appeared", "modified"),
                                "unknown match type")
                    self.expect(("C14", "C01"),
                                [f for f in may[:4] if f not in msg] == [],
                                "incomplete notification")
        elif kind == "complete":
            self.expect("C14", ta.state == ("requested" if ta.cmd in SINGLE
                                            else "accepted") and
                        ta.cmd != "track", "complete out of place")
            self.fields(msg, COMPLETE.get(ta.cmd, ()), ())
            r.kind = "complete"
            r.complete = msg
            self.close_ta(p, ta)
        elif kind == "fail":
            self.expect("C14", ta.state == "requested", "fail out of place")
            self.fields(msg, (), ("fail-reason",))
            r.kind = "fail"
            r.reason = msg.get("fail-reason")
            self.close_ta(p, ta)
        else:
            self.expect("C14", False, "unknown message type")

    def close_ta(self, p, ta):
        p.tas = [x for x in p.tas if x is not ta]

    def fields(self, msg, must, may):
        names = [k for k in msg if k not in ("ta-cmd", "ta-id", "msg-type")]
        self.expect(("C14", "C16"), [f for f in must if f not in names] == [],
                    "message lacks a mandatory field")
        self.expect(("C14", "C16"), [n for n in names if n not in must and
                                     n not in may] == [],
                    "message has a field its type does not allow")

    # ---- operations ---------------------------------------------------
    def hello(self, p, cid, lo=2, hi=2):
        c, d = self.c, p.dom
        if p.cid is not None:
            if p.cid == cid:
                want, aspect = ["ok"], "C10"
            else:
                want, aspect = ["permission-denied"], "C10"
            r = self.call(p, "hello", hello_fields(cid, lo, hi))
            self.outcome(r, want, aspect, "repeated hello")
            if r.ok():
                self.expect(("C10", "C11"),
                            c.eq(r.complete["protocol-version"], p.version),
                            "repeated hello changes the version")
            self.settle()
            return r
        want = []
        vlo = max(lo, d.versions[0])
        vhi = min(hi, d.versions[1])
        common = vlo <= vhi
        rebind = p.tried is not None and not (p.tried == cid)
        taken = self.holder(d, cid) is not None
        foreign = False
        if not taken:
            mine = self.owned(d, cid)
            if mine and not (mine[0].user == p.user):
                foreign = True
        if not common:
            want.append("unsupported-protocol-version")
            self.c.reach("version refused")
        if taken:
            want.append("client-id-exists")
            self.c.reach("id taken")
            self.holder(d, cid).claimed = self.env.now
        if foreign:
            want.append("permission-denied")
            self.c.reach("foreign id")
        room = self.room(d, "clients", p.user)
        if not room:
            want.append("insufficient-resources")
            self.c.reach("no client room")
        if rebind:
            # retrying with another identity may be refused
            want.append("permission-denied")
            if len(want) == 1:
                want.append("ok")
        elif not want:
            want.append("ok")
        if p.tried is None:
            p.tried = cid
        # which property prescribes the outcome
        if not common:
            aspect = "C11"
        elif taken or foreign:
            aspect = ("C12", "C05") if foreign else "C12"
        elif not room:
            aspect = "C09"
        else:
            aspect = ("C10", "C11", "C12", "C09", "C29", "C30")
        r = self.call(p, "hello", hello_fields(cid, lo, hi))
        self.outcome(r, want, aspect, "hello")
        if r.ok():
            p.cid = cid
            p.shake_time = self.env.now
            p.version = d.versions[1]
            if hi < p.version:
                p.version = hi
            self.expect("C11", c.eq(r.complete["protocol-version"],
                                    p.version),
                        "not the highest common version")
            # both are small: make it concrete
            p.version = 3 if p.version == 3 else 2
            self.seen(p)
        self.settle()
        return r

    def outcome(self, r, want, aspect, what):
        if r.kind == "fail":
            good = self.c.any_of([self.c.eq(r.reason, x) for x in want
                                  if x != "ok"])
            self.expect(aspect, good, what + ": wrong or unwarranted failure")
        else:
            self.expect(aspect, "ok" in want,
                        what + ": accepted against the rules")

    def publish(self, p, sid, gen, props, ttl, extra=()):
        """props: list of (key, value)"""
        c, d = self.c, p.dom
        old = self.find(d, sid)
        aspect = ("C04",) + tuple(extra)
        if old is None:
            want = "ok"
            if not self.room(d, "services", p.user):
                want = "insufficient-resources"
                self.c.reach("no service room")
            aspect = ("C04", "C09") + tuple(extra)
        elif not (old.user == p.user):
            want = "permission-denied"
            aspect = "C05"
            self.c.reach("foreign publish")
        elif gen == old.gen:
            if same_props(c, props, old.props) and ttl == old.ttl:
                want = "ok"
                self.c.reach("same generation")
            else:
                want = "same-generation-but-different"
                self.c.reach("changed without generation")
            aspect = aspect + ("C09", "C06", "C08")
        elif gen > old.gen:
            want = "ok"
            self.c.reach("newer generation")
            aspect = aspect + ("C09", "C06", "C08")
        else:
            want = "old-generation"
            self.c.reach("older generation")
        r = self.call(p, "publish", {
            "service-id": sid, "generation": gen,
            "service-props": wire_props(props), "ttl": ttl})
        self.outcome(r, [want], aspect, "publish")
        if r.ok():
            new = Rec(sid, gen, props, ttl, p.cid, p.user, None)
            if old is None:
                d.recs.append(new)
                self.event(d, "add", None, new)
            else:
                new.sid = old.sid
                d.recs[d.recs.index(old)] = new
                if gen == old.gen and old.owner == new.owner and \
                   old.orphan is None:
                    pass
                else:
                    if not (old.owner == new.owner):
                        self.c.reach("captured")
                    elif old.orphan is not None:
                        self.c.reach("reclaimed")
                    self.event(d, "mod", old, new)
            self.seen(p)
            self.limits_changed(d, p)
        self.settle()
        return r

    def unpublish(self, p, sid, extra=()):
        d = p.dom
        old = self.find(d, sid)
        aspect = ("C06", "C02") + tuple(extra)
        if old is None:
            want = "non-existent-service-id"
            aspect = "C05"
            self.c.reach("unpublish unknown")
        elif not (old.user == p.user):
            want = "permission-denied"
            aspect = "C05"
            self.c.reach("foreign unpublish")
        else:
            want = "ok"
        r = self.call(p, "unpublish", {"service-id": sid})
        self.outcome(r, [want], aspect, "unpublish")
        if r.ok():
            d.recs.remove(old)
            if not (old.owner == p.cid):
                mid = old.copy()
                mid.owner = p.cid
                mid.orphan = None
                self.c.reach("unpublished by another")
                self.event(d, "mod", old, mid)
                self.event(d, "rem", mid, None)
            elif old.orphan is not None:
                mid = old.copy()
                mid.orphan = None
                self.event(d, "mod?", old, mid)
                self.event(d, "rem", mid, None)
            else:
                self.event(d, "rem", old, None)
            self.seen(p)
            self.limits_changed(d, p)
        self.settle()
        return r

    def subscribe(self, p, sub_id, text=None, ref=None, bad=False):
        d = p.dom
        want = []
        aspect = ("C05",)
        if self.find_sub(d, sub_id) is not None:
            want.append("subscription-id-exists")
            self.c.reach("subscription id exists")
        if not self.room(d, "subscriptions", p.user):
            want.append("insufficient-resources")
            aspect = ("C09",) if not want[1:] else aspect
            self.c.reach("no subscription room")
        if bad:
            want.append("invalid-filter-syntax")
            aspect = ("C13", "C14")
        if not want:
            aspect = ("C01", "C05", "C09", "C14")
        f = {"subscription-id": sub_id}
        if text is not None:
            f["filter"] = text
        ta = self.request(p, "subscribe", f)
        self.run()
        self.collect()
        self.raced(p)
        self.drops()
        self.c.assume(not p.gone)
        r = ta.reply
        if p.conn().window is None:
            self.answered(ta)
        self.seen(p)
        if r.kind == "fail":
            good = self.c.any_of([self.c.eq(r.reason, x) for x in want])
            self.expect(aspect, good, "subscribe: wrong or unwarranted "
                        "failure")
        else:
            self.expect(aspect, want == [],
                        "subscribe: accepted against the rules")
            self.expect(("C14", "C01"), r.kind is None,
                        "subscription completed by itself")
            s = Sub(sub_id, p, ta, text, ref)
            for x in d.recs:
                s.events.append(("add", None, x, None))
            d.subs.append(s)
        self.settle()
        return r

    def unsubscribe(self, p, sub_id):
        d = p.dom
        s = self.find_sub(d, sub_id)
        if s is None:
            want, aspect = "non-existent-subscription-id", "C05"
            self.c.reach("unsubscribe unknown")
        elif not (s.peer is p):
            want, aspect = "permission-denied", "C05"
            self.c.reach("foreign unsubscribe")
        else:
            want, aspect = "ok", ("C05", "C14", "C01", "C03")
            self.c.reach("unsubscribed")
        r = self.call(p, "unsubscribe", {"subscription-id": sub_id})
        self.outcome(r, [want], aspect, "unsubscribe")
        if r.ok():
            d.subs.remove(s)
            self.expect("C14", s.ta.reply.kind == "complete",
                        "cancelled subscription not completed")
            self.fold(s)
        self.settle()
        return r

    def ping(self, p):
        r = self.call(p, "ping", {})
        self.expect(("C13", "C14", "C10"), r.ok(), "ping not completed")
        self.settle()
        return r

    def early(self, p):
        """A request before the handshake."""
        r = self.call(p, "ping", {})
        self.expect("C10", r.failed("no-hello"),
                    "request before hello not refused")
        self.settle()

    # ---- tracking -----------------------------------------------------
    def track(self, p):
        ta = self.request(p, "track", {})
        self.run()
        self.collect()
        self.raced(p)
        if p.version == 2:
            self.expect("C34", p.closed() or ta.reply.kind == "fail",
                        "track accepted on a version 2 connection")
            if p.closed():
                self.lost(p)
        elif p.tracking is not None:
            self.expect(("C34", "C14"), ta.reply.kind == "fail" and
                        ta.reply.reason == "track-exists",
                        "second track transaction not refused")
            self.c.reach("track exists")
            self.seen(p)
        else:
            self.expect(("C34", "C14"), ta.reply.accepted and
                        ta.reply.kind is None, "track not accepted")
            p.tracking = Tracking(ta)
            self.c.reach("tracking")
            self.seen(p)
        self.settle()

    def track_note(self, p, t, kind):
        k = p.tracking
        self.expect("C34", k is not None, "message in a track transaction "
                    "that was not accepted")
        if kind == "query":
            self.expect("C34", k.since is None,
                        "query while another one is open")
            if self.limited(p):
                silent = t - p.last_seen
                self.expect("C18", silent <= 0.75 * p.limits[0] or
                            len(p.limits) > 1,
                            "queried too late")
            k.since = t
            self.c.reach("queried")
        elif kind == "reply":
            self.expect("C34", k.owed > 0, "reply without a query")
            k.owed = k.owed - 1
            self.c.reach("replied")
        else:
            self.expect("C34", False, "unknown kind of track message")

    def inform(self, p, kind):
        """p sends a message in its track transaction."""
        k = p.tracking
        if k is None:
            self.c.assume(False)
        self.request(p, "track", {"track-type": kind}, k.ta.ta_id, "inform")
        if kind == "query":
            k.owed = k.owed + 1
        bad = kind not in ("query", "reply") or \
            kind == "reply" and k.since is None
        if kind == "reply" and not bad:
            k.latency = self.env.now - k.since
            k.since = None
        self.run()
        self.collect()
        self.raced(p)
        if bad and kind == "reply" and k.since is not None:
            self.c.assume(False)    # crossed the server's query
        if bad:
            self.expect(("C34", "C13"), p.closed(),
                        "bad track message tolerated")
            self.c.reach("bad track message")
            self.lost(p)
        else:
            self.expect(("C34", "C13"), p.alive(),
                        "dropped on a good track message")
            self.expect("C34", k.owed == 0, "track query not answered")
            self.seen(p)
            if kind == "reply":
                self.c.reach("latency")
        self.settle()

    def disconnect(self, p, how="close"):
        """The peer goes away (or its connection breaks)."""
        if how == "close":
            p.push(b"")
        else:
            p.push(penv.oserror(how))
        self.run()
        self.lost(p)
        self.expect(("C13", "C07"), p.closed(), "dead connection kept")
        self.collect()
        self.settle()

    def lost(self, p, t=None):
        """Model: p's connection ends (now)."""
        d = p.dom
        if t is None:
            t = self.env.now
        p.gone = True
        if p.cid is None:
            return
        for s in list(d.subs):
            if s.peer is p:
                d.subs.remove(s)
        for r in list(d.recs):
            if r.owner == p.cid and r.orphan is None:
                new = r.copy()
                new.orphan = t
                d.recs[d.recs.index(r)] = new
                self.event(d, "mod", r, new)
                self.c.reach("orphaned")
        self.expire()

    # ---- judging what subscribers see ---------------------------------
    def settle(self):
        """Judge everything sent since the last time."""
        self.collect()
        self.drops()
        self.admission()
        for d in self.doms:
            for p in d.peers:
                if p.accepted() and not p.gone:
                    self.expect(("C13", "C18", "C19"), p.alive(),
                                "connection dropped without cause")
            for s in d.subs:
                self.fold(s)

    def admission(self):
        """Connections are admitted exactly while client slots are free."""
        for d in self.doms:
            live = len([p for p in d.peers if p.alive()])
            tl = d.total_limits["clients"]
            if tl is not None:
                self.expect(("C19", "C09"), tl >= live,
                            "more connections than the client limit")
            for s in d.socks:
                if s.pending != []:
                    self.expect(("C19", "C09"), tl is not None and tl <= live,
                                "not admitted although a slot is free")
                    self.c.reach("waiting for a slot")

    def fold(self, s):
        c = self.c
        notes = s.ta.reply.notes
        s.ta.reply.notes = []
        events = s.events
        s.events = []
        if not self.judged("C01", "C06", "C07", "C08"):
            return
        # what each event means to this subscriber, per service in order
        want = []
        for kind, before, after, due in events:
            b = before is not None and self.visible(s, before)
            a = after is not None and self.visible(s, after)
            if a and b:
                want.append(["modified", after, due, kind == "mod?"])
            elif a:
                want.append(["appeared", after, due, False])
            elif b:
                want.append(["disappeared", before, due, False])
        for t, n in notes:
            hit = None
            for x in want:
                rec = x[1]
                if c.eq(n["service-id"], rec.sid):
                    if x[3] and n["match-type"] != "modified":
                        continue
                    hit = x
                    break
            self.expect(("C01", "C08", "C06"), hit is not None,
                        "notification without a change")
            want.remove(hit)
            self.expect(("C01", "C08", "C06"),
                        c.eq(n["match-type"], hit[0]),
                        "wrong kind or order of notification")
            if hit[0] != "disappeared":
                self.expect(("C01", "C06", "C08"),
                            self.same_note(n, hit[1]),
                            "notification misreports the service")
                c.reach(hit[0])
            else:
                c.reach("disappeared")
                if hit[2] is not None:
                    c.reach("expiry notified")
                    self.expect("C07", c.all_of([t >= hit[2],
                                                 t <= hit[2] + SLACK]),
                                "orphan removed at the wrong time")
        missing = [x for x in want if not x[3]]
        self.expect(("C01", "C06", "C07", "C08"), missing == [],
                    "change not notified")

    def visible(self, s, rec):
        if s.ref is None:
            return True
        return bool(rf.matches(self.c, s.ref, rec.props))

    def same_note(self, n, rec):
        c = self.c
        if rec.orphan is None:
            orphan = "orphan-since" not in n
        else:
            orphan = "orphan-since" in n and \
                c.eq(n["orphan-since"], rec.orphan)
        return c.all_of([c.eq(n["generation"], rec.gen),
                         c.eq(n["ttl"], rec.ttl),
                         c.eq(n["client-id"], rec.owner), orphan,
                         same_wire_props(c, n["service-props"], rec.props)])

    # ---- listings -----------------------------------------------------
    def list_services(self, p, aspects, text=None, ref=None):
        c, d = self.c, p.dom
        f = {} if text is None else {"filter": text}
        r = self.call(p, "services", f)
        self.expect(aspects, r.ok(), "service listing failed")
        want = [x for x in d.recs
                if ref is None or rf.matches(c, ref, x.props)]
        c.observe("listing", [[n["service-id"], n["generation"], n["ttl"],
                               n["client-id"], n.get("orphan-since")]
                              for t, n in r.notes])
        self.expect(aspects, len(r.notes) == len(want),
                    "service listing has wrong number of entries")
        for rec in want:
            hits = [n for t, n in r.notes if c.eq(n["service-id"], rec.sid)]
            self.expect(aspects, len(hits) == 1,
                        "service not listed exactly once")
            self.expect(aspects, self.same_note(hits[0], rec),
                        "listing misreports a service")
        self.settle()

    def list_subscriptions(self, p, aspects):
        c, d = self.c, p.dom
        r = self.call(p, "subscriptions", {})
        self.expect(aspects, r.ok(), "subscription listing failed")
        c.observe("subs", [[n["subscription-id"], n["client-id"],
                            n.get("filter")] for t, n in r.notes])
        self.expect(aspects, len(r.notes) == len(d.subs),
                    "subscription listing has wrong number of entries")
        for s in d.subs:
            hits = [n for t, n in r.notes
                    if c.eq(n["subscription-id"], s.sub_id)]
            self.expect(aspects, len(hits) == 1,
                        "subscription not listed exactly once")
            n = hits[0]
            self.expect(aspects, c.eq(n["client-id"], s.peer.cid),
                        "subscription listed with wrong owner")
            if s.text is None:
                self.expect(aspects, "filter" not in n,
                            "filter listed for unfiltered subscription")
            else:
                self.expect(aspects, "filter" in n and
                            c.eq(n["filter"], s.text),
                            "subscription listed with wrong filter")
        self.settle()

    def list_clients(self, p, aspects):
        c, d = self.c, p.dom
        now = self.env.now
        r = self.call(p, "clients", {})
        self.expect(aspects, r.ok(), "client listing failed")
        want = [x for x in d.peers if x.cid is not None and not x.gone]
        c.observe("clients", [[n["client-id"], n["client-address"],
                               n["time"], n.get("idle"),
                               n.get("protocol-version"), n.get("latency")]
                              for t, n in r.notes])
        self.expect(aspects, len(r.notes) == len(want),
                    "client listing has wrong number of entries")
        for x in want:
            hits = [n for t, n in r.notes if c.eq(n["client-id"], x.cid)]
            self.expect(aspects, len(hits) == 1,
                        "client not listed exactly once")
            n = hits[0]
            # the time may be that of the connection or of the handshake
            self.expect(aspects, c.all_of([
                c.eq(n["client-address"], x.addr),
                n["time"] >= x.arrived - 1, n["time"] <= x.shake_time]),
                "client listed with wrong address or connect time")
            if p.version >= 3:
                idle = now - x.last_seen
                self.expect(aspects, c.all_of([
                    n["idle"] >= idle - SLACK, n["idle"] <= idle + SLACK,
                    c.eq(n["protocol-version"], x.version)]),
                    "client listed with wrong idle time or version")
                if x.tracking is None or x.tracking.latency is None:
                    self.expect(aspects, "latency" not in n,
                                "latency listed without measurement")
                else:
                    self.expect(aspects, "latency" in n and c.all_of(
                        [n["latency"] >= x.tracking.latency - SLACK,
                         n["latency"] <= x.tracking.latency + SLACK]),
                        "wrong latency listed")
        self.settle()


def hello_fields(cid, lo, hi):
    return {"client-id": cid, "protocol-minimum-version": lo,
            "protocol-maximum-version": hi}


def wire_props(props):
    d = {}
    for k, v in props:
        if k not in d:
            d[k] = []
        d[k].append(v)
    return d


def same_props(c, a, b):
    """Equality of two property sets given as pair lists without
    duplicates."""
    if len(a) != len(b):
        return False
    return c.all_of([c.any_of([c.all_of([c.eq(k, k2), c.eq(v, v2)])
                               for k2, v2 in b]) for k, v in a])


def same_wire_props(c, d, props):
    if not isinstance(d, dict):
        return False
    flat = []
    for k, vs in d.items():
        if not isinstance(vs, list):
            return False
        for v in vs:
            flat.append((k, v))
    return same_props(c, flat, props)
