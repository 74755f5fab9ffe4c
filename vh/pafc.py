"""The interactive client: lines typed, requests sent, lines printed."""
import cmd
import getopt
import os
import shlex

import psx.env as penv
import vh.domfile as domfile
from psx.loader import StubModule, REPO
from vh.codec import SPEC, FIELD, MAX, wire_form
from vh.clientlib import ClientEnv, KIND

ADDR = "ux:server"
F_GETFL = 3
F_SETFL = 4
NONBLOCK = 0o4000


class Ended(BaseException):
    pass


class Stop(BaseException):
    """The command typed is done."""


class Text:
    """io.StringIO"""

    def __init__(self, s=""):
        self.s = s
        self.pos = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.s)
        d = self.s[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readline(self):
        d = ""
        while True:
            ch = self.read(1)
            d = d + ch
            if len(ch) == 0 or ch == "\n":
                return d

    def close(self):
        pass


class File:
    def __init__(self, p, fd):
        self.p = p
        self.fd = fd

    def fileno(self):
        return self.fd

    def read(self, n=-1):
        return self.p.read(self.fd, n)

    def write(self, data):
        self.p.write(self.fd, data)
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.p.env.free_fd(self.fd)


class Program:
    """One run of the client program."""

    def __init__(self, c, version=3, files=None):
        self.c = c
        self.version = version
        self.env = ClientEnv(c)
        self.env.on_poll = self.polled
        self.printed = []
        self.worker = None
        self.value = 0              # of the semaphore
        self.flags = {}
        self.answers = {}
        self.requests = []
        self.seen = 0
        self.silent = False         # the server says nothing
        self.open = {}              # transactions the server keeps open
        self.script = None
        self.outcome = None
        st = self.env.stubs()
        self.modules(st)
        extra = {"print": self.print, "input": self.input}
        if files is not None:
            files(st, extra)
        roots = {"getopt": getopt.__file__, "cmd": cmd.__file__,
                 "shlex": shlex.__file__,
                 "__main__": os.path.join(REPO, "app", "pafc")}
        self.m = c.load_cut(st, extra, roots)

    # -- what surrounds the program
    def modules(self, st):
        p = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(),
                         kwargs=None, daemon=None):
                self._target = (target, args, kwargs or {})
                self.daemon = daemon

            def start(self):
                p.worker = self

            def run(self):
                t, a, k = self._target
                if t is not None:
                    t(*a, **k)

            def join(self, timeout=None):
                pass

        class Semaphore:
            def __init__(self, value=1):
                p.value = value

            def acquire(self, blocking=True, timeout=None):
                p.drive()
                p.value -= 1
                return True

            def release(self, n=1):
                p.value += n

        class Event:
            def __init__(self):
                p.value = 0

            def wait(self, timeout=None):
                p.drive()
                return True

            def set(self):
                p.value = 1

            def clear(self):
                p.value = 0

            def is_set(self):
                return p.value > 0

        import threading
        st["threading"] = StubModule("threading", threading, Thread=Thread,
                                     Semaphore=Semaphore, Event=Event,
                                     BoundedSemaphore=Semaphore)
        s = st["signal"]
        s.pthread_sigmask = lambda how, mask: set()
        s.valid_signals = lambda: set()
        o = st["os"]
        o.fdopen = lambda fd, *a, **k: File(p, fd)
        o.write = self.write
        o.read = self.read
        o.kill = self.kill
        o._exit = self.leave
        o.set_blocking = lambda fd, on: self.flags.__setitem__(
            fd, 0 if on else NONBLOCK)
        st["fcntl"].fcntl = self.fcntl
        import sys
        out = StubModule("stdout", None, write=self.out,
                         flush=lambda: None)
        self.sys = StubModule("sys", sys, argv=["pafc"], stdout=out,
                              stdin=None, stderr=out)
        st["sys"] = self.sys
        st["readline"] = StubModule(
            "readline", None, get_completer=lambda: None,
            set_completer=lambda f: None, parse_and_bind=lambda s: None)
        if self.c.symbolic:
            import io
            st["io"] = StubModule("io", io, StringIO=Text)

    def print(self, *args, **kw):
        t = ""
        for i, a in enumerate(args):
            t = t + ("" if i == 0 else " ") + str(a)
        self.printed.append(t)

    def out(self, text):
        self.printed.append(text)

    def fcntl(self, fd, op, arg=0):
        if op == F_GETFL:
            return self.flags.get(fd, 0)
        if op == F_SETFL:
            self.flags[fd] = arg
        return 0

    def read(self, fd, n=-1):
        pipe = self.env.fds[fd]
        if pipe.data == 0:
            if not self.flags.get(fd, 0) & NONBLOCK:
                self.c.fail("the worker blocks for ever")
            return None
        k = pipe.data if n < 0 else min(n, pipe.data)
        pipe.data -= k
        self.env.progress()
        return b"\0" * k

    def write(self, fd, data):
        self.env.fds[fd].pipe.data += len(data)
        return len(data)

    def kill(self, pid, signo):
        self.outcome = "killed"
        raise Ended()

    def leave(self, status):
        self.outcome = status
        raise Ended()

    # -- the worker thread
    def drive(self):
        """The main thread waits for the worker."""
        if self.value > 0:
            return
        try:
            self.worker.run()
        except Stop:
            return
        except penv.Quiet:
            self.c.fail("the command never ends")
        self.c.fail("the worker ends")

    def pump(self):
        """The worker runs while the main thread waits for input."""
        if self.worker is None:
            return
        try:
            self.worker.run()
        except penv.Quiet:
            return
        self.c.fail("the worker ends")

    def polled(self, ep, timeout):
        self.serve()
        if self.value > 0:
            raise Stop()
        return None

    def input(self, prompt=""):
        self.pump()
        try:
            line = next(self.script)
        except StopIteration:
            raise EOFError()
        return line

    def run(self, argv, script):
        self.script = script
        self.sys.argv = ["pafc"] + argv
        try:
            self.m.load("__main__")
            self.outcome = "returned"
        except SystemExit as e:
            self.outcome = 0 if e.code is None else e.code
        except Ended:
            pass
        except penv.Quiet:
            self.outcome = "hangs"
        except Exception as e:
            self.outcome = "%s is not caught" % type(e).__name__

    # -- the server
    def serve(self):
        if self.env.conns == []:
            return
        conn = self.env.conns[-1]
        out = conn.outbox
        new = out[self.seen:]
        self.seen = len(out)
        for t, m in new:
            tree = self.env.decode(m)
            self.valid(tree)
            self.requests.append(tree)
            if not self.silent:
                self.respond(tree)

    def valid(self, tree):
        """The server would end the connection for anything else."""
        c = self.c
        cmd = tree["ta-cmd"]
        mtype = tree["msg-type"]
        must, may = SPEC[self.version or 3][cmd][mtype]
        for f in must:
            c.check(f in tree, "invalid request sent", f)
        for f in tree:
            if f in ("ta-cmd", "msg-type"):
                continue
            v = tree[f]
            if f == "ta-id" or FIELD[f] == "I":
                c.check(isinstance(v, int) and not isinstance(v, bool),
                        "invalid request sent", f)
                if f == "client-id" and self.version is None:
                    continue
                c.check(c.all_of([v >= 0, v <= MAX]),
                        "number out of range sent", f)

    def respond(self, tree):
        cmd = tree["ta-cmd"]
        if tree["msg-type"] == "inform":
            if tree["track-type"] == "query":
                self.say(tree, "notify", {"track-type": "reply"})
            return
        if cmd == "hello":
            v = self.version
            if v is None:
                v = tree["protocol-maximum-version"]
                cid = tree["client-id"]
                if not self.c.all_of([cid >= 0, cid <= MAX]):
                    self.env.conns[-1].inbox.append(b"")
                    return
            self.say(tree, "complete", {"protocol-version": v})
            return
        a = self.answers.get(cmd)
        if a is not None:
            for mtype, fields in a:
                self.say(tree, mtype, fields)
            return
        kind = KIND[cmd]
        if kind != "single":
            self.say(tree, "accept", {})
            if cmd in ("subscribe", "track"):
                return
        self.say(tree, "complete", {})

    def say(self, tree, mtype, fields):
        d = {"ta-cmd": tree["ta-cmd"], "ta-id": tree["ta-id"],
             "msg-type": mtype}
        d.update(fields)
        self.env.conns[-1].inbox.append(self.env.encode(d))

    # -- verdicts
    def of(self, cmd):
        return [t for t in self.requests if t["ta-cmd"] == cmd]

    def take(self):
        """Lines printed and requests sent since the last time."""
        out = self.printed
        self.printed = []
        req = self.requests
        self.requests = []
        return out, req

    def finish(self):
        c = self.c
        c.observe("outcome", self.outcome)
        c.check(self.outcome == 0, "the program ended", self.outcome)


def ok(lines):
    return len([x for x in lines if isinstance(x, str) and x == "OK."]) > 0


def start(p):
    """The session is established when the prompt appears."""
    c = p.c
    out, req = p.take()
    c.check(len(req) == 1 and req[0]["ta-cmd"] == "hello",
            "no session established")
    return req[0]


def alive(p):
    """Still serves its user."""
    c = p.c
    p.take()
    yield "ping"
    out, req = p.take()
    c.check(len(req) == 1 and req[0]["ta-cmd"] == "ping", "no ping sent")
    c.check(len(out) > 0, "outcome of the ping not printed")
    c.reach("alive")


# ---- what is typed ----------------------------------------------------

BLANK = " \t\r\n"
SPECIAL = "'\"\\"
ODD = "+-_ \t\n\r\x0b\x0c"


def word(c, name, n):
    """A word without quotes or blanks: (typed, meant)"""
    s = c.string(name, n)
    for ch in s:
        c.assume(c.neg(c.any_of([ch == x for x in BLANK + SPECIAL])))
        # what str.strip() removes at the end of a line
        c.assume(c.all_of([ch > " ", c.neg(c.any_of(
            [ch == "\x85", ch == "\xa0"]))]))
    return s, s


def quoted(c, name, n):
    """Anything in single quotes, or in double quotes without escapes."""
    q = c.choice(name + "/quote", ["'", '"'])
    s = c.string(name, n)
    for ch in s:
        c.assume(ch != q)
        if q == '"':
            c.assume(ch != "\\")
    return q + s + q, s


def decimal(c, s):
    """What a number typed means: ("int", v), ("no", None) or odd."""
    if len(s) == 0:
        return "no", None
    neg = False
    t = s
    if s[0] == "-":
        neg = True
        t = s[1:]
    v = 0
    digits = False
    odd = False
    plain = True
    for ch in t:
        if ch in "0123456789":
            digits = True
            if plain:
                v = 10 * v + int(ch)
            continue
        plain = False
        if ch >= "\x7f" or ch < " ":
            odd = True
            digits = True
        elif ch in ODD:
            odd = True
        else:
            return "no", None
    if not digits:
        return "no", None
    if odd or (len(t) > 1 and t[0] == "0"):
        return "odd", None
    if neg and v == 0:
        return "odd", None
    return "int", -v if neg else v


def hexadecimal(c, s):
    neg = False
    t = s
    if len(s) > 0 and s[0] == "-":
        neg = True
        t = s[1:]
    if len(t) == 0:
        return "no", None
    v = 0
    odd = False
    for ch in t:
        if ch in "0123456789abcdef":
            v = 16 * v + int(ch, 16)
        elif ch in "ABCDEF":
            v = 16 * v + int(ch, 16)
        elif ch in "xX" or ch in ODD or ch >= "\x7f" or ch < " ":
            odd = True
        else:
            return "no", None
    if odd or (neg and v == 0):
        return "odd", None
    return "int", -v if neg else v


def value(c, s):
    """What a property value typed means."""
    if len(s) >= 2 and s[0] == "|" and s[-1] == "|":
        return "str", s[1:-1]
    if len(s) > 0 and (s[0] in BLANK or s[-1] in BLANK):
        return "str", s             # not made up of digits
    kind, v = decimal(c, s)
    if kind == "no":
        return "str", s
    return kind, v


def typed(c, kind, i):
    """(typed, meant) of one argument; kind like w3, q2, =text? or 'a ?"""
    name = "arg%d" % i
    if kind[0] == "w":
        return word(c, name, int(kind[1:]))
    if kind[0] == "q":
        return quoted(c, name, int(kind[1:]))
    s = ""
    if kind[0] == "'":
        for k, ch in enumerate(kind[1:]):
            if ch == "?":
                ch = c.string("%s/%d" % (name, k), 1)
                c.assume(ch != "'")
            s = s + ch
        return "'" + s + "'", s
    for k, ch in enumerate(kind[1:]):
        if ch == "?":
            x, y = word(c, "%s/%d" % (name, k), 1)
            s = s + x
        else:
            s = s + ch
    return s, s


def number(c, reader, s):
    """(verdict, value): good, bad or odd"""
    kind, v = reader(c, s)
    if kind == "no":
        return "bad", None
    if kind == "odd":
        return "odd", None
    if c.any_of([v < 0, v > MAX]):
        return "bad", None
    return "good", v


def publish(c, args):
    p = Program(c)

    def script():
        start(p)
        line = "publish"
        meant = []
        for i, k in enumerate(args):
            t, m = typed(c, k, i)
            line = line + " " + t
            meant.append(m)
        yield line
        out, req = p.take()
        judge_publish(c, p, meant, out, req)
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def judge_publish(c, p, meant, out, req):
    c.check(len(req) <= 1, "other than one request sent")
    bad = len(meant) < 2
    odd = False
    want = {}
    if not bad:
        rest = list(meant)
        if len(rest) % 2 == 1:
            k, sid = number(c, hexadecimal, rest.pop(0))
            bad = bad or k == "bad"
            odd = odd or k == "odd"
            want["service-id"] = sid
        for f in ("generation", "ttl"):
            k, v = number(c, decimal, rest.pop(0))
            bad = bad or k == "bad"
            odd = odd or k == "odd"
            want[f] = v
    if bad:
        c.check(req == [], "published in spite of an error")
        c.check(len(out) > 0 and not ok(out), "error not reported")
        c.reach("reported")
        return
    if odd and req == []:
        c.check(len(out) > 0 and not ok(out), "error not reported")
        return
    c.check(len(req) == 1 and req[0]["ta-cmd"] == "publish",
            "nothing published")
    tree = req[0]
    for f, v in want.items():
        if v is not None:
            c.check(c.eq(tree[f], v), "published another value", f)
    if "service-id" not in want:
        c.check(len([x for x in out if c.shows(x, "%x",
                                               tree["service-id"])]) > 0,
                "chosen service id not printed")
    props = {}
    either = []
    while rest != []:
        key = rest.pop(0)
        s = rest.pop(0)
        kind, v = value(c, s)
        if key not in props:
            props[key] = set()
        if kind == "odd":
            either.append((key, s))
        else:
            props[key].add(v)
    got = tree["service-props"]
    if either == []:
        c.check(wire_form(c, got, props), "published other properties")
        c.reach("published")
    else:
        for key in props:
            c.check(key in got, "property not published")
            for v in props[key]:
                c.check(v in got[key], "value not published")
            texts = [s for k, s in either if c.eq(k, key)]
            for x in got[key]:
                if isinstance(x, str):
                    c.check(x in props[key] or x in texts,
                            "published another string")
    c.check(ok(out), "success not reported")
    c.observe("published", len(got))


def one_id(c, cmd, kind, more=0):
    """unpublish and unsubscribe; more: further arguments, of which there
    are none"""
    p = Program(c)

    def script():
        start(p)
        t, m = typed(c, kind, 0)
        line = cmd + " " + t
        for i in range(more):
            line = line + " " + typed(c, "w1", 1 + i)[0]
        yield line
        out, req = p.take()
        k, v = number(c, hexadecimal, m)
        if more > 0:
            k = "bad"
        if k == "bad" or (k == "odd" and req == []):
            c.check(req == [], "request sent in spite of an error")
            c.check(len(out) > 0 and not ok(out), "error not reported")
            c.reach("reported")
        else:
            f = "service-id" if cmd == "unpublish" else "subscription-id"
            c.check(len(req) == 1 and req[0]["ta-cmd"] == cmd,
                    "no request sent")
            if k == "good":
                c.check(c.eq(req[0][f], v), "another id sent")
                c.reach("sent")
            c.check(ok(out), "success not reported")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def filtered(c, cmd, args):
    """services and subscribe, with one filter or none"""
    p = Program(c)

    def script():
        start(p)
        line = cmd
        m = None
        for i, k in enumerate(args):
            t, m = typed(c, k, i)
            line = line + " " + t
        yield line
        out, req = p.take()
        c.check(len(req) == 1 and req[0]["ta-cmd"] == cmd,
                "no request sent")
        if m is None:
            c.check(req[0].get("filter") is None, "filter made up")
        else:
            c.check("filter" in req[0] and c.eq(req[0]["filter"], m),
                    "another filter sent")
        if cmd == "subscribe":
            c.check(len([x for x in out if c.shows(
                x, "%x", req[0]["subscription-id"])]) > 0,
                "chosen subscription id not printed")
        c.check(ok(out), "success not reported")
        c.reach("sent")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def anything(c, prefix, n, version=3):
    """Any characters: nothing ends the program but quit and EOF."""
    p = Program(c, version)

    def script():
        start(p)
        s = c.string("line", n)
        if prefix == "":
            c.assume(s.strip() != "EOF" if n >= 3 else True)
        yield prefix + s
        out, req = p.take()
        c.check(len(req) <= 1 or req[-1]["msg-type"] == "inform",
                "other than one request sent")
        c.reach("survived")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


# ---- what is answered -------------------------------------------------

SIMPLE = {"ping": "ping", "clients": "clients", "services": "services",
          "subscriptions": "subscriptions", "hello": "hello",
          "publish": "publish 1 2", "unpublish": "unpublish 7",
          "subscribe": "subscribe", "unsubscribe": "unsubscribe 7",
          "track": "track"}


def answered(c, cmd, version):
    """The outcome printed is the server's."""
    p = Program(c, version)

    def script():
        start(p)
        how = c.choice("answer", ["success", "fail", "reason"]
                       if cmd != "hello" else ["success"])
        when = c.choice("when", ["at once", "accepted"]
                        if KIND[cmd] != "single" and
                        cmd not in ("subscribe", "track")
                        and how != "success" else ["at once"])
        reason = None
        if how != "success":
            fields = {}
            if how == "reason":
                reason = "reason-" + c.choice("reason", ["a", "b"])
                fields["fail-reason"] = reason
            a = [("fail", fields)]
            if when == "accepted":
                a = [("accept", {})] + a
            p.answers[cmd] = a
        yield SIMPLE[cmd]
        out, req = p.take()
        p.answers = {}
        if cmd == "track" and version < 3:
            c.check(req == [], "sent a command the server does not know")
            c.check(not ok(out) and len(out) > 0, "error not reported")
            c.reach("failed")
        else:
            c.check(len(req) == 1 and req[0]["ta-cmd"] == cmd,
                    "no request sent")
            c.check(ok(out) == (how == "success"), "wrong outcome printed")
            if how == "success":
                c.reach("succeeded")
            else:
                c.check(len(out) > 0, "error not reported")
                c.reach("failed")
            if reason is not None:
                c.check(len([x for x in out if c.shows(x, "%s", reason)]) > 0,
                        "reason not printed")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def rows(c, p, what):
    """Records listed: (fields, [(spec, value)] shown, and not shown)"""
    n = c.choice("records", [0, 1, 2])
    out = []
    for i in range(n):
        if what == "services":
            sid = c.int("service", 4096, MAX)
            gen = c.int("generation", 4096, MAX)
            ttl = c.choice("ttl", [4711, 5321])
            owner = c.int("owner", 4096, MAX)
            val = c.choice("value", ["text", 8192])
            f = {"service-id": sid, "generation": gen, "ttl": ttl,
                 "client-id": owner, "service-props": {"key": [val]}}
            shown = [("%x", sid), ("%d", gen), ("%d", ttl), ("%x", owner),
                     ("%s", "key"), ("%s", val)]
            # what a record does not have is not taken from another
            no = [("%.1f", ttl - 500.0 - 16 * j) for j in range(n)]
            if c.choice("orphan", [False, True]):
                f["orphan-since"] = p.env.now - 500 - 16 * i
                shown.append(no.pop(i))
        elif what == "subscriptions":
            sub = c.int("subscription", 4096, MAX)
            owner = c.int("owner", 4096, MAX)
            f = {"subscription-id": sub, "client-id": owner}
            shown = [("%x", sub), ("%x", owner)]
            no = [("%s", "(key=text%d)" % j) for j in range(n)]
            if c.choice("filtered", [False, True]):
                f["filter"] = "(key=text%d)" % i
                shown.append(no.pop(i))
        else:
            cid = c.int("client", 4096, MAX)
            f = {"client-id": cid, "client-address": "ux:peer%d" % i,
                 "time": int(p.env.now) - 60 * (i + 1)}
            shown = [("%x", cid), ("%s", "ux:peer%d" % i),
                     ("%s", "0:0%d:00" % (i + 1))]
            no = []
            if p.version >= 3:
                no = [("%.1f", 62.5 + 125.0 * j) for j in range(n)]
                f["idle"] = 12.25 + i
                f["protocol-version"] = 3
                shown.append(("%.3f", 12.25 + i))
                if c.choice("latency", [False, True]):
                    f["latency"] = 0.0625 + 0.125 * i
                    shown.append(no.pop(i))
        out.append((f, shown, no))
    return out


def listed(c, what, version):
    """One line for each record, with all of its values."""
    p = Program(c, version)

    def script():
        start(p)
        recs = rows(c, p, what)
        p.answers[what] = [("accept", {})] + \
            [("notify", f) for f, s, no in recs] + [("complete", {})]
        yield what
        out, req = p.take()
        c.check(ok(out), "success not reported")
        lines = [x for x in out if not (isinstance(x, str) and
                                        x == "OK.")]
        c.check(len(lines) == len(recs) + 1,
                "other than one line for each record")
        for (f, shown, no), x in zip(recs, lines[1:]):
            for spec, v in shown:
                c.check(c.shows(x, spec, v), "value not printed", spec)
            for spec, v in no:
                c.check(c.neg(c.shows(x, spec, v)),
                        "another record's value printed", spec)
        c.reach("listed")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


SMALL = {"services": ["service-id", "generation", "ttl", "client-id", "val",
                      "age"],
         "match": ["service-id", "generation", "ttl", "client-id", "val"],
         "subscriptions": ["subscription-id", "client-id"],
         "clients": ["client-id", "idle", "latency"]}


def smallest(c, what, version):
    """Records that have the smallest value of a field are shown as others
    are: the same line but for that value."""
    p = Program(c, version)
    field = c.choice("field", [f for f in SMALL[what] if version >= 3 or
                               f not in ("idle", "latency")])
    small = 0.0 if field in ("idle", "latency") else \
        c.choice("value", [0, 1])
    mark = {"service-id": 0xabcd1, "generation": 734211, "ttl": 834212,
            "client-id": 0xabcd2, "val": 934213, "subscription-id": 0xabcd3,
            "idle": 51.125, "latency": 61.375}
    hexa = ("service-id", "client-id", "subscription-id")

    def record(values):
        if what == "subscriptions":
            return {"subscription-id": values["subscription-id"],
                    "client-id": values["client-id"]}
        if what == "clients":
            f = {"client-id": values["client-id"],
                 "client-address": "ux:peer", "time": int(p.env.now) - 60}
            if version >= 3:
                f["idle"] = values["idle"]
                f["protocol-version"] = 3
                f["latency"] = values["latency"]
            return f
        f = {"service-id": values["service-id"],
             "generation": values["generation"], "ttl": values["ttl"],
             "client-id": values["client-id"],
             "service-props": {"key": [values["val"]]}}
        if field == "age":
            f["orphan-since"] = p.env.now - values["age"]
        if what == "match":
            f["match-type"] = "appeared"
        return f

    def script():
        start(p)
        first = dict(mark)
        second = dict(mark)
        if field == "age":
            first["age"], second["age"] = 17, small
        else:
            second[field] = small
        recs = [("notify", record(first)), ("notify", record(second))]
        if what == "match":
            yield "subscribe"
            out, req = p.take()
            c.assume(req[0]["subscription-id"] == 5)
            for m, f in recs:
                p.say(req[0], m, f)
            yield "ping"
            out, req = p.take()
            out = [x for x in out if c.shows(x, "%s", "Subscription")]
        else:
            p.answers[what] = [("accept", {})] + recs + [("complete", {})]
            yield what
            out, req = p.take()
            key = "ux:peer" if what == "clients" else "%x" % (
                mark["subscription-id" if what == "subscriptions" else
                     "service-id"] if field == "client-id"
                else mark["client-id"])
            out = [x for x in out if c.shows(x, "%s", key)]
        c.check(len(out) == 2, "other than one line for each record")
        if what == "clients":
            spec = {"client-id": "%x", "idle": "%.3f",
                    "latency": "%.1f"}[field]
            c.check(c.shows(out[1], spec, small),
                    "smallest value not printed", field)
            was = None
        elif field == "age":
            was = "%.1f" % (mark["ttl"] - 17)
            now = "%.1f" % (mark["ttl"] - small)
        elif field in hexa:
            was, now = "%x" % mark[field], "%x" % small
        else:
            was, now = "%d" % mark[field], "%d" % small
        if was is not None:
            c.check(was in out[0] and
                    out[1].split() == [x.replace(was, now)
                                       for x in out[0].split()],
                    "smallest value not printed", field)
        c.reach("listed")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def notified(c, n, version):
    """Changes arrive while the user types nothing, or something else."""
    p = Program(c, version)

    def script():
        start(p)
        subs = []
        for i in range(2):
            yield "subscribe"
            out, req = p.take()
            c.check(len(req) == 1, "no request sent")
            subs.append(req[0])
        c.assume(subs[0]["subscription-id"] != subs[1]["subscription-id"])
        over = []
        for i in range(n):
            sub = c.choice("to", subs)
            if sub in over:
                c.assume(False)
            what = c.choice("match", ["appeared", "modified", "disappeared",
                                      "end"] + (["both"] if i == 0 else []))
            events = ["appeared", "disappeared"] if what == "both" else \
                [what]
            shown = []
            absent = []
            for e in events:
                if e == "end":
                    p.say(sub, "complete", {})
                    over.append(sub)
                    shown.append([])
                    absent.append(None)
                    continue
                sid = c.int("service", 4096, MAX)
                f = {"match-type": e, "service-id": sid}
                s = [("%s", e), ("%x", sid)]
                no = None
                if e != "disappeared":
                    gen = c.int("generation", 4096, MAX)
                    owner = c.int("owner", 4096, MAX)
                    f.update({"generation": gen, "ttl": 4711,
                              "client-id": owner,
                              "service-props": {"key": ["text"]}})
                    s += [("%d", gen), ("%d", 4711), ("%s", "key"),
                          ("%s", "text")]
                    if c.choice("orphan", [False, True]):
                        f["orphan-since"] = p.env.now - 500
                        s.append(("%.1f", 4211.0))
                    else:
                        no = ("%.1f", 4211.0)
                p.say(sub, "notify", f)
                shown.append(s)
                absent.append(no)
            if c.choice("user", ["waits", "types"]) == "waits":
                yield ""
            else:
                yield "ping"
            out, req = p.take()
            out = [x for x in out if c.shows(x, "%s", "Subscription")]
            c.check(len(out) == len(shown),
                    "other than one line for each change")
            for x, s, no in zip(out, shown, absent):
                if no is not None:
                    c.check(c.neg(c.shows(x, *no)),
                            "another service's value printed")
                c.check(c.shows(x, "%x", sub["subscription-id"]),
                        "printed for another subscription")
                for spec, v in s:
                    c.check(c.shows(x, spec, v), "value not printed", spec)
            c.reach("printed")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def tracked(c, n, version):
    """Track commands and the server's queries in any order."""
    p = Program(c, version)

    def script():
        start(p)
        ta = None
        for i in range(n):
            k = c.choice("step", ["track", "query", "verbose", "quiet",
                                  "asked", "unasked", "over"])
            if k == "asked":
                if ta is None:
                    c.assume(False)
                p.say(ta, "notify", {"track-type": "query"})
                yield ""
                out, req = p.take()
                c.check(len(req) == 1 and req[0]["msg-type"] == "inform" and
                        req[0]["track-type"] == "reply",
                        "query not answered once")
                c.check(c.eq(req[0]["ta-id"], ta["ta-id"]),
                        "answered in another transaction")
                c.reach("answered")
                continue
            if k in ("unasked", "over"):
                if ta is None:
                    c.assume(False)
                if k == "over":
                    p.say(ta, "complete", {})
                else:
                    p.say(ta, "notify", {"track-type": "reply"})
                yield ""
                p.take()
                if k == "over":
                    break
                continue
            yield "track" if k == "track" else "track " + k
            out, req = p.take()
            if k == "track" and ta is None and version >= 3:
                c.check(len(req) == 1 and req[0]["ta-cmd"] == "track",
                        "no request sent")
                c.check(ok(out), "success not reported")
                ta = req[0]
                c.reach("tracking")
            elif ta is None or k == "track":
                c.check(req == [], "request sent in spite of an error")
                c.check(not ok(out) and len(out) > 0, "error not reported")
                c.reach("refused")
            elif k == "query":
                c.check(len(req) == 1 and req[0]["msg-type"] == "inform" and
                        req[0]["track-type"] == "query",
                        "other than one query sent")
                c.check(c.eq(req[0]["ta-id"], ta["ta-id"]),
                        "sent in another transaction")
                c.reach("asked")
            else:
                c.check(req == [], "request sent for a setting")
        for x in alive(p):
            yield x
    p.run([ADDR], script())
    p.finish()


def ended(c, version):
    """Quitting, and losing the server."""
    p = Program(c, version)
    how = c.choice("how", ["quit", "eof", "line", "closed", "reset",
                           "garbage"])
    busy = c.choice("busy", [False, True])

    def script():
        start(p)
        if how == "eof":
            return
        if how in ("quit", "line"):
            yield "quit" if how == "quit" else "EOF"
            c.fail("goes on after quitting")
        conn = p.env.conns[-1]
        conn.inbox.append(b"" if how == "closed" else penv.oserror(104)
                          if how == "reset" else p.env.fault("json"))
        p.silent = True
        yield "ping" if busy else ""
        # a failed call is reported, at the latest the worker sees it
        yield ""
        c.fail("goes on without a server")
    p.run([ADDR], script())
    c.observe("outcome", p.outcome)
    if how in ("quit", "eof", "line"):
        c.check(p.outcome == 0, "wrong exit status", p.outcome)
    else:
        c.check(p.outcome == "killed" or
                (isinstance(p.outcome, int) and p.outcome != 0),
                "does not end when the server is lost", p.outcome)
        c.check(len(p.printed) > 0, "the loss is not reported")
    c.reach(how)


# ---- start-up ---------------------------------------------------------

def servers_of(c, n, form):
    """A domain of n servers: (text, [(address, attributes, versions)])"""
    addrs = ["ux:s%d" % i for i in range(n)]
    if form == "plain":
        return "# comment\n" + "\n".join(addrs) + "\n", \
            [(a, {}, (2, 3)) for a in addrs]
    bounded = c.choice("bounded", [False, True])
    servers = []
    want = []
    for i, a in enumerate(addrs):
        d = {"address": a}
        w = {}
        if i == 1:
            d["tlsKeyFile"] = "/key"
            w["tls.key_file"] = "/key"
        versions = (2, 3)
        if bounded:
            versions = (2, 2) if i == 0 else (3, 3)
            if i == 0:
                d["maxProtocolVersion"] = 2
            else:
                d["minProtocolVersion"] = 3
        servers.append(d)
        want.append((a, w, versions))
    tree = {"servers": servers}
    if c.symbolic:
        return domfile.DocText(tree, ""), want
    return penv.text_of(tree), want


def option(c, o, i, width):
    """(words, effect): effect is a dict, "bad", "odd" or "quit" """
    name = "opt%d" % i
    if o in ("-i", "-p", "-n"):
        s = c.string(name, width) if width > 0 else ""
        kind, v = hexadecimal(c, s) if o == "-i" else decimal(c, s)
        words = [o, s]
        if kind == "no":
            return words, "bad"
        if kind == "odd":
            return words, "odd"
        if v < 0 or v > MAX:
            return words, "bad"
        if o == "-p" and v != 2 and v != 3:
            return words, "bad"
        return words, {o: v}
    if o in ("-a", "-l", "-h"):
        return [o], "quit"
    return [o], "bad"


def started(c, options, width, domain, nargs):
    """Any values of the options, then a domain or an address."""
    files = {"other": "ux:o\n"}
    servers = []
    if domain == "plain" or domain == "json":
        text, servers = servers_of(c, 2, domain)
        files["dom"] = text
    elif domain == "missing":
        servers = None
    fs = domfile.Files(c, "/doms", files, "/doms")

    def patch(st, extra):
        domfile.mount(st, fs)
        extra["open"] = fs.open
    p = Program(c, None, patch)
    argv = []
    eff = {}
    bad = odd = False
    quits = []
    for i, o in enumerate(options):
        words, e = option(c, o, i, width)
        argv += words
        if e == "bad":
            bad = True
        elif e == "odd":
            odd = True
        elif e == "quit":
            quits.append(o)
        else:
            eff.update(e)
    args = ["dom", "x"][:nargs]
    argv += args
    refuse = c.choice("refused", [0, 111])
    p.env.refuse = refuse

    def script():
        c.reach("prompt")
        return
        yield ""
    p.run(argv, script())
    c.observe("outcome", p.outcome)
    c.check(p.outcome in (0, 1), "ended in an unexpected way", p.outcome)
    if quits != []:
        first = quits[0]
        good = first == "-h" or (first == "-l" and nargs == 0) or \
            (first == "-a" and nargs == 1)
        c.check(len(p.printed) > 0, "nothing printed")
        c.check(p.env.connects == [], "connected")
        if not bad and not odd:
            c.check(p.outcome == (0 if good else 1), "wrong exit status")
        if p.outcome == 0 and not (bad or odd):
            c.reach("listed")
            words = []
            for x in p.printed:
                words += x.split()
            if first == "-a" and servers is not None:
                c.check(words == [a for a, w, v in servers],
                        "other addresses printed")
            if first == "-l":
                c.check(sorted(words) == sorted(files),
                        "other domains printed")
        return
    n = eff.get("-n")
    chosen = None
    if not odd:
        if nargs != 1:
            bad = True
        elif servers is None:
            if n is not None:
                bad = True
            chosen = ("dom", {}, (2, 3))
        else:
            chosen = servers[0] if n is None else None
            for i in range(len(servers)):
                if n is not None and n == i:
                    chosen = servers[i]
            if chosen is None:
                bad = True
    if bad:
        c.check(p.outcome == 1, "wrong exit status")
        c.check(len(p.printed) > 0, "failed without a message")
        if p.env.connects != []:
            c.check(p.env.conns == [], "connected in spite of an error")
        c.reach("refused")
        return
    if p.outcome == 1 and (odd or refuse):
        c.check(len(p.printed) > 0, "failed without a message")
        return
    c.check(not refuse and p.outcome == 0, "wrong exit status")
    if odd:
        return
    c.check(len(p.env.connects) == 1, "other than one connection made")
    addr, attrs = p.env.connects[0]
    c.check(addr == chosen[0], "connected to another address", addr)
    attrs = dict(attrs)
    attrs.pop("xcm.blocking", None)
    c.check(attrs == chosen[1], "connected with other attributes")
    hello = p.requests[0]
    if "-i" in eff:
        c.check(c.eq(hello["client-id"], eff["-i"]),
                "wrong client identity")
    lo, hi = (eff["-p"], eff["-p"]) if "-p" in eff else chosen[2]
    c.check(c.eq(hello["protocol-minimum-version"], lo) and
            c.eq(hello["protocol-maximum-version"], hi),
            "wrong protocol versions")
    c.reach("connected")


def nowhere(c):
    """Domains are listed though their directory does not exist."""
    fs = domfile.Files(c, "/doms", {}, "/elsewhere")

    def patch(st, extra):
        domfile.mount(st, fs)
        extra["open"] = fs.open
    p = Program(c, None, patch)
    p.run(["-l"], iter(()))
    c.observe("outcome", p.outcome)
    c.check(p.outcome in (0, 1), "ended in an unexpected way", p.outcome)
    if p.outcome == 1:
        c.check(len(p.printed) > 0, "failed without a message")
    c.reach("listed")
