"""The server program: command line, start-up and shutdown."""
import errno
import getopt
import os
import shutil
import signal
import sys
import tempfile

import yaml

import psx.env as penv
import vh.config as config
import vh.logmodel as logmodel
from psx.lazy import ABSENT
from psx.loader import StubModule

LOGARGS = ("console", "log_file", "log_file_backup", "log_file_max_size",
           "syslog", "syslog_socket", "syslog_ident", "syslog_facility",
           "filter_level")

CREATE = ("name", "sockets", "max_user_resources", "max_total_resources",
          "proto_version_limit", "idle_limit", "event_loop")


def bind(names, defaults, args, kwargs):
    d = dict(zip(names, defaults)) if defaults else {}
    for n, v in zip(names, args):
        d[n] = v
    for n, v in kwargs.items():
        d[n] = v
    return d


class Program:
    """One run of the server program."""

    def __init__(self, c, doc=None):
        self.c = c
        self.env = penv.Env(c)
        self.out = []
        self.doc = doc
        st = self.env.stubs()
        extra = {}
        if doc is not None:
            st2, extra = config.environment(c, doc)
            st.update(st2)

        def fake_print(*args, **kw):
            self.out.append(args)
        extra["print"] = fake_print
        roots = {"getopt": getopt.__file__}
        self.book = logmodel.Book(c, self.unwritable)
        st.update(self.book.stubs())
        st["os"] = self.file_system(st["os"])
        self.absent = None          # whether paths exist; None: they do
        self.locked = False         # log files cannot be opened
        self.m = c.load_cut(st, extra, roots)
        self.m.load("paf.logging")
        self.sd = self.m.load("paf.sd")
        self.server = self.m.load("paf.server")
        self.m.load("paf.eventloop")
        self.outcome = None         # exit status or "running"
        self.failure = None

    def file_system(self, base):
        def exists(path):
            return self.absent is None or not self.absent(path)

        def stat(path, *args, **kw):
            if not exists(path):
                raise penv.oserror(errno.ENOENT)
            return os.stat("/dev/null")
        base.__dict__["path"] = StubModule(
            "os.path", os.path, exists=exists, lexists=exists)
        base.__dict__["stat"] = stat
        base.__dict__["access"] = lambda path, *a, **k: exists(path)
        return base

    def unwritable(self, path):
        return self.locked

    def run(self, argv):
        c = self.c
        scratch = None
        if not c.symbolic and self.doc is not None and \
           not isinstance(self.doc, Exception):
            scratch = tempfile.mkdtemp(prefix="verif-daemon-")
            name = os.path.join(scratch, "conf")
            with open(name, "wb") as f:
                f.write(self.doc if isinstance(self.doc, bytes) else
                        yaml.safe_dump(self.doc).encode("utf-8"))
            argv = [name if a == "/nowhere/conf" else a for a in argv]
        try:
            daemon = self.m.load("paf.daemon")
            try:
                daemon.main(argv)
                self.outcome = "returned"
            except SystemExit as e:
                self.outcome = 0 if e.code is None else e.code
            except penv.Quiet:
                self.outcome = "running"
        finally:
            if scratch is not None:
                shutil.rmtree(scratch)


# ---- the command line -------------------------------------------------

def number(c, name, n, plain=False):
    """An option value: (text, kind, value)"""
    kind = "digits" if plain else \
        c.choice(name + "/kind", ["digits", "negative", "text"])
    if kind == "text":
        s = c.string(name, n)
        odd = False
        plain = True
        for ch in s:
            if ch in "0123456789":
                continue
            plain = False
            if ch in "+-_ \t\n\r\x0b\x0c" or ch >= "\x7f" or \
               ch < " ":
                odd = True
            else:
                return s, "bad", None
        if plain or odd:
            return s, "odd", None
        return s, "bad", None
    s = c.string(name, n, "0123456789")
    v = 0
    for ch in s:
        v = 10 * v + "0123456789".index(ch)
    if kind == "digits":
        return s, "good", v
    c.assume(v > 0)
    return "-" + s, "negative", -v


class Want:
    def __init__(self):
        self.log = dict(zip(LOGARGS, (False, None, 0, 1000000, True,
                                      "/dev/log", None, 3, 20)))
        self.domains = []           # (name, addresses)
        self.clients = None
        self.others = {}
        self.bad = False            # must exit with status 1
        self.odd = False            # may
        self.quit = False           # may print and exit with status 0


FILE = {"domains": [{"name": "one", "sockets": ["ux:a", "ux:b"]},
                    {"sockets": ["ux:c"], "idle": {"max": 7}}],
        "log": {"console": False, "filter": "error", "facility": "local1",
                "log_file": "/f", "log_file_backup": 2, "syslog": True,
                "log_file_max_size": 9, "syslog_socket": "/s"},
        "resources": {"total": {"clients": 5, "services": 6},
                      "user": {"clients": 4}}}
# the switches the other way around
FILE2 = dict(FILE, log=dict(FILE["log"], console=True, syslog=False))


def base(w, doc):
    if doc is None:
        return
    if not isinstance(doc, dict):
        w.bad = True
        return
    w.log.update({"console": doc["log"]["console"],
                  "syslog": doc["log"]["syslog"], "filter_level": 40,
                  "syslog_facility": 17, "log_file": "/f",
                  "log_file_backup": 2, "log_file_max_size": 9,
                  "syslog_socket": "/s"})
    w.domains = [("one", ["ux:a", "ux:b"], (4, 30)),
                 (None, ["ux:c"], (4, 7))]
    w.clients = 5
    w.others = {"services": 6, "user": 4}


def option(c, w, argv, extra_domains, o, i, n, plain=False):
    """Append one option and what it means."""
    name = "opt%d" % i
    if o in ("-b", "-x", "-c"):
        text, kind, v = number(c, name, n, plain)
        argv += [o, text]
        if kind == "bad":
            w.bad = True
        elif kind == "odd":
            w.odd = True
        elif kind == "negative":
            if o == "-c":
                w.bad = True
            else:
                w.odd = True
        elif o == "-c":
            if v == 0:
                w.clients = None
                c.reach("no client limit")
            else:
                w.clients = v
        elif o == "-b":
            w.log["log_file_backup"] = v
        else:
            w.log["log_file_max_size"] = v
    elif o in ("-o", "-u"):
        text = c.string(name, n)
        argv += [o, text]
        w.log["log_file" if o == "-o" else "syslog_socket"] = text
    elif o == "-s":
        argv.append(o)
        w.log["console"] = True
    elif o == "-n":
        argv.append(o)
        w.log["syslog"] = False
    elif o in ("-l", "-y"):
        table = config.LEVELS if o == "-l" else config.FACILITIES
        names = list(table) if o == "-l" else ["daemon", "local7", "user"]
        text = c.choice(name, names[:2] if plain else
                        names + [None, "", "Debug"])
        if text is None:
            text = c.string(name + "/text", 4)
        argv += [o, text]
        hit = None
        for k in table:
            if text == k:
                hit = table[k]
        if hit is None:
            w.bad = True
        else:
            w.log["filter_level" if o == "-l" else "syslog_facility"] = hit
    elif o == "-m":
        text = c.string(name, 2 if plain else 3)
        argv += [o, text]
        cur, addrs = "", []
        for ch in text:
            if ch == "+":
                addrs.append(cur)
                cur = ""
            else:
                cur = cur + ch
        addrs.append(cur)
        extra_domains.append(addrs)
    elif o in ("-v", "-h"):
        argv.append(o)
        w.quit = True
    else:
        # not an option, or one without its value
        argv.append(o)
        w.bad = True


OPTIONS = ["-b", "-x", "-c", "-o", "-u", "-s", "-n", "-l", "-y", "-m", "-v",
           "-h", "-z", "--foo", "-cz"]


def command_line(c, n, conf, menu=None, width=2, plain=False):
    """n options out of all, a configuration file or none, up to two
    domain arguments."""
    doc = None
    if conf == "file":
        doc = FILE
    elif conf == "file2":
        doc = FILE2
    elif conf == "bad":
        doc = c.choice("conf", [penv.oserror(2), b"{", {"log": 5},
                                {"domains": [{"sockets": ["a"], "idle":
                                              {"min": 0}}]}])
    w = Want()
    p = Program(c, doc)
    argv = ["pafd"]
    cmdline = []
    if doc is not None:
        argv += ["-f", "/nowhere/conf"]
        if conf == "bad":
            w.bad = True
        else:
            base(w, doc)
    for i in range(n):
        o = c.choice("option", menu or OPTIONS)
        option(c, w, argv, cmdline, o, i, width, plain)
    args = []
    most = 3 if n == 0 else 1 if plain else 2
    for i in range(c.choice("arguments", range(most))):
        # getopt ends at the first argument
        args.append(c.string("arg", 2) if n == 0 and
                    c.choice("any", [False, True]) else "ux:%d" % i)
    if len(args) > 0 and args[0].startswith("-"):
        c.assume(False)
    argv += args
    if n == 0 and args == [] and c.choice("dangling", [False, True]):
        argv.append("-l")
        w.bad = True
    domains = [[a] for a in args] + cmdline
    if domains != []:
        w.domains = [(None, d, (4, 30)) for d in domains]
    if w.domains == []:
        w.bad = True
    if n == 0:
        trouble = c.choice("logging", [None, "socket", "file"])
        if trouble == "socket":
            p.absent = lambda path: c.eq(path, w.log["syslog_socket"])
            w.bad = w.bad or w.log["syslog"]
        elif trouble == "file":
            p.locked = True
            w.bad = w.bad or w.log["log_file"] is not None
    created = []

    def create(*a, **k):
        created.append(bind(CREATE, None, a, k))
        return Dummy()
    p.server.create = create
    p.run(argv)
    c.observe("outcome", p.outcome)
    judge(c, p, w, created)


class Dummy:
    def terminate(self):
        pass

    def close_server_socks(self):
        pass


def judge(c, p, w, created):
    if p.outcome == 1:
        c.check(w.bad or w.odd, "refused to start without reason", p.out)
        c.check(len(p.out) > 0, "failed without a message")
        c.check(created == [] and p.env.servers == [],
                "opened a socket before failing")
        c.reach("refused")
        return
    if p.outcome == 0:
        c.check(w.quit, "quit without reason")
        c.check(len(p.out) > 0, "nothing printed")
        c.check(created == [], "opened a socket")
        c.reach("printed")
        return
    c.check(p.outcome == "running", "did not start", p.outcome)
    c.check(not w.bad and not w.quit, "started in spite of an error")
    c.reach("started")
    if w.odd:
        return
    judge_log(c, p.book, w.log)
    c.check(len(created) == len(w.domains), "wrong number of domains")
    rt = p.sd.ResourceType
    for x, (name, addrs, idle) in zip(created, w.domains):
        c.check(x["name"] is None if name is None else
                x["name"] is not None and c.eq(x["name"], name),
                "wrong domain name")
        c.check(len(x["sockets"]) == len(addrs), "wrong number of sockets")
        for s, a in zip(x["sockets"], addrs):
            c.check(c.eq(s.addr, a), "wrong socket address")
        t = x["max_total_resources"]
        c.check(t[rt.CLIENT] is None if w.clients is None else
                t[rt.CLIENT] is not None and c.eq(t[rt.CLIENT], w.clients),
                "client limit not honoured")
        c.check(c.all_of([c.eq(t[rt.SERVICE], w.others.get("services")),
                          t[rt.SUBSCRIPTION] is None,
                          c.eq(x["max_user_resources"][rt.CLIENT],
                               w.others.get("user"))]),
                "other limits altered")
        il = x["idle_limit"]
        c.check(il.idle_min == idle[0] and il.idle_max == idle[1],
                "idle limits altered")


def judge_log(c, book, log):
    """The outputs are those asked for."""
    kinds = {}
    for h in book.outputs():
        c.check(h.kind not in kinds, "two outputs of a kind", h.kind)
        kinds[h.kind] = h
        c.check(h.level <= 10, "output drops messages")
    c.check(c.eq(book.root.level, log["filter_level"]), "wrong log level")
    for kind, on in (("console", log["console"]),
                     ("file", log["log_file"] is not None),
                     ("syslog", log["syslog"])):
        c.check((kind in kinds) == on, "log output not as configured", kind)
    h = kinds.get("console")
    if h is not None:
        c.check(h.stream is None or h.stream is sys.stderr,
                "console log does not go to standard error")
    h = kinds.get("file")
    if h is not None:
        c.check(c.eq(h.path, log["log_file"]), "wrong log file")
        c.check(h.mode == "a", "log file is truncated")
        c.check(c.eq(h.backupCount, log["log_file_backup"]),
                "wrong number of log file backups")
        if log["log_file_backup"] > 0:
            c.check(c.eq(h.maxBytes, log["log_file_max_size"]),
                    "wrong log file size")
    h = kinds.get("syslog")
    if h is not None:
        c.check(c.eq(h.address, log["syslog_socket"]),
                "wrong system log socket")
        c.check(h.facility == log["syslog_facility"], "wrong facility")


# ---- shutdown ---------------------------------------------------------

class Shutdown:
    """A running server and what happens to it, one batch of events each
    time it has nothing left to do."""

    def __init__(self, c, doc, version):
        self.c = c
        self.version = version
        self.p = Program(c, doc)
        self.env = self.p.env
        self.env.on_poll = self.poll
        self.steps = []
        self.peers = {}
        self.ended = False
        self.after = 0

    def poll(self, ep, timeout):
        if self.ended:
            self.after += 1
            self.c.check(self.after < 3, "goes on after the signal")
        while self.steps != []:
            for fd in ep.table:
                if self.env.fds[fd].ready():
                    return None
            self.step(self.steps.pop(0))
        return None

    def step(self, fn):
        try:
            fn()
        except OSError:
            raise
        except Exception as e:
            self.c.fail("harness: %r" % (e,))

    # ---- events -------------------------------------------------------
    def come(self, name, sock=0):
        p = penv.Pending("ux:" + name, {})
        self.peers[name] = p
        self.env.servers[sock].pending.append(p)

    def send(self, name, cmd, ta, fields):
        tree = {"ta-cmd": cmd, "ta-id": ta, "msg-type": "request"}
        for k, v in fields.items():
            tree[k] = v
        self.peers[name].inbox.append(self.env.encode(tree))

    def hello(self, name, cid):
        self.send(name, "hello", 0, {
            "client-id": cid, "protocol-minimum-version": self.version,
            "protocol-maximum-version": self.version})

    def publish(self, name, sid):
        self.send(name, "publish", 10 + sid, {
            "service-id": sid, "generation": 1, "service-props": {},
            "ttl": 5})

    def subscribe(self, name, sub):
        self.send(name, "subscribe", 20 + sub, {"subscription-id": sub})

    def full(self, name):
        p = self.peers[name]
        if p.conn is None:
            p.window = 0
        else:
            p.conn.window = 0

    def signal(self):
        c = self.c
        signo = c.choice("signal", [signal.SIGTERM, signal.SIGINT,
                                    signal.SIGHUP])
        h = self.env.handlers.get(int(signo))
        c.check(callable(h), "signal not handled")
        h(int(signo), None)
        self.env.signal()
        self.ended = True
        c.reach("signalled")

    def fail(self):
        """The kernel interface fails unexpectedly."""
        raise penv.oserror(12)

    # ---- verdict ------------------------------------------------------
    def finish(self, status):
        c = self.c
        c.observe("status", self.p.outcome)
        c.check(self.p.outcome == status, "wrong exit status",
                self.p.outcome)
        for s in self.env.socks:
            if status == 0 or s.kind == "server socket":
                c.check(s.closed, s.kind + " left open")
        c.reach("down")


def doc_of(shape):
    """shape: sockets per domain, like 2,1"""
    n = 0
    doms = []
    for k in shape:
        doms.append({"sockets": ["ux:s%d" % (n + i) for i in range(k)]})
        n += k
    return {"domains": doms}


def shutdown(c, shape, version=3, limit=None, second=False):
    """Clients in all kinds of states when the signal comes."""
    doc = doc_of(shape)
    if limit is not None:
        doc["resources"] = {"total": {"clients": limit}}
    s = Shutdown(c, doc, version)
    n = sum(shape)
    states = ["none", "half-open", "client", "busy", "full", "waiting"]
    names = ["A", "B"] + (["C"] if second else [])
    for i, name in enumerate(names):
        st = c.choice("state", states)
        sock = c.choice("socket", range(n))
        if st == "none":
            continue
        cid = 5 + i
        if st == "waiting":
            continue
        s.steps.append(lambda name=name, sock=sock: s.come(name, sock))
        if st == "half-open":
            continue
        s.steps.append(lambda name=name, cid=cid: s.hello(name, cid))
        if st in ("busy", "full"):
            s.steps.append(lambda name=name, i=i: s.subscribe(name, i))
            s.steps.append(lambda name=name, i=i: s.publish(name, i))
            if version == 3:
                s.steps.append(lambda name=name, i=i:
                               s.send(name, "track", 40 + i, {}))
        if st == "full":
            s.steps.append(lambda name=name: s.full(name))
            s.steps.append(lambda name=name, i=i:
                           s.send(name, "services", 50 + i, {}))
    extra = c.choice("at the same time", ["nothing", "arrival", "request",
                                          "close", "error"])

    def last():
        if extra == "arrival":
            s.come("Z", c.choice("socket", range(n)))
        elif extra != "nothing":
            live = [x for x in names if x in s.peers and
                    s.peers[x].conn is not None]
            if live == []:
                c.assume(False)
            who = c.choice("who", live)
            if extra == "request":
                s.publish(who, 7)
            else:
                s.peers[who].inbox.append(b"" if extra == "close" else
                                          penv.oserror(104))
        s.signal()
    s.steps.append(last)
    s.p.run(["pafd", "-f", "/nowhere/conf"])
    s.finish(0)


def early_signal(c, shape):
    """The signal arrives before the server waits for the first time."""
    s = Shutdown(c, doc_of(shape), 3)
    created = s.p.server.create
    at = c.choice("at", range(len(shape)))
    count = []

    def create(*a, **k):
        if len(count) == at:
            s.signal()
        count.append(1)
        return created(*a, **k)
    s.p.server.create = create
    s.p.run(["pafd", "-f", "/nowhere/conf"])
    s.finish(0)


def broken_start(c, shape):
    """Some socket cannot be opened."""
    s = Shutdown(c, doc_of(shape), 3)
    n = sum(shape)
    at = c.choice("at", range(n))
    s.env.server_errors = [0] * at + [c.choice("errno", [98, 13, 22, 2])]
    s.p.run(["pafd", "-f", "/nowhere/conf"])
    c.check(len(s.env.servers) <= at, "opened sockets after a failure")
    s.finish(1)
    c.reach("start failed")


def broken_run(c, shape):
    """Operation fails with some clients connected."""
    s = Shutdown(c, doc_of(shape), 3)
    n = sum(shape)
    for i in range(c.choice("clients", [0, 1, 2])):
        name = "AB"[i]
        s.steps.append(lambda name=name: s.come(name, i % n))
        if c.choice("shake", [False, True]):
            s.steps.append(lambda name=name, i=i: s.hello(name, i))
    s.steps.append(s.fail)
    s.p.run(["pafd", "-f", "/nowhere/conf"])
    s.finish(1)


def broken_hook(c, shape):
    """The user's start-up hook fails."""
    s = Shutdown(c, doc_of(shape), 3)
    hook = c.choice("hook", ["no_such_module.f", "os.no_such_function",
                             "os.getcwd", "x", "", "os.path.exists"])
    s.steps.append(s.signal)
    s.p.run(["pafd", "-f", "/nowhere/conf", "-r", hook])
    s.finish(1)


# ---- socket attributes ------------------------------------------------

TLS = {"cert": "tls.cert_file", "key": "tls.key_file", "tc": "tls.tc_file",
       "crl": "tls.crl_file"}


def attributes(c, shape):
    """Every socket gets the TLS attributes configured for it and no others;
    shape: sockets per domain."""
    doc = {"domains": []}
    want = []
    for d in range(len(shape)):
        socks = []
        for i in range(shape[d]):
            addr = "%s:10.0.0.1:%d" % (c.choice("proto", ["tls", "utls"]),
                                       len(want))
            sock = {"addr": addr}
            names = c.choice("tls", ["-", "", "cert", "crl", "cert key tc",
                                     "key cert tc crl"])
            attrs = {"xcm.blocking": False}
            if names != "-":
                tls = {}
                for n in names.split(" ") if names != "" else []:
                    v = c.string("value", 1, "abz/")
                    tls[n] = v
                    attrs[TLS[n]] = v
                    if n == "crl":
                        attrs["tls.check_crl"] = True
                sock["tls"] = tls
            socks.append(sock)
            want.append((addr, attrs))
        doc["domains"].append({"name": "d%d" % d, "sockets": socks})
    p = Program(c, doc)
    p.run(["pafd", "-f", "/nowhere/conf"])
    c.check(p.outcome == "running", "did not start", p.outcome)
    got = p.env.servers
    c.check(len(got) == len(want), "wrong number of sockets")
    for s, (addr, attrs) in zip(got, want):
        c.check(s.addr == addr, "wrong address")
        c.check(len(s.conf_attrs) == len(attrs),
                "socket has attributes it is not configured to have, or "
                "lacks some")
        for k, v in attrs.items():
            c.check(k in s.conf_attrs and c.eq(s.conf_attrs[k], v),
                    "wrong socket attribute", k)
    c.reach("attributes")
