"""The world around the code under test: clock, descriptors, epoll, signals,
transport sockets and JSON.  The same code serves symbolic and native runs;
only the JSON codec differs (a tree instead of text in symbolic runs)."""
import errno
import fcntl as real_fcntl
import json as real_json
import logging as real_logging
import os as real_os
import random as real_random
import secrets as real_secrets
import select as real_select
import signal as real_signal
import time as real_time

from . import core
from .loader import StubModule
from .values import Sym, is_sym, StrBase, SymBytesText

real_logging.disable(real_logging.CRITICAL)

EPSILON = 1.0 / 1024        # a wake-up is late by this much
# not a whole number, so that rounded times show
BASE = 1000.375

SO_RECEIVABLE, SO_SENDABLE, SO_ACCEPTABLE = 1, 2, 4


class Quiet(BaseException):
    """Nothing more happens before the horizon."""


class Exit(BaseException):
    """sys.exit() called by the code under test."""

    def __init__(self, code):
        BaseException.__init__(self, code)
        self.code = code


def oserror(e, msg=None):
    return OSError(e, msg or real_os.strerror(e))


# ---- JSON -------------------------------------------------------------

class WireBytes:
    """An encoded JSON document in a symbolic run."""
    _pytype = bytes

    def __init__(self, tree, fault=None):
        self._wire = tree
        self.fault = fault

    def decode(self, encoding="utf-8", errors="strict"):
        if self.fault == "utf8":
            b"\xff".decode("utf-8")
        return WireText(self._wire, self.fault)

    def __len__(self):
        return 2

    def __str__(self):
        return "<message>"

    __repr__ = __str__


class WireText:
    _pytype = str

    def __init__(self, tree, fault=None, ascii=True):
        self._wire = tree
        self.fault = fault
        self.ascii = ascii      # only escapes outside ASCII

    def encode(self, encoding="utf-8", errors="strict"):
        if not self.ascii:
            for s in strings(self._wire):
                s.encode(encoding, errors)
        return WireBytes(self._wire, self.fault)

    def decode(self, *a, **k):
        raise AttributeError("'str' object has no attribute 'decode'")

    def strip(self, *a):
        return self

    def __len__(self):
        return 2

    def __str__(self):
        return "<message>"

    __repr__ = __str__


class Raw:
    """A JSON literal given as text, with the value it stands for."""

    def __init__(self, text, value):
        self.text = text
        self.value = value


def strings(x):
    """The text a document is made of."""
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in dict.items(x):
            yield from strings(k)
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from strings(y)


def jsonable(x, allow_nan=True, default=None):
    """What a decoder gets back for x; TypeError when not serialisable."""
    if isinstance(x, (Sym,)):
        if isinstance(x, SymBytesText):
            raise TypeError("Object of type bytes is not JSON serializable")
        return x
    if x is None or isinstance(x, (bool, int, float, str)):
        if isinstance(x, float) and not allow_nan and \
           (x != x or x in (float("inf"), float("-inf"))):
            raise ValueError("Out of range float values are not JSON "
                             "compliant")
        return x
    if isinstance(x, dict):
        out = {}
        for k, v in dict.items(x):
            if not isinstance(k, (str, StrBase)):
                if isinstance(k, bool) or k is None:
                    k = {True: "true", False: "false", None: "null"}[k]
                elif isinstance(k, (int, float)):
                    k = str(k)
                elif is_sym(k):
                    raise core.Inconclusive("symbolic JSON key")
                else:
                    raise TypeError("keys must be str, int, float, bool or "
                                    "None, not " + type(k).__name__)
            out[k] = jsonable(v, allow_nan, default)
        return out
    if isinstance(x, (list, tuple)):
        return [jsonable(y, allow_nan, default) for y in x]
    if default is not None:
        return jsonable(default(x), allow_nan, default)
    raise TypeError("Object of type %s is not JSON serializable" %
                    type(x).__name__)


def unjson(x, hooks):
    if isinstance(x, Raw):
        if x.text in ("NaN", "Infinity", "-Infinity") and \
           hooks.get("parse_constant"):
            return hooks["parse_constant"](x.text)
        if hooks.get("parse_float") and isinstance(x.value, float):
            return hooks["parse_float"](x.text)
        if hooks.get("parse_int") and isinstance(x.value, int):
            return hooks["parse_int"](x.text)
        return x.value
    if getattr(x, "_lazy", False):
        return x
    if isinstance(x, dict):
        pairs = [(k, unjson(v, hooks)) for k, v in x.items()]
        if hooks.get("object_pairs_hook"):
            return hooks["object_pairs_hook"](pairs)
        d = {}
        for k, v in pairs:
            dict.__setitem__(d, k, v)
        if hooks.get("object_hook"):
            return hooks["object_hook"](d)
        return d
    if isinstance(x, (list, tuple)):
        return [unjson(y, hooks) for y in x]
    if isinstance(x, float) and hooks.get("parse_float") is not None:
        return hooks["parse_float"](repr(x))
    if isinstance(x, float) and x != x or \
       isinstance(x, float) and x in (float("inf"), float("-inf")):
        if hooks.get("parse_constant"):
            return hooks["parse_constant"](real_json.dumps(x))
    return x


def json_stub():
    def dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True,
              allow_nan=True, cls=None, indent=None, separators=None,
              default=None, sort_keys=False, **kw):
        if cls is not None and cls is not JSONEncoder:
            return cls(ensure_ascii=ensure_ascii, allow_nan=allow_nan,
                       default=default).encode(obj)
        return WireText(jsonable(obj, allow_nan, default), None,
                        ensure_ascii)

    class JSONEncoder:
        def __init__(self, ensure_ascii=True, allow_nan=True, default=None,
                     **kw):
            self.kw = (allow_nan, ensure_ascii)
            if default is not None:
                self.default = default

        def default(self, o):
            raise TypeError("Object of type %s is not JSON serializable" %
                            type(o).__name__)

        def encode(self, o):
            return WireText(jsonable(o, self.kw[0], self.default), None,
                            self.kw[1])

    class JSONDecoder:
        def __init__(self, strict=True, **hooks):
            self.hooks = hooks

        def decode(self, s):
            return loads(s, **self.hooks)

    def loads(s, **hooks):
        if isinstance(s, (WireText, WireBytes)):
            if s.fault == "json":
                return real_json.loads("{")
            if s.fault == "deep":
                raise RecursionError("maximum recursion depth exceeded")
            if s.fault == "utf8":
                b"\xff".decode("utf-8")
            cls = hooks.pop("cls", None)
            if cls is not None and cls is not JSONDecoder:
                return cls(**hooks).decode(s)
            return unjson(s._wire, hooks)
        if is_sym(s):
            raise core.Inconclusive("json.loads of symbolic text")
        return real_json.loads(s, **hooks)

    return StubModule("json", real_json, dumps=dumps, loads=loads,
                      JSONEncoder=JSONEncoder, JSONDecoder=JSONDecoder)


def text_of(x):
    """JSON text of a tree that may hold Raw literals (native runs)."""
    if isinstance(x, Raw):
        return x.text
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (real_json.dumps(k), text_of(v))
                                  for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(text_of(y) for y in x)
    return real_json.dumps(x)


# ---- transport --------------------------------------------------------

class FakeSock:
    kind = "socket"

    def __init__(self, env, fd=None):
        self.env = env
        self.fd = env.alloc_fd(self) if fd is None else fd
        self.target = 0
        self.closed = False
        self.opened_at = env.now
        self.attrs = {}
        self.set_attrs = {}
        env.socks.append(self)

    def _open(self):
        # the real binding asserts this; the library would crash without it
        if self.closed:
            self.env.c.fail("operation on a closed socket", self.kind)

    def close(self):
        if self.closed:
            self.env.c.fail("socket closed twice", self.kind)
        self.closed = True
        self.closed_at = self.env.now
        self.env.free_fd(self.fd)
        self.env.log.append(("close", self))

    def fileno(self):
        self._open()
        return self.fd

    def set_target(self, condition):
        self._open()
        if is_sym(condition) or condition & ~self.allowed:
            raise ValueError("invalid condition: '%s'" % condition)
        self.target = condition

    def finish(self):
        self._open()
        if self.env.finish_errno:
            raise oserror(self.env.finish_errno)

    def set_blocking(self, val):
        self._open()

    def is_blocking(self):
        self._open()
        return False

    def get_attr(self, name):
        self._open()
        if name not in self.attrs:
            raise oserror(errno.ENOENT)
        v = self.attrs[name]
        if isinstance(v, Exception):
            raise v
        return v

    def set_attr(self, name, value):
        self._open()
        e = self.env.set_attr_errno
        if e:
            raise oserror(e)
        self.set_attrs[name] = value


class FakeConn(FakeSock):
    kind = "connection"
    allowed = SO_RECEIVABLE | SO_SENDABLE

    def __init__(self, env, addr="ux:peer", attrs=None, fd=None):
        FakeSock.__init__(self, env, fd)
        self.addr = addr
        self.attrs = {"xcm.remote_addr": addr,
                      "xcm.transport": addr.split(":")[0]}
        self.attrs.update(attrs or {})
        self.inbox = []             # wire messages or exceptions
        self.outbox = []            # (time, wire message)
        self.window = None          # sends accepted before EAGAIN
        self.tx_error = None
        self.received = 0

    def ready(self):
        r = 0
        if self.target & SO_RECEIVABLE and self.inbox:
            r = 1
        if self.target & SO_SENDABLE and (self.window is None or
                                          self.window > 0 or self.tx_error):
            r = 1
        return r

    def send(self, msg):
        self._open()
        if self.tx_error is not None:
            raise oserror(self.tx_error)
        if self.window is not None:
            if self.window <= 0:
                raise oserror(errno.EAGAIN)
            self.window -= 1
        self.env.progress()
        self.outbox.append((self.env.now, msg))
        return 0

    def receive(self):
        self._open()
        if not self.inbox:
            raise oserror(errno.EAGAIN)
        self.env.progress()
        m = self.inbox[0]
        if isinstance(m, Exception):
            raise m             # an error condition persists
        if isinstance(m, bytes) and m == b"":
            return m
        del self.inbox[0]
        self.received += 1
        return m


class FakeServer(FakeSock):
    kind = "server socket"
    allowed = SO_ACCEPTABLE

    def __init__(self, env, addr, attrs):
        FakeSock.__init__(self, env)
        self.addr = addr
        self.conf_attrs = dict(attrs)
        self.pending = []           # FakePeer descriptors or exceptions
        self.accepted = []

    def ready(self):
        return 1 if self.target & SO_ACCEPTABLE and self.pending else 0

    def accept(self, attrs={}):
        self._open()
        if not self.pending:
            raise oserror(errno.EAGAIN)
        self.env.progress()
        p = self.pending.pop(0)
        if isinstance(p, Exception):
            raise p
        conn = FakeConn(self.env, p.addr, p.attrs)
        conn.inbox = p.inbox
        conn.window = p.window
        p.conn = conn
        self.accepted.append(conn)
        return conn


class Pending:
    """A peer waiting in a server socket's accept queue."""

    def __init__(self, addr, attrs):
        self.addr = addr
        self.attrs = attrs
        self.inbox = []
        self.window = None
        self.conn = None


# ---- kernel -----------------------------------------------------------

class Epoll:
    def __init__(self, env):
        self.env = env
        self.table = {}
        self.closed = False
        env.epolls.append(self)

    def register(self, fd, eventmask=None):
        if fd not in self.env.fds:
            raise oserror(errno.EBADF)
        if fd in self.table:
            raise oserror(errno.EEXIST)
        self.table[fd] = eventmask

    def modify(self, fd, eventmask):
        if fd not in self.env.fds:
            raise oserror(errno.EBADF)
        if fd not in self.table:
            raise oserror(errno.ENOENT)
        self.table[fd] = eventmask

    def unregister(self, fd):
        if fd not in self.env.fds:
            raise oserror(errno.EBADF)
        if fd not in self.table:
            raise oserror(errno.ENOENT)
        del self.table[fd]

    def close(self):
        self.closed = True

    def fileno(self):
        return 99

    def poll(self, timeout=None, maxevents=-1):
        return self.env.poll(self, timeout, maxevents)


class Pipe:
    kind = "pipe"

    def __init__(self):
        self.data = 0
        self.nonblock = False

    def ready(self):
        return 1 if self.data else 0


class PipeEnd:
    kind = "pipe"

    def __init__(self, pipe):
        self.pipe = pipe
        self.nonblock = False

    def ready(self):
        return 0


class Env:
    SPIN = 400

    def __init__(self, c):
        self.c = c
        self.now = BASE
        self.horizon = BASE
        self.fds = {}
        self.socks = []
        self.epolls = []
        self.servers = []
        self.log = []
        self.spin = 0
        self.jitters = (0.5,)
        self.finish_errno = 0
        self.set_attr_errno = 0
        self.server_errors = []     # consumed per xcm.server() call
        self.wakeup_fd = -1
        self.handlers = {}
        self.peers = {}
        self.on_poll = None
        self.last_timeout = None    # of the last poll
        self.polls = 0

    # -- descriptors
    def alloc_fd(self, obj):
        fd = 100
        while fd in self.fds:
            fd += 1
        self.fds[fd] = obj
        return fd

    def free_fd(self, fd):
        if fd not in self.fds:
            raise oserror(errno.EBADF)
        del self.fds[fd]
        for ep in self.epolls:
            ep.table.pop(fd, None)

    def progress(self):
        self.spin = 0

    # -- time
    def advance_to(self, t):
        self.now = t
        self.spin = 0

    def poll(self, ep, timeout, maxevents):
        self.last_timeout = timeout
        self.polls += 1
        self.spin += 1
        if self.spin > self.SPIN:
            self.c.fail("the event loop spins without progress")
        if self.on_poll is not None:
            r = self.on_poll(ep, timeout)
            if r is not None:
                return r
        out = []
        for fd, mask in list(ep.table.items()):
            ev = self.fds[fd].ready()
            if ev:
                out.append((fd, real_select.EPOLLIN))
        if out:
            return out if maxevents is None or maxevents < 0 \
                else out[:maxevents]
        if timeout is not None and not (timeout < 0):
            t = self.now + timeout + EPSILON
            if t <= self.horizon:
                self.advance_to(t)
                return []
        if self.now < self.horizon:
            self.advance_to(self.horizon)
        raise Quiet()

    # -- stub modules
    def stubs(self):
        env = self

        def now():
            return env.now

        def sleep(t):
            env.advance_to(env.now + t)

        st = {}
        st["time"] = StubModule("time", real_time, time=now, monotonic=now,
                                perf_counter=now, sleep=sleep)

        def rnd():
            if env.jitters == "any":
                return env.c.real("jitter", 0, 0.875)
            return env.c.choice("jitter", env.jitters)

        def uniform(a, b):
            return a + (b - a) * rnd()

        def randint(a, b):
            return env.c.int("randint", a, b)

        def randrange(a, b=None, step=1):
            if b is None:
                a, b = 0, a
            if step == 1:
                return randint(a, b - 1)
            return a + step * randint(0, (b - a + step - 1) // step - 1)

        def getrandbits(k):
            return randint(0, (1 << k) - 1)

        def pick(options):
            return env.c.choice("pick", list(options))

        source = {"random": rnd, "uniform": uniform, "randint": randint,
                  "randrange": randrange, "getrandbits": getrandbits,
                  "choice": pick, "seed": lambda *a, **k: None}

        class Random:
            def __init__(self, *args):
                pass

        for k, fn in source.items():
            setattr(Random, k, staticmethod(fn))
        st["random"] = StubModule("random", real_random, Random=Random,
                                  SystemRandom=Random, shuffle=None,
                                  sample=None, **source)
        st["secrets"] = StubModule(
            "secrets", real_secrets, SystemRandom=Random,
            randbits=getrandbits, choice=pick,
            randbelow=lambda n: randint(0, n - 1))

        def number(fd):
            return fd if isinstance(fd, int) else fd.fileno()

        class Poll:
            def __init__(self):
                self.table = {}

            def register(self, fd, mask=0):
                self.table[number(fd)] = mask

            def unregister(self, fd):
                del self.table[number(fd)]

            def modify(self, fd, mask):
                self.table[number(fd)] = mask

            def poll(self, timeout=None):
                if timeout is not None and timeout >= 0:
                    timeout = timeout / 1000
                return env.poll(self, timeout, -1)

        st["select"] = StubModule(
            "select", real_select, epoll=lambda *a, **k: Epoll(env),
            poll=Poll)

        def sig(signo, handler):
            env.handlers[int(signo)] = handler

        def set_wakeup_fd(fd, **kw):
            if fd >= 0 and fd not in env.fds:
                raise ValueError("invalid fd: %d" % fd)
            if fd >= 0 and not env.fds[fd].nonblock:
                raise ValueError("the fd %d must be in non-blocking mode" %
                                 fd)
            env.wakeup_fd, old = fd, env.wakeup_fd
            return old

        st["signal"] = StubModule("signal", real_signal, signal=sig,
                                  set_wakeup_fd=set_wakeup_fd)

        def pipe(flags=0):
            p = Pipe()
            q = PipeEnd(p)
            p.nonblock = q.nonblock = bool(flags & real_os.O_NONBLOCK)
            return env.alloc_fd(p), env.alloc_fd(q)

        def write(fd, data):
            p = env.fds.get(fd)
            if p is None:
                raise oserror(errno.EBADF)
            p.pipe.data += len(data)
            return len(data)

        def set_blocking(fd, on):
            if fd not in env.fds:
                raise oserror(errno.EBADF)
            env.fds[fd].nonblock = not on

        def get_blocking(fd):
            if fd not in env.fds:
                raise oserror(errno.EBADF)
            return not getattr(env.fds[fd], "nonblock", False)

        def do_fcntl(fd, cmd, arg=0):
            fd = number(fd)
            if cmd == real_fcntl.F_SETFL:
                set_blocking(fd, not arg & real_os.O_NONBLOCK)
            elif cmd == real_fcntl.F_GETFL:
                return 0 if get_blocking(fd) else real_os.O_NONBLOCK
            return 0

        def read(fd, n):
            p = env.fds.get(fd)
            if p is None:
                raise oserror(errno.EBADF)
            if not p.data:
                if not p.nonblock:
                    env.c.fail("read blocks for ever")
                raise oserror(errno.EAGAIN)
            env.progress()
            k = min(n, p.data)
            p.data -= k
            return b"\x0f" * k

        def close(fd):
            env.free_fd(fd)

        st["os"] = StubModule("os", real_os, pipe=pipe, pipe2=pipe,
                              read=read, write=write, close=close,
                              set_blocking=set_blocking,
                              get_blocking=get_blocking,
                              getpid=lambda: 4711)
        st["fcntl"] = StubModule("fcntl", real_fcntl, fcntl=do_fcntl)

        def server(addr, attrs={}):
            if env.server_errors:
                e = env.server_errors.pop(0)
                if e:
                    raise oserror(e)
            s = FakeServer(env, addr, attrs)
            env.servers.append(s)
            return s

        def connect(addr, flags=0, attrs={}):
            return env.connect(addr, attrs)

        st["paf.xcm"] = StubModule(
            "paf.xcm", None, error=OSError, server=server, connect=connect,
            SO_RECEIVABLE=SO_RECEIVABLE, SO_SENDABLE=SO_SENDABLE,
            SO_ACCEPTABLE=SO_ACCEPTABLE, NONBLOCK=1, MAX_MSG=65535,
            Socket=FakeSock, ConnectionSocket=FakeConn,
            ServerSocket=FakeServer)
        if self.c.symbolic:
            st["json"] = json_stub()
            st["re"] = self.c.re_stub()
        return st

    def connect(self, addr, attrs):
        raise oserror(errno.ECONNREFUSED)

    def signal(self):
        """A termination signal: the C handler writes to the wake-up fd."""
        if self.wakeup_fd < 0:
            self.c.fail("no signal wake-up descriptor")
        self.fds[self.wakeup_fd].pipe.data += 1

    # -- wire
    def encode(self, tree):
        if self.c.symbolic:
            return WireBytes(tree)
        return text_of(tree).encode("utf-8")

    def fault(self, kind):
        if self.c.symbolic:
            return WireBytes(None, kind)
        return {"utf8": b"\xff\xfe{}", "json": b"{",
                "deep": b"[" * 200000}[kind]

    def decode(self, msg):
        """Tree of a message sent by the code under test."""
        if self.c.symbolic:
            if not isinstance(msg, WireBytes):
                self.c.fail("sent something other than an encoded message")
            return unjson(msg._wire, {})
        if not isinstance(msg, bytes):
            self.c.fail("sent something other than an encoded message")
        return real_json.loads(msg.decode("utf-8"))
