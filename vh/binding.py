"""The binding to the transport library, against a model of the library."""
import ctypes
import errno as real_errno
import os as real_os

import psx.env as penv
from psx.loader import StubModule
from psx.values import is_sym, SymBytesText, mk_str

BOOL, INT, STR, BIN = 1, 2, 3, 4
LONG = 1 << 63


def wrap(c, v, bits):
    """What is left of an integer argument of that many bits."""
    half = 1 << (bits - 1)
    if c.all_of([v >= -half, v < half]):
        return v
    return (v + half) % (2 * half) - half


# ---- ctypes in symbolic runs ------------------------------------------

class Ctype:
    def __init__(self, name, bits=0):
        self.name = name
        self.bits = bits

    def __call__(self, v=0):
        return Cell(v)


class Cell:
    def __init__(self, v=0):
        self.value = v


class Ref:
    def __init__(self, obj):
        self.obj = obj


class Pointer:
    def __init__(self, t):
        self.t = t


class Buf:
    def __init__(self, n):
        self.cap = n
        self.kind = "bytes"
        self.content = b""

    def __len__(self):
        return self.cap

    @property
    def value(self):
        if self.kind == "str":
            return SymBytesText(self.content)
        return self.content.split(b"\0")[0]

    @property
    def raw(self):
        return RawView(self)

    def __getitem__(self, k):
        return RawView(self)[k]


class RawView:
    def __init__(self, buf):
        self.buf = buf

    def __getitem__(self, k):
        b = self.buf
        if b.kind == "str":
            n = len(b.content)
            if k.start in (None, 0) and k.step is None:
                if k.stop == n:
                    return SymBytesText(b.content)
                if k.stop == n + 1:
                    return SymBytesText(b.content + "\0")
            raise penv.core.Inconclusive("part of an encoded string")
        if b.kind != "bytes":
            raise penv.core.Inconclusive("bytes of a typed value")
        return (b.content + b"\0" * (b.cap - len(b.content)))[k]


def to_bytes(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0]
    return bytes(*a)


class Function:
    """A function of the library."""

    def __init__(self, lib, name):
        self.lib = lib
        self.name = name
        self.restype = None
        self.argtypes = None

    def __call__(self, *args):
        m = self.lib
        if m.c.symbolic:
            if self.argtypes is not None:
                if len(args) != len(self.argtypes):
                    raise TypeError("wrong number of arguments")
                args = [self.convert(a, t)
                        for a, t in zip(args, self.argtypes)]
            r = m.entry(self.name, args)
            if self.restype is None:
                return None
            if self.restype.name == "c_void_p":
                return None if r == 0 else r
            return r
        proto = ctypes.CFUNCTYPE(self.restype, *(self.argtypes or ()),
                                 use_errno=True)

        def impl(*a):
            r = m.entry(self.name, list(a))
            ctypes.set_errno(m.errno)
            return 0 if r is None else r

        ctypes.set_errno(m.errno)
        return proto(impl)(*args)

    def convert(self, a, t):
        if isinstance(t, Pointer):
            if not isinstance(a, (Ref, Cell)):
                raise TypeError("expected a pointer")
            return a.obj if isinstance(a, Ref) else a
        if t.name == "c_char_p":
            if a is None or isinstance(a, bytes):
                return a
            raise TypeError("expected bytes")
        if t.name == "c_void_p":
            if isinstance(a, Ref):
                a = a.obj
            if a is None or isinstance(a, (bytes, Buf, int)):
                return a
            raise TypeError("expected an address")
        if t.name == "c_bool":
            return a if is_sym(a) and isinstance(a, bool) else bool(a)
        if not isinstance(a, int):
            raise TypeError("expected an integer")
        return wrap(self.lib.c, a, t.bits)


class Library:
    """Sockets, attribute maps and what is done to them."""

    def __init__(self, c):
        self.c = c
        self.errno = 0
        self.bad = []               # misuse
        self.calls = []             # (function, arguments)
        self.socks = {}             # handle -> open
        self.maps = {}              # handle -> entries or None (destroyed)
        self.fail = None            # errno of the next failing operation
        self.result = 0             # of operations that return a number
        self.data = b""             # received
        self.attr = None            # (type, value)
        self.fns = {}

    def __getattr__(self, name):
        if not name.startswith("xcm_"):
            raise AttributeError(name)
        f = Function(self, name)
        self.__dict__[name] = f
        return f

    def entry(self, name, args):
        fn = getattr(Library, "do_" + name, None)
        if fn is None:
            self.bad.append("unknown function " + name)
            return 0
        try:
            return fn(self, *args)
        except Exception as e:
            self.bad.append("%s: %s" % (name, e))
            return 0

    def text(self, b):
        """Of a string argument."""
        if isinstance(b, bytes):
            return b.decode("utf-8")
        self.bad.append("not a string")
        return ""

    def sock(self, s):
        if s is None or s == 0 or not self.socks.get(s):
            self.bad.append("closed socket passed to the library")
            return False
        return True

    def outcome(self, name, args, good):
        self.calls.append((name, args))
        if self.fail is not None:
            self.errno = self.fail
            return -1
        self.errno = 5
        return good

    def opened(self, name, args):
        r = self.outcome(name, args, 1)
        if r < 0:
            return 0
        h = 1000 + len(self.socks)
        self.socks[h] = True
        return h

    def entries(self, m):
        if m is None or m == 0:
            return []
        if self.maps.get(m) is None:
            self.bad.append("destroyed attribute map passed")
            return []
        return list(self.maps[m])

    def do_xcm_connect_a(self, addr, m):
        return self.opened("connect", (self.text(addr), self.entries(m)))

    def do_xcm_server_a(self, addr, m):
        return self.opened("server", (self.text(addr), self.entries(m)))

    def do_xcm_accept_a(self, s, m):
        if not self.sock(s):
            return 0
        return self.opened("accept", (s, self.entries(m)))

    def do_xcm_close(self, s):
        if self.sock(s):
            self.socks[s] = False
        self.calls.append(("close", (s,)))
        return 0

    def do_xcm_finish(self, s):
        self.sock(s)
        return self.outcome("finish", (s,), 0)

    def do_xcm_await(self, s, cond):
        self.sock(s)
        return self.outcome("await", (s, cond), 0)

    def do_xcm_fd(self, s):
        self.sock(s)
        return self.outcome("fd", (s,), self.result)

    def do_xcm_set_blocking(self, s, v):
        self.sock(s)
        return self.outcome("set_blocking", (s, v), 0)

    def do_xcm_is_blocking(self, s):
        self.sock(s)
        self.calls.append(("is_blocking", (s,)))
        return self.result

    def do_xcm_send(self, s, buf, n):
        self.sock(s)
        if not self.c.symbolic:
            buf = ctypes.string_at(buf, n) if n else b""
        else:
            if n > len(buf):
                self.bad.append("reads beyond the message")
            buf = buf[:n]
        return self.outcome("send", (s, buf), self.result)

    def do_xcm_receive(self, s, buf, cap):
        self.sock(s)
        data = self.data[:cap]
        r = self.outcome("receive", (s,), len(data))
        if r >= 0:
            self.write(buf, cap, "bytes", data)
        return r

    def write(self, buf, cap, kind, v):
        if self.c.symbolic:
            if cap > buf.cap:
                self.bad.append("buffer overrun")
            buf.kind = kind
            buf.content = v
            return
        if kind == "bool":
            v = bytes(ctypes.c_bool(v))
        elif kind == "int":
            v = bytes(ctypes.c_int64(v))
        elif kind == "str":
            v = v.encode("utf-8") + b"\0"
        if len(v) > cap:
            self.bad.append("buffer too small")
            v = v[:cap]
        ctypes.memmove(buf, v, len(v))

    def do_xcm_attr_get(self, s, name, ptype, buf, cap):
        self.sock(s)
        t, v = self.attr
        n = {BOOL: 1, INT: 8}.get(t)
        if t == STR:
            n = len(v) + 1
        elif t == BIN:
            n = len(v)
        r = self.outcome("attr_get", (s, self.text(name)), n or 0)
        if r < 0:
            return r
        if self.c.symbolic:
            ptype.value = t
        else:
            ptype[0] = t
        kind = {BOOL: "bool", INT: "int", STR: "str"}.get(t, "bytes")
        self.write(buf, cap, kind, v)
        return r

    def setter(self, t, s, name, v):
        self.sock(s)
        return self.outcome("attr_set", (s, self.text(name), t, v), 0)

    def do_xcm_attr_set_bool(self, s, name, v):
        return self.setter(BOOL, s, name, v)

    def do_xcm_attr_set_int64(self, s, name, v):
        return self.setter(INT, s, name, v)

    def do_xcm_attr_set_str(self, s, name, v):
        return self.setter(STR, s, name, self.text(v))

    def do_xcm_attr_map_create(self):
        h = 5000 + len(self.maps)
        self.maps[h] = []
        self.errno = 6
        return h

    def do_xcm_attr_map_destroy(self, m):
        self.errno = 7
        if m is None or m == 0:
            return
        if self.maps.get(m) is None:
            self.bad.append("attribute map destroyed twice")
        self.maps[m] = None

    def add(self, t, m, name, v):
        self.errno = 8
        if m is None or self.maps.get(m) is None:
            self.bad.append("destroyed attribute map passed")
            return
        self.maps[m].append((self.text(name), t, v))

    def do_xcm_attr_map_add_bool(self, m, name, v):
        self.add(BOOL, m, name, v)

    def do_xcm_attr_map_add_int64(self, m, name, v):
        self.add(INT, m, name, v)

    def do_xcm_attr_map_add_str(self, m, name, v):
        self.add(STR, m, name, self.text(v))


def cast_stub(c):
    def cast(x, p):
        buf = x.buf if isinstance(x, RawView) else x
        v = buf.content
        if p.t.name == "c_bool":
            if buf.kind != "bool":
                v = v != 0
        elif buf.kind != "int":
            raise penv.core.Inconclusive("cast of other contents")
        else:
            v = wrap(c, v, p.t.bits)
        r = Cell(v)
        r.contents = r
        return r
    return cast


class Binding:
    def __init__(self, c):
        self.c = c
        self.lib = lib = Library(c)
        st = {}
        extra = {}

        def cdll(name, *a, **kw):
            return lib

        if c.symbolic:
            t = {n: Ctype(n, b) for n, b in (
                ("c_void_p", 64), ("c_char_p", 64), ("c_long", 64),
                ("c_int64", 64), ("c_longlong", 64), ("c_int", 32),
                ("c_int32", 32), ("c_short", 16), ("c_bool", 8),
                ("c_size_t", 64), ("c_ssize_t", 64), ("c_byte", 8))}
            st["ctypes"] = StubModule(
                "ctypes", None, CDLL=cdll, POINTER=Pointer,
                pointer=Ref, byref=Ref, create_string_buffer=Buf,
                cast=cast_stub(c), get_errno=lambda: lib.errno,
                ArgumentError=TypeError, **t)
            st["os"] = StubModule(
                "os", real_os, strerror=lambda e: "some error")
            extra["bytes"] = to_bytes
        else:
            st["ctypes"] = StubModule("ctypes", ctypes, CDLL=cdll)
        self.m = c.load_cut(st, extra)
        self.xcm = self.m.load("paf.xcm")

    def run(self, fn, *args, **kw):
        """("ok", result), ("oserror", e) or ("other", e)"""
        try:
            return "ok", fn(*args, **kw)
        except OSError as e:
            return "oserror", e.with_traceback(None)
        except Exception as e:
            return "other", e.with_traceback(None)

    def used_well(self):
        self.c.check(self.lib.bad == [], "library misused",
                     "; ".join(self.lib.bad))

    def maps_gone(self):
        for h in self.lib.maps:
            self.c.check(self.lib.maps[h] is None, "attribute map left over")

    def conn(self):
        """An established connection."""
        r, s = self.run(self.xcm.connect, "ux:x", 0, {})
        self.c.check(r == "ok", "connecting failed", str(s))
        self.lib.calls = []
        return s

    def server(self):
        r, s = self.run(self.xcm.server, "ux:x")
        self.c.check(r == "ok", "server socket failed", str(s))
        self.lib.calls = []
        return s

    def handle(self):
        return max(self.lib.socks)

    def may_fail(self, name="fails"):
        if self.c.choice(name, [False, True]):
            self.lib.fail = self.c.int("errno", 1, 133)
            return True
        return False

    def failed(self, r, x):
        """The library's error was raised."""
        c = self.c
        c.check(r != "ok", "failure not reported")
        c.check(r == "oserror", "failure reported as something else", str(x))
        c.check(c.eq(x.errno, self.lib.fail), "wrong error number")
        c.reach("failed")


def values(c, name, full=True):
    """(value, type and value in the library or None)"""
    k = c.choice(name, ["bool", "int", "str"] + (
        ["float", "none", "bytes", "list"] if full else []))
    if k == "bool":
        v = c.bool(name + "/bool")
        return v, (BOOL, v)
    if k == "int":
        v = c.int(name + "/int", -LONG, LONG - 1)
        return v, (INT, v)
    if k == "str":
        v = c.string(name + "/str", c.choice("length", [0, 2]))
        return v, (STR, v)
    return {"float": 0.5, "none": None, "bytes": b"x", "list": []}[k], None


def same_attr(c, got, want):
    n, t, v = got
    wn, (wt, wv) = want
    return c.all_of([t == wt, c.eq(n, wn), c.eq(v, wv)])


def opening(c, fn, n):
    """connect, server and accept with any attributes."""
    b = Binding(c)
    s = None
    if fn == "accept":
        s = b.server()
    attrs = {}
    want = []
    good = True
    for i in range(n):
        name = c.string("name%d" % i, 1) + str(i)
        v, w = values(c, "value%d" % i)
        attrs[name] = v
        want.append((name, w))
        good = good and w is not None
    addr = c.string("addr", 2)
    fails = b.may_fail()
    flags = 0
    if fn == "connect":
        flags = c.choice("flags", [0, 1, 2])
        r, x = b.run(b.xcm.connect, addr, flags, attrs) if flags or \
            c.choice("by name", [False, True]) else \
            b.run(b.xcm.connect, addr, attrs=attrs)
        if flags == 1:
            want.append(("xcm.blocking", (BOOL, False)))
        elif flags == 2:
            good = False
    elif fn == "server":
        r, x = b.run(b.xcm.server, addr, attrs)
    elif n == 0 and c.choice("plain", [False, True]):
        r, x = b.run(s.accept)
    else:
        r, x = b.run(s.accept, attrs)
    b.used_well()
    b.maps_gone()
    calls = b.lib.calls
    c.observe("outcome", r)
    if not good:
        c.check(r == "other" and isinstance(x, (TypeError, ValueError)),
                "unusable attribute not reported", str(x))
        c.check(calls == [], "library called with unusable attributes")
        c.reach("unusable")
        return
    c.check(len(calls) == 1 and calls[0][0] == fn, "other calls than one")
    a, entries = calls[0][1]
    if fn == "accept":
        c.check(a == b.lib.calls[0][1][0], "wrong socket")
    else:
        c.check(c.eq(a, addr), "address altered")
    c.check(len(entries) == len(want), "other attributes than given")
    for w in want:
        c.check(c.any_of([same_attr(c, g, w) for g in entries]),
                "attribute altered")
    if fails:
        b.failed(r, x)
        return
    c.check(r == "ok", "success reported as failure", str(x))
    h = b.handle()
    kind = b.xcm.ServerSocket if fn == "server" else b.xcm.ConnectionSocket
    c.check(isinstance(x, kind), "wrong kind of socket")
    b.lib.calls = []
    x.close()
    b.used_well()
    c.check(b.lib.calls == [("close", (h,))], "closes something else")
    c.reach("opened")


OPS = ("finish", "set_blocking", "is_blocking", "set_target", "fileno",
       "set_attr", "get_attr", "send", "receive", "accept")
MSGS = [b"", b"x", b"a\0b\0", bytes(range(256)) * 255 + b"\1" * 255]


def operate(b, s, op):
    """Perform an operation and judge it."""
    c = b.c
    lib = b.lib
    h = [x for x in lib.socks if lib.socks[x]][-1]
    lib.calls = []
    fails = op != "is_blocking" and b.may_fail()
    want = None
    if op == "finish":
        r, x = b.run(s.finish)
        call = ("finish", (h,))
    elif op == "set_blocking":
        v = c.bool("blocking")
        r, x = b.run(s.set_blocking, v)
        call = ("set_blocking", (h, v))
    elif op == "is_blocking":
        lib.result = want = c.bool("blocking")
        r, x = b.run(s.is_blocking)
        call = ("is_blocking", (h,))
    elif op == "set_target":
        v = c.int("condition", 0, (1 << 31) - 1)
        r, x = b.run(s.set_target, v)
        call = ("await", (h, v))
        if fails:
            c.check(r != "ok", "failure not reported")
            c.reach("failed")
            b.used_well()
            return
    elif op == "fileno":
        lib.result = want = c.int("fd", 0, (1 << 31) - 1)
        r, x = b.run(s.fileno)
        call = ("fd", (h,))
    elif op == "set_attr":
        name = c.string("name", 2)
        v, w = values(c, "value")
        r, x = b.run(s.set_attr, name, v)
        if w is None:
            c.check(r == "other", "unusable attribute not reported")
            c.check(lib.calls == [], "library called all the same")
            c.reach("unusable")
            return
        call = ("attr_set", (h, name) + w)
    elif op == "get_attr":
        name = c.string("name", 2)
        t = c.choice("type", [BOOL, INT, STR, BIN, 9])
        if t == BOOL:
            v = c.bool("value")
        elif t == INT:
            v = c.int("value", -LONG, LONG - 1)
        elif t == STR:
            v = c.string("value", c.choice("length", [0, 2]))
            for ch in v:
                c.assume(ord(ch) < 128)
        else:
            v = c.choice("value", [b"", b"a\0b", b"\xff\0", MSGS[3][:8192]])
        lib.attr = (t, v)
        r, x = b.run(s.get_attr, name)
        call = ("attr_get", (h, name))
        want = v
        if t == 9 and not fails:
            c.check(r == "other", "unknown type not reported")
            c.reach("unusable")
            return
    elif op == "send":
        msg = c.choice("message", MSGS)
        lib.result = want = c.int("sent", 0, (1 << 31) - 1)
        r, x = b.run(s.send, msg)
        call = ("send", (h, msg))
    elif op == "receive":
        lib.data = want = c.choice("message", MSGS)
        r, x = b.run(s.receive)
        call = ("receive", (h,))
    else:
        r, x = b.run(s.accept)
        call = ("accept", (h, []))
    b.used_well()
    b.maps_gone()
    c.check(len(lib.calls) == 1 and lib.calls[0][0] == call[0],
            "other calls than one")
    got = lib.calls[0][1]
    c.check(len(got) == len(call[1]) and
            c.all_of([c.eq(p, q) for p, q in zip(got, call[1])]),
            "arguments altered")
    c.observe(op, r)
    if fails:
        b.failed(r, x)
        return
    c.check(r == "ok", "success reported as failure", str(x))
    if op in ("fileno", "is_blocking", "get_attr", "send", "receive"):
        if op == "get_attr" and lib.attr[0] != INT:
            c.check(isinstance(x, bool) == (lib.attr[0] == BOOL) and
                    isinstance(x, str) == (lib.attr[0] == STR),
                    "result of another type")
        c.check(c.eq(x, want), "result altered")
    if op == "accept":
        c.check(isinstance(x, b.xcm.ConnectionSocket),
                "wrong kind of socket")
        y = x
        x = None
        y.close()
        lib.calls = []
    c.reach("done")


def operation(c, op):
    b = Binding(c)
    s = b.server() if op == "accept" else b.conn()
    operate(b, s, op)


def after_close(c, kind, n):
    """No operation reaches the library after the socket is closed, and it
    is closed exactly once, at the latest when it is forgotten."""
    b = Binding(c)
    lib = b.lib
    s = b.server() if kind == "server" else b.conn()
    h = b.handle()
    ops = [o for o in OPS if (o == "accept") == (kind == "server") or
           o not in ("send", "receive", "accept")] + ["close"]
    is_open = True
    for i in range(n):
        op = c.choice("op", ops)
        args = {"set_blocking": (True,), "set_target": (0,),
                "set_attr": ("a", 1), "get_attr": ("a",),
                "send": (b"x",)}.get(op, ())
        lib.calls = []
        lib.result = 0
        lib.data = b"z"
        lib.attr = (INT, 1)
        lib.fail = 11 if is_open and c.choice("fails", [False, True]) \
            else None
        r, x = b.run(getattr(s, op), *args)
        b.used_well()
        if not is_open:
            c.check(lib.calls == [], "closed socket passed to the library")
            if op != "close":
                c.check(r != "ok", "operation on closed socket succeeds")
            c.reach("refused")
        else:
            c.check(len(lib.calls) == 1, "other calls than one")
        x = None
        if op == "close":
            is_open = False
    lib.calls = []
    s = None
    b.used_well()
    closes = [k for k in lib.calls if k[0] == "close"]
    c.check(len(closes) == (1 if is_open else 0),
            "forgotten socket not closed once")
    c.check(lib.socks[h] is False, "socket never closed")
    c.reach("closed")
