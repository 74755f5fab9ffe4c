"""A server of the code in the current directory, on a stand-in for the
transport library, the event loop and the clock; no real sockets."""
import errno
import json
import os
import sys
import time
import types

sys.path.insert(0, os.getcwd())


class Clock:
    now = 1000.0


time.time = lambda: Clock.now

xcm = types.ModuleType("paf.xcm")
xcm.SO_RECEIVABLE, xcm.SO_SENDABLE, xcm.SO_ACCEPTABLE = 1, 2, 4
xcm.NONBLOCK = 1
xcm.error = OSError
fds = {}


def again():
    return OSError(errno.EAGAIN, "would block")


class Sock:
    def __init__(self):
        self.fd = 100 + len(fds)
        fds[self.fd] = self
        self.target = 0
        self.closed = 0

    def fileno(self):
        return self.fd

    def set_target(self, condition):
        self.target = condition

    def close(self):
        self.closed += 1
        assert self.closed == 1, "closed twice"

    def finish(self):
        pass


class Conn(Sock):
    def __init__(self, peer):
        Sock.__init__(self)
        self.peer = peer

    def ready(self):
        return not self.closed and \
            (self.target & 1 and (self.peer.inbox or self.peer.gone) or
             self.target & 2 and self.peer.window != 0)

    def send(self, msg):
        if self.peer.window == 0:
            raise again()
        if self.peer.window is not None:
            self.peer.window -= 1
        self.peer.got.append(json.loads(msg.decode("utf-8")))

    def receive(self):
        if self.peer.inbox:
            return self.peer.inbox.pop(0)
        if self.peer.gone:
            return b""
        raise again()

    def get_attr(self, name):
        if name in self.peer.attrs:
            return self.peer.attrs[name]
        if name == "xcm.remote_addr":
            return self.peer.addr
        if name == "xcm.transport":
            return self.peer.addr.split(":")[0]
        raise OSError(errno.ENOENT, name)

    def set_attr(self, name, value):
        pass


class ServerSock(Sock):
    def __init__(self, addr):
        Sock.__init__(self)
        self.addr = addr
        self.queue = []

    def ready(self):
        return not self.closed and self.target & 4 and self.queue

    def accept(self, attrs=None):
        if not self.queue:
            raise again()
        peer = self.queue.pop(0)
        peer.conn = Conn(peer)
        return peer.conn


listening = {}


def server(addr, attrs=None):
    listening[addr] = ServerSock(addr)
    return listening[addr]


xcm.server = server
sys.modules["paf.xcm"] = xcm
import paf                  # noqa: E402
paf.xcm = xcm
import logging.handlers     # noqa: E402,F401
import paf.logging          # noqa: E402,F401
import paf.conf             # noqa: E402
import paf.sd               # noqa: E402
import paf.server           # noqa: E402


class Loop:
    def __init__(self):
        self.sources = {}

    def add(self, source, handler):
        self.sources[source] = handler

    def remove(self, source):
        del self.sources[source]

    def settle(self):
        for i in range(100000):
            for source, handler in list(self.sources.items()):
                if source not in self.sources:
                    continue
                sock = fds.get(source.fd)
                if sock is not None and sock.ready() or \
                   source.timeout is not None and \
                   source.timeout <= Clock.now:
                    handler()
                    break
            else:
                return
        raise Exception("the server never becomes idle")

    def run(self, duration):
        end = Clock.now + duration
        while True:
            self.settle()
            timeouts = [s.timeout for s in self.sources
                        if s.timeout is not None]
            if not timeouts or min(timeouts) > end:
                break
            Clock.now = min(timeouts) + 0.001
        Clock.now = max(Clock.now, end)
        self.settle()


class Peer:
    def __init__(self, net, addr, attrs):
        self.net = net
        self.addr = addr
        self.attrs = attrs
        self.inbox = []
        self.got = []
        self.window = None
        self.gone = False
        self.conn = None
        self.ta = 0

    def send(self, cmd, msg_type="request", ta=None, settle=True, **fields):
        if ta is None:
            ta = self.ta
            self.ta += 1
        msg = {"ta-cmd": cmd, "ta-id": ta, "msg-type": msg_type}
        for name, value in fields.items():
            msg[name.replace("_", "-")] = value
        self.inbox.append(json.dumps(msg).encode("utf-8"))
        if settle:
            self.net.loop.settle()
        return ta

    def replies(self, ta):
        return [m for m in self.got if m["ta-id"] == ta]

    def ask(self, cmd, **fields):
        """The type of the last reply, or its failure reason."""
        r = self.replies(self.send(cmd, **fields))
        if not r:
            return None
        return r[-1].get("fail-reason", r[-1]["msg-type"])

    def hello(self, client_id, lo=2, hi=3):
        return self.ask("hello", client_id=client_id,
                        protocol_minimum_version=lo,
                        protocol_maximum_version=hi)

    def publish(self, service_id, generation=1, ttl=5, **props):
        return self.ask("publish", service_id=service_id,
                        generation=generation, ttl=ttl,
                        service_props=props)

    def listing(self, what="services"):
        return [m for m in self.replies(self.send(what))
                if m["msg-type"] == "notify"]

    def leave(self):
        self.gone = True
        self.net.loop.settle()

    def alive(self):
        return self.conn is not None and not self.conn.closed


class Net:
    def __init__(self, addr="ux:test", user={}, total={}, idle=(4, 30),
                 versions=(2, 3), loop=None, name=None):
        self.addr = addr
        self.loop = loop or Loop()
        sockets = [paf.conf.SocketConf(addr, {})]
        self.server = paf.server.create(
            name, sockets, paf.sd.resources(**user),
            paf.sd.resources(**total),
            paf.conf.ProtoVersionLimitConf(*versions),
            paf.sd.IdleLimit(*idle), self.loop)

    def join(self, addr="ux:peer", **attrs):
        peer = Peer(self, addr, attrs)
        listening[self.addr].queue.append(peer)
        self.loop.settle()
        return peer

    def client(self, client_id, addr="ux:peer", lo=2, hi=3):
        peer = self.join(addr)
        r = peer.hello(client_id, lo, hi)
        assert r == "complete", r
        return peer

    def run(self, duration):
        self.loop.run(duration)


def expect(what, got, wanted):
    if got != wanted:
        print("FAILED: %s: got %r, expected %r" % (what, got, wanted))
        sys.exit(1)
    print("ok: %s" % what)
