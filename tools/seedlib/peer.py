"""A stand-in for the transport library whose connections end in a function
that answers requests; no real network."""
import errno
import json
import os
import socket
import sys
import types

sys.path.insert(0, os.getcwd())

xcm = types.ModuleType("paf.xcm")
xcm.SO_RECEIVABLE, xcm.SO_SENDABLE, xcm.SO_ACCEPTABLE = 1, 2, 4
xcm.NONBLOCK = 1
xcm.error = OSError


class Conn:
    def __init__(self, addr, attrs, answer, log):
        self.addr = addr
        self.attrs = attrs
        self.answer = answer
        self.log = log
        self.near, self.far = socket.socketpair()
        self.inbox = []
        self.sent = []
        self.refuse = 0
        self.target = None

    def fileno(self):
        return self.near.fileno()

    def set_target(self, condition):
        self.target = condition

    def send(self, msg):
        if self.refuse:
            self.refuse -= 1
            raise OSError(errno.EAGAIN, "would block")
        msg = json.loads(msg.decode("utf-8"))
        self.sent.append(msg)
        self.log(msg)
        for reply in self.answer(self, msg):
            self.deliver(reply)

    def deliver(self, reply):
        """Makes a message arrive."""
        self.inbox.append(reply)
        self.far.send(b"x")

    def receive(self):
        if not self.inbox:
            raise OSError(errno.EAGAIN, "would block")
        self.near.recv(1)
        reply = self.inbox.pop(0)
        return reply if isinstance(reply, bytes) else \
            json.dumps(reply).encode("utf-8")

    def close(self):
        self.near.close()


def reply(msg, msg_type, **fields):
    out = {"ta-cmd": msg["ta-cmd"], "ta-id": msg["ta-id"],
           "msg-type": msg_type}
    for name, value in fields.items():
        out[name.replace("_", "-")] = value
    return out


def usual(conn, msg, version=3):
    """What a server answers that has nothing to tell."""
    if msg["msg-type"] != "request":
        return []
    if msg["ta-cmd"] == "hello":
        return [reply(msg, "complete", protocol_version=version)]
    if msg["ta-cmd"] in ("services", "subscriptions", "clients"):
        return [reply(msg, "accept"), reply(msg, "complete")]
    if msg["ta-cmd"] in ("subscribe", "track"):
        return [reply(msg, "accept")]
    return [reply(msg, "complete")]


conns = []


def install(answer=usual, log=lambda msg: None, refused=False):
    def connect(addr, flags=0, attrs={}):
        if refused:
            raise OSError(errno.ECONNREFUSED, "refused")
        conns.append(Conn(addr, dict(attrs), answer, log))
        return conns[-1]

    xcm.connect = connect
    sys.modules["paf.xcm"] = xcm
    import paf
    paf.xcm = xcm
    import paf.client
    return paf.client


def expect(what, got, wanted):
    if got != wanted:
        print("FAILED: %s: got %r, expected %r" % (what, got, wanted))
        sys.exit(1)
    print("ok: %s" % what)
