"""The event loop, with descriptors, timeouts and active sources of its own."""
import select

import psx.env as penv


class Thing:
    """What a descriptor refers to."""
    kind = "thing"

    def ready(self):
        return 0


class Src:
    def __init__(self, t, name, fd=None, timeout=None, active=False):
        self.t = t
        self.name = name
        self.src = t.m.Source()
        self.fd = fd
        self.mask = select.EPOLLIN
        self.timeout = timeout
        self.active = active
        self.state = "new"
        self.reported = False       # its descriptor, and not called since
        self.cause = False          # there was one this round
        self.overdue = 0
        self.calls = 0
        if fd is not None:
            self.src.set_fd(fd, select.EPOLLIN)
        if timeout is not None:
            self.src.set_timeout(timeout)
        if active:
            self.src.set_active()

    def add(self):
        self.t.loop.add(self.src, self.called)
        self.state = "in"
        self.cause = self.active
        self.t.srcs.append(self)

    def remove(self):
        self.t.loop.remove(self.src)
        self.state = "out"
        self.t.c.reach("removed")

    def set_timeout(self, timeout):
        self.timeout = timeout
        self.overdue = 0
        if timeout is None:
            self.src.clear_timeout()
        else:
            self.src.set_timeout(timeout)

    def set_active(self, on):
        self.active = on
        if on:
            self.src.set_active()
            self.cause = True
        else:
            self.src.clear_active()

    def due(self):
        return self.timeout is not None and self.timeout <= self.t.env.now

    def called(self):
        t, c = self.t, self.t.c
        c.check(self.state == "in", "handler of a removed source called")
        if self.due():
            self.cause = True
        c.check(self.cause or self.fd is not None and
                self.fd in t.reported, "handler called without cause")
        t.count += 1
        c.check(t.count < 60, "the loop does not return after stop"
                if t.stopping else "the loop spins")
        self.reported = False
        self.overdue = 0
        self.calls += 1
        c.observe("called", self.timeout)
        why = "due" if self.due() else "active" if self.active else "ready"
        c.reach(why)
        t.act(self, why)


class Tester:
    def __init__(self, c, menu, budget, rounds, signals):
        self.c = c
        self.signals = signals
        self.menu = menu.split("|")
        self.budget = budget
        self.rounds = rounds
        self.env = penv.Env(c)
        self.m = c.load_cut(self.env.stubs()).load("paf.eventloop")
        self.srcs = []
        self.reported = []
        self.count = 0
        self.stopping = False
        self.signalled = False
        self.env.on_poll = self.poll
        self.loop = self.m.EventLoop()

    def pipe(self):
        for fd, x in self.env.fds.items():
            if isinstance(x, penv.Pipe):
                return fd, x
        self.c.fail("no descriptor for signals")

    def live(self):
        return [s for s in self.srcs if s.state == "in"]

    # ---- what a handler does -------------------------------------------
    def act(self, s, why):
        c = self.c
        what = "-"
        if self.budget > 0:
            what = c.choice("do", self.menu)
            if what != "-":
                self.budget -= 1
        stay = what == "stay" or what == "stop"
        if s.due() and what != "later":
            s.set_timeout(None)
        if s.active and not stay:
            s.set_active(False)
        others = [x for x in self.live() if x is not s]
        if what == "stop":
            self.loop.stop()
            self.stopping = True
            c.reach("stop")
        elif what == "signal":
            self.env.signal()
            self.signalled = True
        elif what == "later":
            s.set_timeout(self.env.now + c.real("later", 0, 2))
        elif what == "activate":
            x = c.choice("whom", self.live())
            x.set_active(True)
        elif what == "calm":
            x = c.choice("whom", self.live())
            x.set_active(False)
            x.set_timeout(None)
        elif what == "leave":
            s.remove()
        elif what == "remove":
            if others == []:
                c.assume(False)
            c.choice("whom", others).remove()
        elif what == "reuse":
            # somebody's descriptor is closed and its number taken by a
            # new source at once
            xs = [x for x in self.live() if x.fd is not None]
            if xs == []:
                c.assume(False)
            x = c.choice("whom", xs)
            fd = x.fd
            closed = c.choice("closed", ["before", "after"])
            if closed == "before":
                self.env.free_fd(fd)
            x.remove()
            if closed == "after":
                self.env.free_fd(fd)
            self.env.fds[fd] = Thing()
            n = Src(self, "new%d" % len(self.srcs), fd)
            n.add()
            c.reach("descriptor reused")
        elif what == "replace":
            # same, but the descriptor is in other hands before removal
            xs = [x for x in self.live() if x.fd is not None]
            if xs == []:
                c.assume(False)
            x = c.choice("whom", xs)
            fd = x.fd
            self.env.free_fd(fd)
            self.env.fds[fd] = Thing()
            x.remove()
            n = Src(self, "new%d" % len(self.srcs), fd)
            n.add()
            c.reach("descriptor reused")
        elif what == "ghost" or what == "back":
            # a source that was removed changes, or is added again
            xs = [x for x in self.srcs if x.state == "out"]
            if xs == []:
                c.assume(False)
            x = c.choice("whom", xs)
            if what == "back":
                self.loop.add(x.src, x.called)
                x.state = "in"
                x.cause = x.active
                x.overdue = 0
                c.reach("added again")
            else:
                how = c.choice("how", ["due", "active", "calm", "fd"])
                if how == "due":
                    x.set_timeout(self.env.now)
                elif how == "active":
                    x.set_active(True)
                elif how == "fd":
                    x.fd = self.env.alloc_fd(Thing())
                    x.mask = select.EPOLLIN
                    x.src.set_fd(x.fd, x.mask)
                else:
                    x.set_timeout(None)
                    x.set_active(False)
                    x.fd = None
                    x.src.clear_fd()
                c.reach("changed after removal")
        elif what == "refd":
            s.fd = None
            s.src.clear_fd()
            if c.choice("again", [False, True]):
                s.fd = self.env.alloc_fd(Thing())
                s.mask = select.EPOLLIN
                s.src.set_fd(s.fd, select.EPOLLIN)
        elif what == "mask":
            # a source has other events to wait for
            xs = [x for x in self.live() if x.fd is not None]
            if xs == []:
                c.assume(False)
            x = c.choice("whom", xs)
            x.mask = c.choice("mask", [select.EPOLLOUT, select.EPOLLIN,
                                       select.EPOLLIN | select.EPOLLOUT])
            x.src.set_fd(x.fd, x.mask)
            c.reach("events changed")
        elif what == "new":
            n = Src(self, "new%d" % len(self.srcs),
                    self.env.alloc_fd(Thing()),
                    self.env.now + c.real("timeout", 0, 1),
                    c.choice("active", [False, True]))
            n.add()

    # ---- what the kernel does -------------------------------------------
    def poll(self, ep, timeout):
        c = self.c
        self.judge(ep, timeout)
        for s in self.srcs:
            s.reported = False
            s.cause = False
        pfd, pipe = self.pipe()
        self.reported = []
        if self.rounds == 0:
            raise penv.Quiet()
        self.rounds -= 1
        out = []
        for s in self.live():
            if s.fd is not None and c.choice("ready", [False, True]):
                out.append(s.fd)
                s.reported = True
        if self.signals and pipe.data == 0 and c.choice("signal", [False, True]):
            self.env.signal()
            self.signalled = True
            c.reach("signal")
        if pipe.data > 0:
            out.append(pfd)
        if len(out) > 1 and c.choice("order", [0, 1]):
            out.reverse()
        self.reported = out
        if out == []:
            if timeout is None or timeout < 0:
                raise penv.Quiet()
            self.env.now = self.env.now + timeout + penv.EPSILON
        elif timeout is not None and timeout > 0:
            # after any part of the time
            self.env.now = self.env.now + c.choice("part", [0, timeout])
        return [(fd, ep.table[fd]) for fd in out]

    def judge(self, ep, timeout):
        c = self.c
        c.check(not self.stopping, "the loop waits after it was stopped")
        c.check(self.pipe()[0] not in self.reported,
                "the loop waits after a termination signal")
        wait = timeout is None or timeout < 0
        pos = wait or timeout > 0
        for s in self.live():
            c.check(not (s.active and pos),
                    "the loop waits while a source is active")
            if s.timeout is not None:
                c.check(not wait, "the loop waits forever with a timeout")
                left = s.timeout - self.env.now
                if left <= 0:
                    c.check(not pos, "the loop waits beyond a timeout")
                    s.overdue += 1
                    c.check(s.overdue < 3, "timeout handler not called")
                else:
                    c.check(timeout <= left,
                            "the loop waits beyond a timeout")
            c.check(not s.reported, "ready source not handled")
            if s.fd is not None:
                c.check(ep.table.get(s.fd) == s.mask,
                        "descriptor of a source not watched")
        fds = [s.fd for s in self.live() if s.fd is not None]
        fds.append(self.pipe()[0])
        for fd in list(ep.table.keys()):
            c.check(fd in fds, "descriptor of no source watched")

    def run(self):
        c = self.c
        try:
            self.loop.run()
            pfd, pipe = self.pipe()
            c.check(self.stopping or pfd in self.reported,
                    "the loop returned without being stopped")
            c.reach("returned")
        except penv.Quiet:
            pass


def history(c, kinds, menu="-", budget=0, rounds=3, signals=False):
    """kinds: one word per source; f descriptor, t timeout, a active."""
    t = Tester(c, menu, budget, rounds, signals)
    for i, k in enumerate(kinds.split(" ")):
        fd = t.env.alloc_fd(Thing()) if "f" in k else None
        timeout = t.env.now + c.real("timeout", -1, 3) if "t" in k else None
        Src(t, str(i), fd, timeout, "a" in k).add()
    t.run()
    c.reach("done")
    if signals and (t.stopping or t.signalled):
        if c.choice("again", [False, True]):
            # it can be run again
            t.stopping = False
            t.reported = []
            t.rounds = 1
            t.budget = 0
            t.run()
