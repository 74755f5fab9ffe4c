"""The timer queue and the event loop on their own."""
import psx.env as penv


class Timer:
    def __init__(self, due, plan):
        self.due = due
        self.plan = plan        # what its handler does
        self.handle = None
        self.state = "pending"


class Queue:
    def __init__(self, c):
        self.c = c
        self.env = penv.Env(c)
        m = c.load_cut(self.env.stubs())
        self.timers = []
        self.fired = []
        self.now = None             # instant of the processing under way
        self.announced = None
        self.tm = m.load("paf.timer").TimerManager(self.announce)

    def announce(self):
        self.announced = self.tm.next_timeout()

    def pending(self):
        return [t for t in self.timers if t.state == "pending"]

    def add(self, plan, span, relative=None):
        c = self.c
        dt = c.real("at", -1 if plan is None else -2, span)
        t = Timer(self.env.now + dt, plan)
        if relative is None:
            relative = c.choice("kind", [False, True])
        # known to the model first: adding may announce
        self.timers.append(t)
        t.handle = self.tm.add(lambda: self.fire(t),
                               dt if relative else t.due, relative) \
            if relative else self.tm.add(lambda: self.fire(t), t.due)
        return t

    def put(self, dt):
        t = Timer(self.env.now + dt, "none")
        self.timers.append(t)
        t.handle = self.tm.add(lambda: self.fire(t), t.due)

    def cancel(self, t):
        self.tm.remove(t.handle)
        t.state = "cancelled"
        self.c.reach("cancelled")

    def fire(self, t):
        c = self.c
        c.check(self.now is not None, "timer fired outside processing")
        c.check(t.state != "cancelled", "cancelled timer fired")
        c.check(t.state == "pending", "timer fired twice")
        c.check(t.due <= self.now, "timer fired early")
        for o in self.pending():
            c.check(t.due <= o.due, "timers fired out of order")
        t.state = "fired"
        c.reach("fired")
        if t.plan == "add":
            n = self.add(None, 2)
            if n.due <= self.now:
                c.reach("due when added by a handler")
        elif t.plan == "cancel":
            left = self.pending()
            if left != []:
                self.cancel(left[c.choice("which", range(len(left)))])
                c.reach("cancelled by a handler")

    def process(self):
        c = self.c
        self.now = self.env.now
        self.tm.process()
        self.now = None
        for t in self.pending():
            c.check(t.due > self.env.now, "due timer not fired")
        self.settle()

    def settle(self):
        """The next timeout is right and known to the listener."""
        c = self.c
        left = self.pending()
        nxt = self.tm.next_timeout()
        c.observe("next", nxt)
        c.check(self.tm.empty() if left == [] else not self.tm.empty(),
                "wrong emptiness")
        if left == []:
            c.check(nxt is None, "next timeout without a timer")
        else:
            c.check(nxt is not None, "timer without a next timeout")
            for t in left:
                c.check(nxt <= t.due, "next timeout later than a timer")
            c.check(c.any_of([nxt == t.due for t in left]),
                    "next timeout of no timer")
        if nxt is None:
            c.check(self.announced is None,
                    "change of the next timeout not announced")
        else:
            c.check(self.announced is not None and self.announced == nxt,
                    "change of the next timeout not announced")


def history(c, script, span=4, mixed=True):
    """mixed: each timer absolute or relative.  script: + a timer, +a / +c one whose handler adds / cancels, - a
    cancellation, p processing at any later instant, ? any of + - p."""
    q = Queue(c)
    q.settle()
    for tok in script.split(" "):
        if "|" in tok:
            tok = c.choice("step", tok.split("|"))
        if tok[0] == "+":
            plan = {"+": "none", "+a": "add", "+c": "cancel"}[tok]
            q.add(plan, span, None if mixed else False)
            q.settle()
        elif tok == "-":
            left = q.pending()
            if left == []:
                c.assume(False)
            q.cancel(left[c.choice("which", range(len(left)))])
            q.settle()
        elif tok == "p":
            q.env.advance_to(q.env.now + c.real("dt", 0, span))
            q.process()
    for i in range(2):
        q.env.advance_to(q.env.now + 3 * span + 10)
        q.process()
    c.check(q.pending() == [], "a timer was lost")
    c.reach("all done")


def crowd(c, script, n, pattern):
    """The same with n timers there already."""
    q = Queue(c)
    for i in range(n):
        k = {"up": i, "down": n - i, "mixed": i * 7 % n,
             "equal": i // 4}[pattern]
        q.put(1 + k * 0.5)
        q.settle()
    for tok in script.split(" "):
        if "|" in tok:
            tok = c.choice("step", tok.split("|"))
        if tok == "+":
            q.add("none", 2 + n * 0.5, False)
        elif tok == "-":
            # the first, the last, one in the middle
            left = q.pending()
            q.cancel(left[c.choice("which", [0, -1, len(left) // 2, -2])])
        elif tok == "p":
            q.env.advance_to(q.env.now + c.real("dt", 0, 2 + n * 0.5))
            q.process()
        q.settle()
    q.env.advance_to(q.env.now + 3 * n + 10)
    q.process()
    c.check(q.pending() == [], "a timer was lost")
    c.reach("all done")
