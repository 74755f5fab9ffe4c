"""Several domains in one server process."""
from vh.world import World
from vh.hist import Hist

ALL = tuple("C%02d" % i for i in range(1, 35))


class Memo:
    """Inputs by position in the script, so that two runs share them."""

    def __init__(self, c):
        self.c = c
        self.store = {}
        self.at = 0
        self.count = {}

    def move(self, i):
        self.at = i
        self.count = {}

    def get(self, kind, name, make):
        n = self.count.get((kind, name), 0)
        self.count[(kind, name)] = n + 1
        key = (self.at, kind, name, n)
        if key not in self.store:
            self.store[key] = make()
        return self.store[key]

    def int(self, name, lo=None, hi=None):
        return self.get("int", name, lambda: self.c.int(name, lo, hi))

    def real(self, name, lo, hi):
        return self.get("real", name, lambda: self.c.real(name, lo, hi))

    def string(self, name, n, alphabet=None):
        return self.get("string", name,
                        lambda: self.c.string(name, n, alphabet))

    def choice(self, name, options):
        return self.get("choice", name,
                        lambda: self.c.choice(name, options))

    def assume(self, x):
        self.c.assume(x)

    def reach(self, label):
        self.c.reach(label)


def domain_of(tok, homes):
    return None if tok.startswith("wait") else homes[tok.split(".")[0]]


def replay(c, memo, toks, h, homes, only=None, names=None):
    for i, tok in enumerate(toks):
        d = domain_of(tok, homes)
        if only is not None and d is not None and d != only:
            continue
        if only is not None:
            tok = tok.replace("d%d" % only, "d0")
        memo.move(i)
        h.step(tok)
        h.admitted()


def isolated(c, judge, script, per, version=3, ttl_max=60):
    """What happens in each domain is what would happen there alone."""
    homes = {}
    for t in script.split(" "):
        for x in t.split("|"):
            if ".hi" in x or ".come" in x:
                opt = x.split(":")[1] if ":" in x else ""
                homes[x.split(".")[0]] = 1 if "d1" in opt else 0
    toks = [c.choice("step", t.split("|")) for t in script.split(" ")]
    toks = [t for t in toks if t != "-"]
    memo = Memo(c)
    for d in range(2):
        # each domain alone: whatever goes wrong there is not our business
        try:
            h = make(c, memo, (), version, ttl_max, (None,), per[d:d + 1])
            replay(c, memo, toks, h, homes, d)
        except Exception:
            c.assume(False)
    h = make(c, memo, ALL, version, ttl_max, ("one", "two"), per)
    replay(c, memo, toks, h, homes)
    for p in list(h.peers.values()):
        if not p.gone and p.cid is not None:
            h.w.list_services(p, ALL)
            h.w.list_subscriptions(p, ALL)
            h.w.list_clients(p, ALL)
    c.reach("isolated")


def make(c, memo, judge, version, ttl_max, names, per):
    h = Hist(c, judge, version, ttl_max, True, names=names, per=per)
    h.c = memo
    return h
