"""Configuration documents."""
import datetime
import os
import shutil
import tempfile

import yaml

import psx.env as penv
from psx.lazy import ABSENT
from psx.loader import StubModule

BIG = 1 << 66
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40,
          "critical": 50}
FACILITIES = {"kern": 0, "user": 1, "mail": 2, "daemon": 3, "auth": 4,
              "syslog": 5, "lpr": 6, "news": 7, "uucp": 8, "cron": 9,
              "authpriv": 10, "ftp": 11, "local0": 16, "local1": 17,
              "local2": 18, "local3": 19, "local4": 20, "local5": 21,
              "local6": 22, "local7": 23}
TYPES = ("clients", "services", "subscriptions")
LOG = {"console": "bool", "log_file": "str", "log_file_backup": "int",
       "log_file_max_size": "int", "syslog": "bool", "syslog_socket": "str",
       "facility": "facility", "filter": "level"}
LOG_DEFAULT = {"console": False, "log_file": None, "log_file_backup": 0,
               "log_file_max_size": 1000000, "syslog": True,
               "syslog_socket": "/dev/log", "facility": "daemon",
               "filter": "info"}


class Doc:
    """The contents of a configuration file in a symbolic run."""

    def __init__(self, tree):
        self.tree = tree

    def decode(self, *a, **k):
        return self


class File:
    def __init__(self, doc):
        self.doc = doc

    def read(self, *a):
        return self.doc

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def plain(doc):
    if isinstance(doc, File):
        doc = doc.doc
    if isinstance(doc, Doc):
        return doc.tree
    return yaml.safe_load(doc)


def environment(c, doc):
    """A copy of the code under test that finds doc (a tree, bytes or an
    exception) in the file whose name is returned."""
    st = {}
    extra = {}
    if c.symbolic:
        st["re"] = c.re_stub()

        def fake_open(name, mode="r", *a, **k):
            if isinstance(doc, Exception):
                raise doc
            if isinstance(doc, bytes):
                return File(doc if "b" in mode else doc.decode("utf-8"))
            return File(Doc(doc))
        extra["open"] = fake_open
        st["yaml"] = StubModule("yaml", yaml, safe_load=plain,
                                load=lambda d, *a, **k: plain(d),
                                full_load=plain)
    return st, extra


class Conf:
    """Loads a document; .conf is the result or None when rejected."""

    def __init__(self, c, doc):
        self.c = c
        st, extra = environment(c, doc)
        self.m = c.load_cut(st, extra)
        self.m.load("paf.logging")
        self.mod = self.m.load("paf.conf")
        self.sd = self.m.load("paf.sd")
        scratch = None
        name = "/nowhere/conf"
        try:
            if not c.symbolic and not isinstance(doc, Exception):
                scratch = tempfile.mkdtemp(prefix="verif-conf-")
                name = os.path.join(scratch, "conf")
                data = doc if isinstance(doc, bytes) else \
                    yaml.safe_dump(doc).encode("utf-8")
                with open(name, "wb") as f:
                    f.write(data)
            self.load(name, isinstance(doc, Exception))
        finally:
            if scratch is not None:
                shutil.rmtree(scratch)

    def load(self, name, unreadable):
        self.conf = None
        try:
            self.conf = self.mod.load(name)
            # the server prints it when it starts
            text = str(self.conf)
        except self.mod.Error as e:
            self.c.check(len(str(e)) > 0, "rejected without explanation")
        except OSError:
            self.c.check(unreadable, "readable file reported unreadable")


# ---- values -----------------------------------------------------------

JUNK = [None, True, False, 0.5, "x", "", "1", b"x", [], ["x"], {},
        {"x": "x"}, datetime.date(2024, 1, 2), [None], float("nan"),
        -float("inf")]


def anything(c, name, good):
    """ABSENT, a good value, any integer or a value of another kind."""
    n = c.choice(name, range(len(good) + 2 + len(JUNK)))
    if n < len(good):
        return good[n]()
    n -= len(good)
    if n == 0:
        return ABSENT
    if n == 1:
        return c.int(name + "/int", -BIG, BIG)
    return JUNK[n - 2]


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


class Verdict:
    """What is wrong with a document."""

    def __init__(self, c):
        self.c = c
        self.flaws = []         # it must be rejected
        self.doubts = []        # it may be rejected

    def flaw(self, x):
        self.flaws.append(x)

    def doubt(self, x=True):
        self.doubts.append(x)

    def given(self, d, key, kind):
        """The value of a parameter of this kind, ABSENT when there is
        none or when it is flawed."""
        v = ABSENT
        if key in d:
            v = d[key]
        if v is ABSENT:
            return ABSENT
        if v is None:
            # null may mean that nothing is given
            self.doubt()
            return ABSENT
        ok = {"int": is_int(v), "bool": isinstance(v, bool),
              "str": isinstance(v, str), "dict": isinstance(v, dict),
              "list": isinstance(v, list), "level": isinstance(v, str),
              "facility": isinstance(v, str)}[kind]
        if not ok:
            self.flaw(True)
            return ABSENT
        if kind in ("level", "facility"):
            names = LEVELS if kind == "level" else FACILITIES
            for n in names:
                if v == n:
                    return n
            if kind == "facility" and v == "security":
                return "auth"       # an alias in some Python versions
            self.flaw(kind == "level")
            self.doubt()
            return ABSENT
        return v


def unknown(v, d, names):
    for k in d:
        if k not in names:
            v.doubt()


def expected(c, doc):
    """(verdict, expected configuration)"""
    v = Verdict(c)
    want = {"log": dict(LOG_DEFAULT), "domains": [],
            "user": {}, "total": {}}
    if not isinstance(doc, dict):
        if doc is None:
            v.doubt()
        else:
            v.flaw(True)
        return v, want
    unknown(v, doc, ("log", "domains", "resources"))
    log = v.given(doc, "log", "dict")
    if log is not ABSENT:
        unknown(v, log, LOG)
        for k, kind in LOG.items():
            x = v.given(log, k, kind)
            if x is not ABSENT:
                want["log"][k] = x
                if kind == "int":
                    v.doubt(x < 0)
    res = v.given(doc, "resources", "dict")
    if res is not ABSENT:
        unknown(v, res, ("user", "total"))
        for cls in ("user", "total"):
            lim = v.given(res, cls, "dict")
            if lim is ABSENT:
                continue
            for k in lim:
                if k not in TYPES:
                    v.flaw(True)
            for k in TYPES:
                x = v.given(lim, k, "int")
                if x is not ABSENT:
                    v.flaw(x < 0)
                    want[cls][k] = x
    doms = v.given(doc, "domains", "list")
    if doms is not ABSENT:
        for d in doms:
            if not isinstance(d, dict):
                v.flaw(True)
            else:
                want["domains"].append(domain(v, d))
    return v, want


def domain(v, d):
    unknown(v, d, ("name", "protocol_version", "max_idle_time", "idle",
                   "sockets", "addrs"))
    w = {}
    x = v.given(d, "name", "str")
    w["name"] = None if x is ABSENT else x
    w["version"] = [2, 3]
    pv = v.given(d, "protocol_version", "dict")
    if pv is not ABSENT:
        unknown(v, pv, ("min", "max"))
        for i, k in enumerate(("min", "max")):
            x = v.given(pv, k, "int")
            if x is not ABSENT:
                w["version"][i] = x
        lo, hi = w["version"]
        v.flaw(lo > hi)
        v.flaw(lo < 2)
        v.flaw(hi > 3)
    w["idle"] = [4, 30]
    old = v.given(d, "max_idle_time", "int")
    if old is not ABSENT:
        w["idle"][1] = old
    idle = v.given(d, "idle", "dict")
    if idle is not ABSENT:
        unknown(v, idle, ("min", "max"))
        x = v.given(idle, "min", "int")
        if x is not ABSENT:
            w["idle"][0] = x
        x = v.given(idle, "max", "int")
        if x is not ABSENT:
            w["idle"][1] = x
            if old is not ABSENT:
                v.flaw(True)
        if "max" in idle and "max_idle_time" in d:
            v.doubt()
    v.flaw(w["idle"][0] < 1)
    v.flaw(w["idle"][0] > w["idle"][1])
    a = v.given(d, "sockets", "list")
    b = v.given(d, "addrs", "list")
    if a is ABSENT and b is ABSENT:
        v.flaw(True)
    elif a is not ABSENT and b is not ABSENT:
        v.flaw(True)
    w["sockets"] = []
    for s in (b if a is ABSENT else a) if a is not b else []:
        if isinstance(s, str):
            w["sockets"].append((s, {}))
            continue
        if not isinstance(s, dict):
            v.flaw(True)
            continue
        unknown(v, s, ("addr", "tls"))
        addr = v.given(s, "addr", "str")
        if addr is ABSENT:
            v.flaw(True)
        tls = v.given(s, "tls", "dict")
        attrs = {}
        if tls is not ABSENT:
            if addr is not ABSENT:
                v.flaw(not (addr == "tls" or addr.startswith("tls:") or
                            addr == "utls" or addr.startswith("utls:")))
            for k in tls:
                if k not in ("cert", "key", "tc", "crl"):
                    v.flaw(True)
            for k in ("cert", "key", "tc", "crl"):
                x = v.given(tls, k, "str")
                if x is not ABSENT:
                    attrs[k] = x
                elif k in tls:
                    v.flaw(True)
        w["sockets"].append((addr, attrs))
    return w


def judge(c, doc, plaindoc=None):
    """Load a document and compare with what is expected."""
    r = Conf(c, doc)
    v, want = expected(c, doc)
    if r.conf is None:
        c.check(c.any_of(v.flaws + v.doubts), "valid configuration rejected")
        c.reach("rejected")
        c.observe("rejected", True)
        return
    c.check(c.neg(c.any_of(v.flaws)), "invalid configuration accepted")
    c.reach("accepted")
    same(c, r, want)
    c.observe("accepted", True)


def same(c, r, want):
    conf = r.conf
    for k, x in want["log"].items():
        got = getattr(conf.log, k)
        if k == "filter":
            x = LEVELS[x]
        elif k == "facility":
            x = FACILITIES[x]
        c.check(got is None if x is None else got is not None and
                c.eq(got, x), "log parameter not honoured", k)
    rt = r.sd.ResourceType
    for cls in ("user", "total"):
        limits = getattr(conf.resources, cls).resources
        for t, k in ((rt.CLIENT, "clients"), (rt.SERVICE, "services"),
                     (rt.SUBSCRIPTION, "subscriptions")):
            if k in want[cls]:
                c.check(limits[t] is not None and
                        c.eq(limits[t], want[cls][k]),
                        "resource limit not honoured", k)
            else:
                c.check(limits[t] is None, "limit out of nothing", k)
    c.check(len(conf.domains) == len(want["domains"]),
            "wrong number of domains")
    for d, w in zip(conf.domains, want["domains"]):
        c.check(d.name is None if w["name"] is None else
                d.name is not None and c.eq(d.name, w["name"]),
                "wrong domain name")
        pv = d.proto_version_limit
        c.check(c.all_of([c.eq(pv.version_min, w["version"][0]),
                          c.eq(pv.version_max, w["version"][1])]),
                "protocol version bounds not honoured")
        il = d.idle_limit
        c.check(c.all_of([c.eq(il.idle_min, w["idle"][0]),
                          c.eq(il.idle_max, w["idle"][1])]),
                "idle bounds not honoured")
        c.check(len(d.sockets) == len(w["sockets"]),
                "wrong number of sockets")
        for s, (addr, attrs) in zip(d.sockets, w["sockets"]):
            c.check(c.eq(s.addr, addr), "wrong socket address")
            c.check(sorted(s.tls_attrs.keys()) == sorted(attrs.keys()) and
                    c.all_of([c.eq(s.tls_attrs[k], attrs[k])
                              for k in attrs]),
                    "TLS parameters not honoured")


def put(d, key, v):
    if v is not ABSENT:
        d[key] = v


# ---- harnesses --------------------------------------------------------

def good_domain():
    return {"sockets": ["ux:a"]}


def top(c):
    """The outermost levels."""
    shape = c.choice("shape", ["root", "sections", "domain", "empty"])
    if shape == "root":
        doc = c.choice("root", [x for x in JUNK] + [5])
    elif shape == "empty":
        doc = {}
    elif shape == "sections":
        doc = {}
        key = c.choice("section", ["log", "domains", "resources", "other"])
        put(doc, key, anything(c, "value", []))
        if c.choice("more", [False, True]) and key != "domains":
            doc["domains"] = [good_domain(), {"addrs": ["ux:b"],
                                              "name": "b"}]
    else:
        xs = [good_domain()]
        x = anything(c, "value", [good_domain])
        if x is not ABSENT:
            xs.insert(c.choice("at", [0, 1]), x)
        doc = {"domains": xs}
    judge(c, doc)


GOOD = {"bool": [lambda: True], "int": [lambda: 3],
        "str": [lambda: "/some/file"], "level": [lambda: "error"],
        "facility": [lambda: "local3"]}


def log(c, pair):
    """One or two free log parameters; the others all given or left out."""
    rest = c.choice("others", [False, True])
    names = list(LOG)
    one = c.choice("free", names)
    free = [one]
    if pair:
        left = names[names.index(one) + 1:]
        if left == []:
            c.assume(False)
        free.append(c.choice("free too", left))
    d = {}
    for k in names:
        kind = LOG[k]
        if k in free:
            good = list(GOOD[kind])
            if kind == "level":
                good = [lambda n=n: n for n in LEVELS]
            elif kind == "facility" and not pair:
                good = [lambda n=n: n for n in FACILITIES]
            if kind in ("level", "facility", "str"):
                good.append(lambda: c.string(k, 4))
            put(d, k, anything(c, k, good))
        elif rest:
            d[k] = GOOD[kind][0]()
    judge(c, {"log": d})


def versions(c):
    pv = {}
    put(pv, "min", anything(c, "min", []))
    put(pv, "max", anything(c, "max", []))
    d = good_domain()
    d["protocol_version"] = pv
    judge(c, {"domains": [good_domain(), d]})


def idle(c, third=True):
    d = good_domain()
    put(d, "max_idle_time", anything(c, "max_idle_time", []))
    if c.choice("idle", [False, True]):
        x = {}
        put(x, "min", anything(c, "min", []) if third else
            c.choice("min", [lambda: ABSENT,
                             lambda: c.int("min/int", -BIG, BIG)])())
        put(x, "max", anything(c, "max", []))
        d["idle"] = x
    judge(c, {"domains": [d, good_domain()]})


def parts(c):
    """Name and the kinds of the other members of a domain."""
    d = good_domain()
    k = c.choice("member", ["name", "protocol_version", "idle", "other",
                            "max_idle_time"])
    put(d, k, anything(c, "value", [lambda: c.string("name", 2)]))
    judge(c, {"domains": [d]})


def sockets(c, which):
    """Sockets under either name or both."""
    d = {}
    if which == "lists":
        good = [lambda: ["ux:a"], lambda: ["ux:b", {"addr": "tls:c"}]]
        put(d, "sockets", anything(c, "sockets", good))
        put(d, "addrs", anything(c, "addrs", good))
    else:
        s = anything(c, "socket", [
            lambda: c.string("addr", 3),
            lambda: {"addr": c.string("addr", 3)}])
        xs = ["ux:a"]
        if s is not ABSENT:
            xs.insert(c.choice("at", [0, 1]), s)
        d[c.choice("name", ["sockets", "addrs"])] = xs
    judge(c, {"domains": [d]})


def tls(c, pair=False):
    s = {}
    what = c.choice("what", ["addr", "tls", "attr"])
    addr = "tls:*:4711"
    if what == "addr":
        addr = anything(c, "addr", [
            lambda: c.string("addr", 3), lambda: c.string("addr", 4),
            lambda: c.string("addr", 5), lambda: "utls:x", lambda: "ux:tls",
            lambda: "tls", lambda: "tlsx:a", lambda: "TLS:a"])
    put(s, "addr", addr)
    if what == "tls":
        put(s, "tls", anything(c, "tls", []))
    else:
        t = {"cert": "c"}
        if what == "attr":
            t = {} if c.choice("alone", [False, True]) else t
            names = ["cert", "key", "tc", "crl", "other", 5]
            k = c.choice("attr", names)
            put(t, k, anything(c, "value", [lambda: c.string("file", 2)]))
            if pair:
                k = c.choice("attr too", names[:4])
                put(t, k, anything(c, "value too", []))
        s["tls"] = t
    judge(c, {"domains": [{"sockets": ["ux:x", s]}]})


def resources(c, pair):
    res = {}
    first = c.choice("class", ["user", "total", "other"])
    if c.choice("level", ["class", "limit"]) == "class":
        put(res, first, anything(c, "value", []))
        if c.choice("both", [False, True]) and first != "total":
            res["total"] = {"clients": 5}
        judge(c, {"resources": res})
        return
    lim = {}
    names = list(TYPES) + ["other", 5, None]
    k = c.choice("limit", names)
    put(lim, k, anything(c, "value", []))
    if pair and k in TYPES and k != TYPES[2]:
        k2 = c.choice("limit too", TYPES[TYPES.index(k) + 1:])
        put(lim, k2, anything(c, "value too", []))
    res[first] = lim
    if first == "user":
        res["total"] = {t: c.int("total", 0, BIG) for t in TYPES}
    judge(c, {"resources": res})


TEXTS = [
    b"", b"null", b"~", b"[]", b"x", b"5", b"{", b"[", b"a: b: c", b"\t",
    b"\xff\xfe", b"\xff\xff\xff", b"\x00", b"name: 2001-99-99",
    b"log: {log_file_backup: 2024-13-45}", b"!!int x", b"!!float x",
    b"!!bool x", b"!!timestamp x", b"!!python/object:os.system x",
    b"log: !!binary x", b"domains: &a [*a]", b"log: &a {log: *a}",
    b"domains: [&d {sockets: [*d]}]", b"&a [*b]", b"? [a]\n: b",
    b"? {a: b}\n: c", b"%YAML 9.9\n---\n{}", b"--- {}\n--- {}",
    b"resources: {total: {? [1, 2] : 3}}",
    b"resources: {total: {clients: 0x7f, services: 0b1}}",
    b"domains: [{sockets: [ux:a], idle: {min: 1:30, max: 2:00}}]",
    b"log: {<<: {console: true}}", b"[" * 3000,
]
REJECT = (b"{", b"[", b"x", b"5", b"[]", b"a: b: c", b"\xff\xff\xff",
          b"\x00", b"domains: &a [*a]", b"domains: [&d {sockets: [*d]}]")


def texts(c):
    """Documents that are not well-formed, or odd."""
    t = c.choice("text", range(len(TEXTS) + 3))
    if t >= len(TEXTS):
        e = [2, 13, 21][t - len(TEXTS)]
        doc = penv.oserror(e)
    else:
        doc = TEXTS[t]
    r = Conf(c, doc)
    bad = isinstance(doc, Exception) or doc in REJECT
    c.check(not (bad and r.conf is not None), "malformed file accepted")
    c.reach("rejected" if r.conf is None else "accepted")
    c.observe("text", r.conf is None)
