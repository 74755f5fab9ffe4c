"""Domain files and what is connected to."""
import io
import posixpath

import psx.env as penv
from psx.loader import StubModule
from vh.clientlib import Lib, ClientEnv

DEFAULT = "/run/paf/domains.d"
XCM = {"tlsCertificateFile": "tls.cert_file", "tlsKeyFile": "tls.key_file",
       "tlsTrustedCaFile": "tls.tc_file"}


class DocText(penv.WireText):
    """The text of a JSON document in a symbolic run."""

    def __init__(self, tree, lead):
        penv.WireText.__init__(self, tree)
        self.lead = lead

    def __iter__(self):
        return iter(self.lead + "{")

    def __getitem__(self, k):
        return (self.lead + "{")[k]

    def lstrip(self, chars=None):
        return DocText(self._wire, self.lead.lstrip(chars))

    def strip(self, chars=None):
        return self.lstrip(chars)

    def startswith(self, s):
        return (self.lead + "{").startswith(s)

    def __len__(self):
        return len(self.lead) + 2


class File:
    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d, self.data = self.data, ""
        return d

    def readlines(self):
        return [x for x in self]

    def __iter__(self):
        parts = self.read().split("\n")
        for i, p in enumerate(parts):
            if i < len(parts) - 1:
                yield p + "\n"
            elif len(p) > 0:
                yield p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Files:
    """A directory of domain files (name -> text or exception)."""

    def __init__(self, c, where, files, env_value):
        self.c = c
        self.where = where
        self.files = files
        self.environ = {"HOME": "/root"}
        if env_value is not None:
            self.environ["PAF_DOMAINS"] = env_value

    def find(self, path):
        head, tail = posixpath.split(path)
        if posixpath.normpath(head) == posixpath.normpath(self.where):
            return self.files.get(tail)
        return None

    def open(self, path, mode="r", *a, **k):
        x = self.find(path)
        if x is None:
            raise penv.oserror(2)
        if isinstance(x, Exception):
            raise x
        if self.c.symbolic:
            return File(x)
        return io.StringIO(x)


def mount(st, fs):
    """The modules through which the files are seen."""
    path = StubModule("os.path", posixpath,
                      exists=lambda p: fs.find(p) is not None,
                      isfile=lambda p: fs.find(p) is not None,
                      isdir=lambda p: p == fs.where)
    os_stub = st["os"]
    os_stub.environ = fs.environ
    os_stub.getenv = lambda k, d=None: fs.environ.get(k, d)
    os_stub.path = path
    os_stub.listdir = lambda d=".": list(fs.files) if d == fs.where else \
        fs.open("nowhere")
    st["os.path"] = path


def world(c, where, files, env_value):
    lib = Lib.__new__(Lib)
    fs = Files(c, where, files, env_value)
    lib.c = c
    lib.env = ClientEnv(c)
    st = lib.env.stubs()
    mount(st, fs)
    lib.m = c.load_cut(st, {"open": fs.open})
    lib.client = lib.m.load("paf.client")
    lib.calls = []
    lib.seen = 0
    lib.cl = lib.conn = None
    lib.readied = 0
    lib.tas = []
    lib.version = 2
    return lib


def place(c):
    """Where domain files are."""
    k = c.choice("directory", ["env", "default"])
    if k == "env":
        return "/some/dir", "/some/dir"
    return DEFAULT, None


def connected(lib, name, addr, attrs, versions):
    """connect() goes to that server."""
    c = lib.c
    r, x = lib.run(lib.client.connect, name, client_id=5,
                   ready_cb=lib.ready)
    usable = versions[0] <= 3 and versions[1] >= 2
    if not usable:
        c.check(r == "error", "unusable version range accepted")
        return
    c.check(r == "ok", "connecting failed", str(x))
    c.check(len(lib.env.connects) == 1, "other than one connection made")
    a, at = lib.env.connects[0]
    c.check(c.eq(a, addr), "connected to another address")
    at = dict(at)
    at.pop("xcm.blocking", None)
    c.check(sorted(at.keys()) == sorted(attrs.keys()),
            "connected with other attributes")
    for k in attrs:
        c.check(c.eq(at[k], attrs[k]), "attribute altered", k)
    lib.conn = lib.env.conns[-1]
    req = lib.sent()
    c.check(len(req) == 1, "connecting sends other than one request")
    lib.same_request(req[0], "hello", [5, versions[0], versions[1]])


def text_lines(text):
    """What a plain file lists: lists of characters."""
    out = []
    cur = []
    for ch in text:
        if ch == "\n":
            out.append(cur)
            cur = []
        else:
            cur.append(ch)
    out.append(cur)
    servers = []
    for cur in out:
        while len(cur) > 0 and cur[0].isspace():
            cur = cur[1:]
        while len(cur) > 0 and cur[-1].isspace():
            cur = cur[:-1]
        if len(cur) > 0 and cur[0] != "#":
            servers.append(cur)
    return servers


def same_text(c, got, chars):
    if len(got) != len(chars):
        return False
    return c.all_of([c.eq(a, b) for a, b in zip(got, chars)])


def build(c, shape):
    """Text with an arbitrary character for each '?'."""
    text = ""
    n = shape.count("?")
    free = c.string("text", n) if n else ""
    i = 0
    lead = True
    for ch in shape:
        if ch == "?":
            ch = free[i:i + 1]
            i += 1
            c.assume(ch != "\r")
        if lead and not (ch == " " or ch == "\t" or ch == "\n"):
            c.assume(ch != "{")
            lead = False
        text = text + ch
    return text


def plain(c, shape):
    """A file that is no JSON object."""
    where, env_value = place(c) if shape == "ux:a" else ("/d", "/d")
    text = build(c, shape)
    lib = world(c, where, {"dom": text, "other": "ux:other\n"}, env_value)
    want = text_lines(text)
    r, got = lib.run(lib.client.read_domain, "dom")
    c.check(r == "ok", "domain file refused", str(got))
    got = list(got)
    c.check(len(got) == len(want), "other servers than listed")
    for s, w in zip(got, want):
        c.check(same_text(c, s.addr, w), "server address altered")
        c.check(len(s.attrs) == 0, "attributes out of nothing")
        c.check(s.proto_version_range() == (2, 3),
                "version bounds out of nothing")
    if want == []:
        c.reach("empty")
    else:
        addr = want[0][0]
        for ch in want[0][1:]:
            addr = addr + ch
        connected(lib, "dom", addr, {}, (2, 3))
        c.reach("servers")
    c.observe("servers", len(want))


def some_server(c, i, full):
    s = {"address": c.string("addr%d" % i, 2)}
    attrs = {}
    names = list(XCM)
    pick = [c.choice(k, [False, True]) for k in names] if full else \
        [c.choice("files", [False, True])] * 3
    for k, p in zip(names, pick):
        if p:
            s[k] = c.string(k, 2)
            attrs[XCM[k]] = s[k]
    lo, hi = 2, 3
    if c.choice("min given", [False, True]):
        lo = s["minProtocolVersion"] = c.int("min", 0, 9)
    if c.choice("max given", [False, True]):
        hi = s["maxProtocolVersion"] = c.int("max", 0, 9)
    return s, attrs, (lo, hi)


def json_file(c, n, lead):
    where, env_value = place(c) if n == 1 else ("/d", "/d")
    servers = [some_server(c, i, i == n - 1 and n < 3) for i in range(n)]
    doc = {"servers": [s for s, a, v in servers]}
    if c.symbolic:
        text = DocText(doc, lead)
    else:
        text = lead + penv.text_of(doc)
    lib = world(c, where, {"dom": text, "other": "ux:other\n"}, env_value)
    r, got = lib.run(lib.client.read_domain, "dom")
    c.check(r == "ok", "domain file refused", str(got))
    got = list(got)
    c.check(len(got) == n, "other servers than listed")
    for g, (s, attrs, v) in zip(got, servers):
        c.check(c.eq(g.addr, s["address"]), "server address altered")
        c.check(sorted(g.attrs.keys()) == sorted(attrs.keys()),
                "other attributes than listed")
        for k in attrs:
            c.check(c.eq(g.attrs[k], attrs[k]), "attribute altered", k)
        lo, hi = g.proto_version_range()
        c.check(c.all_of([c.eq(lo, v[0]), c.eq(hi, v[1])]),
                "version bounds not honoured")
    if n == 0:
        c.reach("empty")
        return
    s, attrs, v = servers[0]
    connected(lib, "dom", s["address"], attrs, v)
    c.reach("servers")
    c.observe("servers", n)


NAMES = ["ux:somewhere", "tls:10.0.0.1:4711", "ux:/run/sock", "dom2", "do",
         "UX:Foo", "tcp:[::1]:99", "#x", "a b", ".", "other.bak"]


def no_file(c):
    """A name without a file is an address."""
    where, env_value = place(c)
    name = c.choice("name", NAMES)
    lib = world(c, where, {"dom": "ux:dom", "other": "ux:other"}, env_value)
    connected(lib, name, name, {}, (2, 3))
    c.reach("address")


def elsewhere(c):
    """Only the configured directory counts."""
    k = c.choice("case", ["env elsewhere", "no env"])
    if k == "env elsewhere":
        lib = world(c, DEFAULT, {"dom": "ux:dom"}, "/other/dir")
    else:
        lib = world(c, "/other/dir", {"dom": "ux:dom"}, None)
    connected(lib, "dom", "dom", {}, (2, 3))
    c.reach("address")


def changing(c):
    """The file counts as it is when connecting."""
    files = {"dom": "ux:first\nux:second\n"}
    lib = world(c, "/d", files, "/d")
    r, got = lib.run(lib.client.read_domain, "dom")
    files["dom"] = c.choice("now", ["ux:third", "#\n\n ux:second"])
    connected(lib, "dom", files["dom"].split()[-1], {}, (2, 3))
    c.reach("address")


def listing(c):
    """All domains are listed, once each."""
    where, env_value = place(c)
    names = [n for n in ("a", "b.json", "ux:c", ".d")
             if c.choice(n, [False, True])]
    lib = world(c, where, {n: "ux:x" for n in names}, env_value)
    r, got = lib.run(lambda: list(lib.client.list_domains()))
    c.check(r == "ok" and sorted(got) == sorted(names),
            "other domains than configured")
    c.reach("listed")
