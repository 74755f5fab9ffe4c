"""Which harnesses decide which property, with their bounds."""
from psx.explore import Harness as H
from vh.codec import SPEC, cases

CASES = cases()


class Check:
    def __init__(self, fn, bounds, outside="", assumes=""):
        self.fn = fn
        self.bounds = bounds
        self.outside = outside
        self.assumes = assumes

    def harnesses(self, tier):
        return self.fn(tier == "thorough")


CHECKS = {}


def check(prop, **kw):
    def deco(fn):
        CHECKS[prop] = Check(fn, **kw)
        return fn
    return deco


# ---- filters ----------------------------------------------------------

SUBS = ["i*", "*f", "i*f", "*m*", "i*m*", "*m*f", "i*m*f"]
TWICE = ["*m*m*", "i*m*m*", "*m*m*f"]


@check("C20",
       bounds="all strings of up to 7 (thorough 9) characters; composite "
              "skeletons with up to 6 arbitrary characters in the operator, "
              "operand and bracket positions, repeated operands included; characters 1..0x24f",
       outside="longer texts, characters beyond 0x24f, nesting deeper than "
               "the skeletons except the recursion limit itself",
       assumes="regular expressions are modelled from the parsed pattern")
def c20(deep):
    hs = [H("filt.parse_any", params={"shape": "?" * n},
            reach=("bad", "good") if n >= 5 else ("bad",))
          for n in range(0, 10 if deep else 8)]
    shapes = ["(&(a=b)????", "(|????(c=d))", "(!(a=b)??", "(?(a=b)(c=d)?",
              "(k=a*?*??)", "(k=????*)", "(k>????)", "(k<-???)", "(????=v)",
              "(!????)", "(&????)?", "(a=b)??", "(?(a=?)(a=?))",
              "(|(?=*)(?=*)(?=*))", "(&(a>?)(a??))", "(!(!(?=?)))",
              "(&(!(a=?))(!(a=?)))", "(|(a=?*)(a=*?))"]
    if deep:
        shapes += ["(&(a=b)??????", "(|??????(c=d))", "(k=??*??*??)",
                   "(k>??????)", "(!(??????)", "(&(!(a=?))(|(???)(b<1)))",
                   "(??????=v)"]
    hs += [H("filt.parse_any", params={"shape": s}) for s in shapes]
    hs.append(H("filt.parse_deep", reach=("deep",), path_timeout=60))
    return hs


@check("C21",
       bounds="one or two leaf filters of every kind, keys and operands of "
              "1-2 (thorough 3) arbitrary characters, integers -999..999, "
              "under not/and/or; two middle pieces in a substring; escape() on all strings up to 4 "
              "(thorough 6) characters",
       outside="characters beyond 0x24f, longer operands",
       assumes="regular expressions are modelled from the parsed pattern")
def c21(deep):
    hs = []
    both = ("match", "no match")
    for k in ["present", "eq", "gt", "lt"] + SUBS:
        for kl, vl in ([(1, 1), (2, 2), (3, 3)] if deep
                       else [(1, 1), (2, 2)]):
            if k in ("i*m*f", "*m*f", "i*m*") and vl > 1 and not deep:
                vl = 1
                if kl == 1:
                    continue
            if vl > 2 and "*" in k:
                vl = 2
            hs.append(H("filt.roundtrip", params={
                "kinds": (k,), "klen": kl, "vlen": vl,
                "ptypes": ("smallint",) if k in ("gt", "lt") else
                (vl + (0 if k == "eq" else vl if k == "i*f" else 1),)},
                reach=both if "m" not in k else ("no match",)))
    for k in TWICE if deep else TWICE[:1]:
        for n in (1, 2, 3):
            hs.append(H("filt.roundtrip", params={
                "kinds": (k,), "klen": 1, "vlen": 1, "ptypes": (n,)},
                reach=("match",) if n > 1 and len(k) == n * 2 + 1 else ()))
    for w in ("and", "or"):
        for ks in [("eq", "present"), ("gt", "lt"), ("*m*", "eq")]:
            hs.append(H("filt.roundtrip", params={
                "kinds": ks, "klen": 1, "vlen": 1, "wrap": w,
                "ptypes": ("smallint",) if ks[0] == "gt" else (1,)}))
    for k in ("eq", "present", "i*f"):
        hs.append(H("filt.roundtrip", params={
            "kinds": (k,), "klen": 1, "vlen": 1, "wrap": "not",
            "ptypes": (1,)}))
    for role in ("key", "value", "sub"):
        for n in range(1, 7 if deep else 5):
            hs.append(H("filt.escape_text", params={"n": n, "role": role},
                        reach=("same", "different")))
    return hs


@check("C22",
       bounds="every leaf kind with keys of 1-2 and operands of 1-2 "
              "characters against property sets of up to 3 entries: strings "
              "of 0-5 characters and unbounded integers, same or arbitrary "
              "keys; operator trees of up to 4 leaves",
       outside="characters beyond 0x24f, longer texts, larger sets",
       assumes="regular expressions are modelled from the parsed pattern")
def c22(deep):
    hs = []
    both = ("match", "no match")
    for k in ["present", "eq"]:
        for pt in [(), (0,), (1,), (2,), ("smallint",), (1, 2),
                   (1, "smallint"), ("smallint", 2, 1)]:
            for same in (True, False):
                hs.append(H("filt.match_leaf", params={
                    "kind": k, "klen": 1, "vlen": 1, "ptypes": pt,
                    "samekey": same}))
    hs.append(H("filt.match_leaf", params={
        "kind": "eq", "klen": 2, "vlen": 2, "ptypes": ("smallint", 2),
        "samekey": False}, reach=both))
    for k in ["gt", "lt"]:
        for pt in [(), (1,), ("int",), ("int", "int"), (2, "int"),
                   ("int", 1, "int")]:
            for same in (True, False):
                hs.append(H("filt.match_leaf", params={
                    "kind": k, "klen": 1, "vlen": 0, "ptypes": pt,
                    "samekey": same}))
    for k in SUBS:
        for vl in ((1, 2) if deep else (1,)):
            for pt in [(), (0,), (1,), (2,), (3,), (4,), ("int",),
                       (2, "int"), ("int", 3), (1, 3)] + \
                    ([(5,), (6,), (2, 4), ("int", 2, 4)] if deep else []):
                hs.append(H("filt.match_leaf", params={
                    "kind": k, "klen": 1, "vlen": vl, "ptypes": pt,
                    "samekey": True}))
        hs.append(H("filt.match_leaf", params={
            "kind": k, "klen": 1, "vlen": 1, "ptypes": (3, 3),
            "samekey": False}))
    for k in TWICE:
        for pt in [(1,), (2,), (3,)] + ([(4,), ("int",)] if deep else []):
            hs.append(H("filt.match_leaf", params={
                "kind": k, "klen": 1, "vlen": 1, "ptypes": pt,
                "samekey": True}))
    trees = [("not", 0), ("and", 0, 1), ("or", 0, 1), ("and", 0, 1, 2),
             ("or", 0, 1, 2), ("not", ("and", 0, 1)), ("not", ("or", 0, 1)),
             ("and", ("not", 0), 1), ("or", ("and", 0, 1), ("not", 2)),
             ("and", ("or", 0, 1), ("or", 1, 2)), ("not", ("not", 1)),
             ("and", 0, ("or", 1, ("not", 2)), 3)]
    for i, t in enumerate(trees):
        hs.append(H("filt.match_tree", name="match_tree%d" % i, params={
            "tree": t, "values": 4}, reach=both))
    return hs


# ---- histories on a running server ------------------------------------

def hist(judge, scripts, reach=(), **params):
    """One harness per script (see vh/hist.py for the language)."""
    out = []
    for s in scripts:
        extra = "".join(",%s=%s" % kv for kv in sorted(params.items()))
        out.append(H("hist.run", name="hist[%s%s]" % (s, extra),
                     params=dict(judge=judge, script=s, **params),
                     reach=reach, native_every=2))
    return out


def crowded(judge, scripts, deep, reach=(), **params):
    """The same next to many other clients, services, subscriptions."""
    return hist(judge, scripts, reach, crowd=70 if deep else 20, **params)


M_ALL = "A.pub|A.unpub|A.bye|B.pub|B.unpub|wait"
M_OWN = "A.pub|A.unpub|A.bye|A.hi|wait"
M_TWO = "A.pub|B.pub|A.bye|B.bye|A.hi|B.unpub|A.unpub|wait"

HIST_BOUNDS = ("all histories given by the scripts in registry.py (up to "
               "%s client operations on up to 3 clients and 3 services); "
               "service ids, generations and TTLs any value 0..2^63-1, "
               "integer property values unbounded, waiting times any "
               "multiple of 1/8 s up to 200 s; some of them also after "
               "dozens of fixed operations of the same client, or next to "
               "20 (thorough 70) other clients with a service and a "
               "subscription each")
HIST_OUT = ("longer histories, more clients or services at once; timing "
            "closer than 1/64 s to an expiry")
HIST_ASSUME = ("transport, epoll, clock, random source and JSON codec are "
               "models (psx/env.py); where another property's rule decides "
               "an outcome, that outcome is assumed here")


@check("C01", bounds=HIST_BOUNDS % "5 (thorough 6)" + "; five filters over "
       "integer and one-character string properties",
       outside=HIST_OUT + "; filters beyond those listed (C22 covers "
       "matching)", assumes=HIST_ASSUME)
def c01(deep):
    J = ("C01",)
    hs = []
    for f, p in [(0, 0), (1, 0), (2, 0), (3, 1), (4, 2), (5, 4), (2, 3)]:
        fs = "O.sub:f%d" % f
        m = M_ALL.replace("pub|", "pub:p%d|" % p)
        hs += hist(J, [
            "O.hi A.hi B.hi %si1 A.pub:p%d %s %s" %
            (fs, p, m, m if deep else "A.pub:p%d|B.unpub|A.bye|wait" % p),
            "O.hi A.hi B.hi A.pub:p%d A.pub:p%d %s %s" %
            (p, p, fs, m),
            "O.hi A.hi B.hi A.pub:p%d %s %s %s" %
            (p, "A.bye|B.bye|A.unpub|B.pub:p%d" % p, fs,
             m if deep else "A.hi|B.unpub|B.pub:p%d|wait" % p),
        ], reach=("appeared", "modified", "disappeared")
            if (f, p) != (2, 3) else ("appeared",))
    hs += hist(J, [
        "O.hi A.hi O.sub:i1 O.sub:f2i2 A.pub O.unsub A.pub A.unpub",
        "O.hi A.hi O.sub:i1 A.pub O.unsub:i1 A.pub O.sub:f1i1 A.pub",
        "O.hi A.hi A.sub:i1 B.hi B.sub:i2 A.pub B.pub A.bye wait",
        "O.hi A.hi O.sub:i1 A.pub O.bye O.hi O.sub:f1i1 A.pub|A.unpub|A.bye",
        "O.hi O.sub:i1 A.hi A.pub A.bye A.hi A.pub:s1 A.bye wait:0-50 "
        "wait:0-50",
        "O.hi O.sub:i1 A.hi A.pub:s1g1 A.pub:s2g2 A.bye wait B.hi B.pub",
    ])
    if deep:
        hs += hist(J, ["O.hi A.hi B.hi O.sub:f1i1 A.pub %s %s %s" %
                       (M_ALL, M_ALL, M_ALL),
                       "O.hi O.sub:i1 A.hi A.pub:s1 A.pub:s2 A.pub:s3 A.bye "
                       "wait B.hi B.pub wait"])
    hs += crowded(J, [
        "O.hi A.hi B.hi O.sub:i1f1 A.pub:s1p1 A.pub:s1|B.unpub:s1|A.bye|wait",
        "O.hi A.hi A.pub:s1p1 O.sub:i1f1 crowd.bye A.pub:s1|A.bye|wait:0-30",
    ], deep)
    hs += hist(J, ["O.hi O.sub:i1f1 A.hi A.busy|A.flap A.pub:s600|A.bye "
                   "A.unsub|wait|O.sub:i2"])
    return hs


@check("C02", bounds=HIST_BOUNDS % "5 (thorough 6)", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c02(deep):
    J = ("C02",)
    m = M_ALL
    hs = []
    for p in (0, 1, 2, 3, 4):
        m = M_ALL.replace("pub|", "pub:p%d|" % p)
        hs += hist(J, ["O.hi A.hi B.hi A.pub:p%d %s %s O.ls" %
                       (p, m, m if deep else "A.pub|B.unpub|A.bye|wait")])
    for f, p in [(1, 0), (2, 0), (3, 1), (4, 2), (5, 4), (2, 3)]:
        hs += hist(J, ["O.hi A.hi B.hi A.pub:p%d B.pub:p%d %s O.ls:f%d" %
                       (p, p, M_ALL.replace("pub|", "pub:p%d|" % p), f)])
    hs += hist(J, [
        "O.hi A.hi A.pub A.bye A.hi|B.hi A.pub|B.pub O.ls A.bye|B.bye|wait "
        "O.ls",
        "O.hi A.hi B.hi A.pub B.pub A.bye B.bye O.ls wait:0-40 O.ls "
        "wait:0-40 O.ls",
        "O.hi O.ls A.hi A.pub O.ls A.unpub O.ls",
        "A.hi A.pub:s1 A.pub:s2 A.pub:s3 A.ls A.unpub A.ls A.ls:f1",
    ])
    if deep:
        hs += hist(J, ["O.hi A.hi B.hi A.pub %s %s %s O.ls" %
                       (M_TWO, M_TWO, M_TWO)])
    hs += crowded(J, ["O.hi A.hi B.hi A.pub:s1p1 A.pub:s1|B.pub:s2|wait O.ls:f1|O.ls",
                      "O.hi A.hi A.pub:s1 crowd.bye wait:0-30 O.ls"], deep)
    hs += hist(J, ["O.hi A.hi A.busy|A.flap A.pub:s600|A.bye O.ls"])
    return hs


@check("C03", bounds=HIST_BOUNDS % "7" + "; connection times up to 200 s "
       "ago", outside=HIST_OUT, assumes=HIST_ASSUME)
def c03(deep):
    J = ("C03",)
    subs = "O.hi A.hi A.sub:f1 O.sub A.unsub|O.unsub|A.bye|A.sub O.lsub"
    hs = hist(J, [
        subs,
        "O.hi A.hi B.hi A.sub B.sub A.bye|A.unsub|B.unsub A.hi|- A.sub|- "
        "O.lsub",
        "O.hi O.lsub O.sub:f4 O.lsub O.unsub O.lsub",
        "O.hi A.hi A.sub:f0 A.sub:f2 A.unsub A.lsub",
    ])
    for v in (2, 3):
        hs += hist(J, [
            "O.hi wait A.hi wait A.ping|- B.hi|A.bye wait|- O.lcl",
            "O.hi A.hi A.pub A.bye O.lcl A.hi wait A.ping|A.ls|A.unpub "
            "wait O.lcl",
            "O.hi A.hi:i1 B.hi:i1 O.lcl A.bye B.hi:i1|A.hi O.lcl",
            "X.hi Y.hi S.hi X.bye|- wait Y.lcl",
        ], version=v)
    hs += hist(J, ["O.hi:v3 wait A.hi:v2 wait A.ping wait O.lcl A.lcl"])
    # clients that are tracked: the latency of the last answer is listed
    hs += hist(J, ["A.hi A.track O.hi:v3 wait:5-9 A.reply|A.gossip|A.ping "
                   "O.lcl A.bye|A.reply|wait:0-9 O.lcl",
                   "A.hi A.track wait:5-5 A.reply O.hi:v3 O.lcl"],
               version=3, idle=(10, 10))
    if deep:
        m = "A.sub|A.unsub|A.bye|A.hi|B.sub|B.unsub"
        hs += hist(J, ["O.hi A.hi B.hi %s %s %s %s O.lsub" % (m, m, m, m)])
        m = "A.bye|A.hi|B.bye|B.hi|wait|A.ping"
        hs += hist(J, ["O.hi %s %s %s %s O.lcl" % (m, m, m, m)], version=3)
    hs += crowded(J, ["O.hi A.hi A.sub:i1f1 O.sub:i2|A.bye O.lsub",
                      "O.hi:v3 wait A.hi A.ping|A.bye wait O.lcl",
                      "O.hi A.hi A.sub:i1 crowd.bye O.lsub O.lcl"], deep)
    hs += hist(J, ["O.hi A.hi A.busy|A.flap A.sub:i610f1|A.bye O.lsub",
                   "O.hi wait A.hi A.busy|A.flap wait O.lcl"])
    return hs


@check("C04", bounds=HIST_BOUNDS % "4 (thorough 5)", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c04(deep):
    J = ("C04",)
    hs = []
    for p in (0, 1, 2, 4):
        hs += hist(J, [
            "O.hi A.hi B.hi A.pub:p%d A.pub:p%d|B.pub:p%d|A.pub:p3 "
            "A.pub:p%d|B.pub:p%d O.ls" % (p, p, p, p, p)],
            reach=("same generation", "changed without generation",
                   "newer generation", "older generation"))
    hs += hist(J, [
        "O.hi A.hi A.pub A.bye A.hi|B.hi A.pub|B.pub O.ls",
        "O.hi A.hi A.pub A.unpub A.pub O.ls",
        "O.hi A.hi A.pub A.bye wait B.hi B.pub O.ls",
        "O.hi A.hi O.sub A.pub A.pub A.pub O.ls",
        "O.hi A.hi B.hi A.pub:p5 A.pub|B.pub A.pub:p5|B.pub:p5 O.ls",
        "O.hi A.hi B.hi A.pub A.pub:p5|B.pub:p5 O.ls:f1",
    ])
    if deep:
        m = "A.pub|B.pub|A.bye|A.hi|A.unpub"
        hs += hist(J, ["O.hi A.hi B.hi A.pub %s %s %s O.ls" % (m, m, m)])
    hs += crowded(J, ["O.hi A.hi B.hi A.pub:s1p0 A.pub:s1p0|B.pub:s1p0 O.ls"], deep)
    hs += hist(J, ["O.hi A.hi A.busy A.pub:s600 A.pub:s600|A.pub:s601 O.ls"])
    return hs


@check("C05", bounds=HIST_BOUNDS % "6", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c05(deep):
    J = ("C05",)
    hs = []
    for own, other in [("A", "X"), ("X", "Z"), ("X", "S"), ("S", "A"),
                       ("Z", "S")]:
        hs += hist(J, [
            "O.hi %s.hi %s.hi %s.pub %s.pub|%s.unpub O.ls" %
            (own, other, own, other, other),
            "O.hi %s.hi %s.hi %s.pub %s.bye %s.pub|%s.unpub O.ls wait:0-9 "
            "O.ls" % (own, other, own, own, other, other),
        ], reach=("foreign publish", "foreign unpublish"))
    hs += hist(J, [
        "O.hi X.hi Y.hi X.pub Y.pub|Y.unpub O.ls",
        "O.hi S.hi T.hi S.pub T.pub|T.unpub O.ls",
        "O.hi A.hi B.hi A.sub B.unsub|A.unsub|B.sub O.lsub A.pub",
        "O.hi A.hi X.hi A.sub X.unsub|A.unsub|X.sub O.lsub A.pub",
        "O.hi A.hi A.sub A.bye A.hi A.unsub|A.sub O.lsub",
        "O.hi A.hi A.unpub|A.unsub A.pub A.unpub A.unpub O.ls",
        "O.hi X.hi X.pub:s1 X.bye Z.hi Z.pub|Z.unpub X.hi X.pub|X.unpub "
        "O.ls",
        "O.hi X.hi A.hi X.pub:s1 Y.hi Y.pub:s1 A.pub:s1|A.unpub:s1 X.bye "
        "Y.bye A.pub:s1|A.unpub:s1 O.ls",
    ])
    if deep:
        m = "A.pub|X.pub|A.unpub|X.unpub|A.bye|X.bye|B.pub"
        hs += hist(J, ["O.hi A.hi X.hi B.hi A.pub %s %s O.ls" % (m, m),
                       "O.hi A.hi X.hi A.pub:s1 %s %s %s O.ls" % (m, m, m)])
        m = "A.sub|X.sub|A.unsub|X.unsub|A.bye|X.bye"
        hs += hist(J, ["O.hi A.hi X.hi A.sub %s %s %s O.lsub" % (m, m, m)])
    hs += crowded(J, ["O.hi X.hi Z.hi X.pub:s1 X.sub:i1 Z.pub:s1|Z.unpub:s1|"
                      "Z.unsub:i1|Z.unpub:s2003|Z.unsub:i3003 O.ls O.lsub"],
                  deep)
    return hs


@check("C06", bounds=HIST_BOUNDS % "6 (thorough 7)", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c06(deep):
    J = ("C06",)
    m = "A.bye|B.bye|A.pub:s1|B.pub:s1|A.unpub:s1|wait"
    hs = hist(J, [
        "O.hi O.sub A.hi B.hi A.pub:s1 B.pub:s1 A.bye|B.bye O.ls "
        "A.bye|B.bye|wait|A.pub:s1|A.hi O.ls",
        "O.hi O.sub A.hi B.hi A.pub:s1 B.unpub:s1 O.ls A.bye A.hi "
        "A.pub:s1 O.ls",
        "O.hi O.sub A.hi A.pub:s1 A.bye B.hi B.pub:s1 O.ls A.hi|B.bye|wait "
        "O.ls A.pub:s1|B.bye|A.bye|wait O.ls",
        "O.hi O.sub A.hi A.pub:s1 A.bye B.hi B.unpub:s1 O.ls A.hi A.pub:s1 "
        "A.bye O.ls",
        "O.hi O.sub:f1 A.hi B.hi A.pub:s1 B.pub:s1 B.unpub|A.unpub O.ls",
        "O.hi O.sub A.hi B.hi A.pub:s1 B.pub:s1 A.pub:s1 B.bye O.ls A.bye "
        "O.ls wait O.ls",
        "O.hi O.sub X.hi Y.hi X.pub:s1 Y.pub:s1 X.bye O.ls Y.bye O.ls wait "
        "O.ls",
    ])
    if deep:
        hs += hist(J, ["O.hi O.sub A.hi B.hi A.pub:s1 B.pub:s1 %s O.ls %s "
                       "O.ls %s O.ls" % (m, m, m),
                       "O.hi O.sub A.hi B.hi C.hi A.pub:s1 B.pub:s1 C.pub:s1"
                       " A.bye B.bye O.ls C.bye O.ls wait O.ls"])
    hs += crowded(J, ["O.hi O.sub:i1f1 A.hi B.hi A.pub:s1 B.pub:s1 "
                      "A.bye|B.bye|wait O.ls"], deep)
    hs += hist(J, ["O.hi A.hi A.busy B.hi B.pub:s600 A.bye|B.bye O.ls wait "
                   "O.ls"])
    return hs


@check("C07", bounds=HIST_BOUNDS % "6 (thorough 7)", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c07(deep):
    J = ("C07",)
    hs = hist(J, [
        "O.hi O.sub A.hi A.pub wait A.bye|A.err O.ls wait O.ls wait O.ls",
        "O.hi O.sub A.hi A.pub A.pub A.bye wait O.ls wait O.ls",
        "O.hi O.sub A.hi A.pub:s1 A.pub:s2 A.unpub A.bye wait O.ls",
        "O.hi O.sub A.hi B.hi A.pub B.pub A.bye wait:0-50 B.bye wait:0-50 "
        "O.ls wait O.ls",
        "O.hi A.hi A.pub A.sub A.bye wait O.sub wait O.ls O.lsub",
        "O.hi A.hi A.sub A.sub B.hi B.sub A.bye|A.err O.lsub B.pub B.bye "
        "O.lsub",
        "O.hi O.sub A.hi A.pub:s1 A.bye A.hi wait:0-50 A.pub:s2 A.bye O.ls "
        "wait:0-50 O.ls wait O.ls",
        "O.hi O.sub:f1 A.hi A.pub A.bye wait O.ls:f1",
        "O.hi O.sub X.hi X.pub X.pub:t0 X.bye wait O.ls",
    ], reach=())
    hs += hist(J, ["O.hi:v2 O.sub A.hi A.pub:s1 A.sub:i1 wait:0-40 O.ls "
                   "O.lsub wait:0-60 O.ls"], version=3, idle=(4, 30),
               reach=("dropped for silence", "expired", "expiry notified"))
    if deep:
        m = "A.pub|A.bye|A.hi|A.unpub|wait:0-50|B.pub|B.bye"
        hs += hist(J, ["O.hi O.sub A.hi B.hi A.pub %s %s A.bye|- wait O.ls"
                       % (m, m),
                       "O.hi O.sub A.hi B.hi A.pub:s1 %s %s %s wait O.ls"
                       % (m, m, m)])
    hs += crowded(J, ["O.hi O.sub:i1f1 A.hi A.pub:s1g1p3t15 crowd.bye A.bye|A.err "
                      "wait:0-40 O.ls", "O.hi A.hi A.pub:s1 A.pub:s2 A.bye wait O.ls"],
                  deep)
    hs += hist(J, ["O.hi A.hi A.flap A.bye|wait:0-70 wait:0-70 O.ls"])
    return hs


@check("C08", bounds=HIST_BOUNDS % "7 (thorough 8)", outside=HIST_OUT,
       assumes=HIST_ASSUME)
def c08(deep):
    J = ("C08",)
    hs = hist(J, [
        "O.hi O.sub A.hi A.pub:s1 A.bye wait:0-50 A.hi A.pub:s1 O.ls wait "
        "O.ls",
        "O.hi O.sub A.hi A.pub:s1g1 A.bye wait:0-50 B.hi B.pub:s1 O.ls "
        "B.bye O.ls wait O.ls",
        "O.hi O.sub A.hi A.pub:s1g1 A.bye A.hi wait:0-50 A.pub:s1 O.ls "
        "wait:0-50 A.bye O.ls wait O.ls",
        "O.hi O.sub A.hi A.pub:s1g1 A.pub:s2g2 A.bye A.hi A.pub A.bye O.ls "
        "wait O.ls",
        "O.hi O.sub X.hi X.pub:s1 X.bye Y.hi Y.pub:s1 X.hi wait O.ls Y.bye "
        "O.ls wait O.ls",
        "O.hi O.sub:f2 A.hi A.pub:s1 A.bye A.hi A.pub:s1 wait O.ls",
    ])
    if deep:
        m = "A.pub:s1|A.bye|A.hi|B.pub:s1|B.bye|B.hi|wait:0-50"
        hs += hist(J, ["O.hi O.sub A.hi A.pub:s1 A.bye %s %s %s wait O.ls" %
                       (m, m, m),
                       "O.hi O.sub A.hi A.pub:s1 A.bye A.hi A.pub:s1 A.bye "
                       "%s %s wait O.ls" % (m, m),
                       "O.hi O.sub A.hi A.pub:s1 A.bye A.hi wait:0-50 "
                       "A.pub:s1 O.ls wait:0-50 A.bye O.ls wait:0-50 O.ls "
                       "wait O.ls",
                       "O.hi O.sub A.hi A.pub:s1 A.pub:s2 A.bye A.hi A.pub "
                       "A.bye wait O.ls"])
    hs += crowded(J, ["O.hi O.sub:i1f1 A.hi A.pub:s1g1p3t15 crowd.bye A.bye "
                      "wait:3-3 A.hi|B.hi A.pub:s1g1p3t15|B.pub:s1g2 "
                      "wait:0-30 O.ls"], deep)
    hs += hist(J, ["O.hi O.sub:i1f1 A.hi A.flap A.pub:s600 wait:0-70 A.bye "
                   "wait:0-70 O.ls"])
    return hs


@check("C09", bounds=HIST_BOUNDS % "9" + "; one or two limits at a time, "
       "each any value 0..3", outside=HIST_OUT + "; limits above 3",
       assumes=HIST_ASSUME)
def c09(deep):
    J = ("C09",)
    hs = []
    svc = ["us", "ts", "us,ts"]
    for lim in svc:
        hs += hist(J, [
            "A.hi B.hi X.hi A.pub:g1 A.pub:g2|B.pub:g2|X.pub:g2|A.unpub "
            "X.pub:s7 A.pub:s8g1 A.ls",
            "A.hi B.hi A.pub:s1 A.pub:s2g1 A.bye B.pub:s3g1 wait B.pub:s4g1 "
            "A.hi A.pub:s5 B.ls",
            "A.hi B.hi A.pub:s1g1p3 B.pub:s1g2p3 A.pub:s2g1t9 A.unpub:s1 "
            "A.pub:s3g1 B.bye|A.bye A.pub:s4|B.pub:s4|wait A.hi|B.hi "
            "A.pub:s5g1|B.pub:s5g1",
            "X.hi A.hi Z.hi X.pub:s1g1t50p3 A.pub:s2g1p3 X.bye|A.bye|"
            "X.unpub:s1 Z.pub:s3g1p3|X.hi A.pub:s4g1p3 X.hi|wait|Y.hi "
            "Z.pub:s5g1p3 A.pub:s6g1p3",
            "X.hi A.hi X.pub:s1 A.pub:s1 A.unpub:s1 A.pub:s2 X.pub:s3 "
            "X.unpub:s1 X.pub:s4 A.pub:s5 A.ls",
        ], limits=lim, ttl_max=100, reach=("no service room",))
    for lim in ["ub", "tb", "ub,tb"]:
        hs += hist(J, [
            "A.hi B.hi X.hi A.sub:i1 A.sub A.unsub|A.bye|X.sub:i3 B.sub:i4 "
            "X.sub:i5 B.sub:i6 X.lsub",
            "A.hi X.hi A.sub:i1f1 A.sub:i1 X.unsub:i1 A.sub:i2 A.bye A.hi "
            "A.sub:i1 X.sub:i2 A.sub:i3 A.lsub",
        ], limits=lim, reach=("no subscription room",))
    for lim in ["uc", "tc", "uc,tc"]:
        hs += hist(J, [
            "A.hi B.hi X.hi A.bye|X.bye|B.bye C.hi Y.hi|- A.ping B.ping "
            "X.ping C.lcl",
            "A.hi A.pub:s1 A.bye B.hi C.hi A.hi A.pub:s1 B.bye|A.bye|C.bye "
            "X.hi wait:0-1 A.ls",
            "A.hi:i1 B.hi:i1 X.hi:i1 A.bye B.hi X.hi:i1 X.ping B.ping",
        ], limits=lim, reach=("no client room",) if lim == "uc" else
            ("not admitted",) if lim == "tc" else ())
    hs += hist(J, ["A.hi X.hi A.pub:s1g1p3 A.sub:i1 X.pub:s2g1p3 X.sub:i2 "
                   "A.pub:g1p3 A.sub A.bye A.hi A.sub:i3 A.pub:s3g3"],
               limits="us,tb", ttl_max=100)
    for lim in ("us,ts", "ub,tb", "tc"):
        hs += hist(J, ["A.hi B.hi A.busy|A.flap|B.busy A.pub:s1g1p3|A.sub:i1 "
                       "B.pub:s2g1p3|B.sub:i2|A.bye B.pub:s3g1p3|B.sub:i3 "
                       "C.hi B.ping"],
                   limits=lim, ttl_max=100)
    for lim, s in [("ts", "A.hi A.pub:s1g1p3 A.pub:s2g1p3 crowd.bye|- "
                          "A.pub:s3g1p3 A.pub:s4g1p3 A.unpub:s1|wait:0-40 "
                          "A.pub:s5g1p3"),
                   ("tb", "A.hi A.sub:i1f1 A.sub:i2f1 crowd.bye|A.unsub:i1|- "
                          "A.sub:i3f1 A.sub:i4f1 A.sub:i5f1"),
                   ("tc", "A.hi B.hi C.hi Q.hi crowd.bye|A.bye|- X.hi "
                          "A.ping")]:
        hs += crowded(J, [s], deep, limits=lim, ttl_max=100)
    if deep:
        m = "A.pub:g1|A.unpub|A.bye|A.hi|X.pub:g1|B.pub:g1|B.bye"
        for lim in svc:
            hs += hist(J, ["A.hi B.hi X.hi A.pub:g1 %s %s %s A.pub:s1 "
                           "X.pub:s2" % (m, m, m)],
                       limits=lim, ttl_max=100)
        m = "A.hi|A.bye|B.hi|B.bye|X.hi|X.bye|C.hi"
        hs += hist(J, ["%s %s %s %s %s A.ping X.ping" % (m, m, m, m, m)],
                   limits="uc,tc")
    return hs


CMDS = ["subscribe", "unsubscribe", "subscriptions", "services", "publish",
        "unpublish", "ping", "clients", "track"]


@check("C10",
       bounds="every command other than hello, one (thorough two) before the "
              "handshake, on a connection that never shook hands or failed "
              "to (no common version, identity in use); ids, generations and "
              "TTLs any value 0..2^63-1",
       outside="longer sequences before the handshake; malformed messages "
               "(C13, C15)", assumes=HIST_ASSUME)
def c10(deep):
    hs = []
    for cmd in CMDS:
        for prior in (None, "version", "taken"):
            for v in (2, 3):
                if prior == "version" and v == 3:
                    continue
                hs.append(H("shake.before", params=dict(
                    judge=("C10",), cmds=(cmd,), version=v, prior=prior),
                    native_every=2,
                    reach=("refused",) if cmd != "track" else ()))
        if deep:
            for c2 in CMDS:
                hs.append(H("shake.before", params=dict(
                    judge=("C10",), cmds=(cmd, c2), version=3,
                    prior="version"), native_every=4))
    return hs


@check("C11",
       bounds="client version ranges: any two integers 0..2^63-1, also "
              "after an attempt with another range failed (no common "
              "version, or identity in use); domain ranges 2-2, 2-3 and 3-3",
       outside="versions the implementation does not support as domain "
               "bounds (rejected by configuration, C25)",
       assumes=HIST_ASSUME)
def c11(deep):
    hs = []
    for lo, hi in ((2, 2), (2, 3), (3, 3)):
        R = tuple("version %d" % v for v in range(lo, hi + 1))
        hs.append(H("shake.versions", params=dict(
            judge=("C11",), lo=lo, hi=hi), reach=("refused",) + R))
        for prior in ("version", "taken"):
            hs.append(H("shake.versions", params=dict(
                judge=("C11",), lo=lo, hi=hi, prior=prior),
                reach=("refused", "failed once") + R))
    return hs


@check("C12",
       bounds="two connections, each from any of 14 addresses (ux, uxf, tcp "
              "and tls over IPv4 and IPv6, with and without subject key "
              "identifier) or from any two numeric hosts and ports alike but "
              "for 2-3 digits, or with subject keys of 20 bytes differing in "
              "any one byte, client identities any two values 0..2^63-1; up "
              "to 7 steps, waiting times up to 200 s",
       outside="other addresses, more than two connections at once",
       assumes=HIST_ASSUME)
def c12(deep):
    J12 = ("C12",)
    hs = []
    scripts = ["q ping qpub", "bye q qpub", "pub bye q qpub|qunpub",
               "pub bye wait q qpub retry", "pub bye back q bye retry",
               "pub unpub bye q qpub", "pub q qpub|qunpub bye retry"]
    if deep:
        scripts += ["pub bye q qunpub|wait|back|qpub retry|back qpub|ping|-",
                    "pub q bye retry qpub|qunpub|wait|back retry qpub"]
    for i in range(14):
        for s in scripts:
            if not deep and i in (3, 6, 11) and "wait" in s:
                continue
            hs.append(H("shake.identity", params=dict(
                judge=("C12",), first=i, script=s,
                version=2 + i % 2), native_every=2))
    for a, b in (("key", "key"), ("tcp", "tcp"), ("tls", "tcp"),
                 ("tls", "tls")):
        for kind in ("v4", "v6") if a != "key" else ("v4",):
            hs.append(H("shake.users", params=dict(
                judge=("C12",), kind=kind, first=a, second=b),
                native_every=2, reach=("same user", "other user")))
    hs += crowded(J12, ["O.hi A.hi A.pub:s1 A.bye X.hi:i1 A.hi|X.hi:i1|B.hi:i1 "
                        "wait:0-20 X.hi:i1 O.lcl"], deep, ttl_max=15)
    hs += hist(J12, ["O.hi A.hi A.flap B.hi:i1 wait:0-80 B.hi:i1 O.lcl"])
    return hs


@check("C13",
       bounds="one hostile act on a connection that has not shaken hands, "
              "is idle, or owns a service, a subscription and (version 3) a "
              "track transaction: every request with any one field absent, "
              "null, boolean, any integer within +-2^66, fraction, string, "
              "array, object, NaN or infinity; every command with every "
              "message type, in fresh and in open transactions; documents "
              "that are no message; unusual valid arguments; 7 error numbers "
              "at receive, send, notification, hello, accept and finish; up "
              "to three messages at once followed by garbage, close or "
              "error; another client and an observer before and after",
       outside="several bad fields in one message (C15 judges the decoder); "
               "longer hostile sequences; resource exhaustion (C36)",
       assumes=HIST_ASSUME)
def c13(deep):
    hs = []
    J = ("C13",)
    for v in (2, 3):
        for cmd in SPEC[v]:
            for st in ("fresh", "busy") + (("idle",) if deep else ()):
                if st == "fresh" and cmd not in ("hello", "publish") and \
                   not deep:
                    continue
                hs.append(H("hostile.field", params=dict(
                    judge=J, version=v, cmd=cmd, state=st), native_every=4,
                    reach=("dropped",)))
        for st in ("fresh", "idle", "busy"):
            for t in ("request", "accept", "notify", "inform", "complete",
                      "fail"):
                if t == "request" and st != "busy":
                    continue
                if t != "inform" and st == "idle" and not deep:
                    continue
                hs.append(H("hostile.kind", params=dict(
                    judge=J, version=v, state=st, mtype=t), native_every=4,
                    reach=("dropped",)))
            if st != "idle" or deep:
                hs.append(H("hostile.document", params=dict(
                    judge=J, version=v, state=st), native_every=4,
                    reach=("dropped",)))
                hs.append(H("hostile.arguments", params=dict(
                    judge=J, version=v, state=st), native_every=4))
                hs.append(H("hostile.flood", params=dict(
                    judge=J, version=v, state=st), native_every=4))
        for where in ("receive", "close", "request+receive", "send",
                      "notify", "multi"):
            hs.append(H("hostile.broken", params=dict(
                judge=J, version=v, state="busy", where=where),
                reach=("dropped",)))
        for where in ("keepalive", "transport", "ski", "address"):
            hs.append(H("hostile.broken", params=dict(
                judge=J, version=v, state="fresh", where=where)))
        for lim in (False, True):
            hs.append(H("hostile.accepting", params=dict(
                judge=J, version=v, limit=lim)))
    return hs


IDLE_BOUNDS = ("all histories given by the scripts in registry.py (up to 7 "
               "steps, up to 3 connections); idle bounds 4..30 s, 1..8 s and "
               "10..10 s; TTLs any value 0..2^63-1; waiting times any "
               "multiple of 1/8 s up to 40 s each; jitter at its middle, its "
               "extremes, or (where the limit is fixed) any multiple of 1/8")


@check("C18", bounds=IDLE_BOUNDS, outside=HIST_OUT, assumes=HIST_ASSUME)
def c18(deep):
    J = ("C18",)
    hs = []
    w = "wait:0-40"
    for idle in ((4, 30), (10, 10)) + (((1, 8), (1, 100)) if deep else ()):
        hs += hist(J, [
            "O.hi:v2 A.hi %s A.ping %s O.lcl" % (w, w),
            "O.hi:v2 A.hi A.pub:s1g1p3 %s A.pub:s1g2p3|A.pub:s2g1|A.unpub:s1|"
            "A.ping|O.unpub:s1 %s" % (w, w if deep else "wait:0-16"),
            "A.hi A.pub:s1 A.pub:s2 A.unpub %s" % w,
            "A.hi A.track %s A.reply|A.ping|- %s A.query|- %s" % (w, w, w),
        ], version=3, idle=idle, reach=("dropped for silence",
                                        "silent but alive"))
    idle = (4, 30)
    hs += hist(J, [
        "O.hi:v2 A.hi A.pub:s1t9g1p3 %s O.pub:s1g2p3 %s" % (w, w),
        "O.hi:v2 A.hi A.pub:s1 %s A.ping O.unpub:s1 %s" % (w, w),
        "A.hi %s B.hi:i1v2 %s A.ping|- %s" % (w, w, w),
        "O.hi:v2 A.hi A.pub:s1t20 wait:31-40 O.ls %s O.ls" % w,
        "A.hi B.hi A.track %s A.reply|B.ping %s" % (w, w),
        "O.hi:v2 A.hi A.pub:s1g1p3 A.bye A.hi %s A.pub:s1g1p3t9|A.ping %s"
        % (w, "wait:0-16"),
    ], version=3, idle=idle)
    hs += hist(J, [
        "A.hi A.ping wait:0-40 A.ping wait:0-40",
        "A.hi A.pub:s1g1t9p3 wait:0-6 A.ping wait:0-6 A.unpub:s1 wait:0-40",
        "A.hi A.track wait:0-20 A.reply|- wait:0-40",
    ], version=3, idle=idle, jitters="any",
        reach=("dropped for silence",))
    hs += hist(J, [
        "A.hi A.pub %s A.ping %s" % (w, w),
        "A.hi A.track %s A.ping|A.reply %s" % (w, w),
    ], version=3, idle=idle, jitters=(0.0, 0.9375))
    hs += hist(J, ["A.hi A.pub:s1g1p3 wait:0-24 A.ping wait:0-12",
                   "A.hi A.pub:s1g1p3 A.bye B.hi B.pub:s1g1p3t9 wait:0-60 "
                   "O.hi O.ls"], version=2, idle=idle, jitters=(0.9375,))
    if deep:
        m = "A.ping|A.pub|A.unpub|A.reply|B.pub|B.hi:i1v2"
        hs += hist(J, ["B.hi:v2 A.hi A.track A.pub:s1 %s %s %s %s %s" %
                       (w, m, w, m, w),
                       "B.hi:v2 A.hi A.pub:s1 %s %s %s %s %s" %
                       (w, m.replace("A.reply|", ""), w,
                        m.replace("A.reply|", ""), w)],
                   version=3, idle=idle)
        hs += hist(J, ["A.hi A.track A.pub:s1g1t9p3 %s A.ping|A.reply %s "
                       "A.ping|A.reply %s" % (w, w, w)],
                   version=3, idle=idle, jitters="any")
    hs += hist(J, ["X.hi:v2|X.hi:v3|S.hi:v2|S.hi:v3 A.hi:v2 X.pub:s1g1p3|"
                   "S.hi:v2|X.hi:v2|- wait:0-40"], version=3, idle=(4, 30),
               limits="tc")
    hs += crowded(J, ["A.hi A.pub:s1 wait:0-20 A.ping|A.pub:s2 wait:0-20"],
                  deep, version=3, idle=(30, 40), ttl_max=60)
    hs += hist(J, ["A.hi A.busy A.ping|A.pub:s1|A.unpub:s600 wait:0-40",
                   "A.hi A.flap A.pub:s600g20|A.ping wait:0-40"],
               version=3, idle=(4, 30))
    return hs


@check("C14",
       bounds=HIST_BOUNDS % "6" + "; every transaction identity any value "
       "0..2^63-1 not open on that connection; up to 3 (thorough 4) "
       "requests of any commands under way at once",
       outside=HIST_OUT + "; more requests at once", assumes=HIST_ASSUME)
def c14(deep):
    J = ("C14",)
    hs = []
    for v in (2, 3):
        hs += hist(J, [
            "O.hi A.hi A.sub:i1 A.pub:s1|O.pub:s1 A.unsub:i1|A.sub:i1|A.ping "
            "A.ls|A.lsub|A.lcl|A.unpub:s1",
            "A.hi A.sub:i1 A.sub:i2f1 A.pub:s1 A.unsub A.pub:s1|A.unpub:s1",
            "A.hi A.hi:i1 A.unsub A.unpub A.sub:i1 A.bye A.hi A.unsub:i1 "
            "A.ping",
            "O.hi A.hi A.pub:s1 A.pub:s1 X.hi X.pub:s1 X.unpub:s1 X.ls:f1",
        ], version=v, ids="any")
    hs += hist(J, ["A.hi A.track A.query|A.reply|A.gossip|A.track|A.ping "
                   "A.query|A.ls A.ping",
                   "A.hi A.track wait:0-20 A.reply|A.ping|A.query wait:0-20 "
                   "A.reply|A.track|A.query O.hi O.lcl"],
               version=3, ids="any", idle=(10, 10))
    cmds = ["hello", "publish", "unpublish", "subscribe", "unsubscribe",
            "ping", "services", "subscriptions", "clients"]
    for v in (2, 3):
        for x in cmds + (["track"] if v == 3 else []):
            hs.append(H("grammar.pipeline", params=dict(
                judge=J, version=v, first=x, n=3 if deep else 2),
                reach=("reused",)))
        for x in ("ping", "subscribe"):
            hs.append(H("grammar.pipeline", name="early %s v%d" % (x, v),
                        params=dict(judge=J, version=v, first=x, n=2,
                                    shaken=False)))
        hs.append(H("grammar.pipeline", name="sub3 v%d" % v, params=dict(
            judge=J, version=v, first="subscribe", n=4 if deep else 3),
            reach=("notified", "cancelled", "reused")))
    hs += crowded(J, ["A.hi A.sub:i1f0 A.pub:s1|A.ls|A.lsub|A.lcl "
                      "A.ls|A.lsub|A.lcl|A.ping A.unsub:i1"], deep)
    hs += hist(J, ["O.hi A.hi A.busy A.sub:i610|A.ls A.pub:s600|A.ls "
                   "A.unsub|A.ls"])
    return hs


@check("C34",
       bounds="all histories given by the scripts in registry.py (up to 10 "
              "steps, 3 connections, one tracking transaction per "
              "connection); idle limit 10 s and 4..30 s; waiting times any "
              "multiple of 1/8 s up to 40 s, jitter at its middle",
       outside=HIST_OUT, assumes=HIST_ASSUME)
def c34(deep):
    J = ("C34",)
    w = "wait:0-14"
    m = "A.query|A.reply|A.gossip|A.track|A.ping"
    hs = hist(J, [
        "O.hi:v2 A.hi A.track A.query|A.reply|A.gossip|A.track "
        "A.query|A.ping|A.track O.lcl",
        "O.hi:v3 A.hi A.track wait:0-6 O.ping A.reply O.lcl",
        "A.hi O.hi:v3 A.track %s A.reply|A.query|A.ping|A.gossip "
        "wait:0-6 A.reply|A.query|A.track A.ping" % w,
        "A.hi A.track wait:5-5 A.reply O.hi:v3 O.lcl wait:5-5 A.reply O.lcl",
        "A.hi A.track wait:6-9 A.reply wait:6-9 A.ping|A.reply|A.query "
        "O.hi:v3 O.lcl",
        "A.hi A.track wait:6-9 A.reply A.bye A.hi O.hi:v3 O.lcl A.track "
        "A.reply|A.query O.lcl",
        "A.hi A.track B.hi B.track wait:5-8 A.reply|B.reply wait:0-4 "
        "B.reply|A.query O.hi:v3 O.lcl",
        "A.hi A.track A.bye|A.err B.hi B.track O.hi:v3 O.lcl",
        "A.hi:v2 A.track B.hi:v3 B.lcl",
        "A.hi:v2 B.hi A.ping B.track A.track B.query B.lcl",
        "A.hi A.ping A.pub:s1 A.track A.unpub:s1 A.query A.sub:i1 A.query "
        "A.track",
    ], version=3, idle=(10, 10))
    hs += hist(J, [
        "A.hi A.pub:s1 A.track wait:0-9 A.reply|A.ping|A.query wait:0-9 "
        "A.reply|A.query O.hi:v3 O.lcl",
    ], version=3, idle=(4, 30), reach=("latency",))
    hs += hist(J, [
        "A.hi A.track wait:0-20 A.reply|A.query O.hi:v3 O.lcl",
    ], version=3, idle=(8, 8), jitters="any", reach=("latency",))
    if deep:
        hs += hist(J, ["A.hi A.track %s %s %s %s %s %s O.hi:v3 O.lcl" %
                       (w, m, w, m, w, m)], version=3, idle=(10, 10))
        hs += hist(J, ["A.hi A.track %s %s %s %s %s" % (w, m, w, m, w)],
                   version=3, idle=(10, 10), jitters=(0.0, 0.9375))
        mm = m + "|" + m.replace("A.", "B.")
        hs += hist(J, ["A.hi B.hi A.track B.track %s %s %s %s O.hi:v3 O.lcl"
                       % (w, mm, w, mm)], version=3, idle=(10, 10))
    hs += crowded(J, ["A.hi A.track A.query A.query A.pub:s1|A.query O.hi "
                      "O.lcl"], deep, version=3)
    hs += hist(J, ["A.hi A.track A.busy A.query A.busy|A.flap A.query|A.track "
                   "O.hi O.lcl"], version=3)
    return hs


@check("C17",
       bounds="every interleaving of 3 (thorough 5) actions - requests, a "
              "listing, changes by itself or another client that are "
              "notified, the transport taking 1..4 more messages - with 0..4 "
              "messages taken at first; backlogs of 140 (thorough also 300) "
              "notifications or 300 requests and the transport then taking "
              "any number around the batch and backlog limits; leaving with "
              "a backlog; one listing of 300 and 700 (thorough 1500) services "
              "taken in two portions; the same with a tracking query "
              "unanswered; a backlog of 256 must stop reception",
       outside="longer interleavings; messages partly taken (the transport "
               "takes whole messages)", assumes=HIST_ASSUME)
def c17(deep):
    J = ("C17",)
    hs = []
    for v in (2, 3):
        hs.append(H("pressure.small", params=dict(
            judge=J, version=v, steps=4 if deep else 3,
            most=4 if deep else 3), reach=("granted", "drained")))
    if deep:
        hs.append(H("pressure.small", params=dict(
            judge=J, version=2, steps=5, most=2),
            reach=("granted", "drained")))
    v = 3
    for mode, n in (("requests", 300), ("events", 300)):
        for lo, hi in ((0, 300),) if deep else (
                (0, 2), (63, 65), (127, 129), (298, 300)):
            hs.append(H("pressure.swamp", params=dict(
                judge=J, version=v, n=n, mode=mode, low=lo, high=hi),
                reach=("held back", "drained", "others unaffected"),
                path_timeout=120))
    # with a tracking query of the server's unanswered
    hs.append(H("pressure.swamp", name="swamp[tracked]", params=dict(
        judge=J, version=3, n=300, mode="requests", low=0 if deep else 127,
        high=300 if deep else 129, tracked=True),
        reach=("held back", "drained", "others unaffected"),
        path_timeout=120))
    for n in (300, 700) + ((1500,) if deep else ()):
        hs.append(H("pressure.flood", params=dict(
            judge=J, version=v, n=n, low=0 if deep else n, high=n + 2),
            reach=("drained", "others unaffected"), path_timeout=300))
    for how in ("close", "error"):
        hs.append(H("pressure.leaves", params=dict(
            judge=J, version=v, n=3 if deep else 2, how=how),
                reach=("others unaffected",)))
    return hs


GONE = [
    "A.hi A.pub:s1p3 A.sub:i1 A.bye wait:4-4 B.hi B.pub:s1p3t9|A.hi|"
    "B.unpub:s1|-",
    "A.hi B.hi A.pub:s1g1p3 B.pub:s1g2p3|B.unpub:s1|A.unpub:s1 A.sub:i1 "
    "A.sub:i1|B.sub:i2|A.unsub:i1 A.pub:s2p3g1|A.bye|B.bye",
    "A.hi A.pub:s1g1p3 A.bye A.hi A.pub:s1g1p3|A.unpub:s1 A.bye A.hi|B.hi "
    "A.pub:s1|B.pub:s1|-",
    "A.hi X.hi B.come A.sub:i1 A.pub:s1p3 X.pub:s1p3|X.unpub:s1|X.unsub:i1 "
    "X.bye|- A.bye|-",
    "A.hi B.hi:i1 B.shake:v8|B.early|- wait:0-4 C.hi:v8 C.shake|-",
    "A.hi A.pub:s1p3 A.pub:s2p3 B.hi A.pub:s3p3 B.pub:s2p3 B.sub:i1f2 "
    "A.err",
    "X.hi S.hi X.pub:s1p3t9 S.pub:s2p3t9 X.bye|S.err Y.hi Y.pub:s1g3|T.hi|-",
]


@check("C29",
       bounds="the histories given by the scripts in registry.py (up to 9 "
              "operations, 4 connections), TTLs up to 40 s, all limits 2; "
              "then everybody leaves, all orphans expire, and a session "
              "using every resource to its limit must run as on a new "
              "server; four rounds of clients coming and going next to one "
              "that stays, with new identities or with the same ones",
       outside=HIST_OUT + "; growth over more than four rounds",
       assumes=HIST_ASSUME + "; a probe session that fails on a fresh "
       "server is not held against this property")
def c29(deep):
    J = ("C29",)
    hs = []
    n = 0
    for v in (2, 3):
        for s in GONE if deep or v == 2 else GONE[4:6]:
            hs.append(H("leftover.gone", name="gone[%s,v%d]" % (s, v),
                        params=dict(judge=J, script=s, version=v,
                                    ttl_max=40 if deep else 20),
                        reach=("all gone", "as new"), native_every=2))
    for s in ["A.hi A.pub:s1g1p3 A.track wait:0-20 A.reply|A.ping|- "
              "wait:0-20",
              "A.hi A.track A.gossip|A.query|A.reply B.hi:i1v2 wait:0-40"]:
        hs.append(H("leftover.gone", name="gone[%s]" % s, params=dict(
            judge=J, script=s, version=3, idle=(4, 10)),
            reach=("all gone", "as new"), native_every=2))
    for s in ["A.hi:i# A.pub:s# A.sub:i# A.unpub:s# A.unsub:i#|-",
              "A.hi:i# B.hi A.pub:s1g1p3 B.pub:s1g2p3|B.unpub:s1|- "
              "A.bye|B.bye|- A.sub:i#",
              "X.hi:i# A.hi:i9 B.come X.pub:s#p3g1|X.pub:s900|X.sub:i# wait:4-4 "
              "X.ls|X.lcl|X.lsub",
              "A.hi:i#v8 A.early A.shake|- wait:4-4",
              "A.hi:i#n# A.pub:s#|A.sub:i#|A.pub:s900 B.come:n#|- A.bye|-",
              "A.hi:i# A.track|- A.query|A.gossip|A.sub:i#f1 A.err|-",
              # the same client, back before its orphan has expired
              "A.hi wait:4-4 A.pub:s#g1t6|A.pub:s#g1t6p3 A.sub:i#|- "
              "A.bye|A.err|-",
              "A.hi wait:1-1 A.pub:s#g1t6 A.unpub:s#|A.pub:s#g2t6|- "
              "B.hi A.bye|- wait:1-1 B.pub:s#g3t6|-",
              "A.hi A.busy|A.flap|- A.sub:i#|A.pub:s#g1p3|-"]:
        for v in (2, 3):
            if v == 2 and "track" in s:
                continue
            hs.append(H("leftover.cycles", name="cycles[%s,v%d]" % (s, v),
                        params=dict(judge=J, script=s, version=v,
                                    rounds=4 if deep else 3),
                        reach=("no growth",), native_every=2))
    return hs


@check("C30",
       bounds="two domains with one or two sockets each, with different "
              "protocol version ranges, idle limits and resource limits; "
              "the histories given by the scripts in registry.py (up to 8 "
              "operations, up to 5 clients in all), TTLs up to 60 s; "
              "one or two domains with up to two TLS sockets each, any "
              "attributes given to each",
       outside=HIST_OUT + "; more than two domains",
       assumes=HIST_ASSUME + "; the same operations must be right on a "
       "server with that domain alone")
def c30(deep):
    J = ("C30",)
    hs = []
    both = [{}, {}]
    lims = {"clients": 1, "services": 1, "subscriptions": 1}
    tight = [{"total_limits": lims}, {}]
    slots = [{"total_limits": {"clients": 2}},
             {"total_limits": {"clients": 2}}]
    user = [{"user_limits": lims}, {"user_limits": lims}]
    socks = [{"socks": ("ux:x", "tcp:x")}, {"socks": ("ux:y", "tcp:y")}]
    vers = [{"versions": (2, 2)}, {"versions": (3, 3)}]
    idle = [{"idle": (4, 10)}, {"idle": (20, 20)}]
    m = "A.pub:s1g1p3|A.unpub:s1|A.bye|Q.pub:s1g1p3|Q.unpub:s1|Q.bye|A.sub:i1"
    for per, scripts in [
        (both, ["A.hi Q.hi:d1i1 A.pub:s1p3 Q.pub:s1p3 %s wait:0-70" % m,
                "A.hi Q.hi:d1i1 A.pub:s1g1p3 Q.pub:s1g1p3 A.bye "
                "Q.bye|Q.unpub:s1 B.hi B.pub:s1g2p3|B.unpub:s1|- wait:0-70",
                "A.hi Q.hi:d1i1 A.sub:i1 Q.sub:i1f1 A.pub:s1 A.unsub:i1|"
                "Q.unsub:i1|A.bye Q.pub:s1g1",
                "X.hi A.hi:d1 X.pub:s1p3 A.pub:s1p3|A.unpub:s1 X.bye "
                "A.hi:d1|Z.hi:i21d1 wait:0-9",
                "A.hi Q.hi:d1 A.pub:s1p3 Q.sub:i1 A.bye wait:0-70 Q.ls"]),
        (socks, ["A.hi:k0 B.hi:k1 C.hi:d1k1 O.hi:d1k0 A.pub:s1p3 B.sub:i1 "
                 "C.pub:s1g1p3|B.pub:s1g2p3|A.unpub:s1|A.bye O.ls"]),
        (tight, ["A.hi B.come Q.hi:d1i1 C.hi:d1 A.pub:s1p3 Q.pub:s1p3 "
                 "Q.pub:s2g1p3 A.pub:s2g1p3 A.bye|Q.bye wait:0-4"]),
        (slots, ["A.come B.come Q.hi:d1 C.come:d1 A.shake|A.bye|- "
                 "O.hi:d1|O.hi|- wait:0-4 X.hi Y.hi:d1"]),
        (user, ["A.hi Q.hi:d1i1 A.pub:s1p3 Q.pub:s1p3 A.pub:s2g1|A.sub:i1|"
                "Q.sub:i1 B.hi|C.hi:d1 Q.pub:s2g1|A.bye"]),
        (vers, ["A.hi:v2 B.hi:v3 C.hi:v2d1 O.hi:v3d1 A.lcl|O.lcl "
                "A.track|O.track O.query|-"]),
        (idle, ["A.hi Q.hi:d1i1 wait:0-30 A.ping|Q.ping|- wait:0-30",
                "A.hi Q.hi:d1i1 A.pub:s1g1p3 Q.track wait:0-30 "
                "A.ping|Q.reply|- wait:0-30"]),
    ]:
        for s in scripts:
            hs.append(H("domains.isolated", name="isolated[%s,%d]" %
                        (s, len(hs)), params=dict(judge=J, script=s,
                                                  per=per),
                        reach=("isolated",), native_every=2))
    for shape in ((1,), (2,), (1, 1), (2, 1)) + \
            (((1, 1, 1), (2, 2)) if deep else ()):
        hs.append(H("daemon.attributes", params=dict(shape=shape),
                    reach=("attributes",), native_every=4))
    if deep:
        for per in (both, user):
            hs.append(H("domains.isolated", name="isolated[%d]" % len(hs),
                        params=dict(judge=J, per=per, script=
                                    "A.hi Q.hi:d1i1 A.pub:s1p3 Q.pub:s1p3 "
                                    "%s %s wait:0-70 %s" % (m, m, m)),
                        reach=("isolated",), native_every=2))
    return hs


@check("C19",
       bounds="all histories given by the scripts in registry.py: up to 5 "
              "connections that fail hellos, send other requests or nothing, "
              "at any multiple of 1/8 s up to 5 s apart; client limit any "
              "value 0..3 or none; bursts of up to 4 arrivals on any of up "
              "to 2 sockets and of 15..18 and 33 arrivals with any limit up "
              "to that number; errors from accepting and finishing",
       outside=HIST_OUT, assumes=HIST_ASSUME)
def c19(deep):
    J = ("C19",)
    hs = []
    w = "wait:0-5"
    m = "A.early|A.shake:v8|A.shake:i9|A.shake|-"
    for v in (2, 3):
        hs += hist(J, [
            "O.hi A.come %s %s %s %s %s O.lcl" % (w, m, w, m, w),
            "O.hi A.come %s B.come %s A.shake|- %s C.come %s" % (w, w, w, w),
        ], version=v, reach=("evicted", "half-open"))
    hs += hist(J, [
        "O.hi:v3 A.come wait:0-2 A.shake %s O.lcl" % w,
        "O.hi A.come A.bye|A.err wait:0-5 B.come %s A.hi %s" % (w, w),
        "A.come A.shake A.pub A.bye A.come A.shake:v8 %s A.shake %s" %
        (w, w)])
    for lim in ("tc", "tc,uc"):
        hs += hist(J, [
            "A.come B.come C.come %s A.shake|B.shake %s A.bye|- O.come "
            "wait:3-5" % (w, w),
            "A.hi B.come C.hi X.hi B.shake:i1 %s A.bye|- %s" % (w, w),
            "A.come:k0 B.come:k1 C.come:k0 X.come:k1 %s A.bye|B.shake %s" %
            (w, w),
        ], limits=lim, socks=("ux:srv", "tcp:srv"),
            reach=("waiting for a slot", "admitted later"))
    for socks in (1, 2):
        for n, top in ((2, 3), (3, 3), (4, 2)) if deep else ((3, 3),):
            hs.append(H("halfopen.burst", params=dict(
                judge=J, n=n, socks=socks, top=top, deep=deep and n < 4),
                reach=("some wait",)))
        hs.append(H("halfopen.burst", params=dict(
            judge=J, n=2, socks=socks, top=2, errors=True)))
        for n in (15, 16, 17, 18, 33) if deep else (17,):
            hs.append(H("halfopen.burst", params=dict(
                judge=J, n=n, socks=socks, top=n, low=n - 3),
                reach=("some wait", "all admitted"), path_timeout=60))
            hs.append(H("halfopen.burst", params=dict(
                judge=J, n=n, socks=socks, top=None), path_timeout=60,
                reach=("all admitted",)))
    if deep:
        mm = m + "|B.come|A.bye"
        hs += hist(J, ["O.hi A.come %s %s %s %s %s %s %s O.lcl" %
                       (w, mm, w, mm, w, mm, w)])
        hs += hist(J, ["A.come B.come C.come X.come %s A.shake|B.shake %s "
                       "A.bye|B.bye|- %s O.come %s" % (w, w, w, w)],
                   limits="tc", socks=("ux:srv", "tcp:srv"))
        hs += hist(J, ["A.come B.come C.come X.come Y.come %s "
                       "A.shake|B.shake|C.shake %s A.bye|B.bye|C.bye %s "
                       "O.come %s" % (w, w, w, w)], limits="tc")
    return hs


# ---- units ------------------------------------------------------------

@check("C23",
       bounds="all histories given by the scripts in registry.py: up to 5 "
              "(thorough 6) timers at any multiple of 1/8 s within a few "
              "seconds, absolute or relative, past or future, ties included; "
              "any of them cancelled; processed at any instants; handlers "
              "that add a timer (also one already due) or cancel another; "
              "one or two such operations on 9 and 16 (thorough 33) timers "
              "at fixed distances",
       outside="more timers; cancelling a timer that already fired; the "
               "clock changing while timers are processed",
       assumes="time.time() is the model's clock")
def c23(deep):
    a = "+|-|p"
    scripts = ["+ + + p", "+ + - p + - p", "+ + +a p p", "+ +a +c p p",
               "+c + + p p", "+c +c + p", "+ + p + p - p",
               "+ %s %s %s p" % (a, a, a)]
    plain = ["+ + + + + p", "+ + + + - p"]
    if deep:
        scripts += ["+ + + + p", "+ + + - + p", "+c +c +a + p p",
                    "+a +a + - p p", "+c +a + p - p"]
        plain += ["+ + + + + - p", "+ + + + + + p",
                  "+ %s %s %s %s p" % (a, a, a, a),
                  "+ + %s %s %s %s p" % (a, a, a, a)]
    return [H("timers.history", params={"script": s, "mixed": False},
              reach=("fired", "all done"), native_every=2)
            for s in plain] + \
           [H("timers.history", params={"script": s},
              reach=("fired", "all done"), native_every=2)
            for s in scripts] + \
           [H("timers.crowd", params={"script": s, "pattern": p, "n": n},
              reach=("all done",), native_every=2)
            for s in (["+ p", "+ - p", "- + p"] +
                      (["+ + p", "- p + p"] if deep else []))
            for p in ("up", "down", "mixed", "equal")
            for n in ((9, 16, 33) if deep else (9, 16))
            if deep or n == 9 or s == "+ p" or p == "mixed"]


@check("C24",
       bounds="up to 3 sources with any mix of descriptor, timeout (any "
              "multiple of 1/8 s in reach, past ones too) and activity, 3 "
              "(thorough 4) waits which report any subset of the "
              "descriptors in two orders at once, or a signal, or time out; "
              "handlers perform up to 2 (thorough 3) of: removing "
              "themselves or another source, changing the events waited "
              "for, closing a descriptor and "
              "re-using its number, adding a source, changing timeout, "
              "descriptor or activity (of a removed source, too), adding it "
              "again, stopping, raising a signal",
       outside="more sources, rounds or actions; a source that stays active "
               "or due for ever starves the others by design",
       assumes="epoll, pipes, descriptors, signals and clock are modelled")
def c24(deep):
    hs = []
    menus = ["-|leave|remove|reuse|replace|refd",
             "-|later|activate|calm|new|stay"]

    def add(kinds, menu, budget, rounds, signals=False):
        hs.append(H("loop.history", name="history[%s,%s,%d,%d]" %
                    (kinds, menu, budget, rounds),
                    params=dict(kinds=kinds, menu=menu, budget=budget,
                                rounds=rounds, signals=signals),
                    reach=("done",) + (("returned",) if signals else ()),
                    # the order of active sources is that of a set
                    native_every=0 if kinds == "a a" else 2))
    for k in ["f f", "t t", "ft ft", "a f", "a a", "fta f"]:
        for m in menus:
            add(k, m, 1, 1 if k == "ft ft" and m is menus[1] else 2)
    for k in ["f f", "t f", "a f", "ft t"]:
        add(k, "-|stop|signal|stay|later", 1, 2, True)
    add("f f f", menus[0], 1, 1)
    add("t t t", "-|leave|remove|calm", 1, 1)
    add("f f", "-|mask|refd", 2, 2)
    for k in ["f f", "f t", "f a"]:
        add(k, "remove|ghost|back", 2, 2)
    add("f ft", "remove|ghost|back", 3, 3 if deep else 2)
    if deep:
        for k in ["f f", "t t", "ft f", "a f", "fta f"]:
            for m in menus:
                add(k, m, 2, 2)
                add(k, m, 1, 3)
        add("f f f", menus[0], 2, 1)
        add("t t t", "-|leave|remove|calm|later", 2, 1)
        for k in ["ft ft", "a ft"]:
            add(k, "-|stop|signal|stay|later", 2, 3, True)
    return hs


@check("C25",
       bounds="every value (absent, null, booleans, any integer within "
              "+-2^66, fractions, infinities, strings of up to 5 arbitrary "
              "characters, bytes, dates, lists, dictionaries, every known "
              "enumeration value) for each one of the documented parameters, "
              "and for all pairs and triples that depend on each other "
              "(version bounds, idle bounds with their legacy alias, both "
              "names of the socket list, TLS parameters with the address, "
              "limits); thorough: any two log parameters; 34 malformed or "
              "odd documents and three unreadable files",
       outside="several independent mistakes at once; YAML syntax itself "
               "(PyYAML); whether null counts as left out, unknown keys as "
               "mistakes and negative log sizes as out of range is left "
               "open",
       assumes="symbolic documents reach the code as trees, native replays "
               "as YAML text in a scratch file")
def c25(deep):
    R = ("accepted", "rejected")
    hs = [H("config.top", reach=R), H("config.versions", reach=R),
          H("config.idle", params={"third": deep}, reach=R),
          H("config.parts", reach=R), H("config.texts", reach=R),
          H("config.log", params={"pair": False}, reach=R),
          H("config.sockets", params={"which": "lists"}, reach=R),
          H("config.sockets", params={"which": "one"}, reach=R),
          H("config.tls", params={"pair": deep}, reach=R),
          H("config.resources", params={"pair": deep}, reach=R)]
    if deep:
        hs.append(H("config.log", params={"pair": True}, reach=R))
    return hs


@check("C26",
       bounds="up to two (thorough three) options in any order (every pair "
              "of them with well-formed values) out of all "
              "documented ones, an unknown one and one lacking its value, "
              "with up to two domain arguments, with and without a "
              "configuration file that sets every parameter (or is "
              "rejected); numbers up to 2^40 and their negatives, option "
              "values of two (addresses three, names four) arbitrary "
              "characters, every level name; logging that cannot be set up",
       outside="the -r option (see C32); longer command lines; unusual "
               "spellings of integers may be accepted or refused; a "
               "negative number of backups or file size may be refused; "
               "what the logging library does with its parameters",
       assumes="the logging library is modelled; server creation is "
               "recorded instead of performed")
def c26(deep):
    R = ("started", "refused")
    hs = [H("daemon.command_line", params=dict(n=0, conf="bad"),
            reach=("refused",))]
    for conf in ("none", "file"):
        hs.append(H("daemon.command_line", params=dict(n=0, conf=conf),
                    reach=R))
        hs.append(H("daemon.command_line", params=dict(
            n=1, conf=conf, width=3 if deep else 2), reach=R))
    two = ["-b", "-x", "-c", "-s", "-n", "-m", "-v"]
    hs.append(H("daemon.command_line", params=dict(
        n=2, conf="file", menu=two, width=1), reach=R, native_every=5))
    hs.append(H("daemon.command_line", params=dict(
        n=2, conf="none", menu=["-o", "-u", "-l", "-y", "-m"], width=1),
        reach=R, native_every=3))
    for conf in ("none", "file2"):
        # every pair of options, with well-formed values
        hs.append(H("daemon.command_line", params=dict(
            n=2, conf=conf, width=1, plain=True), reach=R, native_every=3))
    if deep:
        hs.append(H("daemon.command_line", params=dict(
            n=2, conf="file", width=2), reach=R, native_every=3))
        hs.append(H("daemon.command_line", params=dict(
            n=3, conf="none", menu=["-c", "-s", "-m", "-b"], width=1),
            reach=R, native_every=3))
    return hs


@check("C39",
       bounds="the server started from its command line or a configuration "
              "file, with every combination of console, log file (name of "
              "two arbitrary characters), system log with default or own "
              "socket (two arbitrary characters), level or none given; the "
              "socket there or missing, the file accessible or not; then "
              "one (thorough two) messages of three arbitrary characters "
              "through each of the four functions and categories",
       outside="rotation and transmission are the logging library's; "
               "messages the server itself composes",
       assumes="the logging library is modelled (outputs, levels, its "
               "output of last resort); repetitions of paths run on the "
               "library itself with file and socket operations cut off")
def c39(deep):
    return [H("logs.routing", params=dict(source=s, calls=2 if deep else 1),
              reach=("refused", "dropped", "logged"), native_every=3)
            for s in ("options", "file")]


@check("C40",
       bounds="the histories given by the scripts in registry.py (up to 6 "
              "operations, 4 connections, versions 2 and 3, half-open "
              "connections, connections waiting for a slot, orphans with "
              "TTLs up to 40 s, a reader that takes 0 or 1 more messages), "
              "then 600 s (40 s with idle limits) in which nobody does "
              "anything: at most 3 wake-ups, plus two for each orphan and "
              "each connection with an idle limit",
       outside=HIST_OUT + "; processor time spent per wake-up",
       assumes=HIST_ASSUME + "; the transport reports a connection ready "
       "for what it was last told to wait for and only for that")
def c40(deep):
    J = ("C40",)
    hs = []
    for s in ["A.come|A.hi|A.hi:v8 wait:0-3 A.bye|-",
              "A.hi A.pub:s1g1p3 A.sub:i1f0|A.unpub:s1|- B.hi "
              "B.ls|B.lcl|B.ping",
              "A.hi A.sub:i1f1 B.hi B.pub:s1g1|B.pub:s1g1p3 B.bye|B.err|-",
              "A.hi A.pub:s1g1p3 A.bye|A.err wait:0-20 "
              "A.hi|B.hi|B.come B.pub:s1g2p3|A.pub:s1g1p3|-",
              "A.hi A.sub:i1 A.unsub:i1|A.bye|- B.come C.hi:i1|C.hi"]:
        for v in (2, 3):
            hs.append(H("idle.asleep", name="asleep[%s,v%d]" % (s, v),
                        params=dict(judge=J, script=s, version=v,
                                    ttl_max=80 if deep else 20),
                        reach=("slept",), native_every=2))
    for s in ["A.hi B.hi A.pub:s1g1p3|A.track|- B.ls|B.lcl|-",
              "A.hi A.pub:s1g1p3|A.sub:i1|A.track A.bye|- B.come|B.hi:v2"]:
        hs.append(H("idle.asleep", name="asleep-limited[%s]" % s, params=dict(
            judge=J, script=s, version=3, idle=(100, 100), ttl_max=100,
            period=36), reach=("woken for what was due",), native_every=2))
    for s in ["A.hi B.hi C.come Q.hi|Q.come wait:0-3 A.bye|A.ping|-"]:
        for v in (2, 3):
            hs.append(H("idle.asleep", name="asleep-full[%s,v%d]" % (s, v),
                        params=dict(judge=J, script=s, version=v,
                                    limits={"clients": 2, "services": None,
                                            "subscriptions": None}),
                        reach=("slept",), native_every=2))
    for s in ["A.hi A.pub:s1g1p3 A.sub:i1|-", "A.hi B.hi B.sub:i1 A.sub:i1"]:
        for v in (2, 3):
            hs.append(H("idle.asleep", name="asleep-slow[%s,v%d]" % (s, v),
                        params=dict(judge=J, script=s, version=v, slow="A"),
                        reach=("slow reader",), native_every=2))
    return hs


@check("C32",
       bounds="one to two domains with one to two sockets each; two "
              "(thorough three) clients, each absent, half-open, "
              "handshaked, with service, subscription and track transaction, "
              "or with undeliverable replies; an arrival, request, close or "
              "connection error at the same time as one of the three "
              "signals; a signal during start-up; failure to open any one of "
              "the sockets, failure of the event mechanism, of the start-up "
              "hook",
       outside="more clients and domains; failures while shutting down",
       assumes="signal delivery is modelled as the wake-up descriptor "
               "becoming readable")
def c32(deep):
    hs = []
    for shape in ((1,), (2,), (1, 1)) + (((2, 2),) if deep else ()):
        for v in (2, 3) if deep or shape == (1,) else (3,):
            hs.append(H("daemon.shutdown", params=dict(
                shape=shape, version=v), reach=("down",), native_every=2))
        hs.append(H("daemon.shutdown", params=dict(
            shape=shape, limit=1), reach=("down",), native_every=2))
        hs.append(H("daemon.early_signal", params=dict(shape=shape),
                    reach=("down",)))
        hs.append(H("daemon.broken_start", params=dict(shape=shape),
                    reach=("start failed",)))
        hs.append(H("daemon.broken_run", params=dict(shape=shape),
                    reach=("down",)))
        hs.append(H("daemon.broken_hook", params=dict(shape=shape),
                    reach=("down",)))
    if deep:
        hs.append(H("daemon.shutdown", params=dict(shape=(1, 1),
                                                   second=True),
                    reach=("down",), native_every=3))
    return hs


@check("C27",
       bounds="2 (thorough 3) arbitrary messages - any identity, command, "
              "message type and valid field values, or broken in one of "
              "seven ways - within one or two transactions of every command "
              "pair listed, before and after acceptance; 3 (thorough 4) "
              "messages at once; requests made from callbacks; any answer "
              "to the handshake",
       outside="more messages and transactions; field decoding proper "
               "(C15)")
def c27(deep):
    hs = []
    both = ("delivered", "refused")
    for v in (2, 3):
        for op in ("subscribe", "unsubscribe", "subscriptions", "services",
                   "publish", "unpublish", "ping", "clients") + \
                (("track",) if v == 3 else ()):
            multi = op in ("subscribe", "subscriptions", "services",
                           "clients", "track")
            if v == 2 and not deep and op not in ("subscribe", "clients",
                                                  "ping"):
                continue
            for adv in ((0, 1) if multi else (0,)):
                hs.append(H("clientlib.replies", params=dict(
                    version=v, cmds=(op,), n=3 if deep else 2, advance=adv),
                    reach=both + ("ended",)))
        for ops in (("subscribe", "services"), ("subscribe", "subscribe"),
                    ("ping", "subscribe")):
            if v == 2 and not deep:
                continue
            hs.append(H("clientlib.replies", params=dict(
                version=v, cmds=ops, n=2, advance=1),
                reach=both + ("ended",)))
        for op in ("subscribe", "clients"):
            hs.append(H("clientlib.pipelined", params=dict(
                version=v, cmd=op, n=4 if deep else 3), reach=both))
        for op in ("ping", "subscribe", "services"):
            for nxt in ("ping", "subscribe"):
                hs.append(H("clientlib.within", params=dict(
                    version=v, cmd=op, op=nxt), reach=both))
    for b in (True, False):
        hs.append(H("clientlib.hello_reply", params=dict(blocking=b),
                    reach=("established", "refused")))
    return hs


@check("C28",
       bounds="every operation with any integers, strings of up to two "
              "characters and four shapes of properties, asynchronous or "
              "synchronous, alone or twice, with up to two results, failing with or without "
              "a reason, while a subscription is notified or ends, or after "
              "another call; the "
              "connection lost before, while or after acceptance; 3 "
              "(thorough 4) requests with any pattern of blocking; 3 "
              "(thorough 5) steps of tracking; any version range 0..5 and "
              "refusals while connecting",
       outside="longer strings, more results, more requests at once")
def c28(deep):
    hs = []
    for v in (2, 3):
        for op in ("unsubscribe", "subscriptions", "services", "publish",
                   "unpublish", "ping", "clients", "hello"):
            for others in (False, True):
                if others and not deep and v == 2:
                    continue
                hs.append(H("clientlib.sync", params=dict(
                    version=v, op=op, others=others, window=not others),
                    reach=("granted", "failed") +
                    (("other delivered",) if others else ("blocked",))))
            hs.append(H("clientlib.lost", params=dict(version=v, op=op),
                        reach=("reported",)))
            for b in ("subscriptions", "services", "clients", "publish",
                      "ping", "hello"):
                if deep or b == op or (v == 3 and (
                        op in ("services", "clients") or b == "services")):
                    hs.append(H("clientlib.sync", params=dict(
                        version=v, op=op, before=b),
                        reach=("granted", "failed")))
        for op in ("subscribe", "unsubscribe", "subscriptions", "services",
                   "publish", "unpublish", "ping", "clients", "track"):
            if op != "track" or v == 3:
                hs.append(H("clientlib.asked", params=dict(
                    version=v, op=op), reach=("asked",)))
        hs.append(H("clientlib.queued", params=dict(
            version=v, n=4 if deep else 3, slots=2),
            reach=("held back", "drained")))
        hs.append(H("clientlib.fresh", params=dict(
            version=v, n=4 if deep else 3), reach=("ended",)))
    hs.append(H("clientlib.tracking", params=dict(n=5 if deep else 3),
                reach=("answered", "reply taken", "unsolicited")))
    hs.append(H("clientlib.connecting", reach=("refused", "connected")))
    return hs


@check("C31",
       bounds="plain files of up to 5 (thorough 6) arbitrary characters and "
              "skeletons of several lines with up to 5; JSON files of up to "
              "3 servers with any subset of optional members, any "
              "two-character strings and versions 0..9; both ways of "
              "choosing the directory; eleven names without a file",
       outside="longer texts, characters beyond 0x24f, carriage returns; "
               "files that are neither form, or unreadable; a file that "
               "lists no server is not connected to",
       assumes="symbolic JSON documents are parsed as trees behind up to "
               "two blanks, native replays as text")
def c31(deep):
    hs = []
    for n in range(0, 7 if deep else 6):
        hs.append(H("domfile.plain", params=dict(shape="?" * n),
                    reach=("empty",) if n == 0 else ("empty", "servers")))
    for s in ["ux:a", "ux:a?\n?ux:b?", "#?\n?\n ux:a#?\n",
              "\n\n\t#ux:a\n??ux:b\n\n", "ux:a\n??\nux:b?\n#",
              "ux:{?}\n{?"] + (["?ux:a??\n??#?b"] if deep else []):
        hs.append(H("domfile.plain", params=dict(shape=s),
                    reach=("servers",)))
    for n in (0, 1, 2, 3):
        for lead in ("", " \n") if n == 1 else ("\t", "\n") if n == 2 else \
                ("",):
            hs.append(H("domfile.json_file", params=dict(n=n, lead=lead),
                        reach=("servers",) if n else ("empty",)))
    hs.append(H("domfile.no_file", reach=("address",)))
    hs.append(H("domfile.elsewhere", reach=("address",)))
    hs.append(H("domfile.changing", reach=("address",)))
    hs.append(H("domfile.listing", reach=("listed",)))
    return hs


@check("C33",
       bounds="every call, any error number 1..133, any 64-bit integers, "
              "booleans and two-character strings as attribute values, names "
              "and addresses, up to 2 (thorough 3) attributes of which some "
              "cannot be passed, messages of 0, 1, 4 and 65535 bytes, "
              "attributes of every type; 2 (thorough 3) operations before "
              "or after closing",
       outside="other message contents; longer strings; whether closing "
               "itself fails; the error a target that is refused raises",
       assumes="the library is a model; ctypes is a model in symbolic runs "
               "and the real one in native replays")
def c33(deep):
    hs = []
    for fn in ("connect", "server", "accept"):
        for n in range(4 if deep else 3):
            hs.append(H("binding.opening", params=dict(fn=fn, n=n),
                        reach=("opened", "failed")))
    for op in ("finish", "set_blocking", "is_blocking", "set_target",
               "fileno", "set_attr", "get_attr", "send", "receive",
               "accept"):
        hs.append(H("binding.operation", params=dict(op=op),
                    reach=("done",)))
    for kind in ("conn", "server"):
        hs.append(H("binding.after_close", params=dict(
            kind=kind, n=3 if deep else 2), reach=("refused", "closed")))
    return hs


@check("C15",
       bounds="every version, command and message type; the transaction "
              "identity and the fields valid, and any one (thorough: any "
              "two) of them instead absent, null, a "
              "boolean, any integer within +-2^66, a fraction, a string, an "
              "array, an object, NaN, an infinity; property maps with up to "
              "two keys and elements of all those kinds; an unknown or "
              "misplaced field; header strings known, unknown (1 and 4 "
              "arbitrary characters) or of another kind; documents that are "
              "not objects, not JSON, not UTF-8 or nested 200000 deep; one "
              "valid message spelled in every way the JSON grammar offers "
              "(escapes, raw UTF-8, blanks, half surrogate pairs)",
       outside="more invalid fields at once; longer strings; the JSON grammar itself (Python's "
               "json module); a message type the command does not use may be "
               "accepted or rejected",
       assumes="symbolic documents reach the decoder as trees, native "
               "replays as JSON text")
def c15(deep):
    hs = []
    for v, cmd, t in CASES:
        hs.append(H("codec.decode", params=dict(version=v, cmd=cmd, mtype=t,
                                                free=2 if deep else 1),
                    reach=("accepted", "rejected")))
    hs.append(H("codec.decode", params=dict(version=None, cmd="hello",
                                            mtype="request"),
                reach=("accepted", "rejected")))
    for v in (None, 2, 3):
        hs.append(H("codec.header", params=dict(version=v),
                    reach=("accepted", "rejected")))
        hs.append(H("codec.toplevel", params=dict(version=v),
                    reach=("rejected",)))
    for v in (2, 3):
        hs.append(H("codec.spelling", params=dict(version=v),
                    reach=("accepted",)))
    return hs


@check("C16",
       bounds="every version, command and message type, every subset of the "
              "optional fields left out or given as nothing, integers "
              "0..2^63-1, numbers up to 2^40 in steps of 1/1024, strings of up "
              "to two arbitrary characters or with half a surrogate pair, five "
              "shapes of property sets",
       outside="longer strings, larger property sets, most characters "
               "beyond 0x24f; JSON text itself is Python's json module",
       assumes="symbolic documents are compared as trees, native replays "
               "use JSON text")
def c16(deep):
    return [H("codec.roundtrip", params=dict(version=v, cmd=cmd, mtype=t),
              reach=("survived",)) for v, cmd, t in CASES]


@check("C35",
       bounds="one line of input in each run, followed by a ping: publish "
              "with up to 6 arguments, unpublish, unsubscribe, services and "
              "subscribe, each with one or two arguments of up to 2 "
              "(thorough 3) arbitrary characters, quoted or not, or of "
              "16..19 digits with an arbitrary one; every command followed "
              "by any 3 (thorough 3 or 4) characters; every command against "
              "success and failure answers, protocol versions 2 and 3; "
              "listings of up to 2 records; 2 (thorough 3) notifications; 4 "
              "(thorough 5) track commands and queries in any order",
       outside="longer words, characters beyond 0x24f; more than one argument "
               "where a filter is expected; the layout of what is printed; "
               "whether odd spellings of numbers (+5, 007, 1_0, Unicode "
               "digits, 0x1f) are taken as numbers",
       assumes="the two threads take turns at the pipe and the semaphore "
               "only; Python's cmd, shlex and getopt run as they are")
def c35(deep):
    hs = []

    def pub(args, *reach):
        hs.append(H("pafc.publish", name="pafc.publish(%s)" % " ".join(args),
                    params=dict(args=args), reach=("alive",) + reach))
    both = ("published", "reported")
    pub([], "reported")
    pub(["w1"], "reported")
    pub(["w2", "=1"], *both)
    pub(["=1", "w2"], *both)
    pub(["w2", "=1", "=2"], *both)
    pub(["=7", "w1", "w1"], *both)
    pub(["=1", "=2", "=k", "w2"], "published")
    pub(["=1", "=2", "=k", "=|?|"], "published")
    pub(["=1", "=2", "=k", "=|??"], "published")
    pub(["=1", "=2", "=k", "=-??"], "published")
    pub(["=1", "=2", "=k", "=1?2"], "published")
    pub(["=1", "=2", "=k", "q2"], "published")
    pub(["=1", "=2", "=k", "q3"] if deep else ["=1", "=2", "=k", "'?1"],
        "published")
    pub(["=1", "=2", "=k", "'1?"], "published")
    pub(["=1", "=2", "=k", "w1", "=k", "w1"], "published")
    pub(["=1", "=2", "w1", "=a", "w1", "=7"], "published")
    pub(["=1", "=2", "w1", "=|7|", "w1", "=7"], "published")
    if deep:
        pub(["=1", "=2", "=k", "w3"], "published")
        pub(["=1", "=2", "w1", "w1", "w1", "w1"], "published")
        pub(["w2", "w1", "w1"], *both)
        pub(["=1", "=2", "q1", "q2"], "published")
    pub(["=1", "=2", "q0", "q0"], "published")
    pub(["=922337203685477580?", "=2"], *both)
    pub(["=2", "=-?"], "reported")
    pub(["=800000000000000?", "=2", "=1"], "reported")
    pub(["=7ffffffffffffff?", "=2", "=1"], *both)
    for cmd in ("unpublish", "unsubscribe"):
        for k in ("w1", "w2", "=7ffffffffffffff?", "=800000000000000?",
                  "=-?"):
            hs.append(H("pafc.one_id", params=dict(cmd=cmd, kind=k),
                        reach=("alive",)))
        for k in ("=6", "w1"):
            hs.append(H("pafc.one_id", params=dict(cmd=cmd, kind=k, more=1),
                        reach=("alive", "reported")))
    for cmd in ("services", "subscribe"):
        for a in ([], ["w2"], ["q2"], ["q0"]):
            hs.append(H("pafc.filtered", params=dict(cmd=cmd, args=a),
                        reach=("sent", "alive")))
    for pre in ("", "publish ", "publish 1 2 ", "publish 1 2 k ",
                "unpublish ", "services ", "subscribe ", "track ", "help ",
                "unsubscribe ", "ping ", "clients", "id", "version", "hello"):
        for v in (2, 3):
            hs.append(H("pafc.anything", params=dict(
                prefix=pre, n=4 if deep and v == 3 and pre in (
                    "", "track ", "services ", "unpublish ", "subscribe ",
                    "help ") else 3, version=v), reach=("survived", "alive")))
    from vh.pafc import SIMPLE
    for cmd in sorted(SIMPLE):
        for v in (2, 3):
            hs.append(H("pafc.answered", params=dict(cmd=cmd, version=v),
                        reach=("alive",)))
    for what in ("services", "subscriptions", "clients"):
        for v in (2, 3):
            hs.append(H("pafc.listed", params=dict(what=what, version=v),
                        reach=("listed", "alive")))
            hs.append(H("pafc.smallest", params=dict(what=what, version=v),
                        reach=("listed", "alive")))
    for v in (2, 3):
        hs.append(H("pafc.smallest", params=dict(what="match", version=v),
                    reach=("listed", "alive")))
        hs.append(H("pafc.notified", params=dict(n=3 if deep else 2, version=v),
                    reach=("printed", "alive")))
        hs.append(H("pafc.tracked", params=dict(n=5 if deep else 4, version=v),
                    reach=("alive", "refused")))
        hs.append(H("pafc.ended", params=dict(version=v),
                    reach=("quit", "eof", "closed", "reset", "garbage")))
    return hs


@check("C38",
       bounds="up to 2 (thorough 3) options in any order; option values of up "
              "to 2 (thorough 3) arbitrary characters; domains of 2 servers in "
              "either format, also with version bounds, or an address; 0 to 2 arguments",
       outside="longer values; malformed domain files; odd spellings of "
               "numbers (C35)",
       assumes="as C35 and C31")
def c38(deep):
    hs = []
    opts = ["-i", "-p", "-n"]
    combos = [[]] + [[o] for o in opts + ["-a", "-l", "-h", "-x", "--foo"]]
    combos += [[a, b] for a in opts for b in opts + ["-a", "-h"]]
    combos += [["-a", "-l"], ["-l", "-p"], ["-a", "-i"], ["-l", "-a"]]
    for o in combos:
        for domain in ("plain", "json", "missing"):
            for nargs in (0, 1, 2):
                if nargs != 1 and (domain != "plain" or len(o) > 1):
                    continue
                if len(o) > 1 and domain == "plain":
                    continue
                for width in ((1,) if len(o) > 1 else (0, 1, 2)):
                    if (width == 0 and nargs != 1) or \
                       (width != 1 and not set(o) & set(opts)):
                        continue
                    r = ()
                    if nargs == 1 and width == 1 and domain == "json" and \
                       set(o) <= set(opts):
                        r = ("connected", "prompt") + (
                            ("refused",) if o else ())
                    elif o == ["-a"] and nargs == 1 or \
                            o == ["-l"] and nargs == 0:
                        r = ("listed",)
                    hs.append(H("pafc.started", params=dict(
                        options=o, width=width, domain=domain,
                        nargs=nargs), reach=r))
    if deep:
        for o in opts:
            hs.append(H("pafc.started", params=dict(
                options=[o], width=3, domain="json", nargs=1)))
        for o in ([a, b, d] for a in opts for b in opts for d in opts):
            hs.append(H("pafc.started", params=dict(
                options=o, width=1, domain="json", nargs=1)))
    hs.append(H("pafc.nowhere", reach=("listed",)))
    return hs


NOT_APPLICABLE = {
    "C36": "throughput, latency and memory with tens of thousands of clients "
           "are measurements of whole-program runs; bounded symbolic "
           "execution cannot reach those sizes",
    "C37": "certificate validation, confidentiality and authenticity are "
           "provided by libxcm and OpenSSL, native code that is not part of "
           "this repository and not installed here",
}
