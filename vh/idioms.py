"""Self-test of the engine (tools/selftest/run.py)."""
import psx.env as penv
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(penv.__file__)), "tools",
                    "selftest", "idioms.py")


def run(c, fn):
    env = penv.Env(c)
    m = c.load_cut(env.stubs())
    m.roots["idioms"] = PATH
    t = m.load("idioms")
    i, j = c.int("i", -2, 6), c.int("j", 0, 6)
    s = c.string("s", c.choice("length", [0, 1, 2]), "ab3 ")
    u = c.string("t", 1, "ab")
    c.observe("result", getattr(t, fn)(i, j, s, u))
