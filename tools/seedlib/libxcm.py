"""A stand-in for the transport library that the binding loads."""
import ctypes
import os
import sys

sys.path.insert(0, os.getcwd())

calls = []
results = {}


class Fun:
    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        calls.append((self.name,) + args)
        r = results.get(self.name, 0)
        return r(*args) if callable(r) else r


class Lib:
    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        fun = Fun(name)
        setattr(self, name, fun)
        return fun


ctypes.CDLL = Lib
import paf.xcm as binding       # noqa: E402


def expect(what, got, wanted):
    if got != wanted:
        print("FAILED: %s: got %r, expected %r" % (what, got, wanted))
        sys.exit(1)
    print("ok: %s" % what)
