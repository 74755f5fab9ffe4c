#!/usr/bin/env python3-vt
"""Compares symbolic and native execution of the functions in idioms.py, which
use Python in every way the code under test (or a rewritten version of it)
might: each path's result under a model of its condition must be what the
function returns when run natively with those inputs."""
import ast
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.dont_write_bytecode = True

from psx import explore as ex       # noqa: E402

tree = ast.parse(open(os.path.join(HERE, "idioms.py")).read())
fns = [n.name for n in tree.body
       if isinstance(n, ast.FunctionDef) and n.name.startswith("f_")]
if len(sys.argv) > 1:
    fns = [f for f in fns if f in sys.argv[1:]]
res = ex.explore([ex.Harness("idioms.run", name=f, params=dict(fn=f))
                  for f in fns], 300, jobs=4, seed=1, known=[])
st = res.stats
print("%d idioms, %d paths completed, %d native runs agree, %d not followed" %
      (len(fns), st.completed, st.native_match, st.dropped + st.incomplete))
for x in res.dropped + res.errors:
    print(x)
for x in res.candidates:
    print("FAILED", x["name"], x.get("native_label"))
sys.exit(1 if st.dropped + st.incomplete or res.candidates or res.errors
         else 0)
