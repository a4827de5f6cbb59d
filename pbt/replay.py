"""replay.py FILE : run one saved case through its oracle, without hypothesis' search."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import bootstrap  # noqa: E402

bootstrap.reexec([os.path.abspath(__file__)] + sys.argv[1:])

import importlib  # noqa: E402
import json  # noqa: E402

bootstrap.setup_path()
from pbt import core  # noqa: E402

d = json.load(open(sys.argv[1]))
mod = importlib.import_module("pbt.checks." + d["property"].lower())
clause = next(c for c in mod.CLAUSES if c.name == d["clause"])
try:
    info = core.execute(clause, d["case"])
except core.Violation as v:
    print("%s/%s: %s" % (d["property"], d["clause"], v))
    print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(sys.argv[1])))
    sys.exit(1)
except core.Skip as s:
    print("case outside the domain: %s" % s)
    sys.exit(0)
print("holds on this case", info)
