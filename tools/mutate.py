"""mutate.py [--files a,b] [--count N] [--seed S] [--par K] : mutation campaign.

Random small syntactic changes to the package in scratch copies under /tmp (never
in /repo); each is run against the checks that anchor on the changed file, until
one notices. Survivors are listed for reading: equivalent change, or a gap."""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.path.exists(os.path.join(V, "pbt")):
    V = "/verif"
PY = "/opt/venv/bin/python"
MAP = {
    "preprocessing/_preproc_utilities.py": "C01 C02 C03 C04 C08 C25",
    "preprocessing/robcent.py": "C03 C04 C01 C25 C24 C23",
    "preprocessing/gsspp.py": "C05 C25 C24 C23",
    "preprocessing/_gsspp_utils.py": "C05 C08",
    "dicomo/dicomo.py": "C06 C07 C25 C23",
    "dicomo/_dicomo_utils.py": "C06 C07",
    "sprm/rm.py": "C10 C16 C15 C09 C25 C24 C23",
    "sprm/_m_support_functions.py": "C09 C14 C13",
    "sprm/sprm.py": "C13 C14 C16 C09 C15 C26 C25 C24 C23 C12",
    "sprm/snipls.py": "C11 C12 C16 C25 C24 C23",
    "cross_validation/_cv_support_functions.py": "C26 C09",
    "ppdire/ppdire.py": "C17 C18 C25 C24 C23",
    "ppdire/_ppdire_utils.py": "C18 C17",
    "ppdire/capi.py": "C19 C25 C23",
    "sudire/sudire.py": "C21 C20 C22 C25 C24 C23",
    "sudire/_sudire_utils.py": "C20 C22 C21 C25",
    "ipopt_temp/ipopt_wrapper.py": "C22 C23",
    "ipopt_temp/jacobian.py": "C22",
    "plot/sprm_plot.py": "C27 C25",
    "plot/ppdire_plot.py": "C27 C25",
    "plot/sudire_plot.py": "C27 C25",
    "utils/utils.py": "C22 C11 C03 C24 C25 C12",
}


class Site(ast.NodeVisitor):
    def __init__(self):
        self.sites = []
        self.stack = []

    def add(self, node, kind, **k):
        self.sites.append((id(node), kind, getattr(node, "lineno", 0), k, ".".join(self.stack)))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for d in n.args.defaults:
            self.visit(d)
        for b in body:
            self.visit(b)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                self.visit(b)
        self.stack.pop()

    def visit_Raise(self, n):
        self.add(n, "del")

    def visit_Call(self, n):
        f = ast.unparse(n.func)
        if f == "print" or "warn" in f:
            return
        if f in ("np.sqrt", "np.abs", "abs", "np.sign", "np.array", "inv", "np.linalg.inv") and n.args and f != "np.array":
            self.add(n, "unwrap")
        for i, k in enumerate(n.keywords):
            if k.arg:
                self.add(n, "kwdel", i=i)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "bin")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.In, ast.NotIn):
            self.add(n, "cmp")
            self.add(n, "cmp2")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "un")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool) or isinstance(n.value, (int, float)):
            self.add(n, "const")
            if not isinstance(n.value, bool):
                self.add(n, "const2")

    def visit_If(self, n):
        if "verbose" in ast.unparse(n.test):
            return
        self.add(n, "iftrue")
        self.add(n, "iffalse")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, "del")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "del")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and ast.unparse(n.value.func) not in ("print",) and "warn" not in ast.unparse(n.value.func):
            self.add(n, "del")
            self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.add(n, "slice")
        self.generic_visit(n)


class Apply(ast.NodeTransformer):
    def __init__(self, target, kind, k, rng):
        self.t, self.kind, self.k, self.rng = target, kind, k, rng
        self.done = False

    def visit(self, n):
        if id(n) != self.t:
            return self.generic_visit(n)
        self.done = True
        kind = self.kind
        if kind == "del":
            return ast.copy_location(ast.Pass(), n)
        if kind == "unwrap":
            return n.args[0]
        if kind == "kwdel":
            n.keywords.pop(self.k["i"])
            return n
        if kind == "bin":
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
            n.op = m[type(n.op)]()
            return n
        if kind == "cmp":
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
            n.ops = [m[type(n.ops[0])]()]
            return n
        if kind == "cmp2":
            m = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.GtE, ast.NotEq: ast.Lt, ast.In: ast.NotIn, ast.NotIn: ast.In}
            n.ops = [m[type(n.ops[0])]()]
            return n
        if kind == "bool":
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        if kind == "un":
            return n.operand
        if kind == "const":
            v = n.value
            return ast.copy_location(ast.Constant(value=(not v) if isinstance(v, bool) else (v + 1 if isinstance(v, int) else v * 1.3 + (0.1 if v == 0 else 0))), n)
        if kind == "const2":
            v = n.value
            return ast.copy_location(ast.Constant(value=(v - 1 if isinstance(v, int) else v * 0.5)), n)
        if kind == "iftrue":
            n.test = ast.Constant(value=True)
            return n
        if kind == "iffalse":
            n.test = ast.Constant(value=False)
            return n
        if kind == "slice":
            s = n.slice
            if s.upper is not None:
                s.upper = ast.BinOp(left=s.upper, op=ast.Sub(), right=ast.Constant(value=1))
            elif s.lower is not None:
                s.lower = ast.BinOp(left=s.lower, op=ast.Add(), right=ast.Constant(value=1))
            else:
                s.lower = ast.Constant(value=1)
            return n
        raise AssertionError(kind)


SKIPFN = ("get_params", "set_params", "_get_param_names")


def sites(f):
    src = open("/repo/src/direpack/" + f).read()
    tree = ast.parse(src)
    v = Site()
    v.visit(tree)
    return [i for i, s in enumerate(v.sites) if not any(x in s[4] for x in SKIPFN)]


def build(f, i):
    src = open("/repo/src/direpack/" + f).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    v = Site()
    v.visit(tree)
    t, kind, line, k, fn = v.sites[i]
    new = Apply(t, kind, k, None)
    tree = ast.fix_missing_locations(new.visit(tree))
    out = ast.unparse(tree)
    a, b = base.splitlines(), out.splitlines()
    import difflib
    d = [l for l in difflib.unified_diff(a, b, n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    return out, "%s:%d %s [%s] %s" % (f, line, fn, kind, " | ".join(x.strip() for x in d)[:260])


def run_one(job):
    f, i, factor, jobs = job
    out, desc = build(f, i)
    d = tempfile.mkdtemp(prefix="mutw-")
    try:
        subprocess.check_call("git -C /repo archive HEAD src | tar -x -C " + d, shell=True)
        open(os.path.join(d, "src/direpack", f), "w").write(out)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([PY, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); import direpack" % (d + "/src")], capture_output=True, text=True)
        if r.returncode:
            return "invalid", desc, ""
        for prop in MAP[f].split():
            try:
                r = subprocess.run([PY, os.path.join(V, "pbt/run.py"), prop, "--tier", "quick", "--jobs", str(jobs), "--factor", str(factor)], cwd=V, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return "timeout", desc, prop
            if r.returncode == 1:
                m = [l for l in r.stdout.splitlines() if l.startswith(prop + "/")]
                return "killed", desc, (m[0] if m else prop)[:120]
            if r.returncode != 0:
                return "error", desc, prop + " rc=%d " % r.returncode + (r.stdout + r.stderr)[-300:]
        return "SURVIVED", desc, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default=None)
    ap.add_argument("--count", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--factor", type=float, default=1.0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    files = [f for f in MAP if a.files is None or any(x in f for x in a.files.split(","))]
    pool = [(f, i, a.factor, a.jobs) for f in files for i in sites(f)]
    if a.list:
        import collections
        print(collections.Counter(p[0] for p in pool), len(pool))
        raise SystemExit
    random.Random(a.seed).shuffle(pool)
    pool = pool[:a.count]
    tot = {}
    with cf.ThreadPoolExecutor(a.par) as ex:
        for st, desc, info in ex.map(run_one, pool):
            tot[st] = tot.get(st, 0) + 1
            print(st, desc, "<<", info, flush=True)
    print(tot)
