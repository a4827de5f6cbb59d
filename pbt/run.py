"""run.py <PROPERTY> [--tier quick|thorough] [--clause NAME] : decide one property."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import bootstrap  # noqa: E402

bootstrap.reexec([os.path.abspath(__file__)] + sys.argv[1:])

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402


def load_known(prop):
    out = []
    path = os.path.join(bootstrap.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                out.append(line[len("open: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--clause", default=None)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--factor", type=float, default=None, help="multiply example counts")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    bootstrap.setup_path()
    from pbt import core

    mod = importlib.import_module("pbt.checks." + prop.lower())
    if hasattr(mod, "preload"):
        with core.quiet():
            mod.preload()
    clauses = [c for c in mod.CLAUSES if a.clause in (None, c.name)]
    jobs = a.jobs or max(2, min(8, os.cpu_count() or 2))
    budget = 60.0 if tier == "quick" else 900.0
    work = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    tasks = []
    fac = a.factor or 1.0
    for c in clauses:
        total = max(4, int((c.quick if tier == "quick" else c.thorough) * fac))
        # a shard is one hypothesis run; several shards spread over the cores
        shards = max(1, min(jobs if tier == "quick" else 2 * jobs, total // 40))
        per = -(-total // shards)
        for s in range(shards):
            sd = core.derive_seed("v1", prop, c.name, tier, seed, s)
            tasks.append((
                "%s#%d" % (c.name, s),
                (lambda c=c, sd=sd, per=per, s=s: core.run_shard(prop, c, sd, per, budget, work, s)),
                budget, s,
            ))
    tasks.sort(key=lambda t: t[3])
    reports = core.run_tasks([t[:3] for t in tasks], jobs, grace=150.0)

    failures, errors, killed = [], [], []
    per_clause = {}
    for r in reports:
        if r.get("failure"):
            failures.append(r)
        if r.get("error"):
            errors.append((r.get("task"), r["error"]))
        if r.get("killed"):
            killed.append(r["task"])
        if "clause" in r:
            d = per_clause.setdefault(r["clause"], {"evaluations": 0, "skipped": 0, "nt": set(), "samples": [], "tags": {}})
            d["evaluations"] += r["evaluations"]
            d["skipped"] += r["skipped"]
            d["nt"].update(r["nontrivial"])
            d["samples"] += r["samples"]
            for k, v in r["tags"].items():
                d["tags"][k] = d["tags"].get(k, 0) + v

    # a worker killed while it already had a failing candidate on disk
    for t in killed:
        cname, s = t.rsplit("#", 1)
        p = os.path.join(work, "%s.%s.%s.json" % (prop, cname, s))
        if os.path.exists(p) and not any(f.get("clause") == cname for f in failures):
            try:
                d = json.load(open(p))
                failures.append({"clause": cname, "failure": {"case": d["case"], "message": d["message"]}})
            except ValueError:
                pass

    violation = None
    for f in failures:
        rdir = os.path.join(bootstrap.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s_%s.json" % (prop, f["clause"]))
        with open(rp, "w") as fh:
            json.dump({"property": prop, "clause": f["clause"], "case": f["failure"]["case"],
                       "message": f["failure"]["message"], "seed": seed, "tier": tier}, fh, indent=1)
        if violation is None:
            violation = rp
        print("%s/%s: %s" % (prop, f["clause"], f["failure"]["message"]))
        print("  case: %s" % json.dumps(f["failure"]["case"])[:600])

    rules = [("%s: %s" % (c.name, c.rule)) for c in clauses]
    samples = []
    for name in sorted(per_clause):
        samples += per_clause[name]["samples"][:2]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per_clause.values()),
            "distinct_nontrivial": sum(len(d["nt"]) for d in per_clause.values()),
            "rule": "Cases are drawn by hypothesis strategies (seeded from VERIF_SEED, clause, shard). "
                    "Non-trivial per clause -- " + " | ".join(rules),
            "samples": samples,
            "per_clause": {k: {"evaluations": d["evaluations"], "outside_domain": d["skipped"],
                               "distinct_nontrivial": len(d["nt"]), "classes": d["tags"]}
                           for k, d in sorted(per_clause.items())},
            "inconclusive": killed,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    edir = os.path.join(bootstrap.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    shutil.rmtree(work, ignore_errors=True)

    for k in load_known(prop):
        print("KNOWN-FINDING: " + k)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if errors:
        for t, e in errors[:3]:
            print("HARNESS ERROR in %s:\n%s" % (t, e), file=sys.stderr)
        return 2
    print("%s held: %d cases (%d distinct non-trivial) over %d clauses, %.1f s%s" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        len(per_clause), ev["wall_s"], "; inconclusive: %s" % killed if killed else ""))
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
