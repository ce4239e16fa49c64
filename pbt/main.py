import argparse
import json
import multiprocessing
import os
import re
import sys
import time

from pbt import core


def load_known(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k for k in data.get("findings", []) if k["property"] == prop}


QUICK = 3  # multiplier of the quick tier


def write_evidence(prop, tier, seed, mod, coverage, wall, violations):
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [], "wall_s": round(wall, 3),
        "violations": violations,
    }
    d = os.path.join(core.OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def write_replay(prop, failure):
    d = os.path.join(core.OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{failure['sub'].replace(' ', '-')}.json")
    with open(path, "w") as f:
        json.dump(dict(failure, property=prop), f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    mod, err = core.import_subject(f"pbt.checks.{prop.lower()}", prop)
    if err:
        print(err)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    core.install_guard()
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    known = load_known(prop)
    if rec.get("kind") == "campaign":
        stop = multiprocessing.Event()
        core._init_worker(stop)
        r = core.run_shard((prop, mod.__name__, rec["sub"], rec["shard"], 1, rec["count"], rec["seed"], None, None))
        if r["error"]:
            print(r["error"])
            return 2
        if r["failure"]:
            print(r["failure"]["message"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("property held on the replayed campaign")
        return 0
    try:
        core.evaluate(sub, rec["case"])
    except core.KnownFinding as k:
        if k.key in known:
            print(f"KNOWN-FINDING: property={prop} {known[k.key]['what']}")
            return 0
        print(f"{k.key}: {k.detail}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except core.Violation as v:
        print(f"{rec['sub']}: {v}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("property held on the replayed case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--sub", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-j", type=int, default=None)
    a = ap.parse_args()
    prop = a.prop.upper()
    if prop == "SELFTEST":
        import hypothesis, numpy, scipy  # noqa: the tools the checks need
        from pbt import selftest
        selftest.run()
        print("oracles agree with published values and with each other")
        print("python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "scipy", scipy.__version__)
        return 0
    if not re.fullmatch(r"C\d\d", prop):
        print("unknown property", prop)
        return 2
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.monotonic()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = int.from_bytes(os.environ["VERIF_SEED"].encode()[-6:], "big")
    modname = f"pbt.checks.{prop.lower()}"
    mod, err = core.import_subject(modname, prop)
    if err:
        path = write_replay(prop, {"sub": "import", "kind": "import", "message": err, "case": {}})
        write_evidence(prop, tier, seed, None, {
            "evaluations": 0, "distinct_nontrivial": 0, "rule": "the package could not be imported", "samples": []},
            time.monotonic() - t0, 1)
        print(err)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    known = load_known(prop)
    nproc = a.j or min(8, os.cpu_count() or 1)
    budget = 600 if tier == "quick" else 840
    deadline = time.monotonic() + budget
    jobs = []
    for s in mod.SUBS:
        if a.sub and s.name != a.sub:
            continue
        total = int((QUICK * s.quick if tier == "quick" else s.thorough) * a.scale) if s.quick > 1 else 1
        total = total or 1
        n = s.shards or (nproc if total >= 64 else max(1, min(nproc, total // 4)))
        if tier == "thorough":
            n = max(n, min(4 * nproc, total // 500))
        for k in range(n):
            jobs.append((prop, modname, s.name, k, n, max(1, total // n), seed, deadline, None))
    # long shards first
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    results = []
    with ctx.Pool(nproc, initializer=core._init_worker, initargs=(stop,)) as pool:
        for r in pool.imap_unordered(core.run_shard, jobs, chunksize=1):
            results.append(r)
    results.sort(key=lambda r: (r["sub"], r["shard"]))

    errors = [r for r in results if r["error"]]
    failures = []
    nontriv = 0
    evals = 0
    per, labels, samples, known_seen = {}, {}, [], {}
    byset = {}
    for r in results:
        evals += r["evaluations"]
        p = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
        p["evaluations"] += r["evaluations"]
        byset.setdefault(r["sub"], set()).update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[f"{r['sub']}:{k}"] = labels.get(f"{r['sub']}:{k}", 0) + v
        if r["shard"] == 0:
            samples += r["samples"][:2]
        for k, (n, detail, text) in r["known"].items():
            e = known_seen.setdefault(k, [0, detail, text, r["sub"]])
            e[0] += n
        if r["failure"]:
            failures.append(dict(r["failure"], sub=r["sub"]))
    for s, hs in byset.items():
        per[s]["distinct_nontrivial"] = len(hs)
        nontriv += len(hs)
    for k, (n, detail, text, sub) in list(known_seen.items()):
        if k not in known:
            failures.append({"sub": sub, "kind": "case", "case": json.loads(text), "message": f"{k}: {detail}",
                             "seed": seed})
    failures.sort(key=lambda f: (not f.get("shrunk"), f["kind"] != "case", len(json.dumps(f["case"]))))
    wall = time.monotonic() - t0
    coverage = {
        "evaluations": evals, "distinct_nontrivial": nontriv, "rule": mod.RULE, "samples": samples[:8],
        "per_subcheck": per, "labels": dict(sorted(labels.items())),
        "known_findings_seen": {k: v[0] for k, v in known_seen.items() if k in known},
        "cut_short": sum(1 for r in results if r["cut"]) if not failures else 0,
    }
    write_evidence(prop, tier, seed, mod, coverage, wall, len(failures))
    for k in sorted(known_seen):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if failures:
        f = failures[0]
        path = write_replay(prop, f)
        print(f"{prop} {f['sub']}: {f['message']}")
        print("case:", json.dumps(f["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"harness error in {prop}/{r['sub']}:\n{r['error']}", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evals} cases ({nontriv} distinct non-trivial), tier {tier}, seed {seed}, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
