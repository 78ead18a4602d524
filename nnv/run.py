"""Runs one check: spreads its lane shards over worker processes, writes evidence,
prints VIOLATION / KNOWN-FINDING lines.  Exit 0 / 1; 2 for errors of the harness."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nnv import common, registry  # noqa: E402

ENV = dict(
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    MPLBACKEND="agg",
    PYVISTA_OFF_SCREEN="true",
    JAX_PLATFORMS="cpu",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    PYTHONWARNINGS="ignore",
    TF_CPP_MIN_LOG_LEVEL="3",
)
NPROC = 8
COST = {"numpy": 1.0, "scipy": 1.0, "autograd": 1.2, "torch": 1.5, "jax": 15.0}


def backend_env(backend):
    env = dict(os.environ)
    env.update(ENV)
    env.pop("NANNOS_BACKEND", None)
    env.pop("NANNOS_GPU", None)
    if backend:
        env["NANNOS_BACKEND"] = backend
    return env


def plan(mod, check, tier, seed):
    """[(backend, [(lane, shard, n, seed)])] - one entry per worker process."""
    tasks = []
    for lane in mod.lanes():
        for b, shard, n in lane.tasks(tier):
            s = common.derive_seed(seed, check, lane.name, b, shard)
            tasks.append((b, lane.name, shard, n, s, n * COST.get(b, 1.0) * getattr(lane, "cost", 1.0)))
    procs = []
    total = sum(t[5] for t in tasks) or 1.0
    byb = {b: [t for t in tasks if t[0] == b] for b in sorted({t[0] for t in tasks})}
    share = {b: NPROC * sum(t[5] for t in tb) / total for b, tb in byb.items()}
    count = {b: max(1, min(len(byb[b]), int(share[b]))) for b in byb}
    while sum(count.values()) < NPROC:  # hand out what is left to the most loaded backend
        grow = [b for b in byb if count[b] < len(byb[b])]
        if not grow:
            break
        count[max(grow, key=lambda b: share[b] / count[b])] += 1
    for b, tb in byb.items():
        bins = [[0.0, []] for _ in range(count[b])]
        for t in sorted(tb, key=lambda t: -t[5]):
            bb = min(bins, key=lambda x: x[0])
            bb[0] += t[5]
            bb[1].append(list(t[1:5]))
        procs += [(b, w, c) for c, w in bins]
    return sorted(procs, key=lambda p: -p[2])


def run_workers(check, procs, work, limit):
    running, results, todo = [], [], list(enumerate(procs))
    stop = False
    t0 = time.time()
    while todo or running:
        while todo and len(running) < NPROC and not stop:
            i, (b, tasks, _) = todo.pop(0)
            spec, out = f"{work}/{i}.json", f"{work}/{i}.out"
            json.dump(dict(check=check, backend=b, tasks=tasks), open(spec, "w"))
            log = open(f"{work}/{i}.log", "w")
            p = subprocess.Popen(
                [sys.executable, "-W", "ignore", "-m", "nnv.worker", spec, out],
                env=backend_env(b), cwd=common.VERIF, stdout=log, stderr=log,
            )
            running.append((p, out, f"{work}/{i}.log", b))
        if stop:
            todo = []
        time.sleep(0.05)
        for r in list(running):
            p, out, log, b = r
            if p.poll() is None:
                continue
            running.remove(r)
            if os.path.exists(out):
                res = json.load(open(out))
                results += res
                if any(x.get("failure") for x in res):
                    stop = True
            else:
                tail = open(log).read()[-3000:]
                results.append(dict(lane="?", backend=b, failure=None,
                                    error=f"worker ended with {p.returncode}\n{tail}"))
        if stop:
            for p, *_ in running:
                p.kill()
                p.wait()
            running = []
        if time.time() - t0 > limit:
            for p, *_ in running:
                p.kill()
                p.wait()
            results.append(dict(lane="?", backend=None, failure=None, error="time limit of the harness"))
            break
    return results


def known_findings(check):
    out = []
    p = os.path.join(common.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={check} "):
                out.append(line.split(" ", 2)[2])
    return out


def replay(path):
    d = json.load(open(path))
    if d["lane"] == "import":
        code = "from nnv import common; nn=common.import_nannos(); print(nn.get_backend())"
        return subprocess.call([sys.executable, "-c", code], env=backend_env(d["backend"]), cwd=common.VERIF)
    code = (
        "import json,sys\nfrom nnv import common,registry\n"
        f"d=json.load(open({path!r}))\n"
        "lane={l.name:l for l in registry.load(d['property']).lanes()}[d['lane']]\n"
        "try:\n print('no violation:', common.run_one(lane,d['case']))\n"
        "except common.Violation as v:\n print('VIOLATION property=%s %s' % (d['property'],v)); sys.exit(1)\n"
        "except common.Skip as v:\n print('skipped:', v)\n"
    )
    return subprocess.call([sys.executable, "-W", "ignore", "-c", code], env=backend_env(d["backend"]), cwd=common.VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(os.path.abspath(a.replay)))
    check, tier = a.check.upper(), a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = registry.load(check)
    work = tempfile.mkdtemp(prefix=f"nnv-{check}-")
    try:
        results = run_workers(check, plan(mod, check, tier, seed), work, 840 if tier == "quick" else 6 * 3600)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    lanes, labels, skips, stats, samples = {}, {}, {}, {}, []
    nontrivial = set()
    evaluations = 0
    for r in results:
        if "evaluations" not in r:
            continue
        evaluations += r["evaluations"]
        nontrivial |= {r["lane"] + ":" + h for h in r["nontrivial"]}
        l = lanes.setdefault(r["lane"], {"evaluations": 0, "backends": {}})
        l["evaluations"] += r["evaluations"]
        l["backends"][r["backend"]] = l["backends"].get(r["backend"], 0) + r["evaluations"]
        for src, dst in ((r["labels"], labels), (r["skips"], skips)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0.0), v)
        for s in r["samples"][:1]:
            if sum(x["lane"] == r["lane"] for x in samples) < 2:
                samples.append(dict(lane=r["lane"], backend=r["backend"], **s))
    failures = [r for r in results if r.get("failure")]
    errors = [r for r in results if r.get("error")]
    if not samples:
        samples = [{"note": "no non-trivial case was recorded before the run ended"}]
    ev = dict(
        property=check, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=mod.RULE,
            samples=samples, lanes=lanes, classes=labels, outside_domain=skips,
            largest_error_observed=stats,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(failures),
    )
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(common.VERIF, "evidence", check + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for k in known_findings(check):
        kid = k.split(" ", 1)[0]
        if any(lab == "known:" + kid for lab in labels):
            print(f"KNOWN-FINDING: property={check} {k}")
    if failures:
        f = failures[0]
        rdir = os.path.join(common.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rec = dict(property=check, lane=f["lane"], backend=f["backend"], case=f["failure"]["case"],
                   message=f["failure"]["message"], seed=seed)
        path = os.path.join(rdir, f"{check}-{common.digest(rec)}.json")
        json.dump(rec, open(path, "w"), indent=1, default=str)
        print(f"lane {f['lane']} ({f['backend']}): {f['failure']['message']}")
        print(f"VIOLATION property={check} replay={path}")
        sys.exit(1)
    if errors:
        for e in errors[:2]:
            print("HARNESS ERROR lane", e["lane"], e["backend"], e["error"], file=sys.stderr)
        sys.exit(2)
    if os.environ.get("NNV_VERBOSE"):
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:12]:
            print("  %-20s %-9s %6d cases %6.1f s" % (r["lane"], r["backend"], r["evaluations"], r["wall"]))
        print("  skips", skips, "\n  errors", stats, "\n  labels", labels)
    print(f"{check} ok: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {ev['wall_s']} s, "
          f"skipped {sum(skips.values())}")
    sys.exit(0)


if __name__ == "__main__":
    main()
