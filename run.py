#!/usr/bin/env python3
"""Entry point of every check.

    run.py ID [--tier quick|thorough]     search; exit 0 / 1 (VIOLATION line) / 2 (the harness itself broke)
    run.py ID --replay FILE               re-run a recorded failing case

Environment: VERIF_SEED (default 1), VERIF_TIER (default quick; --tier wins), VERIF_REPO (default /repo)."""
import sys
import os
import json
import time
import hashlib
import shutil
import signal
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NSH = int(os.environ.get("VERIF_SHARDS", "8"))


def worker_env(scratch, seed, shard):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_", "PYTHON"))}
    env.update(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HYPOTHESIS_NO_PLUGINS="1", HOME=scratch,
               MPLCONFIGDIR=scratch, TMPDIR=scratch, TQDM_DISABLE="1", TF_CPP_MIN_LOG_LEVEL="3",
               XLA_FLAGS="--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
                         "--xla_cpu_multi_thread_eigen=false",
               PYTHONHASHSEED=str(int(hashlib.sha256(f"{seed}/{shard}".encode()).hexdigest()[:6], 16)))
    return env


def known_entries(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                case = json.loads(line.split("case=", 1)[1].split(" :: ")[0])
                what = line.split(" :: ", 1)[1]
                out.append((case, what))
    return out


def run_replay(pid, cases, scratch, seed, shard, limit=None):
    f = os.path.join(scratch, f"replay_{time.time_ns()}.json")
    o = f + ".out"
    d = {"cases": cases}
    if limit:
        d["limit"] = limit
    json.dump(d, open(f, "w"))
    p = subprocess.run([PY, os.path.join(HERE, "vlib", "worker.py"), "--replay", pid, f, o], cwd=scratch,
                       env=worker_env(scratch, seed, shard), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if not os.path.exists(o):
        return None, p.stderr.decode()[-2000:]
    r = json.load(open(o))
    if "import_error" in r:
        return {"status": "fail", "detail": {"what": r["import_error"], "kind": "import"}}, ""
    return r["results"][-1], ""


def write_replay(pid, seed, shard, cases, detail, limit=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "seed": seed, "shard": shard, "cases": cases, "detail": detail, "limit": limit,
            "how": f"python3 /verif/run.py {pid} --replay <this file>"}
    h = hashlib.sha1(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{h}.json")
    json.dump(body, open(path, "w"), indent=1)
    return path


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        if "--replay" in args:
            body = json.load(open(args[args.index("--replay") + 1]))
            r, e = run_replay(pid, body["cases"], scratch, body["seed"], body["shard"], body.get("limit"))
            if r is None:
                print(e, file=sys.stderr)
                return 2
            print(json.dumps(r, indent=1))
            if r["status"] in ("fail", "hang"):
                print(f"VIOLATION property={pid} replay={args[args.index('--replay') + 1]}")
                return 1
            return 0
        return search(pid, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(pid, tier, seed, scratch):
    t0 = time.time()
    procs = []
    for s in range(NSH):
        out = os.path.join(scratch, f"shard{s}.json")
        errf = open(os.path.join(scratch, f"shard{s}.err"), "wb")
        sdir = os.path.join(scratch, f"w{s}")
        os.makedirs(sdir)
        p = subprocess.Popen([PY, os.path.join(HERE, "vlib", "worker.py"), pid, tier, str(seed), str(s), str(NSH), out],
                             cwd=sdir, env=worker_env(sdir, seed, s), stdout=errf, stderr=errf, start_new_session=True)
        procs.append((s, p, out, errf.name))
    hard = 780 if tier == "quick" else 7200
    shards, broken = {}, []
    for s, p, out, errn in procs:
        try:
            p.wait(timeout=max(1, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            broken.append((s, "timeout", ""))
            continue
        if not os.path.exists(out):
            broken.append((s, p.returncode, open(errn, errors="replace").read()[-3000:]))
            continue
        shards[s] = json.load(open(out))
    # the code under test cannot even be imported / the check's own modules cannot
    for s, r in shards.items():
        if "import_error" in r:
            print(r["tb"], file=sys.stderr)
            if r.get("in_repo"):
                path = write_replay(pid, seed, s, [], {"what": r["import_error"]})
                print(f"importing the code under test failed: {r['import_error']}")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            return 2
    crashes = [b for b in broken if isinstance(b[1], int) and b[1] not in (0, -9)]
    sys.path.insert(0, HERE)
    meta = next((r for r in shards.values()), {"rule": "none", "assumptions": []})
    violations, unconfirmed = [], []
    cands = []
    for s, r in shards.items():
        for f in r["failures"]:
            cands.append((f["role"] != "smallest", len(json.dumps(f["case"])), s, f))
    cands.sort(key=lambda c: c[:3])
    known = known_entries(pid)
    known_keys = {json.dumps(c, sort_keys=True) for c, _ in known}
    confirm_budget = time.time() + (300 if tier == "quick" else 1200)
    for _, _, s, f in cands:
        if json.dumps(f["case"], sort_keys=True) in known_keys:
            continue
        if violations or (time.time() > confirm_budget and unconfirmed):
            break
        r, e = run_replay(pid, [f["case"]], scratch, seed, s)
        if r and r["status"] in ("fail", "hang"):
            path = write_replay(pid, seed, s, [f["case"]], r["detail"])
            violations.append((path, r["detail"], f["case"]))
            break
        if f["role"] == "first" and f.get("prefix"):
            cases = f["prefix"] + [f["case"]]
            r, e = run_replay(pid, cases, scratch, seed, s)
            if r and r["status"] in ("fail", "hang"):
                path = write_replay(pid, seed, s, cases, r["detail"])
                violations.append((path, r["detail"], f["case"]))
                break
        unconfirmed.append({"shard": s, "case": f["case"], "detail": f["detail"]})
    for case, what in known:
        r, e = run_replay(pid, [case], scratch, seed, 0)
        if r and r["status"] in ("fail", "hang"):
            print(f"KNOWN-FINDING: property={pid} {what}")
    # evidence
    labels, nontriv, samples = {}, set(), []
    tot = {k: 0 for k in ("evaluations", "discards", "skips", "cut", "generated", "enumerated")}
    for s, r in shards.items():
        for k in tot:
            tot[k] += r[k]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        nontriv |= set(r["nontrivial"])
        samples += r["samples"][:2]
    wall = round(time.time() - t0, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(nontriv),
                       "rule": meta["rule"], "samples": samples[:8],
                       "generated": tot["generated"], "enumerated": tot["enumerated"],
                       "discarded": tot["discards"], "skipped_out_of_memory": tot["skips"],
                       "not_run_time_budget": tot["cut"], "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
                       "shards": len(shards), "broken_shards": [[b[0], str(b[1])] for b in broken],
                       "unconfirmed": unconfirmed[:5]},
          "wall_s": wall, "assumptions": meta["assumptions"],
          "violations": len(violations),
          "violation_details": [{"replay": p, "what": d["what"], "case": c} for p, d, c in violations]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {tot['evaluations']} cases ({len(nontriv)} distinct non-trivial), "
          f"{tot['discards']} discarded, {tot['cut']} cut by the time budget, {wall} s")
    if violations:
        for path, d, c in violations:
            print(f"{d['what']}\n  case: {json.dumps(c)[:2000]}")
            for k, v in (d.get("info") or {}).items():
                print(f"  {k}: {v}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if unconfirmed:
        print(f"note: {len(unconfirmed)} failure(s) did not reproduce in a fresh process: {unconfirmed[0]}")
    if not shards or tot["evaluations"] == 0 or (broken and len(broken) > NSH // 2):
        for b in broken:
            print(f"shard {b[0]} ended with {b[1]}: {b[2]}", file=sys.stderr)
        return 2
    for b in broken:
        print(f"note: shard {b[0]} ended with {b[1]}: {b[2][-400:]}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
