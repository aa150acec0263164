"""One shard of a check.  Usage: worker.py ID TIER SEED SHARD NSHARDS OUT.json
   or worker.py --replay ID FILE OUT.json   (FILE: {"cases":[...]}: run in order, the last one is judged)."""
import sys
import os
import json
import time
import signal
import random
import hashlib
import traceback
import importlib
import warnings
import logging

T0 = time.time()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
from vlib.harness import Violation, Discard, canon, case_seed  # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def reseed(case):
    s = case_seed(case, "lib")
    np.random.seed(s)
    random.seed(s)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(s)
    if "objax" in sys.modules:
        ox = sys.modules["objax"]
        try:
            ox.random.DEFAULT_GENERATOR.seed(s % (2 ** 31))
        except Exception:
            pass


def from_repo(tb):
    return any(os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep)
               for f in traceback.extract_tb(tb))


SOFT = ("RESOURCE_EXHAUSTED", "Out of memory", "Cannot allocate")


def evaluate(mod, case, limit):
    """-> (status, payload); status in ok/discard/fail/hang/skip"""
    reseed(case)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    try:
        try:
            out = mod.run_case(case)
        finally:
            signal.alarm(0)
        return "ok", out
    except Discard:
        return "discard", None
    except Hang:
        return "hang", {"what": f"did not finish within {int(limit)} s", "kind": "hang"}
    except Violation as v:
        return "fail", {"what": v.what, "kind": "violation", "info": {k: str(x)[:400] for k, x in v.info.items()}}
    except MemoryError:
        return "skip", None
    except RecursionError as e:
        return "fail", {"what": f"RecursionError: {e}"[:300], "kind": "crash"}
    except Exception as e:
        if any(s in str(e) for s in SOFT):
            return "skip", None
        tb = traceback.format_exc().splitlines()
        return "fail", {"what": f"{type(e).__name__}: {str(e)[:300]}", "kind": "crash",
                        "in_repo": from_repo(e.__traceback__), "info": {"traceback": "\n".join(tb[-14:])}}


def check_repo():
    import emlp
    p = os.path.abspath(emlp.__file__)
    if not p.startswith(os.path.abspath(REPO) + os.sep):
        print(f"emlp imported from {p}, not from {REPO}", file=sys.stderr)
        sys.exit(3)


def replay(pid, path, out):
    data = json.load(open(path))
    res = {"results": []}
    try:
        check_repo()
        mod = importlib.import_module("checks." + pid)
    except Exception as e:
        json.dump({"import_error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc(),
                   "in_repo": from_repo(e.__traceback__)}, open(out, "w"))
        return
    limit = data.get("limit", getattr(mod, "CASE_LIMIT", 150))
    for c in data["cases"]:
        st, p = evaluate(mod, c, limit)
        res["results"].append({"status": st, "detail": p if st in ("fail", "hang") else None})
    json.dump(res, open(out, "w"))


def main():
    pid, tier, seed, shard, nsh, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    try:
        check_repo()
        mod = importlib.import_module("checks." + pid)
    except Exception as e:
        json.dump({"import_error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc(),
                   "in_repo": from_repo(e.__traceback__)}, open(out, "w"))
        return
    limit = getattr(mod, "CASE_LIMIT", 150)
    budget = getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 1500)
    shrink_budget = 45 if tier == "quick" else 180
    stats = {"evaluations": 0, "discards": 0, "skips": 0, "nontrivial": {}, "labels": {}, "samples": [],
             "failures": [], "cut": 0, "generated": 0, "enumerated": 0, "max_case_s": 0.0}
    history = []
    memo = {}
    st = {"first_fail": None, "stop": False}

    def run(case, origin):
        key = canon(case)
        if key in memo:
            return memo[key]
        t = time.time()
        status, p = evaluate(mod, case, limit)
        dt = time.time() - t
        stats["max_case_s"] = max(stats["max_case_s"], round(dt, 2))
        history.append(case)
        if status == "discard":
            stats["discards"] += 1
        elif status == "skip":
            stats["skips"] += 1
        else:
            stats["evaluations"] += 1
            stats[origin] += 1
        if status == "ok":
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if p is not None:
                for lab in p.labels:
                    stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
                if p.nontrivial:
                    stats["nontrivial"][h] = 1
                    if len(stats["samples"]) < 4 and len(key) < 1500:
                        stats["samples"].append({"case": case, "labels": p.labels})
        if status in ("fail", "hang"):
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            stats["failures"].append({"case": case, "detail": p, "t": round(time.time() - T0, 1),
                                      "history": len(history) - 1})
            if status == "hang":
                st["stop"] = True
        memo[key] = (status, p)
        return memo[key]

    t_start = time.time()
    over = lambda: time.time() - t_start > budget or st["stop"]
    # 1. must-run cases
    enum = list(mod.enumerated(tier)) if hasattr(mod, "enumerated") else []
    enum_fail = False
    for i, case in enumerate(enum):
        if i % nsh != shard:
            continue
        if over():
            stats["cut"] += 1
            continue
        status, _ = run(case, "enumerated")
        if status in ("fail", "hang"):
            enum_fail = True
            break
    # 2. generated cases
    n = -(-mod.N[tier] // nsh) if hasattr(mod, "strategy") else 0
    if n and not enum_fail and not st["stop"]:
        from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
        from hypothesis.errors import Flaky, FlakyFailure

        class Boom(Exception):
            pass

        @hseed(int.from_bytes(hashlib.sha256(f"{pid}/{seed}/{shard}".encode()).digest()[:8], "little"))
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False)
        @given(mod.strategy(tier))
        def test(case):
            key = canon(case)
            if key not in memo:
                if over() and st["first_fail"] is None:
                    stats["cut"] += 1
                    return
                if st["first_fail"] is not None and (time.time() - st["first_fail"] > shrink_budget or st["stop"]):
                    return
            status, p = run(case, "generated")
            if status in ("fail", "hang"):
                raise Boom(p["kind"])
        try:
            test()
        except Boom:
            pass
        except BaseException as e:  # hypothesis' own complaints about flaky replays after the shrink budget
            if not stats["failures"]:
                raise
    # keep the smallest failing case and the first one, with the history that led to it
    fs = stats["failures"]
    if fs:
        small = min(fs, key=lambda f: (len(canon(f["case"])), canon(f["case"])))
        first = fs[0]
        stats["failures"] = [dict(small, role="smallest"),
                             dict(first, role="first", prefix=history[:first["history"]])]
        stats["n_failures"] = len(fs)
    stats["rule"], stats["assumptions"] = " ".join(mod.RULE.split()), [" ".join(a.split()) for a in mod.ASSUMPTIONS]
    stats["wall_s"] = round(time.time() - T0, 2)
    json.dump(stats, open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(*sys.argv[2:5])
    else:
        main()
    sys.stdout.flush()
    os._exit(0)
