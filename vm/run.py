"""Runner: generates the seeded workload of one property, executes it under the monitors in a pool of
processes, reports violations, writes the evidence."""
import argparse
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIE_NN_REPO", "/repo")


def inconclusive(msg):
    print(f"INCONCLUSIVE: {msg}")
    sys.exit(2)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def case_key(case):
    return json.dumps(case, sort_keys=True)


def run_case(pid, case, limit):
    """Executed in a worker. Returns a plain dict."""
    import numpy as np

    from . import core, props

    prop = props.REGISTRY[pid]
    obs = core.Obs()
    np.random.seed(zlib.crc32(case_key(case).encode()))
    t0 = time.time()
    status, msg = "ok", ""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with np.errstate(all="ignore"):
            prop.run(case, obs)
    except core.Violation as e:
        status, msg = "violation", str(e)
    except core.Skip as e:
        status, msg = "skip", str(e)
    except CaseTimeout:
        status, msg = "timeout", f"no answer within {limit:.0f} s"
    except (MemoryError, OSError) as e:
        status, msg = "error", repr(e)
    except Exception as e:
        # The library handed back something that the oracle cannot even interpret, or raised from an
        # attribute access: on the domain of the property, both are violations.
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        status = "violation"
        msg = f"unusable result: {type(e).__name__}: {str(e)[:200]} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {
        "case": case,
        "status": status,
        "msg": msg,
        "wall": time.time() - t0,
        "events": dict(obs.events),
        "checks": obs.checks,
        "features": sorted(obs.features),
        "maxerr": obs.maxerr,
    }


# rounds of the generator in the quick tier, for the checks whose cases are cheap
ROUNDS = {
    "C03": 2, "C04": 2, "C05": 2, "C06": 2, "C09": 8, "C11": 4, "C12": 2, "C13": 2, "C14": 2, "C15": 6, "C16": 4,
    "C18": 6, "C20": 10, "C21": 10, "C22": 5, "C23": 8, "C25": 4, "C27": 10, "C28": 10, "C29": 10,
    "C30": 6, "C31": 6, "C32": 8, "C33": 4, "C34": 6, "C35": 4, "C36": 2, "C37": 8, "C40": 2, "C41": 2,
    "C42": 2, "C43": 6, "C44": 3, "C46": 3, "C48": 20,
}


def load_findings():
    """known_findings.txt:  finding: property=<id> match=<regex over 'case || message'> <description>"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.pid
    t_start = time.time()

    sys.path.insert(0, REPO)
    try:
        import numpy as np  # noqa: F401
        import lie_nn
    except Exception as e:
        inconclusive(f"lie_nn cannot be imported from {REPO}: {e!r}")
    if not os.path.realpath(lie_nn.__file__).startswith(os.path.realpath(REPO) + os.sep):
        inconclusive(f"lie_nn was imported from {lie_nn.__file__}, not from {REPO}")

    from . import props

    if pid == "selftest":
        print(f"lie_nn imported from {REPO}, {len(props.REGISTRY)} properties registered")
        sys.exit(0)
    prop = props.REGISTRY.get(pid)
    if prop is None:
        inconclusive(f"unknown property {pid}")

    if a.replay:
        rec = json.load(open(a.replay))
        r = run_case(pid, rec["case"], 600)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "violation" else 0)

    seen = set()
    rounds = [0]

    def draw(r):
        """the new cases of one more round of the generator"""
        key = [a.seed, int(pid[1:]), 0 if tier == "quick" else 1] + ([r] if r else [])
        rng = np.random.default_rng(key)
        cases = []
        for c in prop.gen(rng, tier):
            k = case_key(c)
            if k not in seen:
                seen.add(k)
                cases.append(c)
        order = rng.permutation(len(cases))
        cases = [cases[i] for i in order]
        # long cases first, the pool then drains evenly
        cases.sort(key=lambda c: -c.get("cost", 0))
        rounds[0] += 1
        return cases

    def all_cases():
        """quick: a fixed number of rounds; thorough: further rounds until the time is used"""
        for r in range(ROUNDS.get(pid, 1) if tier == "quick" else 200):
            if r and time.time() - t_start > (120 if tier == "quick" else 480):
                break
            cases = draw(r)
            if r and not cases:
                break
            yield from cases

    budget = 240 if tier == "quick" else 780
    limit = 60 if tier == "quick" else 150
    stats = collections.Counter()
    events, features = collections.Counter(), collections.Counter()
    checks, maxerr = 0, 0.0
    violations, nontrivial, slow, timeouts, errors = [], set(), [], [], []
    samples = []

    ctx = mp.get_context("fork")
    if prop.warmup:
        prop.warmup()
    ex = cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx)
    stop = False
    try:
        todo = all_cases()
        pending = set()
        retry = []

        def consume(fut):
            nonlocal checks, maxerr, stop
            r = fut.result()
            stats[r["status"]] += 1
            events.update(r["events"])
            for f in r["features"]:
                features[f] += 1
            checks += r["checks"]
            maxerr = max(maxerr, r["maxerr"])
            slow.append((r["wall"], r["case"]))
            if r["status"] == "ok" and r["checks"] >= prop.min_checks:
                nontrivial.add(case_key(r["case"]))
                if len(samples) < 6:
                    samples.append(
                        {
                            "case": r["case"],
                            "checks": r["checks"],
                            "events": r["events"],
                            "max_relative_deviation": r["maxerr"],
                        }
                    )
            elif r["status"] == "violation":
                violations.append(r)
                if len(violations) >= 5:
                    stop = True
            elif r["status"] == "timeout":
                timeouts.append(r)
            elif r["status"] == "error":
                errors.append(r)

        while True:
            while not stop and len(pending) < 3 * a.jobs:
                c = next(todo, None)
                if c is None:
                    break
                if time.time() - t_start > budget:
                    stats["not run (time budget)"] += 1
                    continue
                pending.add(ex.submit(run_case, pid, c, limit))
            if not pending:
                break
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                consume(f)
            if violations and time.time() - t_start > 20:
                stop = True
            if stop:
                for f in pending:
                    f.cancel()
                pending = {f for f in pending if not f.cancelled()}

        # a case that did not answer gets a second, longer chance with the machine to itself
        if timeouts and not violations:
            retry, timeouts = timeouts[:4], []
            futs = [ex.submit(run_case, pid, r["case"], 4 * limit) for r in retry]
            for f in futs:
                r = f.result()
                if r["status"] == "timeout":
                    r["status"] = "violation"
                    r["msg"] = f"the call does not terminate ({4 * limit} s)"
                    violations.append(r)
                elif r["status"] == "violation":
                    violations.append(r)
    except cf.process.BrokenProcessPool:
        inconclusive("a worker process died")
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:  # every result that counts has been collected
            try:
                p.kill()
            except Exception:
                pass

    # ---- verdict -----------------------------------------------------------------------------
    known = [(rx, d) for p, rx, d in load_findings() if p == pid]
    new, old = [], collections.OrderedDict()
    for v in violations:
        text = case_key(v["case"]) + " || " + v["msg"]
        for rx, d in known:
            if rx.search(text):
                old[d] = v
                break
        else:
            new.append(v)

    slow.sort(key=lambda x: -x[0])
    coverage = {
        "evaluations": sum(n for s, n in stats.items() if s in ("ok", "skip", "violation", "timeout")),
        "distinct_nontrivial": len(nontrivial),
        "rule": prop.rule
        + f" A case counts as non-trivial when it ended with at least {prop.min_checks} oracle/monitor"
        " checks on calls of the real code.",
        "samples": samples,
        "rounds_of_the_generator": rounds[0],
        "outcomes": dict(stats),
        "monitored_calls": dict(sorted(events.items(), key=lambda x: -x[1])[:40]),
        "monitored_calls_total": sum(events.values()),
        "oracle_checks": checks,
        "distinct_features": len(features),
        "features": dict(sorted(features.items(), key=lambda x: -x[1])[:60]),
        "max_relative_deviation_observed": maxerr,
        "slowest_case_s": round(slow[0][0], 2) if slow else 0,
        "known_findings_seen": list(old),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": round(time.time() - t_start, 2),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(
        f"{pid} [{tier}, seed {a.seed}]: {coverage['evaluations']} cases, "
        f"{coverage['monitored_calls_total']} monitored calls, {checks} checks, "
        f"{len(features)} features, max deviation {maxerr:.2g}, {dict(stats)}, "
        f"slowest {coverage['slowest_case_s']} s, {ev['wall_s']} s"
    )
    if a.verbose:
        for w, c in slow[:8]:
            print(f"   {w:.2f}s {case_key(c)[:150]}")
    for d in old:
        print(f"KNOWN-FINDING: property={pid} {d}")
    if new:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new):
            path = os.path.join(rdir, f"{pid}-{tier}-{a.seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": v["case"], "message": v["msg"]}, f, indent=1)
            print(f"  case {case_key(v['case'])[:400]}")
            print(f"  {v['msg'][:400]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    if errors:
        inconclusive(f"{len(errors)} cases could not be judged: {errors[0]['msg'][:200]}")
    if not nontrivial:
        inconclusive("nothing was observed")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
