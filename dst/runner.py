"""
Runs a check: seeded search over many simulated runs on several processes, minimisation, replay files, evidence.
"""

import collections
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import typing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
PY = sys.executable


def load(check_id: str):
    return importlib.import_module(f"dst.checks.{check_id.lower()}")


def known_findings(check_id: str) -> dict[str, dict]:
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == check_id and r.get("status", "open") == "open":
                    res[r["key"]] = r
    return res


class Outcome(typing.NamedTuple):
    kind: typing.Optional[str]  # None: held
    message: str
    digest: str
    steps: int
    virtual: float
    nontrivial: bool
    faults: dict
    counts: dict
    decisions: list
    trace: list
    harness: typing.Optional[str]
    known: list


RUN_LIMIT = 100.0  # real seconds; a run takes a small fraction of a second


def watch(on: bool) -> None:
    "Ends a run that computes for ever without ever giving control to the simulator."
    from . import env

    def alarm(*_a) -> None:
        raise env.Violation("hang", f"the run does not end: the code under test has been computing for {RUN_LIMIT:.0f} seconds")

    if on:
        signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT if on else 0)


def run_case(check, plan: dict, seed: typing.Optional[int], decisions: typing.Optional[list[int]] = None, findings=()) -> Outcome:
    from . import env
    import gc

    gc_was = gc.isenabled()
    env.order_salt = plan.get("_order", 0)
    ctx = env.Ctx(seed, decisions, max_steps=getattr(check, "MAX_STEPS", 400_000))
    ctx.findings = set(findings)  # type: ignore
    ctx.known = []  # type: ignore
    kind = None
    message = ""
    harness = None
    try:
        try:
            watch(True)
            if plan.get("_debug"):
                ctx.debug()
            check.execute(ctx, copy.deepcopy(plan))
            watch(False)
        except env.Violation as v:
            kind, message = v.kind, v.message
        except env.Invalid as e:
            harness = f"invalid: {e}"
        except env.SimHarnessError as e:
            import traceback

            harness = f"harness: {e} " + "".join(traceback.format_exc(limit=-4))
        except env.SimHang as e:
            kind, message = "hang", str(e)
        except BaseException as e:  # noqa
            import traceback

            if isinstance(e, KeyboardInterrupt):
                raise
            text = "".join(traceback.format_exception(e, limit=-12))[-6000:]
            if env.blame(e, ctx.world) == "code":
                kind, message = f"unexpected-{type(e).__name__}", env.root_cause(e) + "\n" + text[-2500:]
            else:
                harness = "exception: " + text
        sim = ctx.sim
        return Outcome(kind, message, sim.digest(), sim.steps, sim.now - sim.t0, ctx.nontrivial, dict(sim.fault_counts), dict(ctx.counts),
                       list(sim.chooser.log), list(sim.trace), harness, list(ctx.known))
    finally:
        watch(False)
        ctx.close()
        if gc_was:
            gc.enable()


def case_seed(base: int, check_id: str, i: int) -> int:
    return int.from_bytes(hashlib.sha256(f"{base}/{check_id}/{i}".encode()).digest()[:7], "big")


def make_plan(check, check_id: str, base: int, i: int, tier: str) -> tuple[dict, int]:
    s = case_seed(base, check_id, i)
    plan = check.generate(random.Random(s), tier)
    plan["_debug"] = random.Random(s ^ 0x5DEB).random() < 0.1  # logging of everything is on
    plan["_order"] = s % 1000003  # order in which members of sets of classes are visited
    return plan, s


# ---------------------------------------------------------------------------------------------- worker


def worker(check_id: str, tier: str, seed: int, start: int, step: int, count: int, deadline: float) -> None:
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    check = load(check_id)
    findings = known_findings(check_id)
    out = sys.stdout
    agg: dict = {"runs": 0, "steps": 0, "virtual": 0.0, "faults": collections.Counter(), "counts": collections.Counter(), "digests": [], "triv": 0, "samples": []}
    known: collections.Counter = collections.Counter()
    harness: list = []
    i = start
    while i < count and time.time() < deadline:
        plan, s = make_plan(check, check_id, seed, i, tier)
        o = run_case(check, plan, s, findings=findings)
        if os.environ.get("DST_DIGESTS"):  # see selftest.sh
            with open(os.environ["DST_DIGESTS"], "a") as f:
                print(i, o.digest, o.virtual, o.kind, file=f)
        agg["runs"] += 1
        agg["steps"] += o.steps
        agg["virtual"] += o.virtual
        agg["faults"].update(o.faults)
        agg["counts"].update(o.counts)
        if o.nontrivial:
            agg["digests"].append(o.digest[:20])
        else:
            agg["triv"] += 1
        for k in o.known:
            known[k] += 1
        if len(agg["samples"]) < 1 and o.nontrivial and len(o.trace) > 3:
            agg["samples"].append({"index": i, "seed": s, "trace_head": [t[:160] for t in o.trace[:12]], "events": len(o.trace), "decisions": len(o.decisions)})
        if o.harness is not None:
            harness.append({"i": i, "seed": s, "error": o.harness})
            if len(harness) > 3:
                break
        if o.kind is not None:
            print(json.dumps({"violation": {"i": i, "seed": s, "kind": o.kind, "message": o.message, "decisions": o.decisions, "plan": plan}}), file=out)
            break
        i += step
    agg["faults"] = dict(agg["faults"])
    agg["counts"] = dict(agg["counts"])
    print(json.dumps({"agg": agg, "known": dict(known), "harness": harness}), file=out)
    out.flush()
    os._exit(0)


# ---------------------------------------------------------------------------------------------- minimiser


def _paths(x, path=()):
    "Lists inside the plan, outermost first."
    if isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            if not k.startswith("_"):
                yield from _paths(v, path + (k,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _scalars(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if not k.startswith("_"):
                yield from _scalars(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _scalars(v, path + (i,))
    elif isinstance(x, bool) or x is None:
        if x is True:
            yield path, False
    elif isinstance(x, int) and x > 0:
        yield path, 0
        if x > 2:
            yield path, x // 2


def minimise(check, plan: dict, seed: int, decisions: list[int], kind: str, findings, budget: float = 25.0) -> tuple[dict, list[int], typing.Optional[int]]:
    t_end = time.time() + budget
    tries = 0

    def same(p, d) -> bool:
        nonlocal tries
        tries += 1
        try:
            o = run_case(check, p, None, d, findings=findings)
        except Exception:
            return False
        return o.harness is None and o.kind == kind

    # an explicit decision list replaces the generator; decisions beyond its end are zero
    best_p, best_d = plan, list(decisions)
    if not same(best_p, best_d):
        return plan, decisions, seed
    if same(best_p, []):
        best_d = []
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for path in list(_paths(best_p)):
            try:
                lst = _get(best_p, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list) or not lst:
                continue
            size = len(lst)
            while size >= 1:
                i = 0
                while True:
                    try:
                        cur = _get(best_p, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(cur, list) or i >= len(cur) or time.time() > t_end:
                        break
                    cand = copy.deepcopy(best_p)
                    tgt = _get(cand, path)
                    del tgt[i:i + size]
                    if same(cand, best_d):
                        best_p = cand
                        changed = True
                    else:
                        i += size
                size //= 2
            if time.time() > t_end:
                break
        for path, small in list(_scalars(best_p)):
            if time.time() > t_end:
                break
            cand = copy.deepcopy(best_p)
            try:
                holder = _get(cand, path[:-1])
                if holder[path[-1]] == small:
                    continue
                holder[path[-1]] = small
            except (KeyError, IndexError, TypeError):
                continue
            if same(cand, best_d):
                best_p = cand
                changed = True
        if best_d:
            if same(best_p, []):
                best_d = []
                continue
            k = len(best_d)
            while k >= 1 and time.time() < t_end:
                k //= 2
                if k and len(best_d) > k and same(best_p, best_d[:-k]):
                    best_d = best_d[:-k]
                    changed = True
            size = max(len(best_d) // 2, 1)
            while size >= 1 and time.time() < t_end and best_d:
                i = 0
                while i < len(best_d) and time.time() < t_end:
                    if any(best_d[i:i + size]):
                        cand_d = best_d[:i] + [0] * len(best_d[i:i + size]) + best_d[i + size:]
                        if same(best_p, cand_d):
                            best_d = cand_d
                            changed = True
                    i += size
                if size == 1:
                    break
                size //= 2
                if size < len(best_d) // 32:
                    break
    while best_d and best_d[-1] == 0:
        best_d.pop()
    return best_p, best_d, None


def minimise_main(path: str) -> None:
    v = json.load(open(path))
    check = load(v["property"])
    findings = known_findings(v["property"])
    p, d, s = minimise(check, v["plan"], v["seed"], v["decisions"], v["kind"], findings)
    o = run_case(check, p, s, d if s is None else None, findings=findings)
    v2 = {"property": v["property"], "kind": o.kind, "message": o.message, "plan": p, "seed": s, "decisions": d if s is None else None,
          "origin": {"seed": v["seed"], "index": v["i"]}, "digest": o.digest, "trace": o.trace, "faults": o.faults, "hashseed": os.environ.get("PYTHONHASHSEED")}
    json.dump(v2, open(path, "w"), indent=1)
    os._exit(0)


def replay(path: str) -> int:
    v = json.load(open(path))
    check = load(v["property"])
    findings = known_findings(v["property"])
    o = run_case(check, v["plan"], v["seed"], v["decisions"], findings=findings)
    print(f"replay: kind={o.kind} message={o.message}")
    if o.harness:
        print(o.harness)
    exact = o.digest == v["digest"] and o.kind == v["kind"] and o.message == v["message"]
    print("replay: " + ("reproduced exactly" if exact else "NOT reproduced exactly"))
    if o.kind is not None:
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    return 0


# ---------------------------------------------------------------------------------------------- main


def child_env() -> dict:
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = e.get("DST_HASHSEED", "0")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = ROOT
    return e


def spawn(args: list[str], **kw) -> subprocess.Popen:
    return subprocess.Popen([PY, "-X", "faulthandler", "-m", "dst.main", *args], cwd=ROOT, env=child_env(), **kw)


def main(check_id: str, tier: str) -> int:
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    check = load(check_id)
    nruns = int(os.environ.get("DST_RUNS") or (check.QUICK if tier == "quick" else check.THOROUGH))
    limit = float(os.environ.get("DST_TIME") or (300 if tier == "quick" else 780))
    nproc = min(int(os.environ.get("DST_PROCS") or (os.cpu_count() or 4)), 8)
    deadline = t0 + limit
    procs = [spawn(["worker", check_id, tier, str(seed), str(k), str(nproc), str(nruns), str(deadline)], stdout=subprocess.PIPE, text=True) for k in range(nproc)]
    agg: dict = {"runs": 0, "steps": 0, "virtual": 0.0}
    faults: collections.Counter = collections.Counter()
    counts: collections.Counter = collections.Counter()
    known: collections.Counter = collections.Counter()
    digests: set = set()
    samples: list = []
    violations: list = []
    harness: list = []
    triv = 0
    for k, p in enumerate(procs):
        try:
            text, _ = p.communicate(timeout=max(limit + 60 - (time.time() - t0), 1))
        except subprocess.TimeoutExpired:
            p.kill()
            text, _ = p.communicate()
            harness.append({"i": -1, "seed": -1, "error": f"worker {k} did not finish in time"})
        if p.returncode != 0:
            harness.append({"i": -1, "seed": -1, "error": f"worker {k} ended with {p.returncode}"})
        for line in text.splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "violation" in r:
                violations.append(r["violation"])
            elif "agg" in r:
                a = r["agg"]
                for f in ("runs", "steps", "virtual"):
                    agg[f] += a[f]
                faults.update(a["faults"])
                counts.update(a["counts"])
                known.update(r["known"])
                digests.update(a["digests"])
                triv += a["triv"]
                samples.extend(a["samples"])
                harness.extend(r["harness"])
    search_s = time.time() - t0
    findings = known_findings(check_id)
    for k in sorted(findings):
        print(f"KNOWN-FINDING: property={check_id} {findings[k]['what']} [{k}]" + (f" (seen in {known[k]} runs)" if known.get(k) else ""))
    reported: list = []
    if violations:
        seen: dict = {}
        for v in sorted(violations, key=lambda v: v["i"]):
            seen.setdefault(v["kind"], v)
        todo = list(seen.values())[:3]
        ms = []
        for v in todo:
            path = os.path.join(OUT, f"{check_id}-{hashlib.sha256((v['kind'] + str(v['seed'])).encode()).hexdigest()[:10]}.json")
            json.dump({**v, "property": check_id}, open(path, "w"))
            ms.append((v, path, spawn(["minimise", path])))
        for v, path, p in ms:
            try:
                p.wait(timeout=200)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            r = spawn(["replay", path], stdout=subprocess.PIPE, text=True)
            try:
                out, _ = r.communicate(timeout=120)
            except subprocess.TimeoutExpired:
                r.kill()
                out, _ = r.communicate()
            w = json.load(open(path))
            if "digest" not in w:  # the minimiser failed: fall back to the original
                w = {"property": check_id, "kind": v["kind"], "message": v["message"], "plan": v["plan"], "seed": v["seed"], "decisions": None, "digest": "", "trace": []}
                json.dump(w, open(path, "w"), indent=1)
            exact = "\nreplay: reproduced exactly" in out
            print(f"{check_id}: {w['kind']}: {str(w['message'])[:1500]}")
            print(f"  seed={v['seed']} run={v['i']} replay {'reproduces exactly' if exact else 'DIFFERS'}; events={len(w.get('trace') or [])}")
            print(f"VIOLATION property={check_id} replay={path}")
            reported.append({"kind": w["kind"], "message": str(w["message"])[:500], "replay": path, "exact": exact, "seed": v["seed"]})
    wall = time.time() - t0
    ev = {
        "property": check_id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(digests),
            "rule": check.RULE,
            "samples": samples[:4],
            "runs_per_hour": round(agg["runs"] / max(search_s, 0.001) * 3600),
            "seeds_per_hour": round(agg["runs"] / max(search_s, 0.001) * 3600),
            "simulated_seconds": round(agg["virtual"], 1),
            "simulator_steps": agg["steps"],
            "faults_injected": dict(sorted(faults.items())),
            "distinct_executions": len(digests),
            "distinct_measure": "SHA-256 of the complete event trace of a run (connections, requests, faults, virtual times)",
            "trivial_runs": triv,
            "counts": dict(sorted(counts.items())),
            "real_components": check.REAL,
            "stub_components": check.STUB,
            "known_findings_met": dict(known),
            "harness_errors": len(harness),
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "violations": reported,
    }
    json.dump(ev, open(os.path.join(EVIDENCE, f"{check_id}.json"), "w"), indent=1)
    print(f"{check_id} [{tier}]: {agg['runs']} runs, {len(digests)} distinct non-trivial executions, {agg['virtual']:.0f} simulated seconds, "
          f"{sum(faults.values())} faults, {wall:.1f} s")
    if reported:
        return 1
    if harness:
        for h in harness[:4]:
            print(f"HARNESS ERROR run={h['i']} seed={h['seed']}: {h['error']}", file=sys.stderr)
        return 3
    return 0
