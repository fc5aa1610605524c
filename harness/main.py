"""
Entry point:  python -m harness.main C01 [quick|thorough]
              python -m harness.main --replay FILE
"""

import os
import sys
import json
import time
import multiprocessing as mp
from pathlib import Path

REPO = os.environ.get("FOXES_REPO", "/repo")
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, REPO)

from harness import core, cov  # noqa: E402


# development aid: stop at the first violation
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))


class _FirstViolation(BaseException):
    pass


def _worker(pid, tasks, results):
    os.environ["VERIF_WORKER"] = "1"
    cov.start(pid)
    # own process group members may be spawned by engines: keep default signals
    while True:
        t = tasks.get()
        if t is None:
            break
        i, spec = t
        results.put(("start", i, os.getpid()))
        results.put(("done", i, core.run_case(pid, spec)))
    results.put(("bye", -1, os.getpid()))


def run_all(pid, specs, n_workers, budget):
    """runs all specs on worker processes; a dying worker is reported, not hidden"""
    ctx = mp.get_context("fork")
    results = ctx.Queue()
    tasks = ctx.Queue()
    t0 = time.time()
    order = list(enumerate(specs))
    next_i = 0
    out = {}
    workers = []

    def _start():
        p = ctx.Process(target=_worker, args=(pid, tasks, results))
        p.daemon = False
        p.start()
        workers.append(p)

    n_workers = max(1, min(n_workers, len(specs)))
    for _ in range(n_workers):
        _start()
    inflight = {}
    submitted = 0

    def _submit():
        nonlocal next_i, submitted
        if next_i < len(order) and time.time() - t0 < budget:
            tasks.put(order[next_i])
            next_i += 1
            submitted += 1

    for _ in range(n_workers + 2):
        _submit()

    known = {d["key"] for d in load_findings(pid)} if FAILFAST else ()

    def _handle(msg):
        nonlocal next_i
        kind, i, x = msg
        if kind == "start":
            inflight[x] = i
        elif kind == "done":
            out[i] = x
            for k in [k for k, v in inflight.items() if v == i]:
                inflight.pop(k)
            if FAILFAST and (
                x["status"] == "error" or any(k not in known for k, _ in x["violations"])
            ):
                next_i = len(order)
                raise _FirstViolation()
            _submit()

    while len(out) < submitted:
        try:
            _handle(results.get(timeout=2))
        except _FirstViolation:
            for p in workers:
                p.kill()
            break
        except Exception:
            dead = [p for p in workers if not p.is_alive()]
            for p in dead:
                # drain anything it still wrote
                try:
                    while True:
                        _handle(results.get(timeout=0.5))
                except Exception:
                    pass
                workers.remove(p)
                i = inflight.pop(p.pid, None)
                if i is not None and i not in out:
                    out[i] = dict(
                        spec=specs[i], status="died", err=f"worker died, exitcode {p.exitcode}",
                        events={}, violations=[], inconclusive=[], nontrivial=False,
                        sig=None, sample=None, wall=0.0,
                    )
                    _submit()
                _start()
    for _ in workers:
        tasks.put(None)
    tend = time.time() + 20
    for p in workers:
        p.join(timeout=max(0.1, tend - time.time()))
        if p.is_alive():
            p.kill()
    tasks.cancel_join_thread()
    results.cancel_join_thread()
    return [out[i] for i in sorted(out)], submitted


def load_findings(pid):
    f = ROOT / "known_findings.jsonl"
    res = []
    if f.is_file():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        d = json.loads(Path(args[1]).read_text())
        import foxes  # noqa: F401

        r = core.run_case(d["property"], d["spec"])
        print(json.dumps({k: v for k, v in r.items() if k != "spec"}, indent=1, default=str))
        bad = bool(r["violations"]) or r["status"] == "error"
        print("REPLAY:", "violation reproduced" if bad else "no violation")
        return 1 if bad else 0

    pid = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import foxes  # noqa: F401  (the real code, from the working tree)

    if not str(Path(foxes.__file__).resolve()).startswith(str(Path(REPO).resolve())):
        print(f"ERROR: foxes imported from {foxes.__file__}, expected {REPO}")
        return 2
    mod = core.load_check(pid)
    specs = mod.cases(tier, seed)
    nw = getattr(mod, "WORKERS", int(os.environ.get("VERIF_WORKERS", "8")))
    budget = 480 if tier == "quick" else 3000
    res, submitted = run_all(pid, specs, nw, budget)
    # a case without answer gets a second chance in a fresh process (forking pools
    # from a process that has run other engines before can dead-lock)
    n_retry = 0
    for k, r in enumerate(res):
        if r["status"] in ("timeout", "died") and n_retry < 3:
            n_retry += 1
            r2 = run_all(pid, [r["spec"]], 1, budget)[0][0]
            r2["events"]["case-retried"] = 1
            res[k] = r2
            if r2["status"] in ("timeout", "died") and getattr(mod, "HANG_IS_VIOLATION", False):
                r2["status"] = "error"

    findings = load_findings(pid)
    events = {}
    sigs = set()
    n_nontriv = 0
    samples = []
    viol = []
    known = {}
    incon = []
    broken = []
    for r in res:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        if r["nontrivial"]:
            n_nontriv += 1
            sigs.add(json.dumps(r["sig"], default=str))
            if r["sample"] is not None and len(samples) < 4:
                samples.append(r["sample"])
        incon += r["inconclusive"]
        if r["status"] == "error":
            # a crash of the real code (or of the oracle) in a supported scenario
            viol.append((r, "exception", r["err"]))
        elif r["status"] in ("timeout", "died"):
            broken.append((r, r["err"]))
        for key, msg in r["violations"]:
            f = [d for d in findings if d["key"] == key]
            if f:
                known[f[0]["key"]] = (f[0], known.get(f[0]["key"], (None, 0))[1] + 1)
            else:
                viol.append((r, key, msg))

    wall = time.time() - t0
    ev = dict(
        property=pid,
        tier="thorough" if tier == "thorough" else "quick",
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=len(res),
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples if samples else [core.spec_hash(s) for s in specs[:1]],
            observed=dict(sorted(events.items())),
            cases_planned=len(specs),
            inconclusive_cases=len(incon),
            known_findings_seen={k: n for k, (_, n) in known.items()},
        ),
        assumptions=list(getattr(mod, "ASSUMES", [])),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))

    print(
        f"{pid} [{tier}] seed={seed}: {len(res)}/{len(specs)} cases, {len(sigs)} distinct non-trivial, "
        f"{sum(v for k, v in events.items() if k.startswith('oracle:'))} oracle evaluations, "
        f"{len(incon)} inconclusive, {wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(events.items()):
            print("   ", k, v)
        for r in sorted(res, key=lambda r: -r["wall"])[:3]:
            print("    slowest", round(r["wall"], 2), json.dumps(r["spec"])[:200])
        for k in sorted(set(incon)):
            print("    inconclusive:", k)
    for k, (d, n) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {d['what']}")
    if viol:
        rdir = ROOT / "evidence" / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        seen = set()
        nshown = 0
        for r, key, msg in viol:
            k = (key.split("|")[0], msg.split("@")[-1] if key == "exception" else "")
            if k in seen or nshown >= 12:
                continue
            seen.add(k)
            nshown += 1
            p = rdir / f"{pid}_{core.spec_hash(r['spec'])}.json"
            p.write_text(json.dumps(dict(property=pid, spec=r["spec"], key=key, msg=msg), indent=1))
            print(f"VIOLATION property={pid} replay={p}")
            print(f"    [{key}] {msg[:900]}")
            print(f"    spec: {json.dumps(r['spec'])[:300]}")
        print(f"{len(viol)} violating observations, {len(seen)} kinds")
        return 1
    if broken:
        for r, e in broken[:5]:
            print(f"INCONCLUSIVE: {e}: {json.dumps(r['spec'])[:300]}")
        return 2
    need = getattr(mod, "REQUIRED_EVENTS", [])
    missing = [k for k in need if events.get(k, 0) == 0]
    if missing or not sigs:
        print(f"INCONCLUSIVE: monitors observed nothing for {missing or 'any case'}")
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
