"""Check driver:  run.py PROPERTY [--tier quick|thorough] [--replay FILE]

exit 0  the property held on everything explored
exit 1  a line "VIOLATION property=<id> replay=<path>" was printed
exit 2  the harness itself could not do its work (no verdict)
"""

from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path
from typing import Any

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
STALL_S = 150.0


def child_env(scratch: str) -> dict[str, str]:
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        # never read a stale __pycache__ of /repo: bytecode is looked up here instead
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        PYTHONPATH=str(VERIF),
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        PYTHONWARNINGS="ignore",
    )
    return env


def load(prop: str) -> Any:
    mod = importlib.import_module(f"pbt.props.{prop.lower()}")
    return mod.PROPERTY


def worker(a: argparse.Namespace) -> int:
    from pbt import core

    prelude = VERIF / "pbt" / "props" / f"{a.property.lower()}_prelude.py"
    if prelude.exists():
        importlib.import_module(f"pbt.props.{a.property.lower()}_prelude")
    core.setup_import()
    prop = load(a.property)
    if a.worker == "--list":
        info = [
            {"name": o.name, "quick": o.quick, "thorough": o.thorough, "shards": o.shards}
            for o in prop.obligations
        ]
        Path(a.out).write_text(
            json.dumps({"obligations": info, "rule": prop.rule, "level": prop.level, "assumptions": prop.assumptions})
        )
        return 0
    ob = next(o for o in prop.obligations if o.name == a.worker)
    if a.replay:
        data = json.loads(Path(a.replay).read_text())
        heart = core.Heart(None)
        ctx = core.Ctx()
        try:
            core.run_body(ob, core.parse_case(data["case"]), ctx)
        except BaseException as e:
            Path(a.out).write_text(json.dumps({"failed": True, "error": core.describe(e)}))
            return 0
        Path(a.out).write_text(json.dumps({"failed": False}))
        return 0
    heart = core.Heart(a.heart)
    rec = core.search(ob, examples=a.examples, seed=a.seed, heart=heart, budget_s=a.budget)
    tmp = a.out + ".tmp"
    Path(tmp).write_text(json.dumps(rec))
    os.replace(tmp, a.out)
    return 0


def spawn(args: list[str], scratch: str, log: str) -> subprocess.Popen[bytes]:
    with open(log, "wb") as lf:
        return subprocess.Popen(
            [sys.executable, "-B", str(HERE / "run.py"), *args],
            env=child_env(scratch),
            cwd=scratch,
            stdin=subprocess.DEVNULL,
            stdout=lf,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )


def kill(p: subprocess.Popen[bytes]) -> None:
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def write_replay(prop: str, ob: str, case: str, error: str, seed: int) -> Path:
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-{ob}.json"
    path.write_text(
        json.dumps({"property": prop, "obligation": ob, "case": case, "error": error, "seed": seed}, indent=1)
    )
    return path


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--heart")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--examples", type=int, default=0)
    ap.add_argument("--budget", type=float, default=1e9)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.worker:
        return worker(a)

    t0 = time.monotonic()
    sys.path.insert(0, str(VERIF))
    from pbt import core

    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    base_seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    prop = a.property
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs: list[subprocess.Popen[bytes]] = []
    try:
        out = os.path.join(scratch, "list.json")
        log = os.path.join(scratch, "list.log")
        p = spawn([prop, "--worker=--list", "--out", out], scratch, log)
        try:
            rc = p.wait(120)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = -1
        if rc != 0 or not os.path.exists(out):
            print(Path(log).read_text()[-4000:], file=sys.stderr)
            print(f"HARNESS-ERROR property={prop} could not load the check or the code under test")
            return 2
        meta = json.loads(Path(out).read_text())

        if a.replay:
            data = json.loads(Path(a.replay).read_text())
            out = os.path.join(scratch, "replay.json")
            log = os.path.join(scratch, "replay.log")
            p = spawn([prop, "--worker", data["obligation"], "--out", out, "--replay", os.path.abspath(a.replay)], scratch, log)
            try:
                p.wait(300)
            except subprocess.TimeoutExpired:
                kill(p)
            res = json.loads(Path(out).read_text()) if os.path.exists(out) else {"failed": True, "error": "no answer (crash or hang)"}
            if res["failed"]:
                print(res["error"])
                print(f"VIOLATION property={prop} replay={a.replay}")
                return 1
            print(f"replay of {a.replay}: property {prop} holds on this case")
            return 0

        budget = 300.0 if tier == "quick" else 700.0
        jobs = []
        for o in meta["obligations"]:
            if a.only and o["name"] != a.only:
                continue
            total = int((o["quick"] if tier == "quick" else o["thorough"]) * a.scale)
            shards = o["shards"] if tier == "quick" else 8
            shards = max(1, min(shards, total)) if total else 1
            for s in range(shards):
                jobs.append((o["name"], s, total // shards))
        jobs.sort(key=lambda j: -j[2])

        width = max(2, os.cpu_count() or 2)
        running: dict[str, dict[str, Any]] = {}
        results: list[dict[str, Any]] = []
        errors: list[str] = []
        failures: list[tuple[str, str, str]] = []
        pending = list(jobs)
        while pending or running:
            while pending and len(running) < width and not failures:
                name, s, n = pending.pop(0)
                key = f"{name}-{s}"
                heart = os.path.join(scratch, key + ".heart")
                with open(heart, "wb") as f:
                    f.write(b"\0" * core.Heart.SIZE)
                out = os.path.join(scratch, key + ".json")
                log = os.path.join(scratch, key + ".log")
                p = spawn(
                    [prop, "--worker", name, "--out", out, "--heart", heart, "--seed",
                     str(core.derive_seed(base_seed, prop, name, s)), "--examples", str(n), "--budget", str(budget)],
                    scratch, log,
                )
                procs.append(p)
                running[key] = {"p": p, "name": name, "out": out, "log": log, "heart": heart, "n": -1, "t": time.monotonic()}
            if failures:
                pending.clear()
            time.sleep(0.03)
            for key, r in list(running.items()):
                rc = r["p"].poll()
                if rc is None:
                    n, text = core.Heart.read(r["heart"])
                    now = time.monotonic()
                    if n != r["n"]:
                        r["n"], r["t"] = n, now
                    elif now - r["t"] > STALL_S:
                        kill(r["p"])
                        running.pop(key)
                        if n > 0:
                            failures.append((r["name"], text, f"no progress for {STALL_S:.0f} s: the operation never returned"))
                        else:
                            errors.append(f"{key}: stalled before the first case")
                    continue
                running.pop(key)
                if os.path.exists(r["out"]):
                    rec = json.loads(Path(r["out"]).read_text())
                    if rec.get("harness_error"):
                        errors.append(f"{key}: {rec['harness_error']}")
                        continue
                    results.append(rec)
                    if rec["failure"]:
                        failures.append((r["name"], rec["failure"]["case"], rec["failure"]["error"]))
                else:
                    n, text = core.Heart.read(r["heart"])
                    if rc < 0 and n > 0 and rc != -signal.SIGKILL:
                        failures.append((r["name"], text, f"interpreter died with signal {-rc}"))
                    else:
                        errors.append(f"{key}: worker exited {rc}: {Path(r['log']).read_text()[-3000:]}")
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(scratch, ignore_errors=True)

    nontrivial: set[int] = set()
    samples: list[str] = []
    known: dict[str, str] = {}
    per: dict[str, dict[str, Any]] = {}
    evaluations = 0
    for rec in results:
        evaluations += rec["evaluations"]
        nontrivial |= {hash((rec["obligation"], h)) for h in rec["nontrivial"]}
        samples += [f"{rec['obligation']}: {s}" for s in rec["samples"][:2]]
        known.update(rec["known"])
        d = per.setdefault(rec["obligation"], {"evaluations": 0, "nontrivial": 0, "labels": {}})
        d["evaluations"] += rec["evaluations"]
        d["nontrivial"] += len(rec["nontrivial"])
        for k, v in rec["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v

    listed = {}
    kf = VERIF / "known_findings.json"
    if kf.exists():
        listed = {e["key"]: e for e in json.loads(kf.read_text())["known"] if e["property"] == prop}
    violations = []
    for name, case, error in failures[:1]:
        path = write_replay(prop, name, case, error, base_seed)
        violations.append(str(path))
        print(f"obligation {name} failed on case {case[:2000]}")
        print(error[-3000:])
    for key, what in sorted(known.items()):
        if key not in listed:  # a check may only tolerate what the committed file lists
            path = write_replay(prop, "unlisted-finding", repr(key), what, base_seed)
            violations.append(str(path))

    ev = {
        "property": prop,
        "tier": tier,
        "seed": base_seed,
        "level": meta["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": meta["rule"],
            "samples": samples[:24],
            "per_obligation": per,
        },
        "wall_s": round(time.monotonic() - t0, 2),
        "assumptions": meta["assumptions"],
        "violations": [{"replay": v} for v in violations],
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))

    for key in sorted(known):
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]['what']}")
    for e in errors:
        print(f"HARNESS-ERROR {e}", file=sys.stderr)
    for v in violations:
        print(f"VIOLATION property={prop} replay={v}")
    if violations:
        return 1
    if errors:
        print(f"HARNESS-ERROR property={prop} {len(errors)} worker(s) gave no answer")
        return 2
    print(f"property={prop} tier={tier} held: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF))
    sys.exit(main())
