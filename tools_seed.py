"""Development tool: tools_seed.py SPEC.py [ID...]  -- confirm planted changes in scratch copies and keep them under seeded/.

SPEC.py defines SEEDS = {id: dict(property=, needs=, what=, edits=[(file, old, new), ...], demo="python source")}.
Nothing registered in MANIFEST.json uses this file.
"""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -X pycache_prefix=/nonexistent/none "$here/demo.py"
"""
base = {t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])} if False else None


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def one(item):
    sid, spec = item
    wt = f"/tmp/wt/s_{sid}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"git -C /repo worktree prune; mkdir -p /tmp/wt; cp -a /repo {wt}; find {wt} -name __pycache__ -prune -exec rm -rf {{}} +")
    msgs = []
    try:
        for f, old, new in spec["edits"]:
            p = f"{wt}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "EDIT", [f"{f}: {s.count(old)} matches for {old[:80]!r}"]
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=wt).stdout
        d = f"/tmp/wt/d_{sid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(f"{d}/meta.json", "w"), indent=1)
        ok = sh(f"timeout 280 bash {d}/demo.sh", cwd="/repo")
        bad = sh(f"timeout 280 bash {d}/demo.sh", cwd=wt)
        if ok.returncode != 0:
            return sid, "DEMO-FAILS-ON-CLEAN", [ok.stdout[-800:] + ok.stderr[-800:]]
        if bad.returncode == 0:
            return sid, "DEMO-PASSES-ON-BUG", []
        t = sh(f"{PY} -X pycache_prefix=/nonexistent/none -m pytest -q -x -p no:cacheprovider tests", cwd=wt, env={"PYTHONPATH": wt, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
        if t.returncode != 0:
            return sid, "TESTS-FAIL", [t.stdout[-1500:]]
        c = sh(f"bash /verif/check.sh {spec['property']} quick", env={"VERIF_REPO": wt, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, timeout=900)
        caught = c.returncode == 1 and f"VIOLATION property={spec['property']}" in c.stdout
        lines = [x for x in c.stdout.splitlines() if "failed on case" in x or "Violation:" in x or "held" in x]
        dst = f"/verif/seeded/{sid}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs("/verif/seeded", exist_ok=True)
        shutil.copytree(d, dst)
        return sid, "CAUGHT" if caught else f"MISSED rc={c.returncode}", [x[:200] for x in lines] + ([] if caught or c.returncode == 0 else [c.stdout[-500:] + c.stderr[-500:]])
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(f"/tmp/wt/d_{sid}", ignore_errors=True)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]:
        seeds = {k: v for k, v in seeds.items() if k in sys.argv[2:]}
    with ThreadPoolExecutor(3) as ex:
        for sid, status, msgs in ex.map(one, seeds.items()):
            print(sid, status, flush=True)
            for m in msgs:
                print("    ", m, flush=True)
