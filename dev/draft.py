#!/usr/bin/env python3
"""Runs checks against edits of dev/bugs/*.py in scratch copies, without touching /repo: draft.py [ID[:PROP,PROP]...]
The build of the baseline is tried too ("BASELINE" if it fails)."""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/draft"
os.makedirs(W, exist_ok=True)

def one(spec):
    i, _, props = spec.partition(":")
    b = plant.BUGS[i]
    props = props.split(",") if props else [b["prop"]]
    sc, vf = f"{W}/{i}-repo", f"{W}/{i}-verif"
    for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)
    plant.sh(f"git clone -q /repo {sc}")
    for f, old, new in b["edits"]:
        p = f"{sc}/{f}"; t = open(p).read()
        if t.count(old) != 1: shutil.rmtree(sc); return f"{i}: edit of {f} matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    os.makedirs(vf)
    plant.sh(f"cd /verif && cp -r run.py tools harness standin rust known_findings.txt properties.jsonl MANIFEST.json {vf}/; mkdir -p {vf}/evidence")
    out = []
    for p in props:
        t = time.time()
        r = plant.sh(f"cd {vf} && TRAJOPT_REPO={sc} VERIF_SEED=${{VERIF_SEED:-1}} python3 run.py {p}")
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "nconclusive" in l]
        open(f"{W}/{i}-{p}.log", "w").write(r.stdout)
        out.append(f"{i} {p} rc={r.returncode} {time.time()-t:.0f}s " + " ".join(lines[:2])[:160])
    for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)

if __name__ == "__main__":
    plant.load()
    specs = sys.argv[1:] or [i for i, b in plant.BUGS.items()]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, specs): print(r, flush=True)
