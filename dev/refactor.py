#!/usr/bin/env python3
"""Runs checks against behaviour-preserving edits of dev/refactors/*.py in scratch copies; every one must exit 0.
refactor.py [NAME[:PROP,PROP]...]; logs in /tmp/refactor."""
import glob, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; W = "/tmp/refactor"; R = {}
os.makedirs(W, exist_ok=True)
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def load():
    for f in sorted(glob.glob(V + "/dev/refactors/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"refactor": lambda n, p, e: R.__setitem__(n, (p.split(), e))})
def one(spec):
    n, _, props = spec.partition(":")
    ps, edits = R[n]
    ps = props.split(",") if props else ps
    sc, vf = f"{W}/{n}-repo", f"{W}/{n}-verif"
    for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)
    sh(f"git clone -q /repo {sc}")
    for e in edits:
        p = f"{sc}/{e[0]}"; t = open(p).read()
        if len(e) == 2: u = e[1](t)
        else:
            if t.count(e[1]) != 1: return f"{n}: edit of {e[0]} matches {t.count(e[1])} times: {e[1][:60]!r}"
            u = t.replace(e[1], e[2])
        assert u != t, (n, e[0])
        open(p, "w").write(u)
    os.makedirs(vf)
    sh(f"cd /verif && cp -r run.py tools harness standin rust known_findings.txt properties.jsonl MANIFEST.json {vf}/; mkdir -p {vf}/evidence")
    out = []
    for p in ps:
        t = time.time()
        r = sh(f"cd {vf} && TRAJOPT_REPO={sc} VERIF_SEED=${{VERIF_SEED:-1}} python3 run.py {p}")
        open(f"{W}/{n}-{p}.log", "w").write(r.stdout)
        out.append(f"{n} {p} rc={r.returncode} {time.time()-t:.0f}s" + ("" if r.returncode == 0 else "  <<< " + r.stdout.splitlines()[-1][:150] if r.stdout else ""))
    for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)
if __name__ == "__main__":
    load()
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, sys.argv[1:] or list(R)): print(r, flush=True)
