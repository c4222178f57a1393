#!/usr/bin/env python3
"""Which lines of /repo no quick check executes (gcov over all harnesses, one copy of /verif under /tmp/cov)."""
import glob, gzip, json, os, re, shutil, subprocess, sys
V, W = "/verif", "/tmp/cov"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/verif/evidence")
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
sh(f"cd {V} && cp -r run.py tools harness standin rust known_findings.txt properties.jsonl MANIFEST.json {W}/verif/")
p = W + "/verif/tools/checks.py"; s = open(p).read()
s = s.replace('COMMON = ["-g1",', 'COMMON = ["-g1", "--coverage", "-fprofile-update=atomic",').replace("for o in objs: os.unlink(o)", "")
open(p, "w").write(s)
p = W + "/verif/run.py"; s = open(p).read(); open(p, "w").write(s.replace('= "130"', '= "25"'))
props = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 34)]
for c in props: print(c, sh(f"cd {W}/verif && python3 run.py {c} | tail -1").strip()[:150], flush=True)
hit = {}
for d in sorted({os.path.dirname(x) for x in glob.glob(W + "/verif/build/**/*.gcda", recursive=True)}):
    out = d + "/json"; os.makedirs(out, exist_ok=True)
    sh(f"cd {out} && gcov -j {d}/*.gcda -o {d}")
    for g in glob.glob(out + "/*.gz"):
        for f in json.load(gzip.open(g))["files"]:
            n = os.path.abspath(os.path.join(out, f["file"]))
            if "/repo/" not in f["file"] or "test" in f["file"]: continue
            n = f["file"].split("/repo/")[-1]
            for l in f["lines"]: hit.setdefault(n, {}).setdefault(l["line_number"], 0); hit[n][l["line_number"]] += l["count"]
for n, ls in sorted(hit.items()):
    miss = [k for k, c in sorted(ls.items()) if not c]
    print(n, f"{len(ls) - len(miss)}/{len(ls)}", miss)
