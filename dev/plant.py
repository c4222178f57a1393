#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from dev/bugs/*.py and confirms each change in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, glob
V = "/verif"; SC = "/tmp/plant-scratch"
BUGS = {}

def load():
    for f in sorted(glob.glob(V + "/dev/bugs/*.py")):
        ns = {"bug": lambda id, **k: BUGS.__setitem__(id, k), "extend": lambda id, **k: BUGS[id].update(k)}
        exec(compile(open(f).read(), f, "exec"), ns)

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

CORE = "src/SwerveTrajectoryGenerator.cpp src/path/SwervePathBuilder.cpp src/util/Cancellation.cpp"

def make(i):
    b = BUGS[i]
    d = f"{V}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sc = f"{SC}-{i}"
    shutil.rmtree(sc, ignore_errors=True)
    sh(f"git clone -q /repo {sc}")
    for f, old, new in b["edits"]:
        p = f"{sc}/{f}"
        t = open(p).read()
        if t.count(old) != 1: shutil.rmtree(sc); return f"edit of {f} matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {sc} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    kind = b.get("kind", "core")
    flags = b.get("flags", "-O1")
    std = b.get("std", "c++20")
    for x in ("mon.hpp", "rec.hpp"): shutil.copy(f"{V}/harness/{x}", d)
    shutil.copy(f"{V}/dev/demo.hpp", d)
    shutil.copytree(f"{V}/standin", f"{d}/standin")
    inc = '-I"$D" -I"$D/standin" -Iinclude -Isrc'
    pre = ""
    srcs = {"core": CORE, "header": "", "ffi": CORE + " src/RustFFI.cpp"}[kind]
    if kind == "ffi":
        shutil.copy(f"{V}/tools/cxxgen.py", d)
        pre = 'python3 "$D/cxxgen.py" src/lib.rs "$T/gen"\n'
        inc += ' -I"$T/gen"'
    if b.get("copy"):
        for x in b["copy"]:
            (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", f"{d}/{os.path.basename(x)}")
    if "demo" in b:
        open(f"{d}/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        objs = ""
        script = f"""#!/bin/bash
# Exits 0 if the behaviour described in meta.json is intact.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
{pre}for s in "$D/demo.cpp" {srcs}; do
  g++ -std={std} {flags} -pthread -D_GLIBCXX_ASSERTIONS {inc} -c "$s" -o "$T/$(basename "$s").o" &
  P="$P $!"
done
for p in $P; do wait "$p"; done
g++ {flags} -pthread "$T"/*.o -o "$T/demo"
timeout 120 "$T/demo"
"""
    else:
        script = b["script"].lstrip("\n")
        for n, x in b.get("files", {}).items(): open(f"{d}/{n}", "w").write(x.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(script)
    os.chmod(f"{d}/demo.sh", 0o755)
    # confirm
    test = f"/tmp/plant-{i}"; shutil.rmtree(test, ignore_errors=True); shutil.copytree(d, test)
    for x in ("patch.diff", "meta.json"): os.unlink(f"{test}/{x}")
    clean = sh(f"bash {test}/demo.sh", cwd="/repo")
    bad = sh(f"bash {test}/demo.sh", cwd=sc)
    shutil.rmtree(test)
    # the baseline tests and header checks, built from the scratch copy
    sub = f"{sc}-subset"; shutil.rmtree(sub, ignore_errors=True); shutil.copytree("/opt/vp/subset", sub)
    c = open(f"{sub}/CMakeLists.txt").read().replace("set(REPO /repo)", f"set(REPO {sc})")
    open(f"{sub}/CMakeLists.txt", "w").write(c)
    r = sh(f"CC=gcc CXX=g++ cmake -S {sub} -B {sub}/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON && cmake --build {sub}/b -j4 && ctest --test-dir {sub}/b")
    shutil.rmtree(sub); shutil.rmtree(sc)
    out = []
    if clean.returncode: out.append("CLEAN FAILS:\n" + clean.stdout[-1500:])
    if not bad.returncode: out.append("PATCHED PASSES")
    if bad.returncode and ("error:" in bad.stdout and "runtime error" not in bad.stdout): out.append("PATCHED DOES NOT COMPILE\n" + bad.stdout[-1500:])
    if r.returncode: out.append("BASELINE FAILS\n" + r.stdout[-1500:])
    return ("ok   " + bad.stdout.strip()[-150:].replace("\n", " | ")) if not out else "\n".join(out)

if __name__ == "__main__":
    load()
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or [i for i, b in BUGS.items() if "demo" in b or "script" in b]
    with ThreadPoolExecutor(3) as ex:
        for i, r in zip(ids, ex.map(make, ids)): print(f"{i}: {r}", flush=True)
