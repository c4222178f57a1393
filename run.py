#!/usr/bin/env python3
"""Builds and runs the monitor of one property: run.py C01 [--tier quick|thorough]

Exit 0: held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: inconclusive (does not build, harness error, watchdog without a stable hang).
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TRAJOPT_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import BUILDS, CHECKS, MODES  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                dirs[:] = [d for d in dirs if d not in (".git", "_build", "target", "__pycache__")]
                for f in sorted(files):
                    q = os.path.join(root, f)
                    h.update(q.encode()); h.update(b"\0")
                    with open(q, "rb") as fh: h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:16]


_input_hash = None
def input_hash():
    global _input_hash
    if _input_hash is None:
        _input_hash = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                                 os.path.join(V, "harness"), os.path.join(V, "standin"), os.path.join(V, "rust"), os.path.join(V, "tools")])
    return _input_hash


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def prune():
    """Keep the build cache small: only the newest few input hashes."""
    if not os.path.isdir(BUILD): return
    ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{16}", d))
    for _, d in ds[:-4]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build(name, mode):
    """Compiles one harness from the working tree; returns the executable."""
    b = BUILDS[name]
    out = os.path.join(BUILD, input_hash(), f"{name}-{mode}")
    exe = os.path.join(out, b.get("exe", "run"))
    done = os.path.join(out, "done")
    if os.path.exists(done) and os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    if "custom" in b:
        b["custom"](dict(V=V, REPO=REPO, out=out, mode=mode, sh=sh, Inconclusive=Inconclusive))
    else:
        m = MODES[mode]
        inc = ["-I" + os.path.join(V, "standin"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(REPO, "src")]
        if b.get("ffi"):
            gen = os.path.join(out, "gen")
            r = sh([sys.executable, os.path.join(V, "tools", "cxxgen.py"), os.path.join(REPO, "src", "lib.rs"), gen])
            if r.returncode: raise Inconclusive("bridge generator failed:\n" + r.stdout)
            inc.append("-I" + gen)
        srcs = [os.path.join(V, s) for s in b["srcs"]] + [os.path.join(REPO, s) for s in b.get("repo", [])]
        cxx = m.get("cxx", "g++")
        flags = ["-std=" + b.get("std", "c++20")] + m["flags"] + b.get("flags", []) + inc
        def cc(s):
            o = os.path.join(out, hashlib.md5(s.encode()).hexdigest()[:10] + ".o")
            return o, sh([cxx] + flags + ["-c", s, "-o", o])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(cc, srcs))
        for (o, r), s in zip(rs, srcs):
            if r.returncode: raise Inconclusive(f"does not compile: {s}\n{r.stdout[-6000:]}")
        r = sh([cxx] + flags + [o for o, _ in rs] + ["-o", exe, "-pthread"] + b.get("libs", []))
        if r.returncode: raise Inconclusive("does not link:\n" + r.stdout[-4000:])
        for o, _ in rs: os.unlink(o)
    open(done, "w").close()
    return exe


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:exitcode=77",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
    "LSAN_OPTIONS": "exitcode=77",
}


def frames(text):
    fs = []
    for mm in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::(\d+))?(?::\d+)?$", text, re.M):
        fs.append((re.sub(r"\(.*", "", mm.group(1)), mm.group(2)))
    return fs


def crash_key(text, rc):
    """A stable identity for an abnormal end."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m: kind = m.group(1)
    if not kind and "LeakSanitizer: detected memory leaks" in text: kind = "leak"
    if not kind:
        m = re.search(r"runtime error: (.+)", text)
        if m: kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1))[:70].strip().replace(" ", "_")
    if not kind:
        m = re.search(r"Assertion [`'](.+?)' failed", text)
        if m: kind = "assert:" + m.group(1)[:80].replace(" ", "_")
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        if m: kind = "terminate:" + m.group(1)
    if not kind and "terminate called" in text: kind = "terminate"
    if not kind:
        m = re.search(r"==\d+== (Invalid \w+ of size|Conditional jump|Use of uninitialised)", text)
        if m: kind = "valgrind:" + m.group(1).replace(" ", "_")
    if not kind and "panicked at" in text: kind = "rust-panic"
    if not kind: kind = f"exit-{rc}"
    where = ""
    for fn, path in frames(text):
        if path.startswith(REPO + "/"):
            where = fn.split("<")[0].strip(); break
    return f"crash:{kind}" + (f"@{where}" if where else "")


def tsan_keys(text):
    out = {}
    for blk in re.split(r"^=+$", text, flags=re.M):
        if "WARNING: ThreadSanitizer" not in blk: continue
        kind = re.search(r"ThreadSanitizer: (.+?) \(pid", blk)
        names = []
        for mm in re.finditer(r"#\d+ (.+?) (/\S+)", blk):
            if mm.group(2).startswith(REPO + "/"):
                n = re.sub(r"\(.*", "", mm.group(1)).split("<")[0].strip()
                if n not in names: names.append(n)
        key = "race:" + (kind.group(1).replace(" ", "-") if kind else "?") + "@" + "+".join(sorted(names)[:2])
        out.setdefault(key, blk.strip()[:3000])
    return out


def run_once(prop, spec, exe, tier, seed, tag, extra=(), timeout=240, stall=130):
    work = os.path.join(BUILD, "runs", f"{prop}-{os.getpid()}-{tag}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep, prog, err = (os.path.join(work, f) for f in ("report.json", "progress", "stderr"))
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--report", rep, "--progress", prog] + list(extra)
    wrap = MODES[spec["mode"]].get("wrap")
    if wrap: cmd = wrap + cmd
    env = dict(os.environ, **SAN_ENV)
    if tier == "quick": env["VP_BUDGET"] = "130"
    t0 = time.time()
    res = dict(cmd=cmd, viols=[], report=None, hang=False, err="")
    with open(err, "w") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=work, start_new_session=True)
        # No progress for a while, or no end at all: stopped.
        last, at, rc = None, time.time(), None
        while time.time() - t0 < timeout:
            try:
                rc = p.wait(2)
                break
            except subprocess.TimeoutExpired: pass
            try:
                with open(prog, "rb") as f: cur = f.read()
            except OSError: cur = b""
            if cur != last: last, at = cur, time.time()
            elif cur.strip(b"\0") and time.time() - at > stall: break
        if rc is None and p.poll() is None:
            os.killpg(p.pid, 9); p.wait()
        elif rc is None: rc = p.poll()
    with open(err, errors="replace") as f: text = f.read()
    try:
        with open(prog, "rb") as f: note = f.read().split(b"\0")[0].decode(errors="replace")
    except OSError: note = ""
    res.update(rc=rc, err=text, note=note, wall=time.time() - t0)
    if os.path.exists(rep):
        with open(rep) as f: res["report"] = json.load(f)
        res["viols"] = res["report"]["violations"]
    ph = note.split("|")[0] if note else "?"
    cs = note.split("|")[1] if note.count("|") >= 2 else "-1"
    nt = note.split("|", 2)[2] if note.count("|") >= 2 else ""
    if rc is None:
        res["hang"] = True
    elif spec["mode"].startswith("tsan"):
        for k, blk in tsan_keys(text).items():
            res["viols"].append(dict(key=k, detail=blk, phase="tsan", case=-1, count=1))
        if rc not in (0, 66):
            if rc == 3: raise Inconclusive("harness error: " + text[-2000:])
            res["viols"].append(dict(key=crash_key(text, rc), detail=f"phase {ph} {nt}\n" + text[-6000:], phase=ph, case=int(cs), count=1))
    elif rc == 3:
        raise Inconclusive("harness error: " + text[-2000:])
    elif rc != 0:
        i = max(text.find("=ERROR: "), text.find("runtime error"), 0)
        res["viols"].append(dict(key=crash_key(text, rc), detail=f"phase {ph} {nt}\n" + text[max(0, i - 200):i + 5000], phase=ph, case=int(cs), count=1))
    shutil.rmtree(work, ignore_errors=True)
    return res


def run_guarded(prop, spec, exe, tier, seed, tag, extra, timeout):
    r = run_once(prop, spec, exe, tier, seed, tag, extra, timeout)
    if r["hang"]:
        log(f"watchdog: {prop} exceeded {timeout} s at {r['note']!r}; running again")
        r2 = run_once(prop, spec, exe, tier, seed, tag + "r", extra, timeout)
        if not r2["hang"]: return r2
        if r["note"] == r2["note"]:
            r2["viols"].append(dict(key="hang:" + r2["note"].split("|")[0], detail=f"made no progress twice for {timeout} s at {r2['note']}", phase=r2["note"].split("|")[0], case=-1, count=1))
            return r2
        raise Inconclusive(f"watchdog fired at {r['note']!r} and {r2['note']!r}")
    return r


def load_known(prop):
    out = []
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case")
    ap.add_argument("--phase")
    ap.add_argument("--scale")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    check = CHECKS[prop]
    prune()
    extra = []
    for n in ("case", "phase", "scale"):
        if getattr(a, n): extra += ["--" + n, getattr(a, n)]
    try:
        jobs = []
        builds = sorted({(s["build"], s["mode"]) for s in check["runs"]})
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            exes = dict(zip(builds, ex.map(lambda bm: build(*bm), builds)))
        tb = time.time() - t0
        if a.build_only: return 0
        for i, s in enumerate(check["runs"]):
            if tier == "quick" and s.get("thorough_only"): continue
            shards = s.get("shards", 8) if tier == "thorough" and not a.case else s.get("quick_shards", 4)
            for k in range(shards):
                seed = a.seed if k == 0 else (a.seed * 1000003 + k * 7919) & 0x7FFFFFFF
                jobs.append((s, seed, f"{i}.{k}"))
        timeout = check.get("timeout", 360) if tier == "quick" else check.get("timeout_thorough", 3600)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda j: run_guarded(prop, j[0], exes[(j[0]["build"], j[0]["mode"])], tier, j[1], j[2], extra + j[0].get("args", []), timeout), jobs))
    except Inconclusive as e:
        log(f"INCONCLUSIVE property={prop}: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        log(f"INCONCLUSIVE property={prop}: build timed out: {e}")
        return 2

    # Merge.
    hashes, evals, cases, rules, samples, assume, stats, viols, incon = set(), 0, 0, [], [], [], {}, {}, []
    for (s, seed, tag), r in zip(jobs, results):
        rep = r["report"]
        if rep:
            hashes.update(rep.get("hashes", [])); evals += rep["evals"]; cases += rep["cases"]
            if rep["rule"] and rep["rule"] not in rules: rules.append(rep["rule"])
            samples += [x if len(x) < 700 else x[:700] + " ..." for x in rep["samples"][:3]] if len(samples) < 8 else []
            for x in rep["assumptions"]:
                if x not in assume: assume.append(x)
            for k, v in rep["stats"].items(): stats[k] = stats.get(k, 0) + v
            if rep["inconclusive"]: incon.append(rep["inconclusive"])
        for v in r["viols"]:
            v = dict(v, seed=seed, build=s["build"], mode=s["mode"], cmd=r["cmd"], stderr=r["err"][-4000:])
            viols.setdefault(v["key"], v)
    known = load_known(prop)
    new = []
    for k, v in viols.items():
        hit = [w for kk, w in known if kk == k]
        if hit: log(f"KNOWN-FINDING: property={prop} {hit[0]}")
        else: new.append(v)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=a.seed, level=check.get("level", "exploration"),
              coverage=dict(evaluations=cases, distinct_nontrivial=len(hashes), rule=" | ".join(rules), samples=samples or ["(none)"],
                            oracle_evaluations=evals, monitors=stats, runs=[f"{s['build']}/{s['mode']} seed={sd}" for s, sd, _ in jobs],
                            known_findings_observed=[k for k in viols if any(k == kk for kk, _ in known)]),
              assumptions=check.get("assumptions", []) + assume, wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed={a.seed}: {cases} cases, {evals} oracle evaluations, {len(hashes)} distinct; build {tb:.1f} s, total {wall:.1f} s")
    if new:
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for v in new:
            path = os.path.join(rd, f"{prop}-{hashlib.md5(v['key'].encode()).hexdigest()[:8]}.json")
            rr = f"python3 run.py {prop} --tier {tier} --seed {v['seed']}"
            if v.get("case", -1) is not None and v.get("case", -1) >= 0: rr += f" --phase {v['phase']!r} --case {v['case']}"
            v["rerun"] = rr
            with open(path, "w") as f: json.dump(v, f, indent=1)
            log(f"  {v['key']} (x{v.get('count', 1)}): {v['detail'][:700]}")
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    if incon or not results or all(r["report"] is None for r in results) or not evals:
        log(f"INCONCLUSIVE property={prop}: {incon or 'nothing observed'}")
        return 2
    return 0


sys.exit(main())
