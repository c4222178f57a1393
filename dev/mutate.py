#!/usr/bin/env python3
"""Small changes at random places, one at a time, in scratch copies: which of them does no check notice?
mutate.py SEED COUNT [FILE...]; survivors are listed in /tmp/mutate/survivors.txt with their diffs, to be judged by hand."""
import hashlib, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.environ.get("VCOPY", "/verif"); W = "/tmp/mutate"
os.makedirs(W, exist_ok=True)
I = "include/trajopt/"
CHECKS = {  # file: the checks that may notice, the likely ones first
 "src/SwerveTrajectoryGenerator.cpp": "C17 C16 C10 C11 C12 C13 C14 C18 C20 C21 C15 C23 C31 C32",
 "src/path/SwervePathBuilder.cpp": "C05 C06 C10 C28 C04 C23 C32",
 I + "path/SwervePathBuilder.hpp": "C10 C05 C28 C32",
 I + "util/GenerateLinearInitialGuess.hpp": "C04 C03 C16 C32",
 I + "util/TrajoptUtil.hpp": "C01 C02 C03 C04 C32",
 I + "trajectory/HolonomicTrajectory.hpp": "C19 C32", I + "trajectory/HolonomicTrajectorySample.hpp": "C19 C29",
 I + "geometry/Rotation2.hpp": "C26 C27", I + "geometry/Translation2.hpp": "C26 C27", I + "geometry/Pose2.hpp": "C26 C27",
 I + "constraint/detail/LinePointDistance.hpp": "C09 C06", "src/RustFFI.cpp": "C28 C29 C30", "src/lib.rs": "C30 C28", "src/util/Cancellation.cpp": "C21",
 I + "util/expected": "C24 C25", I + "SwerveTrajectoryGenerator.hpp": "C23 C20 C29",
 I + "solution/SwerveSolution.hpp": "C17 C19",
}
for c in ("AngularVelocityMaxMagnitude", "LinearVelocityMaxMagnitude", "LinearAccelerationMaxMagnitude", "LinearVelocityDirection"): CHECKS[I + f"constraint/{c}Constraint.hpp"] = "C07"
for c in ("LinePoint", "PointLine", "PointPoint"): CHECKS[I + f"constraint/{c}Constraint.hpp"] = "C09"
for c in ("PointAt", "PoseEquality", "TranslationEquality"): CHECKS[I + f"constraint/{c}Constraint.hpp"] = "C08"

SWAPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < ", " >= "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " <= "]), (r" == ", [" != ", " >= "]), (r" != ", [" == "]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" = ", " -= "]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r" - 1\b", [""]), (r" \+ 1\b", ["", " + 2"]),
 (r"\bX\(\)", ["Y()"]), (r"\bY\(\)", ["X()"]), (r"\bCos\(\)", ["Sin()"]), (r"\bSin\(\)", ["Cos()"]), (r"\bm_x\b", ["m_y"]), (r"\bm_y\b", ["m_x"]), (r"\bm_cos\b", ["m_sin"]), (r"\bm_sin\b", ["m_cos"]),
 (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bvx\b", ["vy"]), (r"\bvy\b", ["vx"]), (r"\bax\b", ["ay"]), (r"\bay\b", ["ax"]), (r"\bFx\b", ["Fy"]), (r"\bFy\b", ["Fx"]), (r"\bthetacos\b", ["thetasin"]), (r"\bthetasin\b", ["thetacos"]),
 (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"\bfrom_?[iI]ndex\b", ["toIndex", "to_index"]), (r"\bto_?[iI]ndex\b", ["fromIndex", "from_index"]), (r"\bif \(", ["if (!", "if (true || ", "if (false && "]),
 (r"std::move\(", ["("]), (r"std::forward<\w+>\(", ["("]), (r"\b(\d+\.\d+)\b", ["2.0 * \\1"]), (r"\bcos\(", ["sin("]), (r"\bsin\(", ["cos("]), (r"(?<=[(, ])-(?=[a-zA-Z_])", [""]), (r"\bindex\b", ["index + 1"]), (r"\bwidth\b", ["length"]), (r"\blength\b", ["width"]),
 (r"\bthis->has_value\(\)|\bhas_value\(\)", ["true", "false"]), (r"\bvalue\b", ["error"]), (r"\brhs\b", ["lhs", "other"]), (r"\bconst &", ["&"]),
]
def mutants(path, text):
    out = []
    pos = 0
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        code = line.split("//")[0]
        skip = not s or s.startswith(("//", "*", "/*", "#", "///", "using ", "namespace", "template", "requires", "static_assert"))
        if not skip:
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        new = line[:m.start()] + m.expand(r) + line[m.end():]
                        if new != line: out.append((n, line, new))
            if s.endswith(";") and not s.startswith(("return", "}", "const", "auto", "double", "size_t", "int", "break", "case", "friend", "explicit", "constexpr")) and code.count("(") == code.count(")"):
                out.append((n, line, re.match(r"\s*", line).group() + ";"))
            if s in ("break;", "continue;"): out.append((n, line, ""))
    return out
def sh(c, t=1500): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def one(job):
    k, f, (n, old, new) = job
    h = hashlib.md5(f"{f}{n}{new}".encode()).hexdigest()[:8]
    tag = f"{os.path.basename(f)}:{n+1} {old.strip()!r} -> {new.strip()!r}"
    sc, vf = f"{W}/{h}-repo", f"{W}/{h}-verif"
    for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)
    sh(f"git clone -q /repo {sc}")
    p = f"{sc}/{f}"
    lines = open(p).read().split("\n"); lines[n] = new
    open(p, "w").write("\n".join(lines))
    try:
        inc = f"-I{V}/standin -I{sc}/include -I{sc}/src -I{W}/gen"
        for x in ("src/SwerveTrajectoryGenerator.cpp", "src/path/SwervePathBuilder.cpp", "src/util/Cancellation.cpp", "src/RustFFI.cpp"):
            if f.endswith(".rs"): continue
            if (x == f or f.startswith("include")) and sh(f"g++ -std=c++20 -fsyntax-only {inc} {sc}/{x}").returncode: return "BUILD", tag
            if x == f: break
        if "expected" not in f and f.startswith("include"):
            pass
        sh(f"mkdir -p {vf}/evidence; cd {V} && cp -r run.py tools harness standin rust known_findings.txt properties.jsonl MANIFEST.json {vf}/")
        for c in CHECKS[f].split():
            r = sh(f"cd {vf} && TRAJOPT_REPO={sc} python3 run.py {c}")
            if r.returncode == 1: return "KILLED " + c, tag
            if r.returncode == 2 and ("error:" in r.stdout): return "BUILD " + c, tag
            if r.returncode == 2: return "UNCLEAR " + c + " " + r.stdout[-300:], tag
        with open(f"{W}/survivors.txt", "a") as s: s.write(f + "\n" + tag + "\n" + sh(f"git -C {sc} diff -U4 | tail -n +5").stdout + "\n")
        return "SURVIVED", tag
    except subprocess.TimeoutExpired: return "TIMEOUT", tag
    finally:
        for d in (sc, vf): shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    rng = random.Random(int(sys.argv[1]))
    sh(f"python3 {V}/tools/cxxgen.py /repo/src/lib.rs {W}/gen")
    files = sys.argv[3:] or [f for f in CHECKS if os.path.exists("/repo/" + f)]
    jobs = []
    for f in files:
        f = next(x for x in CHECKS if x.endswith(f))
        all_ = mutants(f, open("/repo/" + f).read())
        rng.shuffle(all_)
        jobs += [(k, f, m) for k, m in enumerate(all_[:int(sys.argv[2])])]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for fu in as_completed([ex.submit(one, j) for j in jobs]): print(time.strftime("%H:%M"), *fu.result(), sep=" | ", flush=True)
