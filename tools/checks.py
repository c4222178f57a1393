"""What each property's check builds and runs."""
import concurrent.futures, hashlib, os, shutil, sys

COMMON = ["-g1", "-Wall", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-pthread"]
MODES = {
    # AddressSanitizer + UndefinedBehaviorSanitizer, every report fatal.
    "asan": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + COMMON),
    # The same on a release configuration (assert() compiled out).
    "asan-ndebug": dict(flags=["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + COMMON),
    "tsan": dict(flags=["-O1", "-fsanitize=thread"] + COMMON),
    "fast": dict(flags=["-O2"] + COMMON),
    "plain": dict(flags=["-O1"] + COMMON),
    "valgrind": dict(flags=["-O1"] + COMMON, wrap=["valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--track-origins=no"]),
}
CORE = ["src/SwerveTrajectoryGenerator.cpp", "src/path/SwervePathBuilder.cpp", "src/util/Cancellation.cpp"]
BUILDS = {
    "util": dict(srcs=["harness/util.cpp"]),
    "model": dict(srcs=["harness/model.cpp"], repo=CORE),
    "cons": dict(srcs=["harness/cons.cpp"], repo=CORE),
    "expected": dict(srcs=["harness/expected.cpp"] + [f"harness/expected_{k}.cpp" for k in (1, 2, 3, 4)], std="c++23"),
    "ffi": dict(srcs=["harness/ffi.cpp"], repo=CORE + ["src/RustFFI.cpp"], ffi=True),
    "geom": dict(srcs=["harness/geom.cpp"]),
    "conc": dict(srcs=["harness/conc.cpp"], repo=CORE),
    "gen": dict(srcs=["harness/gen.cpp"], repo=CORE),
}
BUILDS["e2e"] = dict(srcs=["harness/e2e.cpp"], repo=CORE, flags=["-isystem", "/usr/include/eigen3"])
CHECKS = {}


def build_rust(x):
    """The crate (bridge expanded) and its driver as a static library, linked with the C++ side."""
    V, REPO, out, sh, Inc = x["V"], x["REPO"], x["out"], x["sh"], x["Inconclusive"]
    gen, crate, driver, target = (os.path.join(out, d) for d in ("gen", "crate", "driver", "target"))

    def do(cmd, what, **kw):
        r = sh(cmd, **kw)
        if r.returncode: raise Inc(f"{what}:\n{r.stdout[-6000:]}")
    do([sys.executable, os.path.join(V, "tools", "cxxgen.py"), os.path.join(REPO, "src", "lib.rs"), gen, "--rust"], "bridge generator failed")
    for d in (crate, driver): os.makedirs(d, exist_ok=True)
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "trajoptlib"
version = "0.1.0"
edition = "2021"
[lib]
path = "{gen}/lib.rs"
[dependencies]
cxx = {{ path = "{V}/rust/cxx" }}
serde = {{ version = "1.0", features = ["derive"] }}
serde_json = "1.0"
""")
    with open(os.path.join(V, "rust", "driver", "Cargo.toml.in")) as f: toml = f.read()
    with open(os.path.join(driver, "Cargo.toml"), "w") as f: f.write(toml.replace("@V@", V).replace("@OUT@", out))

    def cargo():
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        do(["cargo", "build", "--offline", "-q"], "the Rust crate does not build", cwd=driver, env=env)
    m = MODES[x["mode"]]
    flags = ["-std=c++20"] + m["flags"] + ["-I" + p for p in (V + "/standin", V + "/harness", REPO + "/include", REPO + "/src", gen)]
    objs = []

    def cc(s):
        o = os.path.join(out, hashlib.md5(s.encode()).hexdigest()[:10] + ".o")
        do(["g++"] + flags + ["-c", s, "-o", o], f"does not compile: {s}")
        objs.append(o)
    srcs = [V + "/harness/rustapi.cpp", gen + "/shim.cpp"] + [os.path.join(REPO, s) for s in CORE + ["src/RustFFI.cpp"]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cargo)] + [ex.submit(cc, s) for s in srcs]
        for f in fs: f.result()
    do(["g++"] + flags + objs + [target + "/debug/libdriver.a", "-o", os.path.join(out, "run"), "-pthread", "-ldl"], "does not link")
    for o in objs: os.unlink(o)
    shutil.rmtree(target, ignore_errors=True)


BUILDS["safety"] = dict(srcs=["harness/safety.cpp"], repo=CORE + ["src/RustFFI.cpp"], ffi=True)
BUILDS["ffi_conc"] = dict(srcs=["harness/ffi_conc.cpp"], repo=CORE + ["src/RustFFI.cpp"], ffi=True)
BUILDS["faults"] = dict(srcs=["harness/safety.cpp"], repo=CORE + ["src/RustFFI.cpp"], ffi=True, flags=["-DFAULTS"])
BUILDS["rust"] = dict(custom=build_rust)


def check(prop, build, mode="asan", **kw):
    CHECKS[prop] = dict(runs=[dict(build=build, mode=mode)], **kw)


for p in ("C01", "C02", "C03"):
    check(p, "util")
for p in ("C11", "C12", "C13", "C14", "C15", "C17"):
    check(p, "model")
for p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    check(p, "cons")
for p in ("C16", "C18", "C19", "C20", "C21", "C23"):
    check(p, "gen")
CHECKS["C22"] = dict(runs=[dict(build="conc", mode="tsan", quick_shards=2), dict(build="ffi_conc", mode="tsan", quick_shards=2), dict(build="conc", mode="asan", thorough_only=True)])
check("C24", "expected", technique="runtime monitoring: lockstep differential testing against std::expected, ASan/UBSan")
check("C25", "expected", level="fault_enumeration", technique="runtime monitoring: object-lifetime ledger with an exception injected at every throwing point, ASan/UBSan")
for p in ("C26", "C27"):
    check(p, "geom")
for p in ("C28", "C29"):
    check(p, "ffi")
CHECKS["C21"]["runs"].append(dict(build="ffi", mode="asan"))
check("C30", "rust")
CHECKS["C31"] = dict(runs=[dict(build="safety", mode="asan"), dict(build="faults", mode="asan", quick_shards=2), dict(build="safety", mode="valgrind", args=["--scale", "0.05"], quick_shards=1)])
CHECKS["C32"] = dict(runs=[dict(build="safety", mode="asan-ndebug", quick_shards=4)])
CHECKS["C33"] = dict(runs=[dict(build="e2e", mode="fast", quick_shards=6)], technique="runtime monitoring: whole generations run to convergence by an instrumented interior-point solver, judged by an independent physics checker, closed-form least times and metamorphic relations")

RM = "runtime monitoring, ASan/UBSan: "
TECHNIQUES = {
    "C01": (RM + "counting reference over random and million-sample segment layouts", "Counts to 2^44 in total by sampled queries; out-of-range queries judged where the position depends on a missing segment."),
    "C02": (RM + "long-double reference oracle", "Up to a few thousand samples; finite operands only."),
    "C03": (RM + "long-double reference oracle and sweep/heading invariants", "Up to a few thousand samples; finite operands only."),
    "C04": (RM + "dynamic-programming acceptor over random guess histories", "Paths to 24 waypoints; leaves open how a remainder of samples is distributed."),
    "C05": (RM + "independent interpreter of call histories plus a commuted twin builder, compared on the recorded optimization problem", "Histories to 40 calls, paths to 20 waypoints."),
    "C06": (RM + "recorded feasible set compared with exact polygon distance at bisected boundary poses", "Outlines to 10 corners; poses within 1e-6 of the bound are left open."),
    "C07": (RM + "recorded feasible set probed on both sides of each limit", "Relative distance to the limit down to 1e-6."),
    "C08": (RM + "recorded feasible set probed on both sides of each pose/position/heading rule", "One known finding (reversed heading)."),
    "C09": (RM + "recorded feasible set probed on both sides of each keep-out, line and direction rule", "Degenerate lines are not judged."),
    "C10": (RM + "per-sample probing of which samples each rule binds", "Paths to 6 waypoints and segments to 140 intervals."),
    "C11": (RM + "simulated motions must be admitted, single kinematic faults must not", "Two known findings (half-turn jumps; free length of the heading vector)."),
    "C12": (RM + "simulated motions must be admitted, single force/torque faults must not", "Drivetrains of 0-8 modules."),
    "C13": (RM + "simulated motions at their limits must be admitted, single excesses must not", "Drivetrains of 0-8 modules."),
    "C14": (RM + "recorded cost and step bounds against the stated ones", "Sampled steps; no bound with a single module."),
    "C15": (RM + "metamorphic: permuted drivetrains must admit the same motions", "Sampled motions and permutations."),
    "C16": (RM + "solver starting point observed at its entry against finite differences of the builder's guess", "Sampled builders."),
    "C17": (RM + "bit-exact comparison of returned solutions with the solver's final values", "Sampled final values including infinities, signed zeros and tiny numbers."),
    "C18": (RM + "scripted solver endings; outcome, message and settings monitored", "All ten exit conditions, sequences of up to several generations."),
    "C19": (RM + "exact and long-double reference for conversion of solutions", "Sampled solutions."),
    "C20": (RM + "online trace monitor of progress reports under a virtual clock", "Nested, interleaved and threaded generations; instants within 1 us of the limit are left open."),
    "C21": (RM + "online monitor of cancellation, requests injected at each kind of point", "One known finding (a generation that starts clears a request pending for another)."),
    "C22": ("ThreadSanitizer over stressed concurrent generations with injected yields, outcomes compared with solitary runs (thorough: also ASan)", "Sampled interleavings of 2-8 threads."),
    "C23": (RM + "builder/generator isolation, and the same path in fresh and used processes compared on the recorded problem", "Sampled histories."),
    "C26": (RM + "plane-geometry reference oracle", "200 000 operand sets a shard; one known finding (Translation2::Angle)."),
    "C27": (RM + "differential: numeric, symbolic and mixed operands of the same geometry", "Sampled operands."),
    "C28": (RM + "differential: native builder against the foreign-function bridge, on the recorded problem", "The C++ side of cxx is a stand-in generated from the bridge module."),
    "C29": (RM + "differential: results, reports and errors of native and bridged generations", "The C++ side of cxx is a stand-in generated from the bridge module."),
    "C30": (RM + "differential: native C++ builder against the compiled Rust crate; JSON round trips", "The bridge code is a stand-in generated from the bridge module."),
    "C31": ("AddressSanitizer, UBSan and leak checks, valgrind memcheck, and allocation-failure injection over random API histories", "Histories of valid calls; allocation failures one at a time."),
    "C32": ("AddressSanitizer and UBSan on the release configuration (NDEBUG) under storms of malformed calls", "Malformed calls sampled; resource exhaustion out of bounds."),
}
for p, (technique, note) in TECHNIQUES.items():
    CHECKS[p]["technique"], CHECKS[p]["note"] = technique, note
CHECKS["C24"]["note"] = "13 type pairs, random sequences of 40 operations on three objects."
CHECKS["C25"]["note"] = "Every throwing point of each sampled operation is failed in turn; six known findings (throwing constructors terminate)."
CHECKS["C33"]["note"] = "A converged motion judged per path; a path the solver cannot solve is not judged, but most of each family must be solvable."
