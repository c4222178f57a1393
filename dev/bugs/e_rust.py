LIB = "src/lib.rs"
SCRIPT = r'''
#!/bin/bash
# Exits 0 if the behaviour described in meta.json is intact.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
python3 "$D/cxxgen.py" src/lib.rs "$T/gen" --rust
mkdir "$T/crate" "$T/driver"
cat > "$T/crate/Cargo.toml" <<END
[package]
name = "trajoptlib"
version = "0.1.0"
edition = "2021"
[lib]
path = "$T/gen/lib.rs"
[dependencies]
cxx = { path = "$T/cxx" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
END
cp -r "$D/cxx" "$T/cxx"
cat > "$T/driver/Cargo.toml" <<END
[package]
name = "driver"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
path = "$D/demo.rs"
[dependencies]
trajoptlib = { path = "$T/crate" }
serde_json = "1.0"
[workspace]
END
(cd "$T/driver" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2>"$T/cargo.log") || { cat "$T/cargo.log"; exit 1; } &
P=$!
for s in "$D/demo.cpp" "$T/gen/shim.cpp" src/SwerveTrajectoryGenerator.cpp src/path/SwervePathBuilder.cpp src/util/Cancellation.cpp src/RustFFI.cpp; do
  g++ -std=c++20 -O1 -w -pthread -I"$D" -I"$D/standin" -Iinclude -Isrc -I"$T/gen" -c "$s" -o "$T/$(basename "$s").o" &
  P="$P $!"
done
for p in $P; do wait "$p"; done
g++ "$T"/*.o "$T/target/debug/libdriver.a" -o "$T/demo" -pthread -ldl
timeout 120 "$T/demo"
'''
CPP = r'''
#include "demo.hpp"
#include "wire.hpp"
#include <thread>
extern "C" {
int rs_demo();
void* cxxstandin_out_new() { return new wire::Out; }
const unsigned char* cxxstandin_out_data(void* o, size_t* n) { auto* x = static_cast<wire::Out*>(o); *n = x->b.size(); return x->b.data(); }
void cxxstandin_out_free(void* o) { delete static_cast<wire::Out*>(o); }
}
// Seen by the solver
static size_t inequalities = 0;
extern "C" size_t seen() { return inequalities; }
int main() {
  rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    inequalities = p.inequalityConstraints.size();
    std::this_thread::sleep_for(std::chrono::milliseconds(40));
    p.Iterate(0);
    return rec::Status(rec::SolverExitCondition::kSuccess); }};
  int r = rs_demo();
  if (r) std::fprintf(stderr, "demo: %d\n", r);
  return r;
}
'''
def rust(id, rs, **k):
    bug(id, prop="C30", script=SCRIPT, files={"demo.cpp": CPP, "demo.rs": rs}, copy=["tools/cxxgen.py", "rust/cxx", "harness/wire.hpp"], **k)

rust("C30-narrow-handle", needs="a handle that does not fit 32 bits", breaks="handles are truncated to 32 bits on their way through the Rust API",
     edits=[(LIB, "        match self.path_builder.generate(diagnostics, handle) {", "        let handle = i64::from(handle as i32);\n        match self.path_builder.generate(diagnostics, handle) {")],
     rs=r'''
use std::sync::atomic::{AtomicI64, Ordering};
use trajoptlib::*;
static SEEN: AtomicI64 = AtomicI64::new(-1);
fn report(_t: HolonomicTrajectory, h: i64) { SEEN.store(h, Ordering::SeqCst) }
#[no_mangle]
pub extern "C" fn rs_demo() -> i32 {
    for h in [5i64, -7, 0x1_2345_6789, i64::MIN] {
        let mut b = SwervePathBuilder::new();
        b.pose_wpt(0, 0.0, 0.0, 0.0);
        b.pose_wpt(1, 1.0, 0.0, 0.0);
        b.add_progress_callback(report);
        if b.generate(false, h).is_err() { return 2; }
        if SEEN.load(Ordering::SeqCst) != h { return 1; }
    }
    0
}
''')
rust("C30-collapsed-range", needs="a linear acceleration limit over a range of several segments", breaks="the limit is only applied to the first segment of its range",
     edits=[(LIB, """        crate::ffi::SwervePathBuilder::sgmt_linear_acceleration_max_magnitude(
            self.path_builder.pin_mut(),
            from_index,
            to_index,""", """        crate::ffi::SwervePathBuilder::sgmt_linear_acceleration_max_magnitude(
            self.path_builder.pin_mut(),
            from_index,
            std::cmp::min(to_index, from_index + 1),""")],
     rs=r'''
use trajoptlib::*;
extern "C" { fn seen() -> usize; }
fn count(limit: bool, to: usize) -> usize {
    let mut b = SwervePathBuilder::new();
    for i in 0..4 { b.pose_wpt(i, i as f64, 0.0, 0.0); }
    b.set_control_interval_counts(vec![3, 3, 3]);
    if limit { b.sgmt_linear_acceleration_max_magnitude(0, to, 2.0); }
    b.generate(false, 0).unwrap();
    unsafe { seen() }
}
#[no_mangle]
pub extern "C" fn rs_demo() -> i32 {
    let none = count(false, 3);
    if !(none < count(true, 1)) { return 2; }
    if !(count(true, 1) < count(true, 2)) { return 1; }
    if !(count(true, 2) < count(true, 3)) { return 1; }
    0
}
''')
rust("C30-unwrapped-error", needs="a solver failure whose message is long", breaks="error messages of failed generations are cut",
     edits=[(LIB, "            Err(msg) => Err(msg.what().to_string()),", "            Err(msg) => Err(msg.what().split(' ').take(3).collect::<Vec<_>>().join(\" \")),")],
     rs=r'''
use trajoptlib::*;
extern "C" fn _unused() {}
#[no_mangle]
pub extern "C" fn rs_demo() -> i32 {
    let mut b = SwervePathBuilder::new();
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.pose_wpt(1, 1.0, 0.0, 0.0);
    b.set_control_interval_counts(vec![1, 1, 1, 1]);
    match b.generate(false, 0) {
        Ok(_) => 2,
        Err(m) => if m.split(' ').count() > 3 { 0 } else { eprintln!("{m}"); 1 },
    }
}
''')
