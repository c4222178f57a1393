//! Replays the harness's call sequences on the crate's public API.
use std::cell::RefCell;
use std::ffi::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
use trajoptlib::{HolonomicTrajectory, HolonomicTrajectorySample, Pose2d, SwerveDrivetrain, SwerveModule, SwervePathBuilder};

#[repr(C)]
pub struct RsOp {
    kind: i32,
    i: usize,
    j: usize,
    v: [f64; 3],
    xs: *const f64,
    nx: usize,
    ys: *const f64,
    ny: usize,
}
fn list(p: *const f64, n: usize) -> Vec<f64> {
    if n == 0 { Vec::new() } else { unsafe { std::slice::from_raw_parts(p, n).to_vec() } }
}

fn flatten(t: &HolonomicTrajectory) -> Vec<Vec<f64>> {
    t.samples
        .iter()
        .map(|s| {
            let mut v = vec![s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity, s.module_forces_x.len() as f64];
            v.extend(&s.module_forces_x);
            v.push(s.module_forces_y.len() as f64);
            v.extend(&s.module_forces_y);
            v
        })
        .collect()
}

type Sink = extern "C" fn(ctx: *mut c_void, which: i32, handle: i64, sample: usize, p: *const f64, n: usize);
thread_local! {
    static SINK: RefCell<Option<(Sink, usize)>> = const { RefCell::new(None) };
}
fn emit(which: i32, handle: i64, t: &HolonomicTrajectory) {
    SINK.with(|s| {
        if let Some((f, ctx)) = *s.borrow() {
            f(ctx as *mut c_void, which, handle, usize::MAX, std::ptr::null(), 0);
            for (k, v) in flatten(t).iter().enumerate() {
                f(ctx as *mut c_void, which, handle, k, v.as_ptr(), v.len());
            }
        }
    });
}
fn callback0(t: HolonomicTrajectory, h: i64) {
    emit(0, h, &t)
}
fn callback1(t: HolonomicTrajectory, h: i64) {
    emit(1, h, &t)
}

#[no_mangle]
pub extern "C" fn rs_new(use_default: bool) -> *mut SwervePathBuilder {
    Box::into_raw(Box::new(if use_default { SwervePathBuilder::default() } else { SwervePathBuilder::new() }))
}
#[no_mangle]
pub unsafe extern "C" fn rs_free(p: *mut SwervePathBuilder) {
    drop(Box::from_raw(p))
}
#[no_mangle]
pub unsafe extern "C" fn rs_callback(b: *mut SwervePathBuilder, which: i32) {
    (*b).add_progress_callback(if which == 0 { callback0 } else { callback1 })
}
#[no_mangle]
pub extern "C" fn rs_cancel_all() {
    trajoptlib::cancel_all()
}

/// 0 done, 1 panicked.
#[no_mangle]
pub unsafe extern "C" fn rs_apply(b: *mut SwervePathBuilder, o: *const RsOp) -> i32 {
    let (b, o) = (&mut *b, &*o);
    let v = &o.v;
    catch_unwind(AssertUnwindSafe(|| {
        let (xs, ys) = (list(o.xs, o.nx), list(o.ys, o.ny));
        match o.kind {
            0 => {
                let modules = xs
                    .chunks_exact(5)
                    .map(|m| SwerveModule { x: m[0], y: m[1], wheel_radius: m[2], wheel_max_angular_velocity: m[3], wheel_max_torque: m[4] })
                    .collect();
                b.set_drivetrain(&SwerveDrivetrain { mass: v[0], moi: v[1], modules })
            }
            1 => b.set_bumpers(v[0], v[1]),
            2 => b.set_control_interval_counts(xs.iter().map(|x| *x as usize).collect()),
            3 => b.pose_wpt(o.i, v[0], v[1], v[2]),
            4 => b.translation_wpt(o.i, v[0], v[1], v[2]),
            5 => b.empty_wpt(o.i, v[0], v[1], v[2]),
            6 => {
                let poses: Vec<Pose2d> = xs.chunks_exact(3).map(|p| Pose2d { x: p[0], y: p[1], heading: p[2] }).collect();
                b.sgmt_initial_guess_points(o.i, &poses)
            }
            7 => b.wpt_linear_velocity_direction(o.i, v[0]),
            8 => b.wpt_linear_velocity_max_magnitude(o.i, v[0]),
            9 => b.wpt_angular_velocity_max_magnitude(o.i, v[0]),
            10 => b.wpt_linear_acceleration_max_magnitude(o.i, v[0]),
            11 => b.wpt_point_at(o.i, v[0], v[1], v[2]),
            12 => b.sgmt_linear_velocity_direction(o.i, o.j, v[0]),
            13 => b.sgmt_linear_velocity_max_magnitude(o.i, o.j, v[0]),
            14 => b.sgmt_angular_velocity_max_magnitude(o.i, o.j, v[0]),
            15 => b.sgmt_linear_acceleration_max_magnitude(o.i, o.j, v[0]),
            16 => b.sgmt_point_at(o.i, o.j, v[0], v[1], v[2]),
            17 => b.sgmt_circle_obstacle(o.i, o.j, v[0], v[1], v[2]),
            18 => b.sgmt_polygon_obstacle(o.i, o.j, xs, ys, v[0]),
            _ => unreachable!(),
        }
    }))
    .map_or(1, |_| 0)
}

/// 0 Ok, 1 Err, 2 panicked. Trajectories go to the sink as callback -1, error
/// messages to `msg`.
#[no_mangle]
pub unsafe extern "C" fn rs_generate(b: *mut SwervePathBuilder, diagnostics: bool, handle: i64, sink: Sink, ctx: *mut c_void, msg: *mut u8, cap: usize, len: *mut usize) -> i32 {
    SINK.with(|s| *s.borrow_mut() = Some((sink, ctx as usize)));
    let r = catch_unwind(AssertUnwindSafe(|| (*b).generate(diagnostics, handle)));
    let rc = match r {
        Ok(Ok(t)) => {
            emit(-1, handle, &t);
            // What was returned is owned: it outlives the builder's next call.
            0
        }
        Ok(Err(e)) => {
            let n = e.len().min(cap);
            std::ptr::copy_nonoverlapping(e.as_ptr(), msg, n);
            *len = n;
            1
        }
        Err(_) => 2,
    };
    SINK.with(|s| *s.borrow_mut() = None);
    rc
}

fn near(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 4.0 * f64::EPSILON * x.abs())
}
fn keys(v: &serde_json::Value, want: &[&str]) -> Result<(), String> {
    let o = v.as_object().ok_or("not a JSON object")?;
    let got: Vec<&str> = o.keys().map(|s| s.as_str()).collect();
    let (mut g, mut w) = (got.clone(), want.to_vec());
    g.sort();
    w.sort();
    if g == w { Ok(()) } else { Err(format!("keys {got:?} instead of {want:?}")) }
}
fn num(v: &serde_json::Value, k: &str, want: f64) -> Result<(), String> {
    let g = v[k].as_f64().ok_or(format!("{k} is not a number"))?;
    if near(&[want], &[g]) { Ok(()) } else { Err(format!("{k} is {g} instead of {want}")) }
}

/// JSON of every public data type: field names, values, and back again.
fn json(f: &[f64]) -> Result<(), String> {
    let mut k = 0;
    let mut next = || {
        k += 1;
        f[(k - 1) % f.len()]
    };
    let e = |e: serde_json::Error| format!("JSON error: {e}");
    // Modules and drivetrains.
    let module_names = ["x", "y", "wheel_radius", "wheel_max_angular_velocity", "wheel_max_torque"];
    let modules: Vec<SwerveModule> = (0..3)
        .map(|_| SwerveModule { x: next(), y: next(), wheel_radius: next(), wheel_max_angular_velocity: next(), wheel_max_torque: next() })
        .collect();
    let flat = |m: &SwerveModule| [m.x, m.y, m.wheel_radius, m.wheel_max_angular_velocity, m.wheel_max_torque];
    let d = SwerveDrivetrain { mass: next(), moi: next(), modules };
    let v = serde_json::to_value(&d).map_err(e)?;
    keys(&v, &["mass", "moi", "modules"])?;
    num(&v, "mass", d.mass)?;
    num(&v, "moi", d.moi)?;
    for (j, m) in v["modules"].as_array().ok_or("modules is not a list")?.iter().zip(&d.modules) {
        keys(j, &module_names)?;
        for (n, x) in module_names.iter().zip(flat(m)) {
            num(j, n, x)?;
        }
    }
    let back: SwerveDrivetrain = serde_json::from_str(&serde_json::to_string(&d).map_err(e)?).map_err(e)?;
    if !near(&[d.mass, d.moi], &[back.mass, back.moi]) || back.modules.len() != d.modules.len() || !back.modules.iter().zip(&d.modules).all(|(a, b)| near(&flat(b), &flat(a))) {
        return Err(format!("drivetrain {d:?} came back as {back:?}"));
    }
    // Poses.
    let p = Pose2d { x: next(), y: next(), heading: next() };
    let v = serde_json::to_value(&p).map_err(e)?;
    keys(&v, &["x", "y", "heading"])?;
    num(&v, "x", p.x)?;
    num(&v, "y", p.y)?;
    num(&v, "heading", p.heading)?;
    let q: Pose2d = serde_json::from_value(v).map_err(e)?;
    if !near(&[p.x, p.y, p.heading], &[q.x, q.y, q.heading]) {
        return Err(format!("pose {p:?} came back as {q:?}"));
    }
    // Trajectories.
    let names = ["timestamp", "x", "y", "heading", "velocity_x", "velocity_y", "angular_velocity"];
    let samples: Vec<HolonomicTrajectorySample> = (0..3)
        .map(|n| HolonomicTrajectorySample {
            timestamp: next(),
            x: next(),
            y: next(),
            heading: next(),
            velocity_x: next(),
            velocity_y: next(),
            angular_velocity: next(),
            module_forces_x: (0..n).map(|_| next()).collect(),
            module_forces_y: (0..n).map(|_| next()).collect(),
        })
        .collect();
    let t = HolonomicTrajectory { samples };
    let ft = flatten(&t);
    let v = serde_json::to_value(&t).map_err(e)?;
    keys(&v, &["samples"])?;
    for (j, s) in v["samples"].as_array().ok_or("samples is not a list")?.iter().zip(&ft) {
        let mut all = names.to_vec();
        all.extend(["module_forces_x", "module_forces_y"]);
        keys(j, &all)?;
        for (n, x) in names.iter().zip(s) {
            num(j, n, *x)?;
        }
        let mut fs = Vec::new();
        for n in ["module_forces_x", "module_forces_y"] {
            let a = j[n].as_array().ok_or("forces are not a list")?;
            fs.push(a.len() as f64);
            fs.extend(a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)));
        }
        if !near(&s[7..], &fs) {
            return Err(format!("forces {fs:?} instead of {:?}", &s[7..]));
        }
    }
    let u: HolonomicTrajectory = serde_json::from_str(&serde_json::to_string(&t).map_err(e)?).map_err(e)?;
    let fu = flatten(&u.clone());
    if ft.len() != fu.len() || !ft.iter().zip(&fu).all(|(a, b)| near(a, b)) {
        return Err(format!("trajectory {t:?} came back as {u:?}"));
    }
    Ok(())
}
#[no_mangle]
pub unsafe extern "C" fn rs_json(p: *const f64, n: usize, msg: *mut u8, cap: usize, len: *mut usize) -> i32 {
    let f = list(p, n);
    match catch_unwind(AssertUnwindSafe(|| json(&f))) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            let k = e.len().min(cap);
            std::ptr::copy_nonoverlapping(e.as_ptr(), msg, k);
            *len = k;
            1
        }
        Err(_) => 2,
    }
}
