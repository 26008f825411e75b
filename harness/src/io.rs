//! P27: trajectories and orbit determination solutions survive files.
use crate::od::*;
use crate::sc::*;
use crate::util::*;
use anise::analysis::prelude::*;
use anise::prelude::*;
use arrow::array::{Array, ArrayRef, Float64Array, StringArray};
use arrow::compute::concat_batches;
use arrow::datatypes::{DataType, Field, Schema};
use arrow::record_batch::RecordBatch;
use hifitime::{Duration, TimeUnits, Unit};
use nalgebra::Vector3;
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Mass, Spacecraft};
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::io::ExportCfg;
use nyx_space::md::StateParameter as SP;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::prelude::*;
use nyx_space::od::process::ODSolution;
use parquet::arrow::ArrowWriter;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

const EL: [OrbitalElement; 6] = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z, OrbitalElement::VX, OrbitalElement::VY, OrbitalElement::VZ];

/// The parquet files keep epochs to the microsecond (`us` nanoseconds).  A trajectory with burns, thrust directions and changing properties
fn mk(r: &mut Rng64, n: usize, us: i64) -> Traj<Spacecraft> {
    let z = epoch0() + (r.i(-8000, 4000) * 86_400) .seconds() + Duration::from_total_nanoseconds((r.i(0, 86_400_000_000_000) / us * us) as i128);
    let frame = match r.u(3) { 0 => eme(), 1 => anise::constants::frames::MOON_J2000.with_mu_km3_s2(4902.800066163796 * r.r(0.9, 1.1)), _ => eme().with_mu_km3_s2(MU * r.r(0.99, 1.01)) };
    let mut o = rand_orbit(r, z);
    o.frame = frame;
    let eng = r.u(4);
    let dirs = r.u(3);
    let vary = r.b();
    let (mut prop, dry) = (r.r(10.0, 400.0), r.r(50.0, 900.0));
    let (cr, cd) = (r.r(0.5, 2.0), r.r(1.5, 3.0));
    let whole = r.b();
    let mut e = if whole { epoch0() } else { z };
    let mut t = Traj::new();
    for i in 0..n {
        let q = crate::kepler::kep_at(&o, e);
        let mut s = Spacecraft::from(Orbit::new(q.radius_km[0], q.radius_km[1], q.radius_km[2], q.velocity_km_s[0], q.velocity_km_s[1], q.velocity_km_s[2], e, frame));
        s.mass = Mass::from_dry_and_prop_masses(if vary && i % 3 == 1 { dry * 0.5 } else { dry }, prop);
        prop *= r.r(0.95, 1.0);
        s.srp.coeff_reflectivity = if vary { r.r(0.5, 2.0) } else { cr };
        s.drag.coeff_drag = if vary { r.r(1.5, 3.0) } else { cd };
        s.thruster = match eng { 0 => None, 3 if i % 2 == 1 => None, _ => Some(Thruster { thrust_N: r.r(0.01, 5.0), isp_s: r.r(100.0, 3000.0) }) };
        let burn = r.b();
        s.mut_mode(match (eng, burn) { (0, _) => GuidanceMode::Coast, (_, true) => GuidanceMode::Thrust, _ => *r.pick(&[GuidanceMode::Coast, GuidanceMode::Inhibit]) });
        if dirs == 2 || (dirs == 1 && burn) {
            s.mut_thrust_direction(Some(Vector3::new(r.r(-1.0, 1.0), r.r(-1.0, 1.0), if i % 4 == 0 { 0.0 } else { r.r(-1.0, 1.0) }).normalize()));
        }
        t.states.push(s);
        e += if whole { (r.i(1, 90)).seconds() } else { Duration::from_total_nanoseconds((r.i(1_000_000, 90_000_000_000) / us * us) as i128) };
    }
    t.finalize();
    t
}
fn bit(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
/// the parts of a state the file was asked to keep
fn alter(d: &mut Vec<&'static str>, a: &Spacecraft, b: &Spacecraft, has: impl Fn(SP) -> bool) {
    let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
    for k in 0..3 { put(bit(a.orbit.radius_km[k], b.orbit.radius_km[k]), "position"); put(bit(a.orbit.velocity_km_s[k], b.orbit.velocity_km_s[k]), "velocity"); }
    put(a.orbit.frame == b.orbit.frame, "frame");
    if has(SP::DryMass()) { put(bit(a.mass.dry_mass_kg, b.mass.dry_mass_kg), "dry-mass"); }
    if has(SP::PropMass()) { put(bit(a.mass.prop_mass_kg, b.mass.prop_mass_kg), "prop-mass"); }
    if has(SP::Cr()) { put(bit(a.srp.coeff_reflectivity, b.srp.coeff_reflectivity), "cr"); }
    if has(SP::Cd()) { put(bit(a.drag.coeff_drag, b.drag.coeff_drag), "cd"); }
    if has(SP::Thrust()) && has(SP::Isp()) { put(a.thruster == b.thruster, "thruster"); }
    if has(SP::GuidanceMode()) { put(a.mode == b.mode, "mode"); }
    if has(SP::ThrustX()) && has(SP::ThrustY()) && has(SP::ThrustZ()) { put(match (a.thrust_direction(), b.thrust_direction()) { (None, None) => true, (Some(u), Some(w)) => (u - w).norm() < 1e-12, _ => false }, "thrust-direction"); }
}
fn load(p: &Path) -> RecordBatch {
    let b = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(p).unwrap()).unwrap();
    let sch = b.schema().clone();
    let v: Vec<RecordBatch> = b.build().unwrap().map(|x| x.unwrap()).collect();
    concat_batches(&sch, &v).unwrap()
}
fn store(p: &Path, b: &RecordBatch) {
    let mut w = ArrowWriter::try_new(std::fs::File::create(p).unwrap(), b.schema(), None).unwrap();
    w.write(b).unwrap();
    w.close().unwrap();
}
/// The ways a file is spoiled; false when that way does not apply to this file
const SPOIL: [&str; 14] = ["empty", "text", "cut", "gone", "dir", "no-epoch", "epoch-text", "epoch-type", "no-x", "x-type", "no-frame", "frame-text", "prop-type", "mode-type"];
fn spoil(how: &str, p: &PathBuf, r: &mut Rng64) -> bool {
    let raw = std::fs::read(p).unwrap();
    let edit = |f: &dyn Fn(&Field, &ArrayRef) -> Option<(Field, ArrayRef)>| {
        let b = load(p);
        let (mut fs, mut cs, mut hit) = (vec![], vec![], false);
        for (i, fd) in b.schema().fields().iter().enumerate() {
            match f(fd, b.column(i)) {
                Some((nf, nc)) => { hit = hit || nf != **fd || nc.as_ref() != b.column(i).as_ref(); fs.push(nf); cs.push(nc); }
                None => hit = true,
            }
        }
        store(p, &RecordBatch::try_new(Arc::new(Schema::new(fs)), cs).unwrap());
        hit
    };
    let keep = |f: &Field, c: &ArrayRef| Some((f.clone(), c.clone()));
    let text = |c: &ArrayRef, s: &str| -> ArrayRef { Arc::new(StringArray::from(vec![s; c.len()])) };
    let nums = |c: &ArrayRef| -> ArrayRef { Arc::new(Float64Array::from(vec![1.5; c.len()])) };
    let is = |f: &Field, n: &str| f.name().split(' ').next() == Some(n);
    match how {
        "empty" => std::fs::write(p, b"").is_ok(),
        "text" => std::fs::write(p, "Epoch (UTC),X (km)\n2023-01-01T00:00:00,1.0\n").is_ok(),
        "cut" => { let n = r.u(raw.len()); std::fs::write(p, &raw[..n]).is_ok() }
        "gone" => std::fs::remove_file(p).is_ok(),
        "dir" => { std::fs::remove_file(p).unwrap(); std::fs::create_dir(p).is_ok() }
        "no-epoch" => edit(&|f, c| if is(f, "Epoch") { None } else { keep(f, c) }),
        "epoch-text" => edit(&|f, c| if is(f, "Epoch") { Some((f.clone(), text(c, "2023-13-41T00:00:00"))) } else { keep(f, c) }),
        "epoch-type" => edit(&|f, c| if is(f, "Epoch") { Some((f.clone().with_data_type(DataType::Float64), nums(c))) } else { keep(f, c) }),
        "no-x" => edit(&|f, c| if is(f, "X") { None } else { keep(f, c) }),
        "x-type" => edit(&|f, c| if is(f, "X") { Some((f.clone().with_data_type(DataType::Utf8), text(c, "1.0"))) } else { keep(f, c) }),
        "prop-type" => edit(&|f, c| if is(f, "prop_mass") { Some((f.clone().with_data_type(DataType::Utf8), text(c, "1.0"))) } else { keep(f, c) }),
        "mode-type" => edit(&|f, c| if is(f, "guidance_mode") { Some((f.clone().with_data_type(DataType::Float64), nums(c))) } else { keep(f, c) }),
        "no-frame" => edit(&|f, c| Some((f.clone().with_metadata(HashMap::new()), c.clone()))),
        _ => edit(&|f, c| { let mut m = f.metadata().clone(); if m.contains_key("Frame") { m.insert("Frame".into(), "not a frame".into()); } Some((f.clone().with_metadata(m), c.clone())) }),
    }
}
fn wipe(p: &Path) { let _ = std::fs::remove_file(p); let _ = std::fs::remove_dir(p); }
fn eps(v: impl Iterator<Item = Epoch>, z: Epoch) -> Vec<Value> { v.map(|e| ep(e, z)).collect() }
fn o<T>(x: Option<T>, f: impl Fn(T) -> Value) -> Vec<Value> { x.map(|t| f(t)).into_iter().collect() }

macro_rules! od27 {
    ($n:literal, $f:ident, $p:ident) => {
        fn $f(run: &Run, smooth: bool, cfg: ExportCfg, path: PathBuf, bad: Option<String>, seed: u64, rec: &Rec) {
            let sol = match $p(run, None) { Ok(s) => s, Err(_) => return };
            let sol = if smooth { match sol.smooth(&alm()) { Ok(s) => s, Err(_) => return } } else { sol };
            if sol.estimates.iter().any(|e| !e.covar.iter().all(|x| x.is_finite())) { return; }
            let z = run.x0.epoch();
            let (lo, hi) = (cfg.start_epoch, cfg.end_epoch);
            rec.ev("of", json!({"eps": eps(sol.estimates.iter().map(|e| e.epoch()), z)}));
            let p = match sol.to_parquet(&path, cfg) { Ok(p) => p, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            if let Some(how) = &bad {
                let mut r = Rng64(rand::SeedableRng::seed_from_u64(seed));
                if !spoil(how, &p, &mut r) { wipe(&p); return; }
            }
            let back = ODSolution::<Spacecraft, KfEstimate<Spacecraft>, nalgebra::Const<$n>, Mock>::from_parquet(&p, sol.devices.clone());
            wipe(&p);
            let b = match back { Ok(b) => b, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let keep: Vec<usize> = (0..sol.estimates.len()).filter(|i| { let e = sol.estimates[*i].epoch(); lo.map_or(true, |l| l <= e) && hi.map_or(true, |h| e <= h) }).collect();
            let mut d: Vec<&'static str> = vec![];
            let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
            let n = keep.len();
            put(b.estimates.len() == n && b.residuals.len() == n && b.gains.len() == n && b.filter_smoother_ratios.len() == n, "alignment");
            put(b.measurement_types == sol.measurement_types, "measurement-types");
            put(b.devices == sol.devices, "devices");
            for (k, i) in keep.iter().enumerate() {
                let (Some(y), Some(ry), Some(gy), Some(fy)) = (b.estimates.get(k), b.residuals.get(k), b.gains.get(k), b.filter_smoother_ratios.get(k)) else { break };
                let x = &sol.estimates[*i];
                let (sx, sy) = (x.state(), y.state());
                let mut w: Vec<&'static str> = vec![];
                alter(&mut w, &sx, &sy, |p| !matches!(p, SP::Thrust() | SP::GuidanceMode() | SP::ThrustX()));
                for n in w { put(false, n); }
                put(bit(sx.srp.area_m2, sy.srp.area_m2) && bit(sx.drag.area_m2, sy.drag.area_m2), "areas");
                for a in 0..9 { for c in a..9 { put(bit(x.covar[(a, c)], y.covar[(a, c)]) && bit(y.covar[(a, c)], y.covar[(c, a)]), "covariance"); } }
                match (&sol.residuals[*i], ry) {
                    (None, None) => {}
                    (Some(u), Some(v)) => {
                        put(u.epoch == v.epoch, "residual-epoch");
                        put(u.tracker == v.tracker, "tracker");
                        put(u.rejected == v.rejected, "rejected");
                        put(bit(u.ratio, v.ratio), "ratio");
                        put(u.msr_types.len() == v.msr_types.len() && u.msr_types.iter().all(|t| v.msr_types.contains(t)), "types");
                        for t in &u.msr_types {
                            let same = |a: Option<f64>, b: Option<f64>| match (a, b) { (Some(a), Some(b)) => bit(a, b), (None, None) => true, _ => false };
                            put(same(u.prefit(*t), v.prefit(*t)), "prefit");
                            put(same(u.postfit(*t), v.postfit(*t)), "postfit");
                            put(same(u.trk_noise(*t), v.trk_noise(*t)), "noise");
                            put(same(u.real_obs(*t), v.real_obs(*t)), "real");
                            put(same(u.computed_obs(*t), v.computed_obs(*t)), "computed");
                        }
                        for j in 0..$n { put(bit(u.whitened_resid[j], v.whitened_resid[j]), "whitened"); }
                    }
                    _ => put(false, "residual"),
                }
                put(match (&sol.gains[*i], gy) { (None, None) => true, (Some(u), Some(v)) => u.iter().zip(v.iter()).all(|(a, b)| bit(*a, *b)), _ => false }, "gain");
                put(match (&sol.filter_smoother_ratios[*i], fy) { (None, None) => true, (Some(u), Some(v)) => u.iter().zip(v.iter()).all(|(a, b)| bit(*a, *b)), _ => false }, "smoother-ratio");
            }
            put(b.is_filter_run() == keep.iter().any(|i| sol.gains[*i].is_some()), "filter-run");
            put(b.is_smoother_run() == keep.iter().any(|i| sol.filter_smoother_ratios[*i].is_some()), "smoother-run");
            rec.ev("read", json!({"eps": eps(b.estimates.iter().map(|e| e.epoch()), z), "diff": d}));
        }
    };
}
od27!(1, od27_1, process1);
od27!(2, od27_2, process2);

type Pnt = ODSolution<nyx_space::od::groundpnt::GroundAsset, KfEstimate<nyx_space::od::groundpnt::GroundAsset>, nalgebra::U2, nyx_space::od::interlink::InterlinkTxSpacecraft>;
pub fn cases27(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    // trajectories
    for i in 0..ctx.n(260, 6000) {
        let id = format!("t{i}");
        let mut r = ctx.rng(&id);
        let n = match i % 13 { 0 => 1, 1 => 2, 2 if i < 60 => 2600, _ => 3 + r.u(30) };
        let t = mk(&mut r, n, 1000);
        let z = t.first().epoch();
        let span = t.last().epoch() - z;
        let mut cfg = ExportCfg::default();
        cfg.timestamp = i % 9 == 4;
        if i % 7 == 3 { cfg.metadata = Some(HashMap::from([("Who".to_string(), "me".to_string())])); }
        let grid = n >= 13 && n < 100 && r.u(3) == 0;
        let frac = |r: &mut Rng64| Duration::from_total_nanoseconds((span.total_nanoseconds() as f64 * r.r(-0.1, 1.1)) as i128 / 1000 * 1000);
        if grid {
            cfg.step = Some(Duration::from_total_nanoseconds((span.total_nanoseconds() as f64 / r.r(2.0, 40.0)) as i128 / 1_000_000 * 1_000_000));
            if r.b() { cfg.start_epoch = Some(z + frac(&mut r)); }
            if r.b() { cfg.end_epoch = Some(z + frac(&mut r)); }
            if r.u(12) == 0 { cfg.start_epoch = Some(z + span + 1 * Unit::Hour); cfg.end_epoch = Some(z + span + 2 * Unit::Hour); }
        }
        let mut lack = false;
        if r.u(3) == 0 {
            let mut f: Vec<SP> = EL.iter().map(|e| SP::Element(*e)).collect();
            f.push(SP::PropMass());
            for p in [SP::DryMass(), SP::Cr(), SP::Cd(), SP::GuidanceMode(), SP::Element(OrbitalElement::Rmag)] { if r.b() { f.push(p); } }
            if r.b() { f.push(SP::Thrust()); f.push(SP::Isp()); }
            if r.b() { f.extend([SP::ThrustX(), SP::ThrustY(), SP::ThrustZ()]); }
            if r.u(4) == 0 { f.remove(r.u(7)); lack = true; }
            for k in (1..f.len()).rev() { let j = r.u(k + 1); f.swap(k, j); }
            cfg.fields = Some(f);
        }
        let how = if !grid && !lack && i % 5 == 2 { Some(SPOIL[r.u(SPOIL.len())]) } else { None };
        // a file without the column of the modes cannot have it spoiled
        let how = if how == Some("mode-type") && cfg.fields.as_ref().is_some_and(|f| !f.contains(&SP::GuidanceMode())) { Some("x-type") } else { how };
        let path = ctx.scratch.join(format!("p27-{id}.parquet"));
        let bg = json!({"kind": "traj", "eps": eps(t.states.iter().map(|s| s.epoch()), z), "lo": o(cfg.start_epoch, |e| ep(e, z)), "hi": o(cfg.end_epoch, |e| ep(e, z)), "step": o(cfg.step, dur), "bad": lack || how.is_some()});
        v.push(case(id, bg, move |rec| {
            let fields = cfg.fields.clone();
            let p = match t.to_parquet(&path, cfg) { Ok(p) => p, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            if let Some(h) = how { assert!(spoil(h, &p, &mut r), "{h} does not spoil"); }
            let back = Traj::<Spacecraft>::from_parquet(&p);
            wipe(&p);
            let b = match back { Ok(b) => b, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let mut d = vec![];
            for s in &b.states {
                // between two states, the trajectory itself is the reference
                if let Ok(want) = t.at(s.epoch()) { alter(&mut d, &want, s, |p| fields.as_ref().map_or(true, |f| f.contains(&p))); }
            }
            rec.ev("read", json!({"eps": eps(b.states.iter().map(|s| s.epoch()), z), "diff": d}));
        }));
    }
    // ephemeris messages keep orbits only: the rest comes from the template
    for i in 0..ctx.n(60, 1200) {
        let id = format!("o{i}");
        let mut r = ctx.rng(&id);
        let n = match i % 13 { 0 => 1, 1 => 2, _ => 3 + r.u(30) };
        let mut t = mk(&mut r, n, 1);
        for s in t.states.iter_mut() { s.orbit.frame = eme(); }
        let z = t.first().epoch();
        let mut cfg = ExportCfg::default();
        if n >= 13 && r.b() { cfg.step = Some((t.last().epoch() - z) * (1.0 / r.r(2.0, 40.0))); }
        let tpl = if r.b() { Some(mk(&mut r, 1, 1).states[0]) } else { None };
        let path = ctx.scratch.join(format!("p27-{id}.oem"));
        let bad = i % 6 == 5;
        let bg = json!({"kind": "oem", "eps": eps(t.states.iter().map(|s| s.epoch()), z), "lo": [], "hi": [], "step": o(cfg.step, dur), "bad": bad});
        v.push(case(id, bg, move |rec| {
            if let Err(e) = t.to_oem_file(&path, "SAT-1".into(), Some("Someone".into()), if r.b() { Some("A name".into()) } else { None }, cfg) { return rec.ev("err", json!({"msg": errs(&e)})); }
            if bad { std::fs::write(&path, if r.b() { "" } else { "CCSDS_OEM_VERS = 3.0\nMETA_START\nno such = thing\n" }).unwrap(); }
            let back = Traj::<Spacecraft>::from_oem_file(&path, tpl);
            wipe(&path);
            let b = match back { Ok(b) => b, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let mut d: Vec<&'static str> = vec![];
            let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
            let tp = tpl.unwrap_or_default();
            for s in &b.states {
                if let Ok(w) = t.at(s.epoch()) {
                    for k in 0..3 { put(bit(w.orbit.radius_km[k], s.orbit.radius_km[k]), "position"); put(bit(w.orbit.velocity_km_s[k], s.orbit.velocity_km_s[k]), "velocity"); }
                    put(s.orbit.frame.ephemeris_id == w.orbit.frame.ephemeris_id && s.orbit.frame.orientation_id == w.orbit.frame.orientation_id, "frame");
                }
                put(s.mass == tp.mass && s.srp == tp.srp && s.drag == tp.drag && s.thruster == tp.thruster && s.mode == tp.mode, "template");
            }
            put(b.name.as_deref() == Some("SAT-1"), "name");
            rec.ev("read", json!({"eps": eps(b.states.iter().map(|s| s.epoch()), z), "diff": d}));
        }));
    }
    // the difference of two trajectories: on the epochs they share, each column the difference of the two
    for i in 0..ctx.n(60, 1500) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let n = 14 + r.u(20);
        let mut a = mk(&mut r, n, 1000);
        for s in a.states.iter_mut() { s.orbit.frame = eme(); }
        let (z, span) = (a.first().epoch(), a.last().epoch() - a.first().epoch());
        let mut b = a.clone();
        let off = nalgebra::Vector6::from_fn(|k, _| r.r(-1.0, 1.0) * if k < 3 { 1.0 } else { 1e-3 });
        let eng = r.u(3);
        for (k, s) in b.states.iter_mut().enumerate() {
            s.orbit.radius_km += off.fixed_rows::<3>(0);
            s.orbit.velocity_km_s += off.fixed_rows::<3>(3);
            s.mass.prop_mass_kg *= 0.9;
            s.drag.coeff_drag += 0.125;
            match eng { 0 => {} 1 => { s.thruster = None; s.mut_thrust_direction(None); } _ => if k % 2 == 0 { s.mut_thrust_direction(Some(Vector3::x())) } else { s.mut_thrust_direction(None) } }
        }
        let d = Duration::from_total_nanoseconds((r.i(-200, 200) * 1_000_000_000) as i128);
        match r.u(3) {
            0 => { let k = r.u(n - 13); b.states.drain(..k); }
            1 => { let k = 13 + r.u(n - 13); b.states.truncate(k); }
            _ => if i % 10 == 9 { for s in b.states.iter_mut() { s.orbit.epoch += span + d.abs() + 1.seconds(); } },
        }
        let frac = |r: &mut Rng64| Duration::from_total_nanoseconds((span.total_nanoseconds() as f64 * r.r(-0.1, 1.1)) as i128 / 1000 * 1000);
        let mut cfg = ExportCfg::default();
        let few = r.u(4) == 0;
        if r.b() || few { cfg.step = Some(Duration::from_total_nanoseconds((span.total_nanoseconds() as f64 / if few { r.r(0.5, 5.0) } else { r.r(2.0, 40.0) }) as i128 / 1_000_000 * 1_000_000)); }
        if r.b() { cfg.start_epoch = Some(z + frac(&mut r)); }
        if r.b() { cfg.end_epoch = Some(z + frac(&mut r)); }
        let ask: Vec<SP> = vec![SP::PropMass(), SP::Cd(), SP::DryMass(), SP::Thrust(), SP::ThrustX(), SP::Element(OrbitalElement::Rmag), SP::GuidanceMode()];
        if r.b() { cfg.fields = Some(ask.clone()); }
        let step = cfg.step.unwrap_or(60.seconds());
        let also = vec![ep(b.first().epoch(), z), ep(b.last().epoch(), z)];
        let bg = json!({"kind": "ric", "eps": eps(a.states.iter().map(|s| s.epoch()), z), "lo": o(cfg.start_epoch, |e| ep(e, z)), "hi": o(cfg.end_epoch, |e| ep(e, z)), "step": [dur(step)], "also": also, "bad": false});
        let path = ctx.scratch.join(format!("p27-{id}.parquet"));
        v.push(case(id, bg, move |rec| {
            let p = match a.ric_diff_to_parquet(&b, &path, cfg) { Ok(p) => p, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let got = load(&p);
            wipe(&p);
            let col = |n: &str| got.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<Float64Array>()).cloned();
            let e: Vec<Epoch> = got.column(0).as_any().downcast_ref::<StringArray>().unwrap().iter().map(|t| { use std::str::FromStr; Epoch::from_str(&format!("{} UTC", t.unwrap().trim_end_matches(" UTC"))).unwrap() }).collect();
            let mut d: Vec<&'static str> = vec![];
            let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
            let both: Vec<_> = e.iter().filter_map(|t| Some((a.at(*t).ok()?, b.at(*t).ok()?))).collect();
            put(both.len() == e.len(), "shared-span");
            let raw: Vec<_> = both.iter().map(|(x, y)| x.orbit.ric_difference(&y.orbit).unwrap().to_cartesian_pos_vel()).collect();
            for (k, name) in ["Delta X (RIC) (km)", "Delta Y (RIC) (km)", "Delta Z (RIC) (km)", "Delta Vx (RIC) (km/s)", "Delta Vy (RIC) (km/s)", "Delta Vz (RIC) (km/s)"].iter().enumerate() {
                let Some(c) = col(name) else { put(false, "ric-column"); continue };
                let eps = if k < 3 { 1e-9 } else { 1e-12 };
                // a median of the neighbours, which lies among them; nothing is smoothed in a file with few rows
                let ok = |sg: f64| (0..raw.len()).all(|j| {
                    let w = if raw.len() > 5 { 4 } else { 0 };
                    let near = &raw[j.saturating_sub(w)..(j + w + 1).min(raw.len())];
                    let (lo, hi) = near.iter().fold((f64::MAX, f64::MIN), |m, v| (m.0.min(sg * v[k]), m.1.max(sg * v[k])));
                    c.value(j) >= lo - eps && c.value(j) <= hi + eps
                });
                put(c.len() == raw.len() && (ok(1.0) || ok(-1.0)), if k < 3 { "ric-position" } else { "ric-velocity" });
            }
            for f in &ask[..6] {
                let want: Vec<Option<f64>> = both.iter().map(|(x, y)| Some(x.value(*f).ok()? - y.value(*f).ok()?)).collect();
                match col(&f.to_string()) {
                    Some(c) => for (j, w) in want.iter().enumerate() {
                        put(match w { Some(w) => c.is_valid(j) && (bit(c.value(j), *w) || (c.value(j) - w).abs() < 1e-12), None => !c.is_valid(j) }, "difference");
                    },
                    None => put(want.iter().all(|w| w.is_none()) || !matches!(f, SP::PropMass() | SP::Cd() | SP::DryMass()), "field"),
                }
            }
            rec.ev("read", json!({"eps": eps(e.into_iter(), z), "diff": d}));
        }));
    }
    // the ground track, every minute
    for i in 0..ctx.n(24, 400) {
        let id = format!("k{i}");
        let mut r = ctx.rng(&id);
        let n = 14 + r.u(20);
        let mut a = mk(&mut r, n, 1000);
        let back = a.first().epoch() - epoch0();
        for s in a.states.iter_mut() { s.orbit.frame = crate::world::eme_w(); s.orbit.epoch -= back; }
        let fr = crate::world::world().frame_info(anise::constants::frames::IAU_EARTH_FRAME).unwrap();
        let z = a.first().epoch();
        let bg = json!({"kind": "track", "eps": eps(a.states.iter().map(|s| s.epoch()), z), "lo": [], "hi": [], "step": [dur(60.seconds())], "bad": false});
        let path = ctx.scratch.join(format!("p27-{id}.parquet"));
        v.push(case(id, bg, move |rec| {
            let p = match a.to_groundtrack_parquet(&path, fr, None, &crate::world::world()) { Ok(p) => p, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let got = load(&p);
            wipe(&p);
            let e: Vec<Epoch> = got.column(0).as_any().downcast_ref::<StringArray>().unwrap().iter().map(|t| { use std::str::FromStr; Epoch::from_str(&format!("{} UTC", t.unwrap().trim_end_matches(" UTC"))).unwrap() }).collect();
            let mut d: Vec<&'static str> = vec![];
            let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
            let turned = a.to_frame(fr, &crate::world::world()).unwrap();
            put(turned.states.len() == a.states.len(), "count");
            for (x, y) in a.states.iter().zip(&turned.states) {
                let q = crate::world::world().transform_to(x.orbit, fr, None).unwrap();
                put(y.orbit.frame == fr && (q.radius_km - y.orbit.radius_km).norm() < 1e-9 && (q.velocity_km_s - y.orbit.velocity_km_s).norm() < 1e-12 && x.mass == y.mass && x.mode == y.mode && x.thruster == y.thruster, "turned");
            }
            for f in [OrbitalElement::Latitude, OrbitalElement::Longitude, OrbitalElement::Height, OrbitalElement::Rmag] {
                let Some(c) = got.column_by_name(&SP::Element(f).to_string()).and_then(|c| c.as_any().downcast_ref::<Float64Array>()) else { put(false, "field"); continue };
                for (j, t) in e.iter().enumerate() {
                    let (Ok(s), Ok(w)) = (a.at(*t), turned.at(*t)) else { put(false, "span"); continue };
                    put(c.is_valid(j) && (c.value(j) - w.value(SP::Element(f)).unwrap()).abs() < 1e-9, "track");
                    // where there is no interpolation (its errors grow at the ends of an uneven trajectory)
                    if !a.states.iter().any(|q| q.epoch() == *t) { continue; }
                    let o = crate::world::world().transform_to(s.orbit, fr, None).unwrap();
                    let off = (c.value(j) - s.with_orbit(o).value(SP::Element(f)).unwrap()).abs();
                    put(off < 1e-6 || (f == OrbitalElement::Longitude && (off - 360.0).abs() < 1e-6), "frame");
                }
            }
            rec.ev("read", json!({"eps": eps(e.into_iter(), z), "diff": d}));
        }));
    }
    // solutions for an asset on the ground: there is no reader for those, so the columns are read here
    for i in 0..ctx.n(60, 1500) {
        let id = format!("g{i}");
        let mut r = ctx.rng(&id);
        let z = epoch0();
        let n = 1 + r.u(12);
        let mut e = z;
        let one = r.u(3) == 0;
        let types: indexmap::IndexSet<MeasurementType> = if one { [*r.pick(&[MeasurementType::Range, MeasurementType::Doppler])].into_iter().collect() } else if r.b() { [MeasurementType::Range, MeasurementType::Doppler].into_iter().collect() } else { [MeasurementType::Doppler, MeasurementType::Range].into_iter().collect() };
        let fr = eme().with_ellipsoid(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_spheroid(6378.1366, 6356.7519));
        let mut s: Pnt = ODSolution::new(std::collections::BTreeMap::new(), types.clone());
        for _ in 0..n {
            if r.u(6) > 0 { e += Duration::from_total_nanoseconds(r.i(1, 400_000) as i128 * 1_000_000); }
            let mut a = nyx_space::od::groundpnt::GroundAsset::from_fixed(r.r(-80.0, 80.0), r.r(-180.0, 180.0), r.r(-1.0, 5.0), e, fr);
            a.latitude_rate_deg_s = r.r(-1e-3, 1e-3);
            let mut c = nalgebra::Matrix6::from_fn(|_, _| r.r(-1.0, 1.0));
            c = c * c.transpose();
            let mut k = KfEstimate::from_covar(a, c);
            k.predicted = r.b();
            if r.u(3) == 0 { k.state_deviation = nalgebra::Vector6::from_fn(|_, _| r.r(-1e-3, 1e-3)); }
            s.estimates.push(k);
            let tu = r.u(3) == 0;
            s.residuals.push(if tu { None } else {
                let v2 = |r: &mut Rng64| nalgebra::Vector2::new(r.r(-1.0, 1.0), r.r(-1.0, 1.0));
                let mut q = if r.b() { Residual::accepted(e, v2(&mut r), v2(&mut r), v2(&mut r), r.r(0.0, 3.0), v2(&mut r), v2(&mut r), v2(&mut r)) } else { Residual::rejected(e, v2(&mut r), v2(&mut r), r.r(3.0, 9.0), v2(&mut r), v2(&mut r), v2(&mut r)) };
                q.tracker = Some(r.pick(&["PNT A", "PNT B"]).to_string());
                q.msr_types = types.clone();
                if r.u(3) == 0 { q.msr_types.reverse(); }
                if !one && r.u(4) == 0 { q.msr_types.truncate(1); }
                Some(q)
            });
            s.gains.push(if tu { None } else { Some(nalgebra::Matrix6x2::from_fn(|_, _| r.r(-1.0, 1.0))) });
            s.filter_smoother_ratios.push(if r.b() { None } else { Some(nalgebra::Vector6::from_fn(|_, _| r.r(-1.0, 1.0))) });
        }
        let mut cfg = ExportCfg::default();
        let pick = |r: &mut Rng64| match r.u(3) { 0 => None, 1 => Some(s.estimates[r.u(n)].epoch()), _ => Some(z + (e - z) * r.r(-0.1, 1.1)) };
        cfg.start_epoch = pick(&mut r);
        cfg.end_epoch = pick(&mut r);
        if r.u(4) == 0 { cfg.timestamp = true; }
        if r.u(4) == 0 { cfg.metadata = Some(HashMap::from([("Who".to_string(), "me".to_string())])); }
        let lop = if r.u(8) == 0 { r.u(3) } else { 9 };
        match lop { 0 => { s.residuals.pop(); } 1 => { s.gains.pop(); } 2 => { s.filter_smoother_ratios.pop(); } _ => {} }
        let path = ctx.scratch.join(format!("p27-{id}.parquet"));
        let bg = json!({"kind": "pnt", "eps": eps(s.estimates.iter().map(|k| k.epoch()), z), "lo": o(cfg.start_epoch, |e| ep(e, z)), "hi": o(cfg.end_epoch, |e| ep(e, z)), "step": [], "bad": lop < 3});
        v.push(case(id, bg, move |rec| {
            let (lo, hi) = (cfg.start_epoch, cfg.end_epoch);
            let p = match s.to_parquet(&path, cfg) { Ok(p) => p, Err(e) => return rec.ev("err", json!({"msg": errs(&e)})) };
            let b = load(&p);
            wipe(&p);
            let text = |n: &str| b.column_by_name(n).and_then(|c| c.as_any().downcast_ref::<StringArray>().cloned());
            let col = |f: &dyn Fn(&str) -> bool| -> Option<Float64Array> { let q: Vec<usize> = (0..b.num_columns()).filter(|k| f(b.schema().field(*k).name())).collect(); if q.len() == 1 { b.column(q[0]).as_any().downcast_ref::<Float64Array>().cloned() } else { None } };
            let mut d: Vec<&'static str> = vec![];
            let ts = match text("Epoch (UTC)") { Some(t) => t, None => return rec.ev("read", json!({"eps": [], "diff": ["epoch-column"]})) };
            let read: Vec<Epoch> = (0..ts.len()).filter_map(|k| Epoch::from_gregorian_str(ts.value(k)).ok()).collect();
            let keep: Vec<usize> = (0..s.estimates.len()).filter(|k| { let e = s.estimates[*k].epoch(); lo.is_none_or(|l| l <= e) && hi.is_none_or(|h| e <= h) }).collect();
            if keep.len() == b.num_rows() {
                let mut put = |ok: bool, n: &'static str| if !ok && !d.contains(&n) { d.push(n) };
                let same = |c: &Option<Float64Array>, k: usize, w: Option<f64>| match (c, w) { (Some(c), Some(w)) => c.is_valid(k) && bit(c.value(k), w), (Some(c), None) => !c.is_valid(k), _ => false };
                let it = ["Latitude", "Longitude", "Altitude"];
                let st: Vec<_> = ["Latitude", "Longitude", "Height"].iter().map(|w| col(&|n| n.contains(w) && !n.starts_with("Covariance") && !n.starts_with("Gain") && !n.starts_with("Filter") && !n.starts_with("Sigma"))).collect();
                let sg: Vec<_> = ["Latitude", "Longitude", "Height"].iter().map(|w| col(&|n| n.starts_with("Sigma") && n.contains(w))).collect();
                let cv: Vec<Vec<_>> = (0..3).map(|a| (0..3).map(|c| if c < a { None } else { col(&|n| n.starts_with(&format!("Covariance {}*{} ", it[a], it[c]))) }).collect()).collect();
                let tys: Vec<MeasurementType> = s.measurement_types.iter().copied().collect();
                let rs: Vec<Vec<_>> = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"].iter().map(|w| tys.iter().map(|t| col(&|n| n.starts_with(&format!("{w}: {t:?} ")))).collect()).collect();
                let gn: Vec<Vec<_>> = it.iter().map(|a| (0..2).map(|j| col(&|n| n.starts_with(&if tys.len() == 2 { format!("Gain {a}*{:?} ", tys[j]) } else { format!("Gain {a}*[{j}]") }))).collect()).collect();
                let fs: Vec<_> = it.iter().map(|a| col(&|n| n.starts_with(&format!("Filter-smoother ratio {a} ")))).collect();
                let (ra, tk) = (col(&|n| n == "Residual ratio"), text("Tracker"));
                let rj = b.column_by_name("Residual Rejected").and_then(|c| c.as_any().downcast_ref::<arrow::array::BooleanArray>().cloned());
                for (k, q) in keep.iter().enumerate() {
                    let (es, a) = (&s.estimates[*q], s.estimates[*q].state());
                    for (j, w) in [a.latitude_deg, a.longitude_deg, a.height_km].into_iter().enumerate() {
                        put(same(&st[j], k, Some(w)), "state");
                        put(same(&sg[j], k, Some(es.covar[(j, j)].sqrt())), "sigma");
                        for l in j..3 { put(same(&cv[j][l], k, Some(es.covar[(j, l)])), "covariance"); }
                        for l in 0..2 { put(same(&gn[j][l], k, s.gains[*q].map(|g| g[(j, l)])), "gain"); }
                        put(same(&fs[j], k, s.filter_smoother_ratios[*q].map(|g| g[j])), "ratio");
                    }
                    let re = &s.residuals[*q];
                    for (j, t) in tys.iter().enumerate() {
                        // the component of this type in this residual
                        let at = re.as_ref().and_then(|x| x.msr_types.iter().position(|y| y == t));
                        let w = |f: &dyn Fn(&Residual<nalgebra::U2>) -> nalgebra::Vector2<f64>| re.as_ref().and_then(|x| at.map(|j| f(x)[j]));
                        let ws = [w(&|x| x.prefit), w(&|x| x.postfit), w(&|x| x.tracker_msr_noise), w(&|x| x.real_obs), w(&|x| x.computed_obs)];
                        for l in 0..5 { put(same(&rs[l][j], k, ws[l]), ["prefit", "postfit", "noise", "observed", "computed"][l]); }
                    }
                    put(same(&ra, k, re.as_ref().map(|x| x.ratio)), "residual-ratio");
                    put(rj.as_ref().is_some_and(|c| match re { Some(x) => c.is_valid(k) && c.value(k) == x.rejected, None => !c.is_valid(k) }), "rejected");
                    put(tk.as_ref().is_some_and(|c| match re { Some(x) => c.is_valid(k) && Some(c.value(k)) == x.tracker.as_deref(), None => !c.is_valid(k) }), "tracker");
                }
            }
            rec.ev("read", json!({"eps": eps(read.into_iter(), z), "diff": d}));
        }));
    }
    // solutions
    let mut specs: Vec<(String, Option<Value>)> = vec![];
    let st = (ctx.scen.len() / ctx.n(120, 3000)).max(1);
    for (i, s) in ctx.scen.iter().enumerate() { if i % st == (ctx.seed as usize) % st { specs.push((format!("scen{i}"), Some(s.clone()))); } }
    for i in 0..ctx.n(110, 2500) { specs.push((format!("s{i}"), None)); }
    for (i, (id, scen)) in specs.into_iter().enumerate() {
        let mut r = ctx.rng(&id);
        let mut run = base_run(&mut r);
        run.x0.mass = Mass::from_dry_and_prop_masses(r.r(10.0, 900.0), r.r(1.0, 300.0));
        run.x0.srp.area_m2 = r.r(0.1, 30.0);
        run.x0.srp.coeff_reflectivity = r.r(0.5, 2.0);
        run.x0.drag.area_m2 = r.r(0.1, 30.0);
        run.x0.drag.coeff_drag = r.r(1.5, 3.0);
        let m = 1 + r.u(2);
        run.reject = Some(r.r(2.5, 5.0));
        let mut tys = NAMES.to_vec();
        for k in (1..tys.len()).rev() { let j = r.u(k + 1); tys.swap(k, j); }
        let wide = r.b();
        let ta = if wide { tys[..2 * m].to_vec() } else { tys[..m].to_vec() };
        let tb = if wide { tys[m..2 * m].to_vec() } else { tys[..m].to_vec() };
        run.devices = vec![rand_mock(&mut r, "A", &ta), rand_mock(&mut r, "AB", &tb)];
        for d in run.devices.iter_mut() { for k in 0..d.sigma.len() { d.bias[k] = r.r(-9.0, 9.0) * d.sigma[k]; } }
        let tick = r.i(20, 300);
        run.max = (tick * 2).seconds();
        let off = draw(&mut r, &run.p0);
        let kinds: Vec<String> = match &scen {
            Some(s) => s["ent"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            None => (0..if i % 37 == 5 { 1200 } else { 2 + r.u(10) }).map(|_| r.pick(&["tu", "A", "B", "A2", "rA"]).to_string()).collect(),
        };
        let mut e = run.x0.epoch();
        let at0 = e;
        for (j, k) in kinds.iter().enumerate() {
            e = at0 + ((j as i64 + 1) * if kinds.len() > 100 { 5 } else { tick }).seconds();
            let (tr, tv) = truth(&run, &off, e);
            let dv = run.devices[if k == "B" { 1 } else { 0 }].clone();
            let mut msr = Measurement::new(dv.name.clone(), e);
            for (q, ty) in dv.types.iter().enumerate() {
                if k != "B" && wide && ((k == "A2") != (q >= m)) { continue; }
                msr.push(*ty, dv.value(*ty, tr, tv) + dv.bias[q] + dv.sigma[q] * if k == "rA" { 1e4 } else { gauss(&mut r) });
            }
            msr.rejected = k == "tu";
            run.arc.measurements.push(msr);
        }
        while run.arc.measurements.len() < 2 {
            e += tick.seconds();
            let (tr, tv) = truth(&run, &off, e);
            let dv = run.devices[1].clone();
            let mut msr = Measurement::new(dv.name.clone(), e);
            for (q, ty) in dv.types.iter().enumerate() { msr.push(*ty, dv.value(*ty, tr, tv) + dv.bias[q]); }
            run.arc.measurements.push(msr);
        }
        let mut cfg = ExportCfg::default();
        let at = |x: &Value| x.as_array().unwrap().first().map(|t| at0 + (t[0].as_i64().unwrap() / 10 * tick).seconds());
        match &scen {
            Some(s) => { cfg.start_epoch = at(&s["lo"]); cfg.end_epoch = at(&s["hi"]); }
            None => {
                let f = |r: &mut Rng64| at0 + Duration::from_total_nanoseconds(((e - at0).total_nanoseconds() as f64 * r.r(-0.1, 1.1)) as i128);
                if r.u(3) == 0 { cfg.start_epoch = Some(f(&mut r)); }
                if r.u(3) == 0 { cfg.end_epoch = Some(f(&mut r)); }
            }
        }
        if cfg.start_epoch.is_none() && i % 5 == 0 {
            let mut f: Vec<SP> = EL.iter().map(|e| SP::Element(*e)).collect();
            f.extend([SP::DryMass(), SP::PropMass(), SP::Cr(), SP::Cd()]);
            cfg.fields = Some(f);
        }
        let how = if scen.is_none() && cfg.start_epoch.is_none() && cfg.end_epoch.is_none() && r.b() { Some(SPOIL[r.u(SPOIL.len() - 1)].to_string()) } else { None };
        let smooth = r.u(3) == 0;
        let path = ctx.scratch.join(format!("p27-{id}.parquet"));
        let sd = r.i(0, 1 << 40) as u64;
        // the epochs of the solution are known once it is computed
        let bg = json!({"kind": "od", "eps": [], "lo": o(cfg.start_epoch, |e| ep(e, at0)), "hi": o(cfg.end_epoch, |e| ep(e, at0)), "step": [], "bad": how.is_some()});
        v.push(case(id, bg, move |rec| if m == 1 { od27_1(&run, smooth, cfg, path, how, sd, rec) } else { od27_2(&run, smooth, cfg, path, how, sd, rec) }));
    }
    v
}
