//! Orbit determination: a recording tracker, arcs, and an independent Kalman reference.
use crate::kepler::kepler;
use crate::num::*;
use crate::sc::*;
use crate::util::*;
use anise::errors::AlmanacResult;
use anise::prelude::*;
use hifitime::{Duration, Epoch, TimeUnits};
use indexmap::IndexSet;
use nalgebra::{DMatrix, DVector, DimName, OMatrix, SMatrix, SVector};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::io::ConfigRepr;
use nyx_space::linalg::DefaultAllocator;
use nyx_space::linalg::allocator::Allocator;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::prelude::*;
use nyx_space::propagators::*;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use MeasurementType as MT;

/// A sensor at a fixed inertial point, computing every measurement type from the state: written for these checks.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mock {
    pub name: String,
    pub types: IndexSet<MT>,
    pub at: [f64; 3],
    pub sigma: Vec<f64>,
    pub bias: Vec<f64>,
    /// (start, end) of outages as TAI ns past the reference epoch
    pub blind: Vec<(i64, i64)>,
}
impl ConfigRepr for Mock {}
pub fn rv(s: &Spacecraft) -> (V3, V3) {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    ([r[0], r[1], r[2]], [v[0], v[1], v[2]])
}
impl Mock {
    pub fn value(&self, t: MT, r: V3, v: V3) -> f64 {
        let d = sub(r, self.at);
        match t {
            MT::Range => norm(d),
            MT::Doppler => dot(d, v) / norm(d),
            MT::X => r[0],
            MT::Y => r[1],
            MT::Z => r[2],
            MT::Azimuth => d[1].atan2(d[0]).to_degrees(),
            _ => (d[2] / norm(d)).asin().to_degrees(),
        }
    }
    pub fn row(&self, t: MT, r: V3, v: V3) -> [f64; 9] {
        let mut h = [0.0; 9];
        for i in 0..6 {
            let s = if i < 3 { 1e-2 } else { 1e-5 };
            let f = |k: f64| { let (mut r, mut v) = (r, v); if i < 3 { r[i] += k * s } else { v[i - 3] += k * s }; self.value(t, r, v) };
            h[i] = (8.0 * (f(1.0) - f(-1.0)) - (f(2.0) - f(-2.0))) / (12.0 * s);
        }
        h
    }
    fn sees(&self, e: Epoch) -> bool {
        let n = (e - epoch0()).total_nanoseconds() as i64;
        !self.blind.iter().any(|(a, b)| *a <= n && n <= *b)
    }
    fn idx(&self, t: MT) -> usize { self.types.get_index_of(&t).unwrap() }
}
impl TrackingDevice<Spacecraft> for Mock {
    fn name(&self) -> String { self.name.clone() }
    fn measurement_types(&self) -> &IndexSet<MT> { &self.types }
    fn measure(&mut self, epoch: Epoch, traj: &Traj<Spacecraft>, rng: Option<&mut Pcg64Mcg>, a: &Almanac) -> Result<Option<Measurement>, ODError> {
        if !self.sees(epoch) { return Ok(None); }
        let s = traj.at(epoch).map_err(|e| ODError::MeasurementSimError { details: format!("{e}") })?;
        self.measure_instantaneous(s, rng, a)
    }
    fn location(&self, epoch: Epoch, frame: Frame, _a: &Almanac) -> AlmanacResult<Orbit> {
        Ok(Orbit::new(self.at[0], self.at[1], self.at[2], 0.0, 0.0, 0.0, epoch, frame))
    }
    fn measure_instantaneous(&mut self, rx: Spacecraft, _rng: Option<&mut Pcg64Mcg>, _a: &Almanac) -> Result<Option<Measurement>, ODError> {
        if !self.sees(rx.epoch()) { return Ok(None); }
        let (r, v) = rv(&rx);
        let mut m = Measurement::new(self.name.clone(), rx.epoch());
        for t in &self.types { m.push(*t, self.value(*t, r, v)); }
        Ok(Some(m))
    }
    fn measurement_covar(&self, t: MT, _e: Epoch) -> Result<f64, ODError> { Ok(self.sigma[self.idx(t)].powi(2)) }
    fn measurement_bias(&self, t: MT, _e: Epoch) -> Result<f64, ODError> { Ok(self.bias[self.idx(t)]) }
}
impl TrackerSensitivity<Spacecraft, Spacecraft> for Mock {
    fn h_tilde<M: DimName>(&self, msr: &Measurement, types: &IndexSet<MT>, rx: &Spacecraft, _a: &Almanac) -> Result<OMatrix<f64, M, nalgebra::Const<9>>, ODError>
    where
        DefaultAllocator: Allocator<M> + Allocator<M, nalgebra::Const<9>>,
    {
        let mut h = OMatrix::<f64, M, nalgebra::Const<9>>::zeros();
        let (r, v) = rv(rx);
        for (i, t) in types.iter().enumerate() {
            if !msr.data.contains_key(t) { continue; }
            let row = self.row(*t, r, v);
            for j in 0..9 { h[(i, j)] = row[j]; }
        }
        Ok(h)
    }
}

pub type M9 = SMatrix<f64, 9, 9>;
pub type V9 = SVector<f64, 9>;

/// State transition matrix of the two-body motion, by central differences of the closed form (Cr, Cd and mass are constant).
pub fn kepler_stm(r: V3, v: V3, dt: f64) -> M9 {
    let mut m = M9::identity();
    for j in 0..6 {
        let s = if j < 3 { norm(r) * 2e-4 } else { norm(v) * 2e-4 };
        let f = |k: f64| { let (mut a, mut b) = (r, v); if j < 3 { a[j] += k * s } else { b[j - 3] += k * s }; let (x, y) = kepler(a, b, dt, MU); [x[0], x[1], x[2], y[0], y[1], y[2]] };
        let (p1, m1, p2, m2, p3, m3) = (f(1.0), f(-1.0), f(2.0), f(-2.0), f(3.0), f(-3.0));
        for i in 0..6 { m[(i, j)] = (45.0 * (p1[i] - m1[i]) - 9.0 * (p2[i] - m2[i]) + (p3[i] - m3[i])) / (60.0 * s); }
    }
    m
}
/// Largest difference of two transition matrices, position scaled by length and velocity by speed
pub fn stm_err(a: &M9, b: &M9, r: V3, v: V3) -> f64 {
    let (l, s) = (norm(r), norm(v));
    let sc = |i: usize| if i < 3 { l } else if i < 6 { s } else { 1.0 };
    let mut e = 0.0f64;
    for i in 0..9 { for j in 0..9 { let x = ((a[(i, j)] - b[(i, j)]) * sc(j) / sc(i)).abs(); e = if x.is_nan() { f64::INFINITY } else { e.max(x) }; } }
    e
}
/// Largest difference of two covariances in units of the standard deviations of `b`
pub fn cov_err(a: &M9, b: &M9) -> f64 {
    let mut e = 0.0f64;
    for i in 0..9 { for j in 0..9 {
        let d = a[(i, j)] - b[(i, j)];
        if d == 0.0 { continue; }
        let x = (d / (b[(i, i)].abs() * b[(j, j)].abs()).sqrt()).abs();
        e = if x.is_nan() { f64::INFINITY } else { e.max(x) };
    } }
    e
}
/// Smallest eigenvalue of m after scaling by the diagonal of d (1 where it is zero)
pub fn min_eig(m: &M9, d: &M9) -> f64 {
    let sc: Vec<f64> = (0..9).map(|i| if d[(i, i)] > 0.0 { d[(i, i)].sqrt() } else { 1.0 }).collect();
    let k = M9::from_fn(|i, j| 0.5 * (m[(i, j)] + m[(j, i)]) / (sc[i] * sc[j]));
    if k.iter().any(|x| !x.is_finite()) { return f64::NEG_INFINITY; }
    k.symmetric_eigenvalues().min()
}

#[derive(Clone)]
pub struct Q {
    pub diag: [f64; 3],
    pub start: Option<Epoch>,
    pub disable: Duration,
    pub frame: Option<(LocalFrame, usize)>,
    pub decay: Option<[f64; 3]>,
}
impl Q {
    pub fn to_nyx(&self) -> ProcessNoise3D {
        let mut p = match self.decay { Some(d) => ProcessNoise3D::with_decay(&self.diag, self.disable, &d, self.frame.map(|f| f.0)), None => ProcessNoise3D::from_diagonal(&self.diag, self.disable, self.frame.map(|f| f.0)) };
        p.start_time = self.start;
        p
    }
    /// the covariance added over a gap dt ending at epoch e in state (r, v); t0: start of the filter
    pub fn add(&self, r: V3, v: V3, dt: f64, since: f64) -> M9 {
        let mut d = self.diag;
        if let Some(k) = self.decay { for i in 0..3 { d[i] *= (-k[i] * since).exp(); } }
        if let Some((_, fk)) = self.frame {
            let ax = axes(fk, r, v);
            // variance along each inertial axis
            let o = d;
            for i in 0..3 { d[i] = (0..3).map(|j| ax[j][i] * ax[j][i] * o[j]).sum(); }
        }
        let mut q = M9::zeros();
        for i in 0..3 {
            let (a, b) = (dt * dt / 2.0, dt);
            q[(i, i)] = a * a * d[i];
            q[(i, i + 3)] = a * b * d[i];
            q[(i + 3, i)] = a * b * d[i];
            q[(i + 3, i + 3)] = b * b * d[i];
        }
        q
    }
}

#[derive(Clone)]
pub struct Run {
    pub x0: Spacecraft,
    pub dev0: V9,
    pub p0: M9,
    pub devices: Vec<Mock>,
    pub arc: TrackingDataArc,
    pub ekf: bool,
    pub reject: Option<f64>,
    pub noise: Vec<Q>,
    pub max: Duration,
    pub method: IntegratorMethod,
    pub opts: IntegratorOptions,
}
type Sol<M> = nyx_space::od::process::ODSolution<Spacecraft, KfEstimate<Spacecraft>, M, Mock>;

macro_rules! process {
    ($n:literal, $f:ident, $g:ident) => {
        pub fn $f(run: &Run, predict: Option<Epoch>) -> Result<Sol<nalgebra::Const<$n>>, ODError> {
            let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), run.method, run.opts);
            let devs: BTreeMap<String, Mock> = run.devices.iter().map(|d| (d.name.clone(), d.clone())).collect();
            let mut p = KalmanODProcess::<SpacecraftDynamics, nalgebra::Const<$n>, nalgebra::Const<3>, Mock>::new(
                prop, if run.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking },
                run.reject.map(|num_sigmas| SigmaRejection { num_sigmas }), devs, alm());
            p.max_step = run.max;
            for q in &run.noise { p = p.and_with_process_noise(q.to_nyx()); }
            let mut est = KfEstimate::from_covar(run.x0, run.p0);
            est.state_deviation = run.dev0;
            match predict { Some(e) => p.predict_until(est, e), None => p.process_arc(est, &run.arc) }
        }
        pub fn $g(s: &Sol<nalgebra::Const<$n>>) -> Vec<Entry> {
            (0..s.estimates.len()).map(|i| {
                let e = s.estimates[i];
                Entry { est: e, res: s.residuals.get(i).cloned().flatten().map(|r| Res {
                    epoch: r.epoch, prefit: r.prefit.iter().copied().collect(), postfit: r.postfit.iter().copied().collect(), ratio: r.ratio, rejected: r.rejected, trk: r.tracker.clone().unwrap_or_default(),
                    types: r.msr_types.iter().copied().collect(), real: r.real_obs.iter().copied().collect(), comp: r.computed_obs.iter().copied().collect() }),
                    gain: s.gains.get(i).cloned().flatten().map(|g| DMatrix::from_fn(9, $n, |a, b| g[(a, b)])) }
            }).collect()
        }
    };
}
process!(1, process1, entries1);
process!(2, process2, entries2);

pub struct Res { pub epoch: Epoch, pub prefit: Vec<f64>, pub postfit: Vec<f64>, pub ratio: f64, pub rejected: bool, pub trk: String, pub types: Vec<MT>, pub real: Vec<f64>, pub comp: Vec<f64> }
pub struct Entry { pub est: KfEstimate<Spacecraft>, pub res: Option<Res>, pub gain: Option<DMatrix<f64>> }

pub fn go(run: &Run, m: usize, predict: Option<Epoch>) -> Result<(Vec<Entry>, [usize; 4]), ODError> {
    if m == 1 { let s = process1(run, predict)?; Ok((entries1(&s), [s.estimates.len(), s.residuals.len(), s.gains.len(), s.filter_smoother_ratios.len()])) }
    else { let s = process2(run, predict)?; Ok((entries2(&s), [s.estimates.len(), s.residuals.len(), s.gains.len(), s.filter_smoother_ratios.len()])) }
}

pub const NAMES: [MT; 7] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation, MT::X, MT::Y, MT::Z];

pub fn rand_mock(r: &mut Rng64, name: &str, types: &[MT]) -> Mock {
    let types: IndexSet<MT> = types.iter().copied().collect();
    let n = types.len();
    Mock { name: name.into(), sigma: types.iter().map(|t| match t { MT::Doppler => r.r(1e-6, 1e-4), MT::Azimuth | MT::Elevation => r.r(1e-3, 1e-1), _ => r.r(1e-3, 1e-1) }).collect(), types,
        at: [r.r(-3000.0, 3000.0), r.r(-3000.0, 3000.0), r.r(-3000.0, 3000.0)], bias: vec![0.0; n], blind: vec![] }
}
pub fn diag(p: f64, v: f64) -> M9 { M9::from_diagonal(&V9::from_column_slice(&[p * p, p * p, p * p, v * v, v * v, v * v, 0.0, 0.0, 0.0])) }
pub fn base_run(r: &mut Rng64) -> Run {
    let x0 = rand_sc(r, epoch0());
    let (sp, sv) = (10f64.powf(r.r(-2.0, 1.0)), 10f64.powf(r.r(-5.0, -2.0)));
    Run { x0, dev0: V9::zeros(), p0: diag(sp, sv), devices: vec![], arc: TrackingDataArc::default(), ekf: r.b(), reject: None, noise: vec![], max: 1.minutes(),
        method: *r.pick(&[IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78]), opts: IntegratorOptions::default() }
}
/// Truth at an epoch: the initial state off by a draw from its covariance, on a Kepler orbit
pub fn truth(run: &Run, off: &V9, e: Epoch) -> (V3, V3) {
    let (mut r, mut v) = rv(&run.x0);
    for i in 0..3 { r[i] += off[i]; v[i] += off[i + 3]; }
    kepler(r, v, (e - run.x0.epoch()).to_seconds(), MU)
}
pub fn gauss(r: &mut Rng64) -> f64 { (-2.0 * r.r(1e-300, 1.0).ln()).sqrt() * (2.0 * std::f64::consts::PI * r.r(0.0, 1.0)).cos() }
pub fn draw(r: &mut Rng64, p: &M9) -> V9 { V9::from_fn(|i, _| p[(i, i)].sqrt() * gauss(r).clamp(-2.0, 2.0)) }
pub fn tyname(t: &MT) -> String { format!("{t:?}") }

/// Kinematic continuity of entry `e` from the previous one: (nominal state error in 1e-6 km / 1e-9 km/s, STM error in 1e-9 relative)
pub fn continuity(run: &Run, prev: &KfEstimate<Spacecraft>, first: bool, e: &KfEstimate<Spacecraft>) -> (i64, i64) {
    let s = if run.ekf && !first { prev.state() } else { prev.nominal_state };
    let (r, v) = rv(&s);
    let dt = (e.nominal_state.epoch() - prev.nominal_state.epoch()).to_seconds();
    let (rk, vk) = kepler(r, v, dt, MU);
    let (rn, vn) = rv(&e.nominal_state);
    let nom = mag(norm(sub(rk, rn)), 1e-6).max(mag(norm(sub(vk, vn)), 1e-9));
    (nom, mag(stm_err(&e.stm, &kepler_stm(r, v, dt), r, v), 1e-9))
}

/// Kalman reference for one measurement entry, from its reported prediction and the raw observation; scaled discrepancies
pub fn reference(run: &Run, prev: &KfEstimate<Spacecraft>, e: &Entry, raw: &Measurement) -> Value {
    let res = e.res.as_ref().unwrap();
    let dev = run.devices.iter().find(|d| d.name == res.trk).unwrap();
    let (r, v) = rv(&e.est.nominal_state);
    let m = res.prefit.len();
    let mut h = DMatrix::<f64>::zeros(m, 9);
    let mut rk = DMatrix::<f64>::zeros(m, m);
    let (mut pre, mut amb, mut far, mut any) = (0i64, 0i64, false, false);
    for (i, t) in res.types.iter().enumerate() {
        let sg = dev.sigma[dev.idx(*t)];
        rk[(i, i)] = sg * sg;
        let Some(obs) = raw.data.get(t) else { pre = pre.max(mag(res.prefit[i], sg * 1e-3)); continue };
        any = true;
        let row = dev.row(*t, r, v);
        for j in 0..9 { h[(i, j)] = row[j]; }
        let md = if *t == MT::Azimuth { Some(360.0) } else { run.arc.moduli.as_ref().and_then(|x| x.get(t).copied()) };
        let want = dev.value(*t, r, v) + dev.bias[dev.idx(*t)];
        let mut real = *obs;
        if let Some(md) = md {
            let k = (res.real[i] - obs) / md;
            amb = amb.max(mag(k - k.round(), 1e-9));
            far |= res.prefit[i].abs() > 0.5 * md * (1.0 + 1e-6);
            real = res.real[i];
        }
        pre = pre.max(mag(real - want - res.prefit[i], sg * 1e-3));
    }
    let pb = DMatrix::from_fn(9, 9, |i, j| e.est.covar_bar[(i, j)]);
    let s = &h * &pb * h.transpose() + &rk;
    let si = match s.clone().try_inverse() { Some(x) => x, None => return json!({"sing": true}) };
    let y = DVector::from_fn(m, |i, _| res.prefit[i]);
    let ratio = ((y.transpose() * &si * &y)[(0, 0)] / m as f64).sqrt();
    let k = &pb * h.transpose() * &si;
    let xbar = if run.ekf { DVector::zeros(9) } else { let d = e.est.stm * prev.state_deviation; DVector::from_fn(9, |i, _| d[i]) };
    let x = &xbar + &k * (&y - &h * &xbar);
    let ikh = DMatrix::identity(9, 9) - &k * &h;
    let p = &ikh * &pb * ikh.transpose() + &k * &rk * k.transpose();
    let p = M9::from_fn(|i, j| 0.5 * (p[(i, j)] + p[(j, i)]));
    let mut xe = 0.0f64;
    for i in 0..9 {
        let want = if res.rejected { xbar[i] } else { x[i] };
        let d = (e.est.state_deviation[i] - want).abs();
        let sg = p[(i, i)].abs().sqrt().max(want.abs() * 1e-6);
        if d > 0.0 || d.is_nan() { xe = xe.max(if d.is_nan() || sg == 0.0 { 1e300 } else { d / sg }); }
    }
    let want = if res.rejected { e.est.covar_bar } else { p };
    // the updated residual of the extended variant
    let post = if run.ekf && !res.rejected { let q = &y - &h * &x; (0..m).map(|i| mag(q[i] - res.postfit[i], dev.sigma[dev.idx(res.types[i])] * 1e-3)).max().unwrap() } else { 0 };
    let mut o = predicted(prev, &e.est, run.ekf);
    let sh = -min_eig(&(e.est.covar_bar - e.est.covar), &e.est.covar_bar);
    for (a, b) in [("sing", json!(false)), ("pre", json!(pre)), ("amb", json!(amb)), ("far", json!(far)), ("ratio", json!(clampi(ratio * 1e6))), ("rre", json!(mag((ratio - res.ratio) / ratio.max(1e-3), 1e-6))),
        ("xe", json!(mag(xe, 1e-6))), ("ce", json!(mag(cov_err(&e.est.covar, &want), 1e-6))), ("rej", json!(res.rejected)), ("shrink", json!(mag(sh.max(0.0), 1e-9))), ("post", json!(post)), ("any", json!(any))] { o[a] = b; }
    o
}
/// Time update checks shared by all entries: predicted covariance and deviation, symmetry, positivity
pub fn predicted(prev: &KfEstimate<Spacecraft>, e: &KfEstimate<Spacecraft>, ekf: bool) -> Value {
    let pb = e.stm * prev.covar * e.stm.transpose();
    let xb = if ekf { V9::zeros() } else { e.stm * prev.state_deviation };
    let mut xe = 0.0f64;
    for i in 0..9 {
        let d = (e.state_deviation[i] - xb[i]).abs();
        let sg = pb[(i, i)].abs().sqrt().max(xb[i].abs() * 1e-6);
        if d > 0.0 || d.is_nan() { xe = xe.max(if d.is_nan() || sg == 0.0 { 1e300 } else { d / sg }); }
    }
    json!({"cb": mag(cov_err(&e.covar_bar, &pb), 1e-6), "psd": mag((-min_eig(&e.covar, &e.covar)).max(0.0), 1e-9), "sym": mag(cov_err(&e.covar, &e.covar.transpose()), 1e-9),
        "xe": mag(xe, 1e-6), "same": cov_err(&e.covar, &e.covar_bar) < 1e-9})
}

// ---------------------------------------------------------------------------------------------------------------- P09
pub fn cases09(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mut specs: Vec<(String, Vec<(i64, String)>, i64)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("scen{i}"),
        s["arc"].as_array().unwrap().iter().map(|x| (x["g"].as_i64().unwrap(), x["kd"].as_str().unwrap().to_string())).collect(), 0)).collect();
    let keep = ctx.n(900, 1_000_000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(120, 1500) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let n = 2 + r.u(12);
        let kinds = ["one", "two", "part", "flag", "none"];
        let a = (0..n).map(|_| (*r.pick(&[0, 1, 1, 1, 2, 3, 5, 9]), kinds[[0, 0, 1, 1, 2, 3, 4][r.u(7)]].to_string())).collect();
        specs.push((id, a, 0));
    }
    for i in 0..ctx.n(40, 300) { specs.push((format!("pred{i}"), vec![], 1)); }
    for i in 0..ctx.n(24, 100) { specs.push((format!("bad{i}"), vec![], 2)); }
    for (id, arc, kind) in specs {
        let mut r = ctx.rng(&id);
        let mut run = base_run(&mut r);
        // one tick is half the maximum step, give or take a bit when there is no need for exactness
        run.max = Duration::from_total_nanoseconds(if r.b() { r.i(5, 90) as i128 * 1_000_000_000 } else { r.i(5_000_000_000, 90_000_000_000) as i128 } / 2 * 2);
        let tick = run.max.total_nanoseconds() / 2;
        if r.u(3) == 0 { run.opts = IntegratorOptions::with_fixed_step(Duration::from_total_nanoseconds(r.i(3_000_000_000, 60_000_000_000) as i128)); }
        if r.b() { run.reject = Some(r.r(1.0, 6.0)); }
        let m = 1 + r.u(2);
        // devices: A has one window, B two
        let mut tys = NAMES.to_vec();
        for i in (1..tys.len()).rev() { let j = r.u(i + 1); tys.swap(i, j); }
        let (ta, tb) = (tys[..m].to_vec(), tys[..2 * m].to_vec());
        run.devices = vec![rand_mock(&mut r, "A", &ta), rand_mock(&mut r, "B", &tb), rand_mock(&mut r, "N", &ta)];
        let mut off = draw(&mut r, &run.p0);
        if r.u(4) == 0 { off *= 20.0; }
        let mut t = epoch0();
        let mut ms = vec![];
        let mut last_by: BTreeMap<String, Epoch> = BTreeMap::new();
        let mut blind = vec![];
        let bad_kind = if kind == 2 { 1 + r.u(4) } else { 0 };
        let arc = if kind == 2 { vec![(1, "one".into()), (2, "two".into()), (1, "one".into())] } else { arc };
        for (g, kd) in &arc {
            let jit = if *g > 0 && r.u(3) == 0 { r.i(-(tick as i64) / 3, tick as i64 / 3) as i128 } else { 0 };
            t += Duration::from_total_nanoseconds(*g as i128 * tick + jit);
            let unk = r.b();
            let mut name = match kd.as_str() { "one" | "flag" => "A", "two" | "part" => "B", _ => if unk { "U" } else { "N" } }.to_string();
            // a tracker makes one measurement at a time: a further one at the same epoch comes from a twin of it
            while last_by.get(&name) == Some(&t) { name.push('x'); }
            last_by.insert(name.clone(), t);
            let base = &name[..1];
            if name.len() > 1 && base != "U" && !run.devices.iter().any(|d| d.name == name) {
                let mut d = run.devices.iter().find(|d| d.name == base).unwrap().clone();
                d.name = name.clone();
                run.devices.push(d);
            }
            let (tr, tv) = truth(&run, &off, t);
            let dv = run.devices.iter().find(|d| d.name == name).cloned().unwrap_or(run.devices[0].clone());
            let mut msr = Measurement::new(name.clone(), t);
            let mut wins: Vec<Vec<String>> = vec![];
            for (wi, w) in dv.types.iter().copied().collect::<Vec<_>>().chunks(m).enumerate() {
                if kd == "part" && wi == 0 { continue; }
                let mut w = w.to_vec();
                let full: Vec<String> = w.iter().map(tyname).collect();
                // an incomplete window is still one update
                if m == 2 && r.u(6) == 0 { w.remove(r.u(2)); }
                for ty in w { let i = dv.idx(ty); let mut x = dv.value(ty, tr, tv) + gauss(&mut r) * dv.sigma[i]; if r.u(12) == 0 { x += dv.sigma[i] * 1e3; } msr.push(ty, x); }
                wins.push(full);
            }
            msr.rejected = kd == "flag";
            if kd == "none" && !unk { let n = (t - epoch0()).total_nanoseconds() as i64; blind.push((n, n)); }
            ms.push(json!({"t": ep(t, epoch0()), "w": wins, "flag": kd == "flag", "silent": kd == "none", "trk": name}));
            run.arc.measurements.push(msr);
        }
        for d in run.devices.iter_mut() { if d.name.starts_with('N') { d.blind = blind.clone(); } }
        let mut end = epoch0();
        if kind == 1 {
            run.arc = TrackingDataArc::default();
            end = epoch0() + Duration::from_total_nanoseconds(match r.u(4) { 0 => tick * 2 * r.i(1, 6) as i128, 1 => 0, _ => r.i(1, tick as i64 * 9) as i128 });
        }
        match bad_kind {
            1 => { run.arc.measurements.truncate(r.u(2)); ms.truncate(run.arc.measurements.len()); }
            2 => run.max = Duration::ZERO,
            3 => run.max = -run.max,
            4 => { let k = r.u(run.arc.measurements.len()); let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); for x in run.arc.measurements[k].data.values_mut() { *x = bad; } }
            _ => {}
        }
        // A noisy decay and start time in some: the entries must not depend on them
        if r.u(3) == 0 { run.noise.push(Q { diag: [1e-18; 3], start: None, disable: 1.days(), frame: None, decay: if r.b() { Some([1e-4; 3]) } else { None } }); }
        let begin = json!({"ms": ms, "max": dur(run.max), "t": ep(epoch0(), epoch0()), "bad": bad_kind > 0, "pred": kind == 1, "end": ep(end, epoch0()), "ekf": run.ekf, "m": m, "badkind": bad_kind});
        v.push(case(id, begin, move |rec| {
            let out = go(&run, m, if kind == 1 { Some(end) } else { None });
            match out {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok((es, n)) => {
                    rec.ev("len", json!({"n": n}));
                    let mut prev = KfEstimate::from_covar(run.x0, run.p0);
                    let z = epoch0();
                    for (i, e) in es.iter().enumerate() {
                        let (nom, stm) = continuity(&run, &prev, i == 0, &e.est);
                        match &e.res {
                            None => rec.ev("tu", json!({"t": ep(e.est.nominal_state.epoch(), z), "nom": nom, "stm": stm})),
                            Some(x) => {
                                // the observation used must be that of the arc
                                let src = run.arc.measurements.iter().find(|q| q.epoch == x.epoch && q.tracker == x.trk);
                                let mut obs = if src.is_none() { 1_000_000_000 } else { 0 };
                                if let Some(q) = src { for (i, t) in x.types.iter().enumerate() { if let Some(val) = q.data.get(t) { let d = val - x.real[i]; let d = if *t == MT::Azimuth { d - 360.0 * (d / 360.0).round() } else { d }; obs = obs.max(mag(d, 1e-9)); } } }
                                rec.ev("msr", json!({"t": ep(e.est.nominal_state.epoch(), z), "rt": ep(x.epoch, z), "trk": x.trk, "ty": x.types.iter().map(tyname).collect::<Vec<_>>(), "obs": obs, "gain": e.gain.is_some(), "rej": x.rejected, "pre": e.est.predicted, "nom": nom, "stm": stm}));
                            }
                        }
                        prev = e.est;
                    }
                    rec.ev("done", json!({}));
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------- P10
pub fn cases10(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    // pattern of innovations in sigmas (scaled by ten)
    let mut specs: Vec<(String, Vec<f64>)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("scen{i}"), s["zs"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect())).collect();
    let keep = ctx.n(300, 3000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(300, 3000) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let n = 2 + r.u(10);
        let wild = r.u(3);
        specs.push((id, (0..n).map(|_| match wild { 0 => gauss(&mut r), 1 => gauss(&mut r) * 3.0, _ => if r.u(3) == 0 { r.r(-1e3, 1e3) } else { gauss(&mut r) } }).collect()));
    }
    for (id, zs) in specs {
        let mut r = ctx.rng(&id);
        let mut run = base_run(&mut r);
        run.max = Duration::from_total_nanoseconds(r.i(5_000_000_000, 300_000_000_000) as i128);
        if r.u(3) == 0 { run.opts = IntegratorOptions::with_fixed_step(Duration::from_total_nanoseconds(r.i(3_000_000_000, 60_000_000_000) as i128)); }
        let m = 1 + r.u(2);
        let mut tys = NAMES.to_vec();
        for i in (1..tys.len()).rev() { let j = r.u(i + 1); tys.swap(i, j); }
        let (ta, tb) = (tys[..m].to_vec(), tys[..2 * m].to_vec());
        run.devices = vec![rand_mock(&mut r, "A", &ta), rand_mock(&mut r, "B", &tb)];
        if r.b() { for d in run.devices.iter_mut() { for i in 0..d.sigma.len() { d.bias[i] = r.r(-9.0, 9.0) * d.sigma[i]; } } }
        // a full covariance: correlated position and velocity
        if r.b() {
            let sd = V9::from_fn(|i, _| run.p0[(i, i)].sqrt());
            let a = M9::from_fn(|i, j| if i < 6 && j < 6 { if i == j { 1.0 } else { r.r(-0.4, 0.4) } } else { 0.0 });
            let c = a * a.transpose();
            run.p0 = M9::from_fn(|i, j| c[(i, j)] * sd[i] * sd[j]);
            run.p0 = 0.5 * (run.p0 + run.p0.transpose());
        }
        let off = draw(&mut r, &run.p0);
        if !run.ekf && r.b() { run.dev0 = draw(&mut r, &run.p0); }
        let modulus = if r.u(3) == 0 && tb.contains(&MT::Range) { Some(r.r(5.0, 5000.0)) } else { None };
        let mut t = epoch0();
        for z in &zs {
            t += Duration::from_total_nanoseconds(*r.pick(&[1_000_000_000, 30_000_000_000, 60_000_000_000, 333_000_000_000]) * r.i(1, 3) as i128);
            let name = if r.b() { "A" } else { "B" };
            let (tr, tv) = truth(&run, &off, t);
            let dv = run.devices.iter().find(|d| d.name == name).cloned().unwrap();
            let mut msr = Measurement::new(name.to_string(), t);
            let skip = if m == 2 && r.u(5) == 0 { r.u(dv.types.len()) } else { 99 };
            for (i, ty) in dv.types.iter().enumerate() {
                if i == skip { continue; }
                let mut x = dv.value(*ty, tr, tv) + dv.bias[i] + z * dv.sigma[i] + 0.1 * gauss(&mut r) * dv.sigma[i];
                if *ty == MT::Range { if let Some(md) = modulus { x -= (x / md).floor() * md; } }
                if *ty == MT::Azimuth && r.b() { x += 360.0; }
                msr.push(*ty, x);
            }
            msr.rejected = r.u(12) == 0;
            run.arc.measurements.push(msr);
        }
        if let Some(md) = modulus { run.arc.moduli = Some([(MT::Range, md)].into_iter().collect()); }
        let (force, sel) = (r.u(12) == 0, r.u(6));
        let (a, b) = (r.u(64), r.r(0.5, 6.0));
        let eps = *r.pick(&[1e-3, 1e-2, 0.1]) * if r.b() { 1.0 } else { -1.0 };
        let begin = json!({"ekf": run.ekf, "m": m, "types": tb.iter().map(tyname).collect::<Vec<_>>(), "modulus": modulus.unwrap_or(0.0) as i64, "n": zs.len()});
        v.push(case(id, begin, move |rec| {
            let mut run = run.clone();
            if sel > 0 {
                // a threshold just above or below one of the ratios of the filter which accepts everything
                run.reject = None;
                let rt: Vec<f64> = go(&run, m, None).map(|x| x.0.iter().filter_map(|e| e.res.as_ref().map(|q| q.ratio)).collect()).unwrap_or_default();
                run.reject = Some(if sel > 2 && !rt.is_empty() { rt[a % rt.len()] * (1.0 + eps) } else { b });
            }
            if force { run.arc.force_reject = true; }
            rec.ev("set", json!({"thr": run.reject.map(|x| clampi(x * 1e6)).unwrap_or(-1), "force": force}));
            match go(&run, m, None) {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok((es, _)) => {
                    let mut prev = KfEstimate::from_covar(run.x0, run.p0);
                    prev.state_deviation = run.dev0;
                    for e in &es {
                        match &e.res {
                            None => rec.ev("tu", predicted(&prev, &e.est, run.ekf)),
                            Some(x) => {
                                let src = run.arc.measurements.iter().find(|q| q.epoch == x.epoch && q.tracker == x.trk).unwrap();
                                rec.ev("msr", reference(&run, &prev, e, src));
                            }
                        }
                        prev = e.est;
                    }
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------- P11
pub fn cases11(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    // noises as (start, disable) in ticks, and gaps in ticks
    type Sp = (String, Vec<(i64, i64)>, Vec<i64>);
    let mut specs: Vec<Sp> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("scen{i}"), s["noise"].as_array().unwrap().iter().map(|x| (x["start"].as_i64().unwrap(), x["dis"].as_i64().unwrap())).collect(),
        s["gaps"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())).collect();
    let keep = ctx.n(500, 6000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(200, 3000) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let noise = (0..r.u(4)).map(|_| (if r.b() { 0 } else { r.i(1, 20) }, r.i(0, 6))).collect();
        let gaps = (0..2 + r.u(10)).map(|_| r.i(0, 8)).collect();
        specs.push((id, noise, gaps));
    }
    for (id, noise, gaps) in specs {
        let mut r = ctx.rng(&id);
        let mut run = base_run(&mut r);
        let (sp, sv) = (10f64.powf(r.r(-3.0, -1.0)), 10f64.powf(r.r(-6.0, -4.0)));
        run.p0 = diag(sp, sv);
        let tick = if r.b() { r.i(5, 60) as i128 * 1_000_000_000 } else { r.i(5_000_000_000, 60_000_000_000) as i128 };
        let tk = |n: i64| Duration::from_total_nanoseconds(n as i128 * tick);
        // exact boundaries must be reached: the filter itself does not split the gaps unless told so
        let mx = if r.u(3) == 0 { r.i(1, 4) } else { 1000 };
        run.max = tk(mx);
        if r.u(3) == 0 { run.opts = IntegratorOptions::with_fixed_step(tk(r.i(1, 3))); } else { run.opts = IntegratorOptions::builder().init_step(tk(1000)).min_step(1.seconds()).max_step(tk(1000)).build(); }
        for (s, d) in &noise {
            // off the boundary by a nanosecond now and then
            let j = Duration::from_total_nanoseconds(*r.pick(&[0, 0, 0, 1, -1]));
            let start = if *s == 0 { None } else { Some(epoch0() + tk(*s) + j) };
            let j = Duration::from_total_nanoseconds(*r.pick(&[0, 0, 0, 1, -1]));
            let dis = tk(*d) + if *d > 0 { j } else { Duration::ZERO };
            let a = 10f64.powf(r.r(-13.0, -9.0));
            let dg = [a * r.r(0.2, 5.0), a * r.r(0.2, 5.0), a * r.r(0.2, 5.0)];
            let fr = if r.b() { let k = r.u(4); Some(FRAMES[k]) } else { None };
            let dc = if r.u(3) == 0 { let h = tk(10).to_seconds(); Some([r.r(0.0, 1.0) / h, r.r(0.0, 3.0) / h, r.r(0.0, 1.0) / h]) } else { None };
            run.noise.push(Q { diag: dg, start, disable: dis, frame: fr, decay: dc });
        }
        let m = 1;
        let ty = [*r.pick(&NAMES)];
        run.devices = vec![rand_mock(&mut r, "A", &ty), rand_mock(&mut r, "B", &ty)];
        if r.b() { run.reject = Some(r.r(0.5, 3.0)); }
        let off = draw(&mut r, &run.p0);
        let mut t = epoch0();
        let pred = r.u(5) == 0;
        let mut last = (epoch0() - 1.days(), "A");
        for g in &gaps {
            t += tk(*g);
            let (tr, tv) = truth(&run, &off, t);
            let name = if last.0 == t { if last.1 == "A" { "B" } else { break } } else { "A" };
            last = (t, name);
            let dv = run.devices[0].clone();
            let mut msr = Measurement::new(name.to_string(), t);
            msr.push(ty[0], dv.value(ty[0], tr, tv) + gauss(&mut r) * dv.sigma[0]);
            msr.rejected = r.u(4) == 0;
            run.arc.measurements.push(msr);
        }
        if run.arc.measurements.len() < 2 { continue; }
        let bn: Vec<Value> = run.noise.iter().map(|q| json!({"has": q.start.is_some(), "start": ep(q.start.unwrap_or(epoch0()), epoch0()), "dis": dur(q.disable)})).collect();
        let begin = json!({"noise": bn, "ekf": run.ekf, "pred": pred, "gaps": gaps});
        v.push(case(id, begin, move |rec| {
            let end = run.arc.measurements.last().unwrap().epoch;
            match go(&run, m, if pred { Some(end) } else { None }) {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok((es, _)) => {
                    let mut prev = KfEstimate::from_covar(run.x0, run.p0);
                    for e in &es {
                        let t = e.est.nominal_state.epoch();
                        let dt = (t - prev.nominal_state.epoch()).to_seconds();
                        let base = e.est.stm * prev.covar * e.est.stm.transpose();
                        let (rr, vv) = rv(&e.est.nominal_state);
                        let cand: Vec<i64> = run.noise.iter().map(|q| mag(cov_err(&e.est.covar_bar, &(base + q.add(rr, vv, dt, (t - epoch0()).to_seconds()))), 1e-6)).collect();
                        let added = e.est.covar_bar - base;
                        rec.ev("step", json!({"t": ep(t, epoch0()), "none": mag(cov_err(&e.est.covar_bar, &base), 1e-6), "cand": cand,
                            "psd": mag((-min_eig(&added, &base)).max(0.0), 1e-9), "sym": mag(cov_err(&e.est.covar_bar, &e.est.covar_bar.transpose()), 1e-9)}));
                        prev = e.est;
                    }
                }
            }
        }));
    }
    v
}
const FRAMES: [(LocalFrame, usize); 4] = [(LocalFrame::Inertial, 0), (LocalFrame::RIC, 1), (LocalFrame::RCN, 1), (LocalFrame::VNC, 2)];

// ---------------------------------------------------------------------------------------------------------------- P12
/// Regularised lower incomplete gamma function of a multiple of one half
fn gamma_p(k2: usize, x: f64) -> f64 {
    if x <= 0.0 { return 0.0; }
    let a = k2 as f64 / 2.0;
    let mut lg = if k2 % 2 == 0 { 0.0 } else { std::f64::consts::PI.ln() / 2.0 };
    let mut b = if k2 % 2 == 0 { 1.0 } else { 0.5 };
    while b < a { lg += f64::ln(b); b += 1.0; }
    let lead = (a * x.ln() - x - lg).exp();
    if x < a + 1.0 {
        let (mut t, mut s, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..5000 { n += 1.0; t *= x / n; s += t; if t < s * 1e-16 { break; } }
        lead * s
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..5000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = 1.0 / (an * d + b);
            c = b + an / c;
            h *= d * c;
            if (d * c - 1.0).abs() < 1e-16 { break; }
        }
        1.0 - lead * h
    }
}
fn chi2_cdf(k: usize, x: f64) -> f64 { gamma_p(k, x / 2.0) }
fn normal_cdf(z: f64) -> f64 { 0.5 * (1.0 + z.signum() * gamma_p(1, z * z / 2.0)) }

macro_rules! p12 {
    ($n:literal, $f:ident, $proc:ident) => {
        fn $f(run: &Run, run2: &Run, thr: f64, rec: &Rec) {
            type S = Sol<nalgebra::Const<$n>>;
            let (mut s, mut s2) = match ($proc(run, None), $proc(run2, None)) { (Ok(a), Ok(b)) => (a, b), _ => return };
            // queries of a smoothed solution, in some cases
            let smoothed = thr > 2.2;
            if smoothed { (s, s2) = match (s.smooth(&alm()), s2.smooth(&alm())) { (Ok(a), Ok(b)) => (a, b), _ => return }; }
            // identity of an entry: everything in it
            let key = |s: &S, i: usize| -> String { format!("{:?}|{:?}|{:?}|{:?}", s.estimates[i], s.residuals.get(i), s.gains.get(i), s.filter_smoother_ratios.get(i)) };
            let mut all = vec![];
            for q in [&s, &s2] { for i in 0..q.estimates.len() { all.push(key(q, i)); } }
            let find = |s: &S| -> Vec<usize> {
                if s.residuals.len() != s.estimates.len() || s.gains.len() != s.estimates.len() || s.filter_smoother_ratios.len() != s.estimates.len() { return vec![0]; }
                (0..s.estimates.len()).map(|i| { let k = key(s, i); all.iter().position(|x| *x == k).map(|x| x + 1).unwrap_or(0) }).collect() };
            let n = s.estimates.len();
            let z = epoch0();
            let ent = |s: &S, i: usize| { let t = ep(s.estimates[i].epoch(), z); match &s.residuals[i] {
                None => json!({"t": t, "tu": true, "trk": "", "ty": Vec::<String>::new(), "rej": false, "in": false}),
                Some(r) => json!({"t": t, "tu": false, "trk": r.tracker.clone().unwrap(), "ty": r.msr_types.iter().map(tyname).collect::<Vec<_>>(), "rej": r.rejected, "in": r.ratio.abs() <= thr}) } };
            let mut sol: Vec<Value> = (0..n).map(|i| ent(&s, i)).collect();
            sol.extend((0..s2.estimates.len()).map(|i| ent(&s2, i)));
            rec.ev("sol", json!({"sol": sol, "n": n}));
            let q = |rec: &Rec, op: &str, ty: &str, trk: &str, out: Vec<usize>| rec.ev("q", json!({"op": op, "ty": ty, "trk": trk, "out": out}));
            q(rec, "drop", "", "", find(&s.clone().drop_time_updates()));
            for t in NAMES { q(rec, "type", &tyname(&t), "", find(&s.clone().filter_by_msr_type(t))); }
            for t in ["A", "AB", "nope"] { q(rec, "trk", "", t, find(&s.clone().filter_by_tracker(t.into()))); q(rec, "excl", "", t, find(&s.clone().exclude_tracker(t.into()))); }
            let rid = |r: &Residual<nalgebra::Const<$n>>| s.residuals.iter().position(|x| format!("{x:?}") == format!("{:?}", Some(r))).map(|x| x + 1).unwrap_or(0);
            q(rec, "acc", "", "", s.accepted_residuals().iter().map(rid).collect());
            q(rec, "rej", "", "", s.rejected_residuals().iter().map(rid).collect());
            rec.ev("uniq", json!({"out": s.unique().iter().map(|(a, b)| vec![a.clone(), tyname(b)]).collect::<Vec<_>>()}));
            let parts = s.clone().split();
            for ((trk, ty), p) in s.unique().iter().zip(parts.iter()) { q(rec, "part", &tyname(ty), trk, find(p)); }
            q(rec, "merge", "", "", find(&s.clone().merge(s2.clone())));
            // at: every epoch, and epochs in between
            for i in 0..n { for off in [0i128, 1, -1] {
                let e = s.estimates[i].epoch() + Duration::from_total_nanoseconds(off);
                let out = s.at(e).map(|r| { let k = format!("{:?}|{:?}|{:?}|{:?}", r.estimate, Some(r.residual), Some(r.gain), Some(r.filter_smoother_ratio)); all.iter().position(|x| *x == k).map(|x| x + 1).unwrap_or(1_000_000) }).unwrap_or(0);
                rec.ev("at", json!({"t": ep(e, z), "out": out}));
            } }
            if let Ok(t) = s.to_traj() { rec.ev("traj", json!({"out": t.states.iter().map(|x| ep(x.epoch(), z)).collect::<Vec<_>>()})); }
            // statistics
            let rs: Vec<_> = s.residuals.iter().flatten().collect();
            if !rs.is_empty() {
                let k = rs.len() as f64;
                let rel = |a: f64, b: f64| mag((a - b) / b.abs().max(1e-300), 1e-9);
                let pre = (rs.iter().map(|r| r.prefit.iter().map(|x| x * x).sum::<f64>()).sum::<f64>() / k).sqrt();
                let ok: Vec<_> = rs.iter().filter(|r| !r.rejected).collect();
                let post = (ok.iter().map(|r| r.postfit.iter().map(|x| x * x).sum::<f64>()).sum::<f64>() / ok.len() as f64).sqrt();
                let ra = (rs.iter().map(|r| r.ratio * r.ratio).sum::<f64>() / k).sqrt();
                rec.ev("stat", json!({"op": "rms-prefit", "e": rel(s.rms_prefit_residuals(), pre)}));
                if !ok.is_empty() { rec.ev("stat", json!({"op": "rms-postfit", "e": rel(s.rms_postfit_residuals(), post)})); }
                rec.ev("stat", json!({"op": "rms-ratio", "e": rel(s.rms_residual_ratios(), ra)}));
                if let Ok(c) = s.nis_consistency(None) {
                    let want = ok.iter().map(|r| r.ratio * r.ratio * $n as f64).sum::<f64>();
                    rec.ev("stat", json!({"op": "nis", "e": rel(c.normalized_sum, want).max(rel(c.k, (ok.len() * $n) as f64))}));
                } else { rec.ev("stat", json!({"op": "nis", "e": if ok.is_empty() { 0 } else { 1_000_000_000 }})); }
            }
            // tests of consistency, with another level of significance now and then
            let alpha = if (thr * 1e4) as i64 % 2 == 0 { None } else { Some((thr * 1e4).fract().clamp(0.01, 0.6)) };
            let al = alpha.unwrap_or(0.05);
            let bounds = |c: &NormalizedConsistency| -> i64 {
                let (k, x) = (c.k as usize, c.normalized_sum);
                let d = (chi2_cdf(k, c.lower_bound) - al / 2.0).abs().max((chi2_cdf(k, c.upper_bound) - 1.0 + al / 2.0).abs());
                let f = c.is_consistent() == (x > c.lower_bound && x < c.upper_bound) && c.is_underconfident() == (x < c.lower_bound) && c.is_overconfident() == (x > c.upper_bound) && c.has_statistical_power() == (k > 35);
                if !f { 1_000_000 } else if d > if k < 3 { 0.08 } else if k < 6 { 0.04 } else { 0.01 } { 1_000_000 } else { 0 } };
            let acc: Vec<_> = s.residuals.iter().flatten().filter(|r| !r.rejected).collect();
            if let Ok(c) = s.nis_consistency(alpha) { rec.ev("stat", json!({"op": "nis-bounds", "e": if c.is_nees { 1_000_000 } else { bounds(&c) }})); }
            // normality: the largest gap between the steps of the sample and the normal law of its mean and spread
            let mut w: Vec<f64> = acc.iter().flat_map(|r| r.whitened_resid.iter().copied().collect::<Vec<_>>()).collect();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let nw = w.len() as f64;
            let mean = w.iter().sum::<f64>() / nw;
            let std = (w.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / nw).sqrt();
            if w.is_empty() { rec.ev("stat", json!({"op": "normality", "e": if s.ks_test_normality().is_err() && s.is_normal(alpha).is_err() { 0 } else { 1_000_000 }})); }
            else if std > 1e-9 * (1.0 + mean.abs()) {
                let d = w.iter().enumerate().map(|(i, x)| { let f = normal_cdf((x - mean) / std); (((i + 1) as f64 / nw) - f).max(f - i as f64 / nw) }).fold(0.0, f64::max);
                let crit = (-(al / 2.0).ln() / 2.0).sqrt() / nw.sqrt();
                let e = match (s.ks_test_normality(), s.is_normal(alpha)) { (Ok(g), Ok(n)) => mag(g - d, 1e-9).max(if (d - crit).abs() > 1e-6 && n != (d < crit) { 1_000_000 } else { 0 }), _ => 1_000_000 };
                rec.ev("stat", json!({"op": "normality", "e": e}));
            }
            // errors with respect to a truth known at each epoch
            {
                let mut off = crate::util::Rng64(Pcg64Mcg::new((thr * 1e9) as u128 | 1));
                let mut tr = Traj::<Spacecraft>::new();
                let scale = 10f64.powf(off.r(-1.0, 1.0));
                for e in &s.estimates {
                    if tr.states.iter().any(|x: &Spacecraft| x.epoch() == e.epoch()) { continue; }
                    let mut x = e.state();
                    let d = V9::from_fn(|i, _| if i < 6 { scale * off.r(-1.0, 1.0) * e.covar[(i, i)].max(0.0).sqrt() } else { 0.0 });
                    x = x + d;
                    tr.states.push(x);
                }
                tr.finalize();
                let mut want = 0.0;
                let mut good = s.estimates.len() > 1;
                for e in s.estimates.iter().skip(1) {
                    let x = tr.states.iter().find(|x| x.epoch() == e.epoch()).unwrap();
                    let d = e.state().to_vector() - x.to_vector();
                    let d = SVector::<f64, 6>::from_fn(|i, _| d[i]);
                    let p = 0.5 * (e.covar + e.covar.transpose());
                    if (6..9).any(|i| p[(i, i)] > 0.0) { good = false; }
                    let p = SMatrix::<f64, 6, 6>::from_fn(|i, j| p[(i, j)]);
                    let ev = p.symmetric_eigenvalues();
                    if !(ev.min() > ev.max() * 1e-11) { good = false; }
                    match p.try_inverse() { Some(i) => want += (d.transpose() * i * d)[0], None => good = false }
                }
                match s.nees_consistency(&tr, alpha) {
                    Ok(c) => {
                        let mut e = bounds(&c).max(if c.is_nees && s.estimates.len() > 1 { 0 } else { 1_000_000 });
                        if good { e = e.max(if (c.normalized_sum - want).abs() > 1e-3 * want.abs().max(1e-6) || c.k != ((s.estimates.len() - 1) * 6) as f64 { 1_000_000 } else { 0 }); }
                        rec.ev("stat", json!({"op": "nees", "e": e, "judged": good, "got": format!("{}", c.normalized_sum), "want": format!("{want}")}));
                    }
                    Err(_) => rec.ev("stat", json!({"op": "nees", "e": if s.estimates.len() > 1 { 1_000_000 } else { 0 }})),
                }
                // a truth which stops before the estimates do
                if tr.states.len() > 1 { tr.states.pop(); rec.ev("stat", json!({"op": "nees-short", "e": if s.nees_consistency(&tr, alpha).is_ok() { 1_000_000 } else { 0 }})); }
            }
            // at thresholds on both sides of each ratio, rejected or not
            let mut qs: Vec<f64> = s.residuals.iter().flatten().map(|r| r.ratio.abs()).filter(|x| x.is_finite()).collect();
            if qs.len() == s.residuals.iter().flatten().count() && !qs.is_empty() {
                qs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let bad = qs.iter().any(|q| [q * 0.999999, *q, q * 1.000001].iter().any(|t| {
                    let w = qs.iter().filter(|x| **x <= *t).count() as f64 / qs.len() as f64;
                    !matches!(s.residual_ratio_within_threshold(*t), Ok(f) if (f - w).abs() < 1e-12)
                }));
                rec.ev("stat", json!({"op": "within-threshold", "e": if bad { 1_000_000 } else { 0 }}));
            }
            let fr = s.residual_ratio_within_threshold(thr);
            rec.ev("frac", json!({"ok": fr.is_ok(), "ppm": fr.map(|x| (x * 1e6) as i64).unwrap_or(0)}));
            if smoothed { return; }
            // smoothing
            let sm = match s.clone().smooth(&alm()) { Ok(x) => x, Err(e) => { rec.ev("err", json!({"msg": errs(&e)})); return; } };
            rec.ev("smooth", json!({"n": sm.estimates.len(), "nr": sm.residuals.len(), "ng": sm.gains.len(), "nf": sm.filter_smoother_ratios.len(), "gains": n >= 2 && sm.gains.iter().any(|g| g.is_some()), "ratios": sm.filter_smoother_ratios.iter().flatten().count()}));
            if sm.estimates.len() != n || sm.residuals.len() != n { return; }
            let (mut x, mut p) = (s.estimates[n - 1].state_deviation, s.estimates[n - 1].covar);
            for i in (0..n).rev() {
                let f = &s.estimates[i];
                if i < n - 1 {
                    let nx = &s.estimates[i + 1];
                    // the transition from the state the filter actually left this entry with
                    let from = if run.ekf { f.state() } else { f.nominal_state };
                    let (r0, v0) = rv(&from);
                    let phi = kepler_stm(r0, v0, (nx.epoch() - f.epoch()).to_seconds());
                    let inv = phi.try_inverse().unwrap();
                    // predicted deviation at the next entry
                    let xb = if run.ekf { V9::zeros() } else { phi * f.state_deviation };
                    x = f.state_deviation + inv * (x - xb);
                    p = inv * p * inv.transpose();
                }
                let e = &sm.estimates[i];
                let mut xe = 0.0f64;
                for j in 0..9 {
                    let d = (e.state_deviation[j] - x[j]).abs();
                    let sg = p[(j, j)].abs().sqrt().max(x[j].abs() * 1e-5);
                    if d > 0.0 || d.is_nan() { xe = xe.max(if d.is_nan() || sg == 0.0 { 1e300 } else { d / sg }); }
                }
                let (mut post, mut same) = (0i64, true);
                if let (Some(a), Some(b)) = (&s.residuals[i], &sm.residuals[i]) {
                    same = a.epoch == b.epoch && a.tracker == b.tracker && a.msr_types == b.msr_types && a.rejected == b.rejected && a.real_obs == b.real_obs && a.prefit == b.prefit && a.ratio == b.ratio;
                    if i < n - 1 {
                        let dev = run.devices.iter().find(|d| Some(&d.name) == a.tracker.as_ref()).unwrap();
                        let st = e.state();
                        let (r1, v1) = rv(&st);
                        for (j, t) in a.msr_types.iter().enumerate() {
                            let k = dev.idx(*t);
                            post = post.max(mag(a.real_obs[j] - (dev.value(*t, r1, v1) + dev.bias[k]) - b.postfit[j], dev.sigma[k] * 1e-3));
                        }
                    }
                }
                let mut fs = 0.0f64;
                if i < n - 1 {
                    if let Some(ra) = &sm.filter_smoother_ratios[i] {
                        for j in 0..6 {
                            let d = f.covar[(j, j)] - e.covar[(j, j)];
                            let dx = f.state_deviation[j] - e.state_deviation[j];
                            if d < 1e-3 * f.covar[(j, j)] { continue; }
                            // the states are rounded to their own precision
                            let big = if j < 3 { 1e5 } else { 20.0 };
                            let want = dx.abs() / d.sqrt();
                            let slack = 1e-14 * big / d.sqrt();
                            let y = ((ra[j].abs() - want).abs() - slack) / want.max(1.0);
                            fs = fs.max(if y.is_nan() { 1e300 } else { y });
                        }
                    }
                }
                let last = i < n - 1 || (e.state_deviation == s.estimates[i].state_deviation && e.covar == s.estimates[i].covar);
                rec.ev("sm", json!({"i": i + 1, "t": ep(e.epoch(), z), "tu": sm.residuals[i].is_none(), "same": same, "last": last, "xe": mag(xe, 1e-6), "ce": mag(cov_err(&e.covar, &p), 1e-6), "post": post, "fs": mag(fs, 1e-6)}));
            }
        }
    };
}
p12!(1, p12_1, process1);
p12!(2, p12_2, process2);

pub fn cases12(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let arc = |s: &Value, k: &str| -> Vec<(i64, String)> { s[k].as_array().unwrap().iter().map(|x| (x["g"].as_i64().unwrap(), x["kd"].as_str().unwrap().to_string())).collect() };
    let mut specs: Vec<(String, Vec<(i64, String)>, Vec<(i64, String)>)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("scen{i}"), arc(s, "a"), arc(s, "b"))).collect();
    let keep = ctx.n(200, 3000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    let kinds = ["tu", "A1", "A2", "B1", "rA1"];
    for i in 0..ctx.n(80, 1500) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let mut mk = |n: usize| (0..n).map(|_| (r.i(0, 3), kinds[r.u(5)].to_string())).collect::<Vec<_>>();
        let a = mk(2 + i % 9);
        let b = mk(2 + i % 5);
        specs.push((id, a, b));
    }
    for (id, a, b) in specs {
        let mut r = ctx.rng(&id);
        let mut run = base_run(&mut r);
        let m = 1 + r.u(2);
        let tick = r.i(20, 300) as f64;
        run.max = ((tick * r.r(0.4, 3.0)) as i64).seconds();
        run.reject = Some(r.r(2.5, 5.0));
        let mut tys = NAMES.to_vec();
        for i in (1..tys.len()).rev() { let j = r.u(i + 1); tys.swap(i, j); }
        let (ta, tb) = (tys[..2 * m].to_vec(), tys[m..2 * m].to_vec());
        run.devices = vec![rand_mock(&mut r, "A", &ta), rand_mock(&mut r, "AB", &tb)];
        if r.b() { for d in run.devices.iter_mut() { for i in 0..d.sigma.len() { d.bias[i] = r.r(-9.0, 9.0) * d.sigma[i]; } } }
        let off = draw(&mut r, &run.p0);
        if !run.ekf && r.b() { run.dev0 = draw(&mut r, &run.p0) * 0.1; }
        let fill = |r: &mut Rng64, run: &mut Run, arc: &[(i64, String)]| {
            let mut t = epoch0();
            let mut used: Vec<(Epoch, &str)> = vec![];
            for (g, kd) in arc {
                t += ((*g as f64) * tick).seconds();
                let name = if kd == "B1" { "AB" } else { "A" };
                if used.contains(&(t, name)) { t += 1.seconds(); }
                used.push((t, name));
                let (tr, tv) = truth(run, &off, t);
                let dv = run.devices.iter().find(|d| d.name == name).cloned().unwrap();
                let mut msr = Measurement::new(name.to_string(), t);
                for (i, ty) in dv.types.iter().enumerate() {
                    // window A1 or A2 of the first device
                    if name == "A" && ((kd == "A2") != (i >= m)) { continue; }
                    msr.push(*ty, dv.value(*ty, tr, tv) + dv.bias[i] + dv.sigma[i] * if kd == "rA1" { 1e4 } else { gauss(r) });
                }
                msr.rejected = kd == "tu";
                run.arc.measurements.push(msr);
            }
            while run.arc.measurements.len() < 2 {
                t += tick.seconds();
                let (tr, tv) = truth(run, &off, t);
                let dv = run.devices[1].clone();
                let mut msr = Measurement::new("AB".to_string(), t);
                for (i, ty) in dv.types.iter().enumerate() { msr.push(*ty, dv.value(*ty, tr, tv) + dv.bias[i]); }
                run.arc.measurements.push(msr);
            }
        };
        let mut run2 = run.clone();
        fill(&mut r, &mut run, &a);
        fill(&mut r, &mut run2, &b);
        // the second solution must not repeat entries of the first one
        run2.x0.orbit.radius_km[0] += 1e-3;
        let thr = r.r(0.2, 3.0);
        v.push(case(id, json!({"ekf": run.ekf, "m": m}), move |rec| if m == 1 { p12_1(&run, &run2, thr, rec) } else { p12_2(&run, &run2, thr, rec) }));
    }
    v
}
