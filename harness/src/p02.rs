//! P02: adaptive step control. The dynamics log every stage evaluation, so every attempt of every step is seen.
use crate::sc::*;
use crate::util::*;
use anise::prelude::Almanac;
use hifitime::{Duration, Epoch, Unit};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{Dynamics, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::linalg::{Const, OVector};
use nyx_space::propagators::*;
use serde_json::json;
use std::sync::{Arc, Mutex};

type V90 = OVector<f64, Const<90>>;

#[derive(Clone)]
pub enum Rhs {
    TwoBody(SpacecraftDynamics),
    /// piecewise roughness: per window of `w` seconds an amplitude and a frequency
    Rough { zero: Epoch, w: f64, lv: Vec<(f64, f64)> },
    /// only one of position / velocity is rough
    Half { zero: Epoch, vel: bool, amp: f64, om: f64 },
    /// one component stops being a number at some time
    Hole { zero: Epoch, at: f64, comp: usize },
}
impl Rhs {
    fn f(&self, dt: f64, x: &V90, ctx: &Spacecraft, a: &Almanac) -> Result<V90, DynamicsError> {
        match self {
            Rhs::TwoBody(d) => d.eom(dt, x, ctx, a),
            Rhs::Rough { zero, w, lv } => {
                let t = (ctx.epoch() - *zero).to_seconds() + dt;
                let i = ((t.abs() / w) as usize) % lv.len();
                let (amp, om) = lv[i];
                let mut d = V90::zeros();
                for j in 0..6 {
                    d[j] = amp * (om * t + j as f64).sin() - 1e-4 * x[j] * if j < 3 { 1e-3 } else { 1.0 };
                }
                Ok(d)
            }
            Rhs::Hole { zero, at, comp } => {
                let t = (ctx.epoch() - *zero).to_seconds() + dt;
                let mut d = V90::from_element(0.0);
                for j in 0..6 { d[j] = 1e-3 * (1e-2 * t + j as f64).cos(); }
                if t.abs() >= *at { d[*comp] = f64::NAN; }
                Ok(d)
            }
            Rhs::Half { zero, vel, amp, om } => {
                let t = (ctx.epoch() - *zero).to_seconds() + dt;
                let mut d = V90::zeros();
                let o = if *vel { 3 } else { 0 };
                for j in 0..3 {
                    d[o + j] = amp * (om * t + j as f64).sin();
                    d[3 - o + j] = 1e-7;
                }
                Ok(d)
            }
        }
    }
}

enum L {
    E(f64),
    F(Box<Spacecraft>),
}
#[derive(Clone)]
pub struct Logged {
    rhs: Rhs,
    log: Arc<Mutex<Vec<L>>>,
}
impl Dynamics for Logged {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(&self, dt: f64, x: &V90, ctx: &Spacecraft, a: &Almanac) -> Result<V90, DynamicsError> {
        self.log.lock().unwrap().push(L::E(dt));
        self.rhs.f(dt, x, ctx, a)
    }
    fn finally(&self, s: Spacecraft, _: &Almanac) -> Result<Spacecraft, DynamicsError> {
        self.log.lock().unwrap().push(L::F(Box::new(s)));
        Ok(s)
    }
}

/// The documented error norms, written from their definitions.
fn norm_err(ec: ErrorControl, e: &V90, c: &V90, s: &V90) -> f64 {
    let l2 = |v: &V90, o: usize, n: usize| -> f64 { (o..o + n).map(|i| v[i] * v[i]).sum::<f64>().sqrt() };
    let step = |o, n| {
        let m = l2(&(c - s), o, n);
        let r = l2(e, o, n);
        if m > 0.1f64.sqrt() { r / m } else { r }
    };
    let stat = |o, n| {
        let m = 0.5 * l2(&(c + s), o, n);
        let r = l2(e, o, n);
        if m > 0.1 { r / m } else { r }
    };
    match ec {
        ErrorControl::RSSCartesianStep => step(0, 3).max(step(3, 3)),
        ErrorControl::RSSCartesianState => stat(0, 3).max(stat(3, 3)),
        ErrorControl::RSSStep => step(0, 90),
        ErrorControl::RSSState => stat(0, 90),
        ErrorControl::LargestError => (0..90)
            .map(|i| {
                let d = (c[i] - s[i]).abs();
                if d > 0.1 { e[i].abs() / d } else { e[i].abs() }
            })
            .fold(0.0, f64::max),
        ErrorControl::LargestState => {
            let m: f64 = (0..90).map(|i| 0.5 * (c[i] + s[i]).abs()).sum();
            let r: f64 = (0..90).map(|i| e[i].abs()).sum();
            if m > 0.1 { r / m } else { r }
        }
        ErrorControl::LargestStep => {
            let m: f64 = (0..90).map(|i| (c[i] - s[i]).abs()).sum();
            let r: f64 = (0..90).map(|i| e[i].abs()).sum();
            if m > 0.1 { r / m } else { r }
        }
    }
}

fn rk(m: IntegratorMethod, f: &Rhs, s: &Spacecraft, h: f64, a: &Almanac, fixed: bool) -> (V90, V90) {
    let y = s.to_vector();
    let n = m.stages();
    let mut k: Vec<V90> = vec![f.f(0.0, &y, s, a).unwrap()];
    let mut q = 0;
    for i in 1..n {
        let mut w = V90::zeros();
        let mut c = 0.0;
        for kj in k.iter().take(i) {
            w += m.a_coeffs()[q] * kj;
            c += m.a_coeffs()[q];
            q += 1;
        }
        k.push(f.f(c * h, &(y + h * w), s, a).unwrap());
    }
    let mut out = y;
    let mut err = V90::zeros();
    for (i, ki) in k.iter().enumerate() {
        out += h * m.b_coeffs()[i] * ki;
        if !fixed {
            err += h * (m.b_coeffs()[i] - m.b_coeffs()[i + n]) * ki;
        }
    }
    (out, err)
}

pub fn cs(m: IntegratorMethod) -> Vec<f64> {
    let mut q = 0;
    let mut v = vec![0.0];
    for i in 1..m.stages() {
        let mut c = 0.0;
        for _ in 0..i {
            c += m.a_coeffs()[q];
            q += 1;
        }
        v.push(c);
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub enum Mode {
    Single(usize),
    Calls,
}

fn digest(rec: &Rec, log: &[L], m: IntegratorMethod, o: &IntegratorOptions, rhs: &Rhs, start: Spacecraft, target: Option<Epoch>, det: Option<IntegrationDetails>, prev: &mut Option<f64>) {
    let a = Almanac::default();
    let c = cs(m);
    let nz: Vec<f64> = c.iter().copied().filter(|x| x.abs() > 1e-9).collect();
    let mut cur = start;
    let mut dts: Vec<f64> = vec![];
    for l in log {
        match l {
            L::E(dt) => {
                if dt.abs() > 1e-10 {
                    dts.push(*dt)
                }
            }
            L::F(s) => {
                if dts.is_empty() {
                    cur = **s;
                    continue;
                }
                let fin = Some(s.epoch()) == target;
                let parsed = dts.len() % nz.len() == 0;
                let mut hs: Vec<f64> = if parsed { dts.chunks(nz.len()).map(|ch| ch[0] / nz[0]).collect() } else { vec![] };
                if parsed && !dts.chunks(nz.len()).zip(&hs).all(|(ch, h)| ch.iter().zip(&nz).all(|(d, c)| (d - c * h).abs() <= 1e-9 * h.abs().max(1e-3))) {
                    hs.clear();
                }
                let dt_ep = s.epoch() - cur.epoch();
                let mut ratio = -1.0;
                for (i, h) in hs.iter().enumerate() {
                    let (cand, err) = rk(m, rhs, &cur, *h, &a, o.fixed_step);
                    let e = norm_err(o.error_ctrl, &err, &cand, &cur.to_vector());
                    ratio = if o.fixed_step { 0.0 } else { e / o.tolerance };
                    let rel = prev.map(|p| clampi(h / p * 1000.0)).unwrap_or(0);
                    let gf = clampi((1.0 / ratio).powf(1.0 / m.order() as f64) * 1000.0);
                    rec.ev("att", json!({"n": i + 1, "h": dur(*h * Unit::Second), "ratio": clampi(ratio * 1e6), "rel": rel, "gf": gf, "final": fin}));
                    *prev = Some(*h);
                }
                // agreement of the produced state with the method's own formula over the accepted step
                let hacc = hs.last().copied().unwrap_or(dt_ep.to_seconds());
                let (cand, err) = rk(m, rhs, &cur, hacc, &a, o.fixed_step);
                let dif = (cand - s.to_vector()).norm() / (1.0 + cand.norm());
                if hs.is_empty() {
                    ratio = if o.fixed_step { 0.0 } else { norm_err(o.error_ctrl, &err, &cand, &cur.to_vector()) / o.tolerance };
                }
                let (da, de, ds) = match det {
                    Some(d) => (d.attempts as i64, if o.fixed_step { 0 } else { clampi((d.error / o.tolerance - ratio).abs() / ratio.max(0.05) * 1e6) }, dur(d.step)),
                    None => (0, 0, json!([0, 0])),
                };
                rec.ev("acc", json!({"h": dur(dt_ep), "ratio": clampi(ratio * 1e6), "final": fin, "parsed": !hs.is_empty(), "dif": mag(dif, 1e-12), "hasdet": det.is_some(), "da": da, "de": de, "ds": ds}));
                dts.clear();
                cur = **s;
            }
        }
    }
}

fn run(rec: &Rec, m: IntegratorMethod, o: IntegratorOptions, s0: Spacecraft, rhs: Rhs, mode: Mode, calls: Vec<Duration>) {
    let log: Arc<Mutex<Vec<L>>> = Default::default();
    let d = Logged { rhs: rhs.clone(), log: log.clone() };
    let prop = Propagator::new(d, m, o);
    let mut inst = prop.with(s0, alm()).quiet();
    match mode {
        Mode::Single(n) => {
            let back = calls[0].is_negative();
            rec.ev("call", json!({"dir": if back {"b"} else {"f"}}));
            if back {
                inst.set_step(-o.init_step, o.fixed_step);
            }
            let mut prev = None;
            for _ in 0..n {
                let start = inst.state;
                inst.single_step().unwrap();
                let l = std::mem::take(&mut *log.lock().unwrap());
                let det = inst.latest_details();
                digest(rec, &l, m, &o, &rhs, start, None, Some(det), &mut prev);
            }
        }
        Mode::Calls => {
            let mut prev: Option<f64> = None;
            for c in calls {
                rec.ev("call", json!({"dir": if c.is_negative() {"b"} else {"f"}}));
                let start = inst.state;
                inst.for_duration(c).unwrap();
                let l = std::mem::take(&mut *log.lock().unwrap());
                digest(rec, &l, m, &o, &rhs, start, Some(start.epoch() + c), None, &mut prev);
                prev = None;
            }
        }
    }
}

/// Whatever the method and the step, a state that is not a number is an error
fn hole(rec: &Rec, m: IntegratorMethod, o: IntegratorOptions, s0: Spacecraft, rhs: Rhs, d: Duration, traj: bool) {
    let setup = Propagator::new(Logged { rhs, log: Default::default() }, m, o);
    let mut p = setup.with(s0, alm()).quiet();
    let ok = if traj { p.for_duration_with_traj(d).is_ok() } else { p.for_duration(d).is_ok() };
    rec.ev("hole", json!({"ok": ok}));
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for i in 0..ctx.n(120, 1200) {
        let id = format!("h{i}");
        let mut r = ctx.rng(&id);
        let zero = epoch0();
        let fixed = r.b();
        let m = if fixed { *r.pick(&METHODS) } else { *r.pick(&ADAPTIVE) };
        let step = r.r(1.0, 60.0);
        let o = if fixed { IntegratorOptions::with_fixed_step_s(step) } else {
            IntegratorOptions::builder().init_step(step * Unit::Second).min_step(step * 0.1 * Unit::Second).max_step(step * 4.0 * Unit::Second).tolerance(1e-9).attempts(*r.pick(&[1u8, 3, 50])).error_ctrl(*r.pick(&[ErrorControl::RSSCartesianStep, ErrorControl::RSSState, ErrorControl::LargestError])).build()
        };
        let at = step * r.r(0.0, 8.0);
        // at least one stage of some step lies past the hole: the last one ends well beyond it, or begins there
        let d = at + step * r.r(0.5, 3.0);
        let rhs = Rhs::Hole { zero, at, comp: r.u(9) };
        let s0 = rand_sc(&mut r, zero);
        let (back, traj) = (r.b(), r.u(3) == 0);
        let b = json!({"min": dur(o.min_step), "max": dur(o.max_step), "init": dur(o.init_step), "fixed": fixed, "attempts": o.attempts as i64,
            "method": format!("{m:?}"), "ec": format!("{:?}", o.error_ctrl), "tol": format!("{:e}", o.tolerance), "mode": "Hole"});
        v.push(case(id, b, move |rec| hole(rec, m, o, s0, rhs, (if back { -d } else { d }) * Unit::Second, traj)));
    }
    let ecs = [ErrorControl::RSSCartesianStep, ErrorControl::RSSCartesianState, ErrorControl::RSSStep, ErrorControl::RSSState, ErrorControl::LargestState, ErrorControl::LargestStep, ErrorControl::LargestError];
    let n = ctx.n(900, 8000);
    let mut specs: Vec<(String, Option<Vec<i64>>)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        specs.push((format!("s{i}"), Some(s["h"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())));
    }
    for i in 0..n {
        specs.push((format!("r{i}"), None));
    }
    for (id, pat) in specs {
        let mut r = ctx.rng(&format!("p02{:?}{}", pat, if pat.is_some() { "" } else { &id }));
        let fixed = pat.is_none() && r.u(6) == 0;
        let m = if fixed { *r.pick(&METHODS) } else { *r.pick(&ADAPTIVE) };
        let zero = epoch0();
        let rough = pat.is_some() || r.b();
        let base: f64 = if rough { *r.pick(&[1.0, 10.0, 30.0]) } else { *r.pick(&[10.0, 60.0, 300.0]) };
        let o = if fixed {
            IntegratorOptions::with_fixed_step_s(base)
        } else {
            let min = base * *r.pick(&[1e-3, 0.05, 0.3, 1.0]);
            let max = base * *r.pick(&[1.0, 1.5, 8.0, 45.0]);
            IntegratorOptions::builder()
                .init_step(base * Unit::Second)
                .min_step(min * Unit::Second)
                .max_step(max * Unit::Second)
                .tolerance(*r.pick(&[1e-5, 1e-7, 1e-9, 1e-11]))
                .attempts(*r.pick(&[1u8, 2, 3, 5, 50]))
                .error_ctrl(*r.pick(&ecs))
                .build()
        };
        let s0 = rand_sc(&mut r, zero);
        let rhs = if !rough {
            Rhs::TwoBody(SpacecraftDynamics::new(OrbitalDynamics::two_body()))
        } else if pat.is_none() && r.u(3) == 0 {
            Rhs::Half { zero, vel: r.b(), amp: r.r(0.1, 5.0), om: r.r(0.5, 4.0) / base }
        } else {
            let lv = match &pat {
                Some(p) => p.iter().map(|l| match l { 0 => (0.01, 0.05 / base), 1 => (1.0, 1.0 / base), 2 => (5.0, 6.0 / base), _ => (20.0, 40.0 / base) }).collect(),
                None => (0..1 + r.u(5)).map(|_| (r.r(0.01, 20.0), r.r(0.01, 30.0) / base)).collect(),
            };
            Rhs::Rough { zero, w: base * r.r(0.7, 3.0), lv }
        };
        let sgn = if r.b() { 1.0 } else { -1.0 };
        let (mode, calls) = if r.u(3) == 0 {
            (Mode::Single(6 + r.u(8)), vec![sgn * Unit::Second])
        } else {
            let k = 1 + r.u(3);
            (Mode::Calls, (0..k).map(|_| (if r.u(4) == 0 { -sgn } else { sgn }) * base * r.r(0.2, 9.0) * Unit::Second).collect())
        };
        let b = json!({"min": dur(o.min_step), "max": dur(o.max_step), "init": dur(o.init_step), "fixed": fixed, "attempts": o.attempts as i64,
            "method": format!("{m:?}"), "ec": format!("{:?}", o.error_ctrl), "tol": format!("{:e}", o.tolerance), "mode": format!("{mode:?}")});
        v.push(case(id, b, move |rec| run(rec, m, o, s0, rhs, mode, calls)));
    }
    v
}
