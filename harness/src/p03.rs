//! P03: accuracy of the integrators.
use crate::kepler::*;
use crate::sc::*;
use crate::util::*;
use anise::prelude::Almanac;
use hifitime::{Duration, Epoch, Unit};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{Dynamics, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::linalg::{Const, OVector};
use nyx_space::propagators::*;
use serde_json::json;

type V90 = OVector<f64, Const<90>>;

#[derive(Clone)]
enum Ode {
    /// y_j' = d/dt of a polynomial with the given coefficients of (t/scale)
    Poly { zero: Epoch, scale: f64, c: Vec<Vec<f64>> },
    /// y1' = -k y1^2 ; y2' = y2 * y1 * k ...  y1 = 1/(1+kt), y2 = (1+kt)
    Riccati { k: f64 },
    /// non autonomous and non linear: y' = 2 w t' y, y = exp((wt)^2)
    Gauss { zero: Epoch, w: f64 },
    /// coupled rotation with time dependent rate: y1' = -phi'(t) y2, y2' = phi'(t) y1, phi = a t + b sin(w t)
    Rot { zero: Epoch, a: f64, b: f64, w: f64 },
}
impl Ode {
    fn sol(&self, t: f64, j: usize) -> f64 {
        match self {
            Ode::Poly { scale, c, .. } => {
                let u = t / scale;
                c[j].iter().rev().fold(0.0, |acc, x| acc * u + x)
            }
            Ode::Riccati { k } => match j {
                0 => 1.0 / (1.0 + k * t),
                1 => 1.0 + k * t,
                2 => (1.0 + k * t).powi(-2),
                _ => 1.0,
            },
            Ode::Gauss { w, .. } => (w * t * (1.0 + 0.3 * j as f64)).powi(2).exp(),
            Ode::Rot { a, b, w, .. } => {
                let p = a * t + b * (w * t).sin();
                match j {
                    0 => p.cos(),
                    1 => p.sin(),
                    3 => 2.0 * p.cos(),
                    4 => 2.0 * p.sin(),
                    _ => 1.0,
                }
            }
        }
    }
}
impl Dynamics for Ode {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(&self, dt: f64, y: &V90, ctx: &Spacecraft, _: &Almanac) -> Result<V90, DynamicsError> {
        let mut d = V90::zeros();
        match self {
            Ode::Poly { zero, scale, c } => {
                let u = ((ctx.epoch() - *zero).to_seconds() + dt) / scale;
                for j in 0..6 {
                    d[j] = c[j].iter().enumerate().skip(1).rev().fold(0.0, |acc, (i, x)| acc * u + x * i as f64) / scale;
                }
            }
            Ode::Riccati { k } => {
                d[0] = -k * y[0] * y[0];
                d[1] = k * y[1] * y[0];
                d[2] = -2.0 * k * y[2] * y[0];
            }
            Ode::Gauss { zero, w } => {
                let t = (ctx.epoch() - *zero).to_seconds() + dt;
                for j in 0..6 {
                    let q = w * (1.0 + 0.3 * j as f64);
                    d[j] = 2.0 * q * q * t * y[j];
                }
            }
            Ode::Rot { zero, a, b, w } => {
                let t = (ctx.epoch() - *zero).to_seconds() + dt;
                let p = a + b * w * (w * t).cos();
                d[0] = -p * y[1];
                d[1] = p * y[0];
                d[3] = -p * y[4];
                d[4] = p * y[3];
            }
        }
        Ok(d)
    }
}

fn start(ode: &Ode, zero: Epoch, t: f64) -> Spacecraft {
    let mut s = Spacecraft::from(anise::prelude::Orbit::zero(eme()));
    let mut v = s.to_vector();
    for j in 0..6 {
        v[j] = ode.sol(t, j);
    }
    s.set(zero + t * Unit::Second, &v);
    s
}

/// error after integrating from t0 over `n` fixed steps of h
fn fixed_err(m: IntegratorMethod, ode: &Ode, zero: Epoch, t0: f64, h: f64, n: usize) -> (f64, f64) {
    let prop = Propagator::new(ode.clone(), m, IntegratorOptions::with_fixed_step_s(h.abs()));
    let mut i = prop.with(start(ode, zero, t0), alm()).quiet();
    let end = i.for_duration((h * n as f64) * Unit::Second).unwrap();
    let t1 = (end.epoch() - zero).to_seconds();
    let v = end.to_vector();
    let (mut e, mut s) = (0.0f64, 0.0f64);
    for j in 0..6 {
        e = nmax(e, (v[j] - ode.sol(t1, j)).abs());
        s = s.max(ode.sol(t1, j).abs()).max(ode.sol(t0, j).abs());
    }
    (e, s)
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = epoch0();
    // polynomial exactness, all degrees
    for m in METHODS {
        for deg in 0..=10usize {
            for rep in 0..ctx.n(2, 12) {
                let id = format!("poly-{m:?}-{deg}-{rep}");
                let mut r = ctx.rng(&id);
                let ode = Ode::Poly { zero, scale: 100.0, c: (0..6).map(|_| (0..=deg).map(|_| r.r(-5.0, 5.0)).collect()).collect() };
                let t0 = r.i(-100, 100) as f64;
                let h = *r.pick(&[1.0, 16.0, 37.0, 80.0, -1.0, -25.0, -64.0]);
                let n = 1 + r.u(4);
                v.push(case(id, json!({"method": format!("{m:?}")}), move |rec| {
                    let (e, s) = fixed_err(m, &ode, zero, t0, h, n);
                    rec.ev("poly", json!({"deg": deg, "err": mag(e / s.max(1.0), 1e-12)}));
                }));
            }
        }
    }
    // order of convergence
    for m in METHODS {
        for pb in 0..3usize {
            for rep in 0..ctx.n(3, 12) {
                let id = format!("rate-{m:?}-{pb}-{rep}");
                let mut r = ctx.rng(&id);
                let sg = if r.b() { 1.0 } else { -1.0 };
                let (ode, t0) = match pb {
                    0 => (Ode::Riccati { k: r.r(0.008, 0.02) }, 0.0),
                    1 => (Ode::Gauss { zero, w: r.r(0.02, 0.03) }, r.i(10, 30) as f64 * -sg),
                    _ => (Ode::Rot { zero, a: r.r(0.02, 0.05), b: r.r(0.3, 0.6), w: r.r(0.03, 0.06) }, r.i(-30, 30) as f64),
                };
                v.push(case(id, json!({"method": format!("{m:?}")}), move |rec| {
                    // one step of h: halve h until the error is small enough for the asymptotic regime, then measure the slopes
                    let mut h = 32.0;
                    let mut es = vec![];
                    while h > 0.05 {
                        let (e, s) = fixed_err(m, &ode, zero, t0, sg * h, 1);
                        es.push(e / s);
                        h /= 2.0;
                    }
                    // best slope over the range where errors are resolved
                    let mut best = 0.0f64;
                    let mut last = 0.0;
                    let mut prevsl = 0.0f64;
                    for w in es.windows(2) {
                        if w[1] > 2e-14 && w[0] < 1e-2 {
                            let sl = (w[0] / w[1]).log2();
                            last = sl.max(prevsl);
                            prevsl = sl;
                            best = best.max(sl);
                        }
                    }
                    rec.ev("rate", json!({"best10": clampi(best * 10.0), "last10": clampi(last * 10.0), "errs": format!("{es:?}")}));
                }));
            }
        }
    }
    // Two-body against the closed form, histories of calls
    let mut specs: Vec<(String, Vec<i64>)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("s{i}"), s["h"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())).collect();
    for i in 0..ctx.n(150, 2500) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let n = 1 + r.u(5);
        specs.push((id, (0..n).map(|_| r.i(-4, 4)).collect()));
    }
    for (id, h) in specs {
        let mut r = ctx.rng(&format!("kep{id}{h:?}"));
        let hyp = r.u(5) == 0;
        let (s0, per) = if hyp {
            let mut o = rand_orbit(&mut r, zero);
            let f = (2.0 * MU / o.rmag_km()).sqrt() * r.r(1.001, 1.6) / o.vmag_km_s();
            o.velocity_km_s *= f;
            (Spacecraft::from(o), 5000.0 * Unit::Second)
        } else {
            let s = rand_sc(&mut r, zero);
            (s, s.orbit.period().unwrap())
        };
        let m = *r.pick(&METHODS);
        let fixed = m == IntegratorMethod::RungeKutta4 || r.u(4) == 0;
        // a fixed step scaled to the perigee passage
        let tp = {
            let rp = s0.orbit.periapsis_km().unwrap();
            2.0 * std::f64::consts::PI * (rp * rp * rp / MU).sqrt()
        };
        let hi = matches!(m, IntegratorMethod::RungeKutta89 | IntegratorMethod::DormandPrince78);
        let o = if fixed {
            IntegratorOptions::with_fixed_step_s((tp / if hi { 150.0 } else { 1200.0 } * 1e3).round() / 1e3)
        } else {
            let mut o = IntegratorOptions::with_adaptive_step_s(0.001, tp / 20.0, if hi { 1e-12 } else { 1e-11 }, *r.pick(&[ErrorControl::RSSCartesianStep, ErrorControl::RSSStep]));
            o.init_step = (tp / 800.0) * Unit::Second;
            o
        };
        let mut o = o;
        // some of the histories are integrated in another (inertial) frame: nothing observable may change
        let iframe = r.u(4) == 0;
        if iframe {
            o.integration_frame = Some(anise::constants::frames::EARTH_ECLIPJ2000.with_mu_km3_s2(MU));
        }
        let unit = per * r.r(0.02, 0.11);
        v.push(case(id, json!({"method": format!("{m:?}"), "fixed": fixed, "hi": hi, "ecc": s0.orbit.ecc().unwrap(), "opts": format!("{o}")}), move |rec| {
            let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), m, o);
            let mut inst = prop.with(s0, if iframe { crate::world::world() } else { alm() }).quiet();
            let mut net = 0;
            for d in h {
                let q: Duration = unit * d;
                let e = inst.state.epoch() + q;
                let (end, tr) = match d.rem_euclid(3) {
                    0 => (inst.for_duration(q).unwrap(), vec![]),
                    1 => (inst.until_epoch(e).unwrap(), vec![]),
                    _ => { let (s, t) = inst.until_epoch_with_traj(e).unwrap(); (s, t.states) }
                };
                let tdr = tr.iter().map(|x| dist(&x.orbit, &kep_orbit(&s0.orbit, x.epoch() - zero)).0).fold(0.0, nmax);
                let frames = tr.iter().chain([&end, &inst.state]).all(|x| x.orbit.frame.orient_origin_match(s0.orbit.frame) && x.orbit.frame.ephem_origin_match(s0.orbit.frame));
                net += d;
                let want = kep_orbit(&s0.orbit, end.epoch() - zero);
                let (dr, dv) = dist(&end.orbit, &want);
                let ce = (end.epoch() - (zero + unit * net)).to_seconds();
                rec.ev("kep", json!({"d": d, "net": net, "dr": mag(dr, 1e-7), "dv": mag(dv, 1e-10), "clk": mag(ce, 1e-9), "tdr": mag(tdr, 1e-7), "frames": frames}));
            }
        }));
    }
    v
}
