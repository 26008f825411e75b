//! P20: batch least squares, judged against an independent Gauss-Newton on the Kepler motion.
use crate::kepler::kepler;
use crate::num::*;
use crate::od::*;
use crate::sc::*;
use crate::util::*;
use hifitime::{Duration, TimeUnits};
use nalgebra::{SMatrix, SVector};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};
use nyx_space::od::prelude::*;
use nyx_space::propagators::*;
use serde_json::json;
use std::collections::BTreeMap;
use MeasurementType as MT;

type M6 = SMatrix<f64, 6, 6>;
type V6 = SVector<f64, 6>;
struct Obs { dt: f64, dev: usize, ty: MT, val: f64, sig: f64 }

fn wrap(t: MT, d: f64) -> f64 { if t == MT::Azimuth { d - 360.0 * (d / 360.0).round() } else { d } }
/// Normal equations at a state: information, right hand side, sum of the squared weighted residuals
fn normal(x: &(V3, V3), obs: &[Obs], devs: &[Mock]) -> (M6, V6, f64) {
    let (mut n, mut b, mut s) = (M6::zeros(), V6::zeros(), 0.0);
    let mut last: Option<(f64, M9, (V3, V3))> = None;
    for o in obs {
        if last.as_ref().map(|l| l.0) != Some(o.dt) { last = Some((o.dt, kepler_stm(x.0, x.1, o.dt), kepler(x.0, x.1, o.dt, MU))); }
        let (_, phi, y) = last.as_ref().unwrap();
        let row = devs[o.dev].row(o.ty, y.0, y.1);
        let mut h = V6::zeros();
        for j in 0..6 { for i in 0..6 { h[j] += row[i] * phi[(i, j)]; } }
        let res = wrap(o.ty, o.val - devs[o.dev].value(o.ty, y.0, y.1));
        let w = 1.0 / (o.sig * o.sig);
        n += h * h.transpose() * w;
        b += h * (res * w);
        s += w * res * res;
    }
    (n, b, s)
}
fn solve(n: &M6, b: &V6) -> Option<V6> {
    let d = V6::from_fn(|i, _| 1.0 / n[(i, i)].sqrt());
    let m = M6::from_fn(|i, j| n[(i, j)] * d[i] * d[j]);
    let x = m.cholesky()?.solve(&b.component_mul(&d));
    Some(x.component_mul(&d))
}
fn plus(x: &(V3, V3), d: &V6) -> (V3, V3) { (add(x.0, [d[0], d[1], d[2]]), add(x.1, [d[3], d[4], d[5]])) }

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mut specs: Vec<(String, Vec<(i64, String)>)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("s{i}"), s["arc"].as_array().unwrap().iter().map(|x| (x["g"].as_i64().unwrap(), x["kd"].as_str().unwrap().to_string())).collect())).collect();
    let keep = ctx.n(300, 3000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(120, 1500) { specs.push((format!("r{i}"), vec![])); }
    for i in 0..ctx.n(18, 90) { specs.push((format!("b{i}"), vec![])); }
    for (id, head) in specs {
        let mut r = ctx.rng(&id);
        let bad = if id.starts_with('b') { 1 + r.u(4) } else { 0 };
        let x0 = rand_sc(&mut r, epoch0());
        let period = x0.orbit.period().unwrap().to_seconds();
        // a good geometry follows the head of the arc, so that the problem is observable
        let mut kinds: Vec<(i64, String)> = head;
        let n = if kinds.is_empty() { 6 + r.u(10) } else { 5 + r.u(3) };
        for _ in 0..n { kinds.push((r.i(0, 3), ["one", "two", "two", "two", "flag", "unknown", "blind"][if r.u(3) > 0 { 1 + r.u(3) } else { r.u(7) }].into())); }
        let tick = (period * r.r(0.02, 0.08) * 1e9) as i128;
        let one = [*r.pick(&NAMES)];
        let two = *r.pick(&[[MT::Range, MT::Doppler], [MT::X, MT::Z], [MT::Azimuth, MT::Elevation], [MT::Range, MT::Elevation], [MT::Y, MT::Z]]);
        let mut devs = vec![rand_mock(&mut r, "A", &one), rand_mock(&mut r, "B", &two), rand_mock(&mut r, "C", &two), rand_mock(&mut r, "N", &two)];
        // precise sensors: the unit information that the estimator starts from must not count
        for d in devs.iter_mut() { for s in d.sigma.iter_mut() { *s *= 0.003; } }
        let noisy = r.u(3) > 0;
        let off = V6::from_fn(|i, _| r.r(-1.0, 1.0) * if i < 3 { 2.0 } else { 0.002 });
        let x = rv(&x0);
        let truth = plus(&x, &off);
        let mut t = epoch0();
        let mut arc = TrackingDataArc::default();
        let mut ms = vec![];
        let mut obs = vec![];
        let mut last: BTreeMap<String, Epoch> = BTreeMap::new();
        let mut blind = vec![];
        let mut all_known = true;
        for (g, kd) in &kinds {
            t += Duration::from_total_nanoseconds(*g as i128 * tick);
            let mut name = match kd.as_str() { "one" | "flag" => "A", "two" => *r.pick(&["B", "C"]), "blind" => "N", _ => "U" }.to_string();
            while last.get(&name) == Some(&t) { name.push('x'); }
            last.insert(name.clone(), t);
            if name.len() > 1 && !name.starts_with('U') && !devs.iter().any(|d| d.name == name) {
                let mut d = devs.iter().find(|d| d.name == name[..1]).unwrap().clone();
                d.name = name.clone();
                d.at = [r.r(-3000.0, 3000.0), r.r(-3000.0, 3000.0), r.r(-3000.0, 3000.0)];
                devs.push(d);
            }
            let di = devs.iter().position(|d| d.name == name).unwrap_or(0);
            let dt = (t - epoch0()).to_seconds();
            let y = kepler(truth.0, truth.1, dt, MU);
            let mut m = Measurement::new(name.clone(), t);
            m.rejected = kd == "flag";
            let usable = kd == "one" || kd == "two";
            all_known &= usable || kd == "flag";
            for (k, ty) in devs[di].types.iter().enumerate() {
                let sig = devs[di].sigma[k];
                let mut val = devs[di].value(*ty, y.0, y.1) + if noisy { gauss(&mut r).clamp(-3.0, 3.0) * sig } else { 0.0 };
                if !usable { val += sig * 1e4; }
                m.push(*ty, val);
                if usable { obs.push(Obs { dt, dev: di, ty: *ty, val, sig }); }
            }
            if kd == "blind" { let n = (t - epoch0()).total_nanoseconds() as i64; blind.push((n, n)); }
            ms.push(json!({"n": devs[di].types.len(), "rej": kd == "flag", "seen": kd != "unknown" && kd != "blind"}));
            arc.measurements.push(m);
        }
        for d in devs.iter_mut() { if d.name.starts_with('N') { d.blind = blind.clone(); } }
        // an azimuth that crosses its cut is not a residual that least squares can use as is
        let cut = obs.iter().any(|o| o.ty == MT::Azimuth && { let y = kepler(x.0, x.1, o.dt, MU); (o.val - devs[o.dev].value(o.ty, y.0, y.1)).abs() > 90.0 });
        // ---- the reference
        let mut c = truth;
        let mut ok = !cut;
        for _ in 0..12 {
            let (n, b, _) = normal(&c, &obs, &devs);
            match solve(&n, &b) { Some(d) if d.fixed_rows::<3>(0).norm() < 500.0 => c = plus(&c, &d), _ => { ok = false; break; } }
        }
        let (info, _, ssq) = normal(&c, &obs, &devs);
        let dscale = V6::from_fn(|i, _| if i < 3 { norm(x.0) } else { norm(x.1) });
        let sc6 = M6::from_fn(|i, j| info[(i, j)] * dscale[i] * dscale[j]);
        let eig = sc6.symmetric_eigen().eigenvalues;
        let (emin, emax) = (eig.min(), eig.max());
        let raw = info.symmetric_eigen().eigenvalues.min();
        // the standard deviations are far below the offset of the guess and far above the accuracy of the arithmetic
        let sd = info.cholesky().map(|c| c.inverse()).map(|p| (p.fixed_view::<3, 3>(0, 0).trace().sqrt(), p.fixed_view::<3, 3>(3, 3).trace().sqrt())).unwrap_or((1e9, 1e9));
        let well = ok && emax / emin < 1e11 && raw > 2000.0 && sd.0 < 5.0 && sd.1 < 0.005 && norm(sub(c.0, truth.0)) < 20.0;
        // Newton from the guess itself gets there in a few steps
        let mut q = x;
        let mut quick = well;
        for _ in 0..7 { if quick { let (n, b, _) = normal(&q, &obs, &devs); match solve(&n, &b) { Some(d) => q = plus(&q, &d), None => quick = false } } }
        quick = quick && norm(sub(q.0, c.0)) < 1e-6;
        let lm = r.u(4) == 0;
        let maxit = if r.u(8) == 0 { 1 + r.u(2) } else { 14 };
        match bad {
            1 => { arc.measurements.truncate(1); }
            2 => { for m in arc.measurements.iter_mut() { m.rejected = true; } }
            3 => { let mut k = r.u(arc.measurements.len()); while arc.measurements[k].rejected || ["N", "U"].contains(&&arc.measurements[k].tracker[..1]) { k = (k + 1) % arc.measurements.len(); if k == 0 && r.u(50) == 0 { break; } } let z = *r.pick(&[f64::NAN, f64::INFINITY]); for q in arc.measurements[k].data.values_mut() { *q = z; } }
            4 => for d in devs.iter_mut() { for s in d.sigma.iter_mut() { *s = 0.0; } },
            _ => {}
        }
        // the bad input must be one that is reached
        let bad3_dead = bad == 3 && !arc.measurements.iter().any(|m| !m.rejected && devs.iter().any(|d| d.name == m.tracker) && !m.tracker.starts_with('N') && m.data.values().any(|x| !x.is_finite()));
        let bad4_dead = bad == 4 && obs.is_empty();
        if bad3_dead || bad4_dead { continue; }
        let easy = quick && !lm && maxit > 10;
        let fixed = r.u(3) == 0;
        let max_step = (r.r(10.0, 90.0)).seconds();
        let meth = *r.pick(&[IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78]);
        if std::env::var_os("DBG").is_some() { eprintln!("{id} ok {ok} cond {:.1e} raw {raw:.1e} sd {:.1e} {:.1e} quick {quick} nobs {}", emax / emin, sd.0, sd.1, obs.len()); }
        let begin = json!({"ms": ms, "bad": bad > 0, "well": well && bad == 0, "easy": easy, "maxit": maxit, "lm": lm, "noisy": noisy});
        v.push(case(id, begin, move |rec| {
            let opts = if fixed { IntegratorOptions::with_fixed_step(20.seconds()) } else { IntegratorOptions::default() };
            let bls = BatchLeastSquares::builder()
                .prop(Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), meth, opts))
                .devices(devs.iter().map(|d| (d.name.clone(), d.clone())).collect::<BTreeMap<String, Mock>>())
                .solver(if lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations })
                .tolerance_pos_km(1e-6).max_iterations(maxit).max_step(max_step).almanac(alm()).build();
            if bad == 0 { rec.ev("ref", json!({"n": obs.len()})); }
            let nm = arc.measurements.iter().filter(|m| !m.rejected).count() as f64;
            // the ratio may be counted per measurement or per observation
            let rms_err = |x: f64, s: f64, slack: f64| { let e = |n: f64| { let w = (s / n).sqrt(); (x - w).abs() / (w + slack) }; e(nm).min(e(obs.len() as f64)) };
            if bad == 0 && !cut && !obs.is_empty() && all_known {
                match bls.evaluate(x0, &arc) {
                    Ok(q) => rec.ev("eval", json!({"rms": mag(rms_err(q, normal(&x, &obs, &devs).2, 1e-2), 1e-6)})),
                    Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                }
            }
            match bls.estimate(x0, &arc) {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok(s) => {
                    let y = rv(&s.estimated_state);
                    let d = V6::from_column_slice(&[y.0[0] - c.0[0], y.0[1] - c.0[1], y.0[2] - c.0[2], y.1[0] - c.1[0], y.1[1] - c.1[1], y.1[2] - c.1[2]]);
                    // beyond 1 mm the distance is in standard deviations
                    let dist = if norm(sub(y.0, c.0)) < 1e-6 && norm(sub(y.1, c.1)) < 1e-9 { 0.0 } else { d.dot(&(info * d)).abs().sqrt() };
                    let p6: M6 = s.covariance.fixed_view::<6, 6>(0, 0).into_owned();
                    // L' P L is the identity when P is the inverse of L L'
                    let cov = info.cholesky().map(|ch| { let l = ch.l(); let w = l.transpose() * p6 * l; (w - M6::identity()).abs().max() }).unwrap_or(0.0);
                    let sd = V9::from_fn(|i, _| s.covariance[(i, i)].abs().sqrt().max(1e-30));
                    let cn = M9::from_fn(|i, j| s.covariance[(i, j)] / sd[i] / sd[j]);
                    let sym = (cn - cn.transpose()).abs().max() < 1e-3;
                    let psd = ((cn + cn.transpose()) * 0.5).symmetric_eigen().eigenvalues.min() > -1e-3 && (0..6).all(|i| s.covariance[(i, i)] > 0.0);
                    let rest = |q: &Spacecraft| format!("{}|{:?}|{:?}|{:?}|{:?}", q.epoch(), q.mass, q.srp, q.drag, q.orbit.frame);
                    let rms = if all_known { mag(rms_err(s.final_rms, ssq, 30.0), 1e-6) } else { 0 };
                    rec.ev("sol", json!({"conv": s.converged, "dist": mag(dist, 1e-3), "cov": mag(cov, 1e-6), "psd": psd, "sym": sym, "rms": rms, "it": s.num_iterations, "rest": rest(&s.estimated_state) == rest(&x0), "small": s.final_corr_pos_km < 1e-6}));
                    let est: KfEstimate<Spacecraft> = s.clone().into();
                    let cm = est.covar;
                    let ps = (0..9).all(|i| (0..9).all(|j| cm[(i, j)].powi(2) <= cm[(i, i)] * cm[(j, j)] * (1.0 + 1e-6)));
                    rec.ev("kf", json!({"psd": ps, "same": est.nominal_state.orbit == s.estimated_state.orbit && (cm.fixed_view::<6, 6>(0, 0).into_owned() - p6).abs().max() == 0.0}));
                }
            }
        }));
    }
    v
}
