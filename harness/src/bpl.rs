//! P28: the B-plane against the closed form of the hyperbola, and the corrections computed with it.
use crate::num::*;
use crate::util::*;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, TimeUnits};
use nyx_space::Spacecraft;
use nyx_space::cosmic::State;
use nyx_space::linalg::Vector3;
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::{BPlane, BPlaneTarget, try_achieve_b_plane};
use serde_json::json;
fn frame(mu: f64) -> Frame { Frame { ephemeris_id: 399, orientation_id: 1, mu_km3_s2: Some(mu), shape: None, frozen_epoch: None, force_inertial: false } }
fn orbit(r: V3, v: V3, e: Epoch, mu: f64) -> Orbit { Orbit { radius_km: Vector3::new(r[0], r[1], r[2]), velocity_km_s: Vector3::new(v[0], v[1], v[2]), epoch: e, frame: frame(mu) } }
fn unit(r: &mut Rng64) -> V3 { loop { let v = [r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]; let n = norm(v); if n > 0.2 && n < 1.0 { return hat(v); } } }
/// B.T, B.R and the unit vectors S, T, R: the vehicle comes along S from far away; B is perpendicular to S, in the plane of motion, as
/// long as the angular momentum over the speed at infinity.
fn oracle(r: V3, v: V3, mu: f64) -> (f64, f64, [V3; 3]) {
    let h = cross(r, v);
    let ev = sub(sc(1.0 / mu, cross(v, h)), hat(r));
    let (e, vi) = (norm(ev), (dot(v, v) - 2.0 * mu / norm(r)).sqrt());
    // direction of motion far before the periapsis
    let s = hat(add(sc(1.0 / e, hat(ev)), sc((1.0 - 1.0 / (e * e)).sqrt(), cross(hat(h), hat(ev)))));
    let b = sc(norm(h) / vi, cross(s, hat(h)));
    let t = hat(cross(s, [0.0, 0.0, 1.0]));
    let q = cross(s, t);
    (dot(b, t), dot(b, q), [s, t, q])
}
/// Derivatives of B.R and B.T with respect to the velocity
fn partials(q: V3, u: V3, mu: f64) -> [V3; 2] {
    let (mut fd, h) = ([[0.0; 3]; 2], 1e-6 * norm(u));
    for k in 0..3 {
        let (mut p, mut n) = (u, u);
        p[k] += h;
        n[k] -= h;
        let (a, b) = (oracle(q, p, mu), oracle(q, n, mu));
        fd[0][k] = (a.1 - b.1) / (2.0 * h);
        fd[1][k] = (a.0 - b.0) / (2.0 * h);
    }
    fd
}
/// The smallest velocity change, over the speed, which makes this change of B to first order, and the conditioning of the problem
fn effort(q: V3, u: V3, mu: f64, dr: f64, dt: f64) -> (f64, f64) {
    let [a, b] = partials(q, u, mu);
    let (x, y, z) = (dot(a, a), dot(a, b), dot(b, b));
    let det = x * z - y * y;
    let (l, m) = ((z * dr - y * dt) / det, (x * dt - y * dr) / det);
    (norm(add(sc(l, a), sc(m, b))) / norm(u), (x + z) * (x + z) / det)
}
fn th(x: f64, tol: f64) -> i64 { clampi((x / tol).abs() * 1000.0) }
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    let mut specs: Vec<(String, [String; 4])> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for k in 0..ctx.n(20, 60) { specs.push((format!("s{i}.{k}"), ["shape", "leg", "turn", "tgt"].map(|f| s[f].as_str().unwrap().to_string()))); }
    }
    for i in 0..ctx.n(600, 6000) {
        let mut r = ctx.rng(&format!("spec{i}"));
        specs.push((format!("r{i}"), [r.pick(&["bound", "low", "mid", "mid", "high"]).to_string(), r.pick(&["in", "out"]).to_string(), r.pick(&["pro", "retro"]).to_string(), r.pick(&["same", "near", "near", "far", "ltof"]).to_string()]));
    }
    for (id, [shape, leg, turn, tgt]) in specs {
        let mut r = ctx.rng(&id);
        let (mu, r1, v1) = loop {
            let (mu, base) = *r.pick(&[(398600.4418, 7000.0), (4902.8, 1900.0), (1.32712440018e11, 5e7), (126712764.0, 80000.0)]);
            let rp = base * r.r(1.0, 8.0);
            let e = match shape.as_str() { "bound" => *r.pick(&[0.0, 0.1, 0.7, 0.95, 0.999]), "low" => 1.0 + 10f64.powf(r.r(-2.0, -0.5)), "mid" => r.r(1.2, 3.0), _ => r.r(3.0, 15.0) };
            let w = unit(&mut r);
            if (w[2] > 0.0) != (turn == "pro") { continue; }
            let p = hat(cross(w, unit(&mut r)));
            let q = cross(w, p);
            // the true anomaly now and the semi-latus rectum give the state
            let lim = if e > 1.0 { (-1.0 / e).acos() } else { 3.0 };
            let nu = lim * r.r(0.05, 0.93) * if leg == "in" { -1.0 } else { 1.0 };
            let l = rp * (1.0 + e);
            let rr = l / (1.0 + e * nu.cos());
            let pos = add(sc(rr * nu.cos(), p), sc(rr * nu.sin(), q));
            let k = (mu / l).sqrt();
            let vel = add(sc(-k * nu.sin(), p), sc(k * (e + nu.cos()), q));
            if e > 1.0 { let s = oracle(pos, vel, mu).2[0]; if s[2].abs() > 0.98 { continue; } }
            break (mu, pos, vel);
        };
        let hyper = shape != "bound";
        let (bt, br) = if hyper { let o = oracle(r1, v1, mu); (o.0, o.1) } else { (1e4, 2e4) };
        let b = (bt * bt + br * br).sqrt();
        let (gt, gr) = match tgt.as_str() {
            "same" => (bt, br),
            "near" => { let (d, a) = (b * 10f64.powf(r.r(-6.0, -1.7)), r.r(0.0, 6.28)); (bt + d * a.cos(), br + d * a.sin()) }
            "far" => match r.u(3) { 0 => (-bt, -br), 1 => (bt * 0.05, br * 0.05), _ => (bt * r.r(-3.0, 3.0), br * r.r(-3.0, 3.0)) },
            _ => (bt * r.r(0.9, 1.1), br * r.r(0.9, 1.1)),
        };
        // far away, a millimetre is a matter of rounding; and Newton's method is only asked for what is nearly linear
        let must = hyper && shape != "low" && b < 3e5 && matches!(tgt.as_str(), "same" | "near") && { let (x, y) = effort(r1, v1, mu, gr - br, gt - bt); x < 5e-3 && y < 1e3 };
        // other states of the same flight
        let mut ts = vec![0.0];
        let t0 = norm(r1) / norm(v1);
        for _ in 0..3 { ts.push(t0 * r.r(-2.0, 2.0)); }
        let (ltof, tol) = (r.r(1.0, 1e6), r.r(0.1, 10.0));
        let low = shape == "low";
        let tols = if r.b() { Some((10f64.powf(r.r(-6.0, 1.0)), 10f64.powf(r.r(-6.0, 1.0)))) } else { None };
        out.push(case(id, json!({"hyper": hyper, "must": must}), move |rec| {
            let e0 = Epoch::from_gregorian_utc_at_midnight(2026, 3, 1);
            for t in ts {
                let (q, u) = crate::kepler::kepler(r1, v1, t, mu);
                let o = orbit(q, u, e0 + t.seconds(), mu);
                let sp = Spacecraft::from(o);
                let bp = match BPlane::new(o) { Err(_) => {
                    if [StateParameter::BdotT(), StateParameter::BdotR()].into_iter().any(|p| sp.value(p).is_ok()) { rec.ev("bp", json!({})); } else { rec.ev("err", json!({})); }
                    continue
                }, Ok(x) => x };
                if !hyper { rec.ev("bp", json!({})); continue; }
                let (wt, wr, ax) = oracle(q, u, mu);
                let (xt, xr) = (bp.b_dot_t_km(), bp.b_dot_r_km());
                let bm = (wt * wt + wr * wr).sqrt();
                let tolb = 1e-7 * bm;
                let m = bp.inertial_to_bplane();
                let mut dcm = 0.0;
                for i in 0..3 { for j in 0..3 { dcm = nmax(dcm, (m[(i, j)] - ax[i][j]).abs()); } }
                // partials with respect to the velocity
                let jb = bp.jacobian();
                let mut jac = 0.0;
                let fd = partials(q, u, mu);
                let scale = nmax(norm(fd[0]), norm(fd[1]));
                for i in 0..2 { for k in 0..3 { jac = nmax(jac, (jb[(i, k)] - fd[i][k]).abs() / scale); } }
                for (k, el, keep) in [(0, OrbitalElement::VX, [1, 2]), (1, OrbitalElement::VY, [0, 2]), (2, OrbitalElement::VZ, [0, 1])] {
                    let _ = k;
                    match bp.jacobian2(StateParameter::Element(el)) {
                        Ok(m2) => for i in 0..2 { for j in 0..2 { jac = nmax(jac, (m2[(i, j)] - fd[i][keep[j]]).abs() / scale); } },
                        Err(_) => jac = f64::INFINITY,
                    }
                }
                if bp.jacobian2(StateParameter::Element(OrbitalElement::X)).is_ok() { jac = f64::INFINITY; }
                let par = match (sp.value(StateParameter::BdotT()), sp.value(StateParameter::BdotR())) { (Ok(a), Ok(b)) => nmax((a - xt).abs(), (b - xr).abs()), _ => f64::INFINITY };
                let ang = { let d = (bp.angle_deg() - xr.atan2(xt).to_degrees()).abs(); let d = if d > 180.0 { 360.0 - d } else { d }; if bp.angle_deg().abs() > 180.0 + 1e-9 { 1e9 } else { d } };
                rec.ev("bp", json!({"bt": th(xt - wt, tolb), "br": th(xr - wr, tolb), "mag": th(bp.magnitude_km() - bm, tolb), "ang": th(ang, 1e-9), "dcm": th(dcm, 1e-8),
                    "jac": th(jac, 1e-5), "par": th(par, tolb), "same": bp.epoch == o.epoch && bp.frame == o.frame, "u": clampi(xt / bm * 1e6), "w": clampi(xr / bm * 1e6)}));
            }
            let mut target = if tgt == "ltof" { BPlaneTarget::from_targets(gt, gr, ltof.seconds()) } else { BPlaneTarget::from_bt_br(gt, gr) };
            if let Some((a, b)) = tols { target.tol_b_t_km = a; target.tol_b_r_km = b; }
            let o = orbit(r1, v1, e0, mu);
            match try_achieve_b_plane(o, target) {
                Err(e) => rec.ev("tgt", json!({"ok": false, "msg": errs(&e)})),
                Ok((dv, rep)) => {
                    if !hyper { rec.ev("tgt", json!({"ok": true})); } else {
                        let (at, ar, _) = oracle(r1, add(v1, [dv[0], dv[1], dv[2]]), mu);
                        let bm = b.max((gt * gt + gr * gr).sqrt());
                        // the tolerance of the correction is 1 mm, unless set
                        let num = if low { 2e-9 } else { 2e-10 } * bm;
                        let (tt, tr, tl) = (1.1 * target.tol_b_t_km + num, 1.1 * target.tol_b_r_km + num, 1.1e-6 + num);
                        rec.ev("tgt", json!({"ok": true, "bt": th(at - gt, tt), "br": th(ar - gr, tr), "rep": th(nmax((rep.b_dot_t_km() - at).abs(), (rep.b_dot_r_km() - ar).abs()), tl)}));
                    }
                }
            }
            let two = target.to_objectives_with_tolerance(tol);
            let three = target.to_all_objectives_with_tolerance(tol);
            let find = |v: &[nyx_space::md::prelude::Objective], p: StateParameter| v.iter().filter(|o| o.parameter == p).map(|o| (o.desired_value, o.tolerance)).collect::<Vec<_>>();
            let ok = [&two[..], &three[..]].iter().all(|v| find(v, StateParameter::BdotT()) == vec![(gt, tol)] && find(v, StateParameter::BdotR()) == vec![(gr, tol)])
                && find(&three, StateParameter::BLTOF()).iter().map(|x| x.0).collect::<Vec<_>>() == vec![if tgt == "ltof" { ltof.seconds().to_seconds() } else { 0.0 }]
                && find(&target.to_objectives(), StateParameter::BdotT()) == vec![(gt, 1.0)] && find(&target.to_objectives(), StateParameter::BdotR()) == vec![(gr, 1.0)];
            rec.ev("obj", json!({"ok": ok}));
        }));
    }
    out
}
