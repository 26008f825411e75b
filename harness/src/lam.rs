//! P25: Lambert solvers, judged by flying the returned transfer with the closed-form two-body motion.
use crate::kepler::kepler;
use crate::num::*;
use crate::util::*;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, TimeUnits};
use nyx_space::linalg::Vector3;
use nyx_space::tools::lambert::*;
use serde_json::json;
const TAU: f64 = std::f64::consts::TAU;
fn kind(k: &str) -> TransferKind {
    match k { "A" => TransferKind::Auto, "S" => TransferKind::ShortWay, "L" => TransferKind::LongWay, "N0" => TransferKind::NRevs(0), "N1" => TransferKind::NRevs(1), "N2" => TransferKind::NRevs(2), _ => TransferKind::NRevs(3) }
}
fn frame(mu: f64) -> Frame { Frame { ephemeris_id: 399, orientation_id: 1, mu_km3_s2: Some(mu), shape: None, frozen_epoch: None, force_inertial: false } }
fn scale(a: V3, k: f64) -> V3 { sc(k, a) }
fn v3(a: V3) -> Vector3<f64> { Vector3::new(a[0], a[1], a[2]) }
fn a3(a: Vector3<f64>) -> V3 { [a[0], a[1], a[2]] }
/// Eccentric anomaly and mean motion of an ellipse
fn anomaly(r: V3, v: V3, mu: f64) -> Option<(f64, f64, f64)> {
    let a = 1.0 / (2.0 / norm(r) - dot(v, v) / mu);
    if !(a > 0.0) { return None; }
    let es = dot(r, v) / (mu * a).sqrt();
    let ec = 1.0 - norm(r) / a;
    Some((es.atan2(ec), (es * es + ec * ec).sqrt(), (mu / a.powi(3)).sqrt()))
}
fn revs(r1: V3, v1: V3, r2: V3, v2: V3, tof: f64, mu: f64) -> i64 {
    match (anomaly(r1, v1, mu), anomaly(r2, v2, mu)) {
        (Some((e1, x, n)), Some((e2, y, _))) => {
            let m = ((e2 - y * e2.sin()) - (e1 - x * e1.sin())).rem_euclid(TAU);
            let q = (n * tof - m) / TAU;
            if (q - q.round()).abs() > 0.01 { -1 } else { q.round() as i64 }
        }
        _ => 0,
    }
}
struct Prob { r1: V3, v1: V3, r2: V3, v2: V3, tof: f64, mu: f64, n: i64 }
fn unit(r: &mut Rng64) -> V3 { loop { let v = [r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]; let n = norm(v); if n > 0.2 && n < 1.0 { return scale(v, 1.0 / n); } } }
/// A transfer which exists by construction, in n full revolutions and a bit, well away from the degenerate geometries
fn make(r: &mut Rng64, n: i64, short: bool, up: bool, hyper: bool) -> Prob {
    loop {
        let mu = *r.pick(&[398600.4418, 4902.8, 1.32712440018e11]);
        let base = if mu > 1e9 { 1.5e8 } else if mu < 1e4 { 3000.0 } else { 9000.0 };
        let r1 = scale(unit(r), base * r.r(0.7, 3.0));
        let vc = (mu / norm(r1)).sqrt();
        let speed = vc * if hyper { r.r(1.45, 1.9) } else { r.r(0.75, 1.25) };
        let v1 = scale(unit(r), speed);
        let h = cross(r1, v1);
        if norm(h) < 0.35 * norm(r1) * speed { continue; }
        let frac = r.r(0.08, 0.92);
        let tof = match anomaly(r1, v1, mu) { Some((_, _, w)) => (n as f64 + frac) * TAU / w, None => { if n > 0 { continue; } frac * 4.0 * norm(r1) / vc } };
        let tof = (tof * 1e9).round() * 1e-9;
        let (r2, v2) = kepler(r1, v1, tof, mu);
        let c = cross(r1, r2);
        if norm(c) < 0.1 * norm(r1) * norm(r2) || c[2].abs() < 0.05 * norm(c) || norm(sub(r1, r2)) < 0.1 * norm(r1) { continue; }
        if norm(r2) < 0.1 * norm(r1) || norm(r2) > 10.0 * norm(r1) { continue; }
        if (dot(h, c) > 0.0) != short || (c[2] > 0.0) != up { continue; }
        return Prob { r1, v1, r2, v2, tof, mu, n };
    }
}
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    // (id, kind, col, up, tof class)
    let mut specs: Vec<(String, String, String, bool, String)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for k in 0..ctx.n(4, 40) { specs.push((format!("s{i}.{k}"), s["kind"].as_str().unwrap().into(), s["col"].as_str().unwrap().into(), s["up"] == 1, s["tof"].as_str().unwrap().into())); }
    }
    for i in 0..ctx.n(600, 20000) {
        let mut r = ctx.rng(&format!("spec{i}"));
        specs.push((format!("r{i}"), r.pick(&["A", "S", "L", "N0", "N1", "N2", "N3"]).to_string(), "no".into(), r.b(), r.pick(&["short", "mid", "mid", "long", "longer"]).to_string()));
    }
    for (id, kd, col, up, tof) in specs {
        let mut r = ctx.rng(&id);
        let want: i64 = match kd.as_str() { "N1" => 1, "N2" => 2, "N3" => 3, _ => 0 };
        let have = match tof.as_str() { "long" => 1, "longer" => 2 + r.i(0, 2), _ => 0 };
        // for N0 and the plain kinds, the flight may still last more than a revolution of the orbit it was made from
        let made = if want > 0 && have > 0 { if have >= want { want } else { have } } else { have };
        let short_truth = match kd.as_str() { "S" => true, "L" => false, _ => up };
        let short_made = if r.u(4) == 0 { !short_truth } else { short_truth };
        let hyper = tof == "short" && r.b();
        let mut p = make(&mut r, made, short_made, up, hyper);
        match col.as_str() { "opp" => p.r2 = scale(p.r1, -r.r(0.5, 2.0)), "same" => p.r2 = if r.b() { p.r1 } else { scale(p.r1, r.r(1.2, 2.0)) }, _ => {} }
        if tof == "neg" { p.tof = -p.tof } else if tof == "zero" { p.tof = 0.0 }
        let bad = col != "no" || p.tof <= 0.0;
        for solver in ["izzo", "gooding"] {
            let (kd, multi) = (kd.clone(), kd.starts_with('N'));
            // by construction there is a solution with that many revolutions; without revolutions there always is one
            let built = short_made == short_truth && made == want;
            let must = !bad && if solver == "izzo" { want == 0 || built } else { !multi && built && !hyper && p.mu < 1e9 };
            let (r1, r2, v1, v2, tofs, mu) = (p.r1, p.r2, p.v1, p.v2, p.tof, p.mu);
            let same = !bad && built && want == 0;
            let ctie = { let c = cross(r1, r2); c[2].abs() < 1e-9 * norm(c) };
            let upv = if ctie { 2 } else { up as i64 };
            out.push(case(format!("{id}.{solver}"), json!({"kind": kd, "up": upv, "bad": bad, "must": must}), move |rec| {
                let e0 = Epoch::from_gregorian_utc_at_midnight(2025, 1, 1);
                let f = frame(mu);
                let a = Orbit { radius_km: v3(r1), velocity_km_s: Vector3::new(0.1, 0.2, 0.3), epoch: e0, frame: f };
                let b = Orbit { radius_km: v3(r2), velocity_km_s: Vector3::new(-0.1, 0.4, 0.3), epoch: e0 + tofs.seconds(), frame: f };
                let input = LambertInput::from_planetary_states(a, b);
                rec.ev("input", json!({"ok": input.is_ok(), "valid": true}));
                let Ok(input) = input else { return };
                let mut other = b;
                other.frame.ephemeris_id = 301;
                rec.ev("input", json!({"ok": LambertInput::from_planetary_states(a, other).is_ok(), "valid": false}));
                let (mut nog, mut nog2) = (a, b);
                nog.frame.mu_km3_s2 = None;
                nog2.frame.mu_km3_s2 = None;
                rec.ev("input", json!({"ok": LambertInput::from_planetary_states(nog, nog2).is_ok(), "valid": false}));
                let sol = if solver == "izzo" { izzo(input, kind(&kd)) } else { gooding(input, kind(&kd)) };
                match sol {
                    Err(e) => rec.ev("err", json!({"msg": format!("{e}")})),
                    Ok(s) => {
                        let (w1, w2) = (a3(s.v_init_km_s), a3(s.v_final_km_s));
                        let fin = w1.iter().chain(w2.iter()).all(|x| x.is_finite());
                        if !fin || bad { rec.ev("sol", json!({"fin": fin, "arr": 0, "vel": 0, "way": "short", "revs": 0, "truth": 0, "orbits": true})); return; }
                        let (q, u) = kepler(r1, w1, tofs, mu);
                        // the flight time is met to 1e-4 s; long flights amplify rounding
                        let g = 1.0 + (norm(w1) * tofs / norm(r1)).powi(2);
                        let acc = mu / norm(r2).powi(2).min(norm(r1).powi(2));
                        let tr = 2e-4 * norm(w2) * g.min(30.0) + 1e-9 * g * norm(r2);
                        let tv = 2e-4 * acc * g.min(30.0) + 1e-9 * g * norm(w2);
                        let c = cross(r1, r2);
                        let d = dot(cross(r1, w1), c) / (norm(cross(r1, w1)) * norm(c));
                        let way = if d > 0.99 { "short" } else if d < -0.99 { "long" } else { "tie" };
                        let truth = if same { ((norm(sub(w1, v1)) + norm(sub(w2, v2))) / (1e-5 * (norm(v1) + norm(v2))) * 1000.0).min(1e8) as i64 } else { 0 };
                        let t = s.transfer_orbit();
                        let ar = s.arrival_orbit();
                        let inf = sub(a3(a.velocity_km_s), w1);
                        let orbits = a3(t.radius_km) == r1 && a3(t.velocity_km_s) == w1 && t.epoch == a.epoch && a3(ar.radius_km) == r2 && a3(ar.velocity_km_s) == w2 && ar.epoch == b.epoch
                            && norm(sub(a3(s.v_inf_outgoing_km_s()), inf)) < 1e-12 && norm(sub(a3(s.v_inf_incoming_km_s()), sub(a3(b.velocity_km_s), w2))) < 1e-12
                            && (s.c3_km2_s2() - dot(inf, inf)).abs() < 1e-9 * (1.0 + dot(inf, inf))
                            && (s.v_inf_outgoing_declination_deg().to_radians().sin() + inf[2] / norm(inf)).abs() < 1e-9
                            && (s.v_inf_outgoing_right_ascension_deg().to_radians() - (-inf[1]).atan2(-inf[0])).abs() < 1e-9;
                        rec.ev("sol", json!({"fin": true, "arr": clampi(norm(sub(q, r2)) / tr * 1000.0), "vel": clampi(norm(sub(u, w2)) / tv * 1000.0), "way": way,
                            "revs": revs(r1, w1, r2, w2, tofs, mu), "truth": truth, "orbits": orbits}));
                    }
                }
            }));
        }
    }
    out
}
