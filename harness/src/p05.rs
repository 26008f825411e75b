//! P05: trajectory queries.  P06: trajectory edits.
use crate::kepler::*;
use crate::sc::*;
use crate::util::*;
use anise::prelude::*;
use hifitime::{Duration, Epoch, Unit};
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Mass, Spacecraft};
use nyx_space::md::trajectory::Traj;
use serde_json::{Value, json};
use std::ops::Bound;

pub fn fp(s: &Spacecraft) -> String {
    let b = bits(s);
    format!("{b}-{}-{:?}-{}", hex(s.mass.prop_mass_kg), s.mode, s.orbit.frame.orientation_id)
}

#[derive(Clone)]
struct Curve {
    c: [Vec<f64>; 3],
    kep: Option<Orbit>,
    zero: Epoch,
}
impl Curve {
    fn at(&self, e: Epoch) -> Orbit {
        if let Some(o) = &self.kep {
            return kep_at(o, e);
        }
        let t = (e - self.zero).to_seconds();
        let u = t / 500.0;
        let p = |c: &Vec<f64>| c.iter().rev().fold(0.0, |a, x| a * u + x);
        let d = |c: &Vec<f64>| c.iter().enumerate().skip(1).rev().fold(0.0, |a, (i, x)| a * u + x * i as f64) / 500.0;
        Orbit::new(p(&self.c[0]), p(&self.c[1]), p(&self.c[2]), d(&self.c[0]), d(&self.c[1]), d(&self.c[2]), e, eme())
    }
}

fn mk_traj(r: &mut Rng64, n: usize, zero: Epoch) -> (Traj<Spacecraft>, Curve, i64) {
    let kep = n > 60 || (n >= 13 && r.b());
    let c = if kep {
        let o = rand_orbit(r, zero);
        Curve { c: [vec![], vec![], vec![]], kep: Some(o), zero }
    } else {
        let deg = (2 * n - 1).min(*r.pick(&[1usize, 3, 5, 9]));
        let mut mk = || (0..=deg).map(|i| r.r(-5000.0, 5000.0) / (1.0 + i as f64)).collect::<Vec<f64>>();
        Curve { c: [mk(), mk(), mk()], kep: None, zero }
    };
    let base = if kep { (c.kep.unwrap().periapsis_km().unwrap().powi(3) / MU).sqrt() * 0.1 } else { r.r(5.0, 40.0) };
    let regular = r.b();
    let mut t = if r.b() { Duration::ZERO } else { -(base * r.r(0.0, n as f64)) * Unit::Second };
    let mut tr = Traj::new();
    let mut prop = r.r(50.0, 400.0);
    let burn = r.u(3);
    for i in 0..n {
        let e = zero + t;
        let mut s = Spacecraft::from(c.at(e));
        s.mass = Mass::from_dry_and_prop_masses(500.0, prop);
        s.srp.area_m2 = 3.25;
        s.mode = GuidanceMode::Coast;
        tr.states.push(s);
        // burn profile: none, constant flow, or on/off
        if burn == 1 || (burn == 2 && i % 5 < 2) {
            prop -= r.r(0.0, 2.0);
        }
        t += (base * if regular { 1.0 } else { r.r(0.6, 1.4) }) * Unit::Second;
    }
    tr.finalize();
    // tolerance in 1e-7 km and 1e-10 km/s
    (tr, c, 200)
}

pub fn cases05(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = epoch0();
    let mut specs: Vec<(String, usize, Vec<usize>)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(2, 10) {
            specs.push((format!("s{i}-{rep}"), s["n"].as_u64().unwrap() as usize, vec![s["q"].as_u64().unwrap() as usize]));
        }
    }
    for i in 0..ctx.n(300, 4000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let n = if r.u(3) == 0 { 1 + r.u(60) } else { 1 + r.u(20) };
        let q = (0..10).map(|_| 1 + r.u(2 * n + 1)).collect();
        specs.push((id, n, q));
    }
    for i in 0..ctx.n(4, 60) {
        let id = format!("big{i}");
        let mut r = ctx.rng(&id);
        let n = 150 + r.u(350);
        let q = (0..60).map(|_| 1 + r.u(2 * n + 1)).collect();
        specs.push((id, n, q));
    }
    for (id, n, qs) in specs {
        let mut r = ctx.rng(&format!("p05{id}"));
        let (tr, c, tol) = mk_traj(&mut r, n, zero);
        let eps: Vec<Value> = tr.states.iter().map(|s| ep(s.epoch(), zero)).collect();
        let fps: Vec<String> = tr.states.iter().map(fp).collect();
        v.push(case(id, json!({"n": n, "eps": eps, "bits": fps, "tol": tol, "kep": c.kep.is_some()}), move |rec| {
            rec.ev("ends", json!({"first": ep(tr.start_epoch(), zero), "last": ep(tr.end_epoch(), zero), "fb": fp(tr.first()), "lb": fp(tr.last())}));
            for q in qs {
                let nano = Duration::from_total_nanoseconds(1);
                let st = &tr.states;
                let e = if q == 1 {
                    st[0].epoch() - *r.pick(&[nano, 1 * Unit::Second, 1 * Unit::Day])
                } else if q == 2 * n + 1 {
                    st[n - 1].epoch() + *r.pick(&[nano, 1 * Unit::Second, 1 * Unit::Day])
                } else if q % 2 == 0 {
                    st[q / 2 - 1].epoch()
                } else {
                    let (a, b) = (st[q / 2 - 1].epoch(), st[q / 2].epoch());
                    match r.u(6) { 0 => a + nano, 1 => b - nano, _ => a + (b - a) * r.r(0.01, 0.99) }
                };
                // the same instant in another time scale is the same query
                let e_ask = if r.u(4) == 0 { e.to_time_scale(hifitime::TimeScale::TAI) } else { e };
                let m = match tr.at(e_ask) {
                    Err(x) => json!({"q": ep(e, zero), "ok": false, "err": errs(&x)}),
                    Ok(s) => {
                        let (dr, dv) = odist(&s.orbit, &c.at(e));
                        let j = st.iter().position(|x| x.epoch() > e).unwrap_or(n - 1);
                        let (a, b) = (&st[j.saturating_sub(1)], &st[j]);
                        let sp = (b.epoch() - a.epoch()).to_seconds();
                        let lin = if sp > 0.0 { a.mass.prop_mass_kg + (b.mass.prop_mass_kg - a.mass.prop_mass_kg) * (e - a.epoch()).to_seconds() / sp } else { a.mass.prop_mass_kg };
                        json!({"q": ep(e, zero), "ok": true, "ep": ep(s.epoch(), zero), "bits": fp(&s), "dr": mag(dr, 1e-7), "dv": mag(dv, 1e-9), "dm": mag(s.mass.prop_mass_kg - lin, 1e-7),
                            "rest": s.mass.dry_mass_kg == 500.0 && s.srp.area_m2 == 3.25 && s.mode == GuidanceMode::Coast && s.orbit.frame == eme()})
                    }
                };
                rec.ev("at", m);
            }
            // grids
            for _ in 0..2 {
                let (f, l) = (tr.start_epoch(), tr.end_epoch());
                let span = (l - f).max(1 * Unit::Second);
                let step = match r.u(4) { 0 | 1 if n > 60 => span / r.i(100, 600), 0 => span / r.i(1, 12), 1 => span * 2i64, 2 if n > 1 => tr.states[1].epoch() - f, _ => span * r.r(0.03, 1.1) };
                if step <= Duration::ZERO { continue; }
                let (a, b) = if r.u(2) == 0 { (f, l) } else { (f + span * r.r(-0.3, 1.1), f + span * r.r(0.0, 1.3)) };
                let whole = a == f && b == l;
                let got: Vec<Spacecraft> = if whole && r.b() { tr.every(step).collect() } else { tr.every_between(step, a, b).collect() };
                let same = got.iter().all(|s| tr.at(s.epoch()).map(|x| fp(&x) == fp(s)).unwrap_or(false));
                rec.ev("grid", json!({"start": ep(a, zero), "stop": ep(b, zero), "step": dur(step), "eps": got.iter().map(|s| ep(s.epoch(), zero)).collect::<Vec<_>>(), "same": same}));
            }
        }));
    }
    v
}

fn bnd(r: &mut Rng64, pts: &[Duration]) -> (Bound<Duration>, &'static str) {
    let span = *pts.last().unwrap() - pts[0] + 1 * Unit::Second;
    let t = if r.b() { *r.pick(pts) } else { pts[0] + span * r.r(-0.2, 1.2) };
    match r.u(5) { 0 => (Bound::Unbounded, "u"), 1 | 2 => (Bound::Included(t), "i"), _ => (Bound::Excluded(t), "e") }
}
fn bj(b: &(Bound<Duration>, &'static str)) -> Value {
    let t = match b.0 { Bound::Unbounded => Duration::ZERO, Bound::Included(t) | Bound::Excluded(t) => t };
    json!([b.1, dur(t)])
}

pub fn cases06(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = epoch0();
    let kinds = ["epoch", "offset", "resample", "rebuild", "merge", "frame"];
    let mut specs: Vec<(String, Vec<String>)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(8, 40) {
            specs.push((format!("s{i}-{rep}"), s["ops"].as_array().unwrap().iter().skip(1).map(|x| x.as_str().unwrap().to_string()).collect()));
        }
    }
    for i in 0..ctx.n(300, 4000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let n = 1 + r.u(6);
        specs.push((id, (0..n).map(|_| r.pick(&kinds).to_string()).collect()));
    }
    for i in 0..ctx.n(6, 80) {
        let id = format!("big{i}");
        let mut r = ctx.rng(&id);
        specs.push((id, (0..4).map(|_| r.pick(&kinds).to_string()).collect()));
    }
    for (id, ops) in specs {
        let big = id.starts_with("big");
        let mut r = ctx.rng(&format!("p06{id}"));
        v.push(case(id, json!({"ops": ops}), move |rec| {
            let n = if big { 100 + r.u(300) } else { 1 + r.u(20) };
            let (src, curve, _) = mk_traj(&mut r, n, zero);
            // raw order: shuffled, with duplicates
            let mut raw = src.states.clone();
            for _ in 0..r.u(5) {
                let mut d = *r.pick(&src.states);
                if r.b() { d.mass.prop_mass_kg += 1.0; }
                let k = r.u(raw.len() + 1);
                raw.insert(k, d);
            }
            match r.u(3) {
                0 => raw.reverse(),
                1 => for i in (1..raw.len()).rev() { let j = r.u(i + 1); raw.swap(i, j); },
                _ => {}
            }
            let enc = |t: &[Spacecraft]| -> Vec<Value> { t.iter().map(|s| json!([ep(s.epoch(), zero), fp(s)])).collect() };
            let mut t = Traj::<Spacecraft>::new();
            t.states = raw.clone();
            t.finalize();
            rec.ev("build", json!({"raw": enc(&raw), "out": enc(&t.states)}));
            for op in ops {
                if t.states.is_empty() && op != "epoch" && op != "offset" && op != "resample" && op != "rebuild" { continue; }
                match op.as_str() {
                    "epoch" | "offset" => {
                        let off = op == "offset";
                        let pts: Vec<Duration> = if t.states.is_empty() { vec![Duration::ZERO] } else { t.states.iter().map(|s| s.epoch() - if off { t.first().epoch() } else { zero }).collect() };
                        let (lo, hi) = (bnd(&mut r, &pts), bnd(&mut r, &pts));
                        t = if off { t.filter_by_offset((lo.0, hi.0)) } else { t.filter_by_epoch((lo.0.map(|d| zero + d), hi.0.map(|d| zero + d))) };
                        rec.ev(&op, json!({"lo": bj(&lo), "hi": bj(&hi), "out": enc(&t.states)}));
                    }
                    "resample" => {
                        let step = if t.states.len() < 2 { 3 * Unit::Second } else { let sp = t.end_epoch() - t.start_epoch(); match r.u(3) { 0 => sp / if big { r.i(50, 500) } else { r.i(1, 15) }, 1 => t.states[1].epoch() - t.states[0].epoch(), _ => sp * r.r(0.05, 1.2) } };
                        match t.resample(step) {
                            Ok(x) => {
                                let same = x.states.iter().all(|s| t.at(s.epoch()).map(|y| fp(&y) == fp(s)).unwrap_or(false));
                                rec.ev(&op, json!({"ok": true, "step": dur(step), "out": enc(&x.states), "same": same}));
                                t = x;
                            }
                            Err(e) => rec.ev(&op, json!({"ok": false, "step": dur(step), "err": errs(&e)})),
                        }
                    }
                    "rebuild" => {
                        let k = 1 + r.u(8);
                        let mut es: Vec<Epoch> = vec![];
                        let (f, l) = if t.states.is_empty() { (zero, zero) } else { (t.start_epoch(), t.end_epoch()) };
                        for _ in 0..k {
                            es.push(if r.b() && !t.states.is_empty() { r.pick(&t.states).epoch() } else { f + (l - f) * r.r(0.0, 1.0) });
                        }
                        if r.b() { let d = *r.pick(&es); es.push(d); }
                        if r.u(6) == 0 { es.insert(r.u(es.len() + 1), if r.b() { f - 1 * Unit::Nanosecond } else { l + 1 * Unit::Second }); }
                        let ej: Vec<Value> = es.iter().map(|e| ep(*e, zero)).collect();
                        match t.rebuild(&es) {
                            Ok(x) => {
                                let same = x.states.iter().all(|s| t.at(s.epoch()).map(|y| fp(&y) == fp(s)).unwrap_or(false));
                                rec.ev(&op, json!({"ok": true, "eps": ej, "out": enc(&x.states), "same": same}));
                                t = x;
                            }
                            Err(e) => rec.ev(&op, json!({"ok": false, "eps": ej, "err": errs(&e)})),
                        }
                    }
                    "merge" => {
                        let m = 1 + r.u(8);
                        let (f, l) = (t.start_epoch(), t.end_epoch());
                        let mut o = Traj::<Spacecraft>::new();
                        let span = (l - f).max(20 * Unit::Second);
                        let shift = span * r.r(-1.2, 1.2);
                        for i in 0..m {
                            let e = if r.u(5) == 0 { r.pick(&t.states).epoch() } else { f + shift + (span * i as f64) / m as f64 };
                            let mut s = Spacecraft::from(curve.at(e));
                            s.mass.prop_mass_kg = 7.0;
                            o.states.push(s);
                        }
                        o.finalize();
                        let mismatch = r.u(8) == 0;
                        if mismatch { for s in o.states.iter_mut() { s.orbit.frame = anise::constants::frames::EARTH_ECLIPJ2000.with_mu_km3_s2(MU); } }
                        let res = if r.b() { &t + &o } else { t.clone() + o.clone() };
                        match res {
                            Ok(x) => {
                                rec.ev(&op, json!({"ok": true, "mismatch": mismatch, "other": enc(&o.states), "out": enc(&x.states)}));
                                t = x;
                            }
                            Err(e) => rec.ev(&op, json!({"ok": false, "mismatch": mismatch, "other": enc(&o.states), "err": errs(&e)})),
                        }
                    }
                    _ => {
                        let a = crate::world::world();
                        let fr = *r.pick(&[anise::constants::frames::EARTH_ECLIPJ2000, anise::constants::frames::IAU_EARTH_FRAME, anise::constants::frames::MOON_J2000]);
                        match t.to_frame(fr, &a) {
                            Ok(x) => {
                                let back = x.states.iter().zip(&t.states).map(|(s, w)| {
                                    let o = a.transform_to(s.orbit, eme(), None).unwrap();
                                    if s.mass.prop_mass_kg != w.mass.prop_mass_kg || !s.orbit.frame.orient_origin_match(fr) || !s.orbit.frame.ephem_origin_match(fr) { 1e9 } else { odist(&o, &w.orbit).0 }
                                }).fold(0.0, nmax);
                                rec.ev("frame", json!({"ok": true, "eps": x.states.iter().map(|s| ep(s.epoch(), zero)).collect::<Vec<_>>(), "back": mag(back, 1e-5)}));
                            }
                            Err(e) => rec.ev("frame", json!({"ok": false, "err": errs(&e)})),
                        }
                    }
                }
            }
        }));
    }
    v
}
