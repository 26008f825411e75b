//! P04: propagation until the n-th event, judged against the closed-form two-body solution.
use crate::kepler::*;
use crate::sc::*;
use crate::util::*;
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::{OrbitalElement, ScalarExpr};
use anise::prelude::*;
use hifitime::{Duration, Unit};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::propagators::*;
use serde_json::json;

fn at(o: &Orbit, t: f64) -> Orbit {
    let (r, v) = kepler([o.radius_km[0], o.radius_km[1], o.radius_km[2]], [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]], t, MU);
    Orbit::new(r[0], r[1], r[2], v[0], v[1], v[2], o.epoch + t * Unit::Second, o.frame)
}

fn eval(ev: &Event, o: Orbit, fr: Option<Frame>, a: &Almanac) -> f64 {
    let o = match fr {
        Some(f) => a.transform_to(o, f, None).unwrap(),
        None => o,
    };
    ev.eval(o, a).unwrap()
}

/// All crossings of the event within (0, span] (signed), by dense sampling of the closed form and bisection.
fn crossings(ev: &Event, o: &Orbit, fr: Option<Frame>, span: f64, dt: f64, a: &Almanac) -> Vec<f64> {
    let n = (span.abs() / dt).ceil() as usize;
    let sg = span.signum();
    let mut out = vec![];
    let mut tp = 1e-4;
    let mut yp = eval(ev, at(o, sg * tp), fr, a);
    for i in 1..=n {
        let t = (i as f64 * dt).min(span.abs());
        let y = eval(ev, at(o, sg * t), fr, a);
        let cross = if ev.scalar.is_angle() { yp.signum() != y.signum() && (y - yp).abs() < 180.0 } else { yp * y < 0.0 };
        if cross {
            let (mut lo, mut hi) = (tp, t);
            for _ in 0..60 {
                let m = 0.5 * (lo + hi);
                if eval(ev, at(o, sg * m), fr, a).signum() == yp.signum() { lo = m } else { hi = m }
            }
            out.push(0.5 * (lo + hi));
        }
        tp = t;
        yp = y;
    }
    out
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = epoch0();
    // scenario: [n (which), k (crossings in the window), tail class, backward]
    let mut specs: Vec<(String, Vec<i64>)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(2, 6) {
            specs.push((format!("s{i}-{rep}"), vec![s["n"].as_i64().unwrap(), s["k"].as_i64().unwrap(), s["tail"].as_i64().unwrap(), s["back"].as_i64().unwrap()]));
        }
    }
    for i in 0..ctx.n(400, 4000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        specs.push((id, vec![r.i(1, 4), r.i(0, 5), r.i(0, 2), r.i(0, 1)]));
    }
    for (id, sp) in specs {
        let mut r = ctx.rng(&format!("p04{id}"));
        let (n, k, tail, back) = (sp[0] as usize, sp[1] as usize, sp[2], sp[3] == 1);
        let coarse = r.u(6) == 0;
        v.push(case(id, json!({"n": n, "back": back, "spec": sp, "coarse": coarse}), move |rec| {
            let a = crate::world::world();
            let sgn = if back { -1.0 } else { 1.0 };
            // draw until the crossings are well separated (several integration steps apart)
            let mut tries = 0;
            let (s0, ev, fr, step, cr, per) = loop {
                tries += 1;
                let ecc = if coarse { r.r(0.05, 0.25) } else { r.r(0.05, 0.5) };
                let rp = r.r(6800.0, 12000.0);
                let o = Orbit::try_keplerian(rp / (1.0 - ecc), ecc, r.r(15.0, 165.0), r.r(0.0, 360.0), r.r(0.0, 360.0), r.r(0.0, 360.0), zero, eme()).unwrap();
                let per = o.period().unwrap().to_seconds();
                let (lo, hi) = (rp, rp * (1.0 + ecc) / (1.0 - ecc));
                let el = ScalarExpr::Element;
                let rm = lo + (hi - lo) * r.r(0.15, 0.85);
                let inc = o.inc_deg().unwrap().min(180.0 - o.inc_deg().unwrap());
                let (sc, cond) = match r.u(12) {
                    0 => (el(OrbitalElement::TrueAnomaly), Condition::Equals(r.r(0.0, 360.0))),
                    1 => (el(OrbitalElement::TrueAnomaly), Condition::Equals(*r.pick(&[0.0, 180.0]))),
                    2 => (el(OrbitalElement::AoL), Condition::Equals(r.r(0.0, 360.0))),
                    3 => (el(OrbitalElement::Rmag), Condition::Equals(rm)),
                    4 => (el(OrbitalElement::Rmag), Condition::GreaterThan(rm)),
                    5 => (el(OrbitalElement::Rmag), Condition::LessThan(rm)),
                    6 => (el(OrbitalElement::Rmag), Condition::Between(lo + (hi - lo) * 0.25, lo + (hi - lo) * 0.75)),
                    7 => (el(OrbitalElement::Z), Condition::Equals(0.0)),
                    8 => (el(OrbitalElement::VZ), Condition::Equals(0.0)),
                    9 => (el(OrbitalElement::Declination), Condition::Equals(inc * r.r(-0.7, 0.7))),
                    10 => (el(OrbitalElement::MeanAnomaly), Condition::Equals(r.r(0.0, 360.0))),
                    _ => (el(OrbitalElement::FlightPathAngle), Condition::Equals(0.0)),
                };
                let mut ev = Event::new(sc, cond);
                ev.epoch_precision = *r.pick(&[10 * Unit::Millisecond, 100 * Unit::Millisecond, 1 * Unit::Millisecond]);
                let fr = if r.u(4) == 0 && !matches!(ev.scalar, ScalarExpr::Element(OrbitalElement::Rmag)) { Some(anise::constants::frames::EARTH_ECLIPJ2000.with_mu_km3_s2(MU)) } else { None };
                // a coarse run takes a few steps per revolution: the crossing found must be the right one, its accuracy is not judged
                let step = (per / if coarse { r.r(5.0, 9.0) } else { r.r(90.0, 150.0) }).floor();
                let span = per * (k.max(n) as f64 + 2.5);
                let cr = crossings(&ev, &o, fr, sgn * span, per / 700.0, &a);
                let sep = if coarse { 1.3 } else { 4.0 };
                let ok = cr.len() >= k + 1 && cr.windows(2).all(|w| w[1] - w[0] > sep * step) && cr[0] > sep * step && (!coarse || ev.scalar.is_angle());
                if ok {
                    break (Spacecraft::from(o), ev, fr, step, cr, per);
                }
                if tries > 60 {
                    rec.ev("skip", json!({}));
                    return;
                }
            };
            // The window ends with exactly k crossings in it, the last one a tail before its end
            let t_last = if k == 0 { 0.0 } else { cr[k - 1] };
            let gap = cr[k] - t_last;
            let end = match if coarse { 1 } else { tail } {
                0 => t_last + r.r(0.02, 0.4) * step, // crossing within the last, shortened step
                1 => t_last + gap * 0.5,
                _ => t_last + gap - 0.3 * step,
            };
            let max: Duration = (sgn * end) * Unit::Second;
            let o = if coarse || r.u(3) == 0 { IntegratorOptions::with_fixed_step_s(step) } else {
                let mut o = IntegratorOptions::with_adaptive_step_s(0.001, step, 1e-12, ErrorControl::RSSCartesianStep);
                o.init_step = (step * r.r(0.3, 1.0)) * Unit::Second;
                o
            };
            let mut o = o;
            if r.u(5) == 0 {
                o.integration_frame = Some(anise::constants::frames::EARTH_ECLIPJ2000.with_mu_km3_s2(MU));
            }
            let prop = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), o);
            let mut inst = prop.with(s0, a.clone()).quiet();
            let res = if n == 1 && r.b() { inst.until_event(max, &ev, fr) } else { inst.until_nth_event(max, &ev, fr, n) };
            // ANISE (a dependency) returns a true anomaly of 0 degrees when a state lies within rounding of the apoapsis: an integration
            // step that ends there has no defined event value, and such a run says nothing about nyx.
            let ta_based = matches!(ev.scalar, ScalarExpr::Element(OrbitalElement::TrueAnomaly | OrbitalElement::MeanAnomaly | OrbitalElement::AoL));
            let suspect = match &res { Ok((s, _)) => n > k || cr.get(n - 1).map(|c| (c - sgn * (s.epoch() - zero).to_seconds()).abs() > 1.0).unwrap_or(true), Err(_) => n <= k };
            if ta_based && suspect {
                let t = prop.with(s0, a.clone()).quiet().for_duration_with_traj(max).unwrap().1;
                let cosnu = |o: &Orbit| (o.evec().unwrap().dot(&o.radius_km) / (o.ecc().unwrap() * o.rmag_km())).abs();
                let glitch = t.states.iter().any(|x| cosnu(&x.orbit) >= 1.0 - 1e-15 || fr.map(|f| cosnu(&a.transform_to(x.orbit, f, None).unwrap()) >= 1.0 - 1e-15).unwrap_or(false));
                if glitch {
                    rec.ev("skip", json!({}));
                    return;
                }
            }
            let desc = format!("{ev} frame={fr:?} step={step} end={end} per={per}").replace('"', "'");
            match res {
                Ok((s, t)) => {
                    let tf = sgn * (s.epoch() - zero).to_seconds();
                    // which reference crossing is it, and how far
                    let (idx, d) = cr.iter().enumerate().map(|(i, c)| (i, (c - tf).abs())).fold((999, f64::MAX), |b, x| if x.1 < b.1 { x } else { b });
                    let (dr, dv) = dist(&s.orbit, &kep_orbit(&s0.orbit, s.epoch() - zero));
                    let inc = t.states.windows(2).all(|w| w[0].epoch() < w[1].epoch());
                    let cover = t.states.first().unwrap().epoch() <= s.epoch() && s.epoch() <= t.states.last().unwrap().epoch()
                        && (t.states.first().unwrap().epoch() == zero || t.states.last().unwrap().epoch() == zero);
                    let tdr = t.states.iter().map(|x| dist(&x.orbit, &kep_orbit(&s0.orbit, x.epoch() - zero)).0).fold(0.0, nmax);
                    let (dr, dv, tdr) = if coarse { (0.0, 0.0, 0.0) } else { (dr, dv, tdr) };
                    let d = if coarse { 0.0 } else { d };
                    rec.ev("found", json!({"k": "found", "n": n, "refs": k, "idx": idx + 1, "dt": mag(d, 1e-3), "prec": clampi(ev.epoch_precision.to_seconds() * 1e3), "dr": mag(dr, 1e-4), "dv": mag(dv, 1e-7),
                        "sorted": inc, "covers": cover, "tdr": mag(tdr, 1e-4), "desc": desc}));
                }
                // so few states per revolution may not be interpolable
                Err(e) if coarse && !matches!(e, PropagationError::NthEventError { .. }) => rec.ev("skip", json!({})),
                Err(e) => rec.ev("notfound", json!({"n": n, "refs": k, "desc": desc, "err": errs(&e)})),
            }
        }));
    }
    v
}
