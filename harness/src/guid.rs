//! P23: closed-loop guidance laws, judged from numerical gradients of the orbital elements.
use crate::num::*;
use crate::util::*;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::prelude::*;
use hifitime::TimeUnits;
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Mass, Spacecraft};
use nyx_space::dynamics::guidance::*;
use nyx_space::dynamics::*;
use nyx_space::md::Trajectory;
use nyx_space::propagators::*;
use serde_json::json;
use std::sync::Arc;

type SP = nyx_space::md::StateParameter;
const RUG: [OE; 5] = [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP];
const KLU: [OE; 8] = [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::EquinoctialH, OE::EquinoctialK, OE::EquinoctialP, OE::EquinoctialQ];
fn a3(v: nyx_space::linalg::Vector3<f64>) -> V3 { [v[0], v[1], v[2]] }
fn val(s: &Spacecraft, p: OE) -> f64 { s.value(SP::Element(p)).unwrap() }
fn mode_name(m: GuidanceMode) -> &'static str { match m { GuidanceMode::Coast => "coast", GuidanceMode::Thrust => "thrust", GuidanceMode::Inhibit => "inhibit" } }
fn mode_of(s: &str) -> GuidanceMode { match s { "coast" => GuidanceMode::Coast, "thrust" => GuidanceMode::Thrust, _ => GuidanceMode::Inhibit } }
/// An orbit whose elements are all well defined, in the light or deep in the shadow of the Earth
fn craft(r: &mut Rng64, lit: &str) -> Spacecraft {
    let w = world();
    for _ in 0..20000 {
        let e = Epoch::from_gregorian_utc_hms(2021, 3, 4, 5, 6, 7) + r.r(0.0, 3000.0).days();
        let ecc = r.r(0.02, 0.6);
        let rp = r.r(6800.0, 9000.0);
        let inc = if r.u(4) == 0 { r.r(95.0, 170.0) } else { r.r(5.0, 85.0) };
        let o = Orbit::try_keplerian(rp / (1.0 - ecc), ecc, inc, r.r(20.0, 340.0), if r.u(4) == 0 { r.r(1.0, 20.0) } else { r.r(11.0, 349.0) }, r.r(0.0, 360.0), e, eme_w()).unwrap();
        if lit != "any" {
            let s = w.translate(Frame::new(10, 1), eme_w(), e, None).unwrap();
            let sun = hat(a3(s.radius_km));
            let p = a3(o.radius_km);
            let along = dot(p, sun);
            let off = norm(sub(p, sc(along, sun)));
            if lit == "shadow" && !(along < -1000.0 && off < 5500.0) { continue; }
            // the Moon cannot shadow a spacecraft which is this close to the Earth but during an eclipse: not in these epochs' test world
            if lit == "light" && !(along > 1000.0 || off > 7500.0) { continue; }
        }
        return Spacecraft::builder().orbit(o).mass(Mass { dry_mass_kg: r.r(100.0, 900.0), prop_mass_kg: r.r(50.0, 300.0), extra_mass_kg: 0.0 })
            .thruster(Thruster { thrust_N: r.r(0.5, 5.0), isp_s: r.r(1000.0, 3000.0) }).build();
    }
    unreachable!()
}
fn span(p: OE) -> (f64, f64) { match p { OE::SemiMajorAxis => (10.0, 3000.0), OE::Eccentricity => (1e-3, 0.015), OE::EquinoctialH | OE::EquinoctialK | OE::EquinoctialP | OE::EquinoctialQ => (1e-3, 0.2), _ => (0.05, 10.0) } }
/// An objective that is met, or whose target lies above (low) or below (high) the present value
fn objective(r: &mut Rng64, s: &Spacecraft, p: OE, st: &str) -> Objective {
    let x = val(s, p);
    let (tol, far) = span(p);
    let tol = tol * r.r(0.2, 1.0);
    let d = match st { "met" => tol * r.r(-0.9, 0.9), "low" => tol * 1.2 + r.r(0.0, far), _ => -(tol * 1.2 + r.r(0.0, far)) };
    Objective::within_tolerance(SP::Element(p), x + d, tol)
}
enum Law { R(Arc<Ruggiero>), K(Arc<Kluever>) }
impl Law {
    fn g(&self) -> Arc<dyn GuidanceLaw> { match self { Law::R(x) => x.clone(), Law::K(x) => x.clone() } }
    fn status(&self, s: &Spacecraft) -> Vec<String> { match self { Law::R(x) => x.status(s), Law::K(x) => x.status(s) } }
}
fn build(law: &str, objs: &[Objective], w: &[f64], init: Spacecraft, limit: Option<f64>) -> Law {
    if law == "rug" { Law::R(match limit { Some(l) => Ruggiero::from_max_eclipse(objs, init, l).unwrap(), None => Ruggiero::from_ηthresholds(objs, &w.iter().map(|_| 0.0).collect::<Vec<_>>(), init).unwrap() }) }
    else { Law::K(match limit { Some(l) => Kluever::from_max_eclipse(objs, w, l), None => Kluever::new(objs, w) }) }
}
fn thrusting(s: &Spacecraft) -> Spacecraft { let mut x = *s; x.mut_mode(GuidanceMode::Thrust); x }
fn steer(rec: &Rec, g: &dyn GuidanceLaw, s: &Spacecraft, act: usize) -> Option<V3> {
    let d = a3(g.direction(s).unwrap());
    let n = norm(d);
    rec.ev("steer", json!({"mode": mode_name(s.mode()), "act": act, "zero": n == 0.0, "err": mag((n - 1.0).abs(), 1e-9), "throttle": mag(g.throttle(s).unwrap(), 1e-3)}));
    if n > 0.5 { Some(d) } else { None }
}
/// Gradient of an element with respect to the velocity
fn gradient(s: &Spacecraft, p: OE) -> V3 {
    let h = 2e-4;
    let mut g = [0.0; 3];
    for i in 0..3 {
        let f = |k: f64| { let mut x = *s; x.orbit.velocity_km_s[i] += k * h; val(&x, p) };
        let (a, b) = (f(1.0) - f(-1.0), f(2.0) - f(-2.0));
        g[i] = (8.0 * a - b) / (12.0 * h);
    }
    g
}
fn gain(rec: &Rec, law: &str, s: &Spacecraft, o: &Objective, p: OE, u: V3) {
    let x = val(s, p);
    let g = gradient(s, p);
    let c = dot(hat(g), u) * (o.desired_value - x).signum();
    let best = matches!(p, OE::SemiMajorAxis | OE::Eccentricity | OE::Inclination | OE::RAAN | OE::EquinoctialP | OE::EquinoctialQ);
    let (rv, vv) = (a3(s.orbit.radius_km), a3(s.orbit.velocity_km_s));
    let n = hat(cross(rv, vv));
    let in_plane = sub(g, sc(dot(g, n), n));
    // Where the element can hardly be changed (by what the law may use), the sign is left alone
    let usable = match p { OE::AoP if dot(u, n).abs() > 1e-6 => dot(g, n).abs(), OE::EquinoctialH | OE::EquinoctialK | OE::AoP => norm(in_plane), _ => norm(g) };
    let scale = match p { OE::SemiMajorAxis => val(s, p) / 7.5, OE::Eccentricity | OE::EquinoctialH | OE::EquinoctialK | OE::EquinoctialP | OE::EquinoctialQ => 1.0 / 7.5, _ => 57.3 / 7.5 };
    if usable < 0.02 * scale { rec.ev("unseen", json!({})); return; }
    let out = dot(u, n).abs() > 1e-6;
    rec.ev("gain", json!({"law": law, "p": format!("{p:?}"), "gain": clampi(c * 1e6), "best": best, "bad": if p == OE::AoP && out { "aop-out-of-plane" } else { "error-not-reduced" }}));
}
/// Best rate of an element at each true anomaly over the largest along the orbit
fn efficiency(s: &Spacecraft, p: OE) -> f64 {
    let rate = |ta: f64| {
        let o = &s.orbit;
        let x = Orbit::try_keplerian(o.sma_km().unwrap(), o.ecc().unwrap(), o.inc_deg().unwrap(), o.raan_deg().unwrap(), o.aop_deg().unwrap(), ta, o.epoch, o.frame).unwrap();
        norm(gradient(&Spacecraft::from(x), p))
    };
    let here = rate(s.orbit.ta_deg().unwrap());
    let mut best = (0..720).map(|i| rate(i as f64 * 0.5)).fold(0.0, f64::max);
    best = best.max(here);
    here / best
}
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(2, 10) {
            let g = |k: &str| s[k].as_str().unwrap().to_string();
            let (law, st1, st2, lit, mode, limit) = (g("law"), g("st1"), g("st2"), g("lit"), g("mode"), s["limit"].as_bool().unwrap());
            let id = format!("scen{i}:{law}:{st1}:{st2}:{limit}:{lit}:{mode}:{rep}");
            let mut r = ctx.rng(&id);
            v.push(case(id, json!({"law": law, "kf": ""}), move |rec| decide(rec, &mut r, &law, &[st1, st2], limit, &lit, &mode)));
        }
    }
    for law in ["rug", "klu"] {
        let ps: Vec<OE> = if law == "rug" { RUG.to_vec() } else { KLU.to_vec() };
        for p in ps {
            for st in ["low", "high"] {
                let id = format!("single:{law}:{p:?}:{st}");
                let mut r = ctx.rng(&id);
                let n = ctx.n(200, 3000);
                v.push(case(id, json!({"law": law, "kf": ""}), move |rec| for _ in 0..n {
                    let s = thrusting(&craft(&mut r, "any"));
                    let o = objective(&mut r, &s, p, st);
                    let init = craft(&mut r, "any");
                    let l = build(law, &[o], &[r.r(0.1, 3.0)], init, None);
                    if let Some(u) = steer(rec, &*l.g(), &s, 1) { gain(rec, law, &s, &o, p, u); }
                }));
            }
        }
        for rep in 0..ctx.n(40, 300) {
            let id = format!("blend:{law}:{rep}");
            let mut r = ctx.rng(&id);
            v.push(case(id, json!({"law": law, "kf": ""}), move |rec| blend(rec, &mut r, law)));
            let id = format!("closed:{law}:{rep}");
            let mut r = ctx.rng(&id);
            v.push(case(id, json!({"law": law, "kf": ""}), move |rec| closed(rec, &mut r, law)));
        }
    }
    for rep in 0..ctx.n(30, 200) {
        let id = format!("eff:{rep}");
        let mut r = ctx.rng(&id);
        v.push(case(id, json!({"law": "rug", "kf": ""}), move |rec| eff(rec, &mut r)));
        let id = format!("replay:{rep}");
        let mut r = ctx.rng(&id);
        v.push(case(id, json!({"law": "replay", "kf": ""}), move |rec| replay(rec, &mut r)));
    }
    let mut r = ctx.rng("ctor");
    v.push(case("ctor", json!({"law": "rug", "kf": ""}), move |rec| {
        let s = craft(&mut r, "any");
        for n in 0..8 {
            for t in 0..8 {
                for badp in [false, true] {
                    let mut objs: Vec<Objective> = (0..n).map(|i| objective(&mut r, &s, RUG[i % 5], "low")).collect();
                    if badp && n > 0 { let j = r.u(n); objs[j] = Objective::within_tolerance(SP::Element(*r.pick(&[OE::Rmag, OE::TrueAnomaly, OE::Period, OE::C3])), 1.0, 0.1); }
                    let size = (1..=5).contains(&n);
                    rec.ev("ctor", json!({"accepted": Ruggiero::from_ηthresholds(&objs, &vec![0.1; t], s).is_ok(), "valid": size && t >= n && !badp}));
                    if t == 0 {
                        rec.ev("ctor", json!({"accepted": Ruggiero::simple(&objs, s).is_ok(), "valid": size && !badp}));
                        rec.ev("ctor", json!({"accepted": Ruggiero::from_max_eclipse(&objs, s, 0.2).is_ok(), "valid": size && !badp}));
                    }
                }
            }
        }
    }));
    v
}
fn decide(rec: &Rec, r: &mut Rng64, law: &str, st: &[String; 2], limit: bool, lit: &str, mode: &str) {
    let mut s = craft(r, lit);
    let mut ps: Vec<OE> = if law == "rug" { RUG.to_vec() } else { KLU.to_vec() };
    let mut objs = vec![];
    let mut kinds = vec![];
    for x in st.iter().filter(|x| *x != "none") { let p = ps.remove(r.u(ps.len())); objs.push(objective(r, &s, p, x)); kinds.push(x.clone()); }
    if objs.len() == 2 && r.b() { objs.swap(0, 1); kinds.swap(0, 1); }
    let w: Vec<f64> = objs.iter().map(|_| r.r(0.2, 3.0)).collect();
    let lim = if limit { Some(r.r(1.0, 99.0)) } else { None };
    let l = build(law, &objs, &w, craft(r, "any"), lim);
    let g = l.g();
    let act = kinds.iter().filter(|k| *k != "met").count();
    s.mut_mode(mode_of(mode));
    rec.ev("achieved", json!({"said": g.achieved(&s).unwrap(), "met": act == 0}));
    steer(rec, &*g, &s, act);
    for _ in 0..3 {
        let before = s.mode();
        g.next(&mut s, &world());
        rec.ev("next", json!({"mode": mode_name(before), "unmet": act > 0, "dark": limit && lit == "shadow", "after": mode_name(s.mode())}));
    }
    steer(rec, &*g, &s, act);
    let t = l.status(&s);
    let ok = t.len() == objs.len() && t.iter().zip(&kinds).all(|(t, k)| t.contains(&format!("achieved: {}", k == "met")));
    rec.ev("status", json!({"ok": ok}));
}
fn near(a: V3, b: V3) -> bool { norm(sub(a, b)) < 1e-9 }
fn blend(rec: &Rec, r: &mut Rng64, law: &str) {
    let s = thrusting(&craft(r, "any"));
    let init = craft(r, "any");
    let mut ps: Vec<OE> = if law == "rug" { RUG[..4].to_vec() } else { KLU.to_vec() };
    let n = 2 + r.u(2);
    let mut objs = vec![];
    let mut els = vec![];
    for _ in 0..n { let p = ps.remove(r.u(ps.len())); els.push(p); let st = *r.pick(&["low", "high"]); objs.push(objective(r, &s, p, st)); }
    let w: Vec<f64> = (0..n).map(|_| r.r(0.2, 3.0)).collect();
    // an element which started at its target, to be kept there
    if law == "rug" && r.u(3) == 0 {
        let (x0, x) = (val(&init, els[0]), val(&s, els[0]));
        let d = x0 + objs[0].tolerance * r.r(-0.6, 0.6);
        if (d - x).abs() > 3.0 * objs[0].tolerance && (els[0] != OE::RAAN || (d - x).abs() < 170.0) { objs[0].desired_value = d; }
    }
    let dir = |o: &[Objective], w: &[f64]| a3(build(law, o, w, init, None).g().direction(&s).unwrap());
    let u = dir(&objs, &w);
    // Order
    let mut idx: Vec<usize> = (0..n).collect();
    idx.reverse();
    rec.ev("blend", json!({"what": "order", "ok": near(u, dir(&idx.iter().map(|i| objs[*i]).collect::<Vec<_>>(), &idx.iter().map(|i| w[*i]).collect::<Vec<_>>()))}));
    // An objective which is met does not matter
    let p = ps.remove(r.u(ps.len()));
    let met = objective(r, &s, p, "met");
    let j = r.u(n + 1);
    let (mut o2, mut w2) = (objs.clone(), w.clone());
    o2.insert(j, met); w2.insert(j, 1.7);
    rec.ev("blend", json!({"what": "met", "ok": near(u, dir(&o2, &w2))}));
    let singles: Vec<V3> = objs.iter().map(|o| dir(&[*o], &[1.0])).collect();
    if law == "rug" {
        // Weighted by the distance to the target as a fraction of the initial distance
        let mut t = [0.0; 3];
        for (i, o) in objs.iter().enumerate() {
            let (x, x0) = (val(&s, els[i]), val(&init, els[i]));
            let x0 = if (x0 - o.desired_value).abs() < o.tolerance { x0 + o.tolerance } else { x0 };
            t = add(t, sc((o.desired_value - x).abs() / (o.desired_value - x0).abs(), singles[i]));
        }
        rec.ev("blend", json!({"what": "weights", "ok": near(u, hat(t))}));
        // Efficiency thresholds: just below and just above the efficiency of one objective
        let j = r.u(n);
        let eta = Ruggiero::efficiency(&SP::Element(els[j]), &s.orbit).unwrap();
        for (k, on) in [(eta - 1e-3, true), (eta + 1e-3, false)] {
            let mut th = vec![0.0; n];
            th[j] = k;
            let got = a3(Ruggiero::from_ηthresholds(&objs, &th, init).unwrap().direction(&s).unwrap());
            let mut o2 = objs.clone();
            if !on { o2.remove(j); }
            rec.ev("blend", json!({"what": "threshold", "ok": near(got, dir(&o2, &w))}));
        }
        let all = Ruggiero::from_ηthresholds(&objs, &vec![1.5; n], init).unwrap();
        steer(rec, &*all, &s, 0);
    } else {
        rec.ev("blend", json!({"what": "scale", "ok": near(u, dir(&objs, &w.iter().map(|x| x * 7.0).collect::<Vec<_>>()))}));
        let mut w0 = w2.clone();
        let mut o0 = objs.clone();
        o0.insert(j, { let st = *r.pick(&["low", "high"]); objective(r, &s, p, st) });
        w0[j] = 0.0;
        rec.ev("blend", json!({"what": "zero-weight", "ok": near(u, dir(&o0, &w0))}));
        let z = build(law, &objs, &vec![0.0; n], init, None);
        steer(rec, &*z.g(), &s, 0);
        // Positive combination of the single directions, linear in the weights
        let (a, b) = (singles[0], singles[1]);
        let coef = |w: &[f64]| {
            let u = dir(&objs[..2], w);
            let c = dot(a, b);
            let d = 1.0 - c * c;
            let (x, y) = ((dot(u, a) - c * dot(u, b)) / d, (dot(u, b) - c * dot(u, a)) / d);
            (x, y, norm(sub(u, add(sc(x, a), sc(y, b)))))
        };
        // Every objective counts the same next to any other: the ratios of the coefficients of pairs are consistent
        if n == 3 {
            let ratio = |i: usize, j: usize| {
                let (a, b) = (singles[i], singles[j]);
                let u = dir(&[objs[i], objs[j]], &[1.0, 1.0]);
                let c = dot(a, b);
                ((dot(u, b) - c * dot(u, a)) / (dot(u, a) - c * dot(u, b)), c.abs() < 0.99)
            };
            let (ab, ac, bc) = (ratio(0, 1), ratio(0, 2), ratio(1, 2));
            if ab.1 && ac.1 && bc.1 { rec.ev("blend", json!({"what": "consistency", "ok": (ab.0 * bc.0 / ac.0 - 1.0).abs() < 1e-6})); }
        }
        if dot(a, b).abs() < 0.99 {
            let (x1, y1, e1) = coef(&[1.0, 1.0]);
            let (x3, y3, e3) = coef(&[1.0, 3.0]);
            rec.ev("blend", json!({"what": "weights", "ok": x1 > 0.0 && y1 > 0.0 && e1 < 1e-9 && e3 < 1e-9 && ((y3 / x3) / (y1 / x1) - 3.0).abs() < 1e-6}));
        }
    }
}
fn eff(rec: &Rec, r: &mut Rng64) {
    let s = craft(r, "any");
    for p in RUG {
        let got = Ruggiero::efficiency(&SP::Element(p), &s.orbit).unwrap();
        let err = match p { OE::SemiMajorAxis | OE::Inclination | OE::RAAN => (got - efficiency(&s, p)).abs(), _ => 0.0 };
        rec.ev("eff", json!({"p": format!("{p:?}"), "below": !(got > -1e-12), "above": !(got < 1.0 + 1e-9), "err": mag(err, 1e-6)}));
    }
}
fn closed(rec: &Rec, r: &mut Rng64, law: &str) {
    let mut s = craft(r, "any");
    let p = *r.pick(&[OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination]);
    let up = r.b();
    let x0 = val(&s, p);
    let accel = s.thruster.unwrap().thrust_N / s.mass_kg();
    // What an hour of thrust does, roughly, so that some of the runs end on their target
    let reach = accel * 3600.0 * 1e-3 / 7.5 * match p { OE::SemiMajorAxis => 2.0 * x0, OE::Eccentricity => 2.0, _ => 57.3 };
    let far = reach * r.r(0.4, 2.0);
    let o = Objective::within_tolerance(SP::Element(p), x0 + if up { far } else { -far }, far * 0.02);
    if p == OE::Eccentricity && !(0.01..0.7).contains(&o.desired_value) { rec.ev("unseen", json!({})); return; }
    let limit = if r.b() { Some(r.r(1.0, 99.0)) } else { None };
    let l = build(law, &[o], &[1.0], s, limit);
    s.mut_mode(GuidanceMode::Thrust);
    let dynm = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), l.g());
    let setup = Propagator::new(dynm, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(20.seconds()));
    let (end, traj) = setup.with(s, world()).for_duration_with_traj(1.hours()).unwrap();
    let err = |x: &Spacecraft| (val(x, p) - o.desired_value).abs();
    let mut ok_modes = true;
    let mut ok_prop = true;
    let mut ok_dirs = true;
    let g = l.g();
    for (i, w) in traj.states.windows(2).enumerate() {
        let met = (o.desired_value - val(&w[1], p)).abs() <= o.tolerance;
        let m = w[1].mode();
        if met && m == GuidanceMode::Thrust && err(&w[1]) < o.tolerance * 0.999 { ok_modes = false; }
        if !met && limit.is_none() && m != GuidanceMode::Thrust { ok_modes = false; }
        // The law decides on the mode of the initial state first
        if i == 0 { continue; }
        // Propellant only while in thrust (the stages of a step wander in and out of the tolerance of in-plane elements)
        let dm = w[0].mass.prop_mass_kg - w[1].mass.prop_mass_kg;
        if w[0].mode() != GuidanceMode::Thrust && dm != 0.0 { ok_prop = false; }
        if w[0].mode() == GuidanceMode::Thrust && !(dm > 0.0) && err(&w[0]) > o.tolerance * 1.001 && p == OE::Inclination { ok_prop = false; }
        let want = s.thruster.unwrap().thrust_N / (s.thruster.unwrap().isp_s * 9.80665) * (w[1].epoch() - w[0].epoch()).to_seconds();
        if dm > want * (1.0 + 1e-6) { ok_prop = false; }
        if w[0].mode() == GuidanceMode::Thrust && err(&w[0]) > o.tolerance * 1.5 && err(&w[1]) > o.tolerance * 1.5 && (val(&w[0], p) - o.desired_value) * (val(&w[1], p) - o.desired_value) > 0.0 && (dm / want - 1.0).abs() > 1e-6 && p == OE::Inclination { ok_prop = false; }
        if let Some(d) = w[1].thrust_direction() {
            let x = thrusting(&w[1]);
            if norm(sub(a3(d), a3(g.direction(&x).unwrap()))) > 1e-9 { ok_dirs = false; }
        }
    }
    rec.ev("closed", json!({"p": format!("{p:?}"), "err": err(&end) <= far * (1.0 + 1e-9) && (limit.is_some() || err(&end) < far), "modes": ok_modes, "prop": ok_prop, "dirs": ok_dirs}));
}
fn replay(rec: &Rec, r: &mut Rng64) {
    let s0 = craft(r, "any");
    let n = 2 + r.u(8);
    let mut traj = Trajectory::new();
    let mut tab: Vec<(Epoch, Option<V3>)> = vec![];
    let mut e = s0.epoch();
    // A run that starts thrusting has no direction in its first sample
    let first_blind = r.u(3) == 0;
    for i in 0..n {
        let mut s = s0;
        s.orbit.epoch = e;
        let on = r.u(3) > 0 || (first_blind && i < 2);
        let mut d = None;
        if on {
            s.mut_mode(GuidanceMode::Thrust);
            let v = loop { let v = [r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]; if norm(v) > 0.2 { break hat(v); } };
            d = Some(v);
            if !(first_blind && i == 0) { s.mut_thrust_direction(Some(nyx_space::linalg::Vector3::new(v[0], v[1], v[2]))); }
        } else { s.mut_mode(GuidanceMode::Coast); }
        traj.states.push(s);
        tab.push((e, d));
        e += (r.i(1, 600_000_000_000)).nanoseconds();
    }
    if first_blind { tab[0].1 = tab[1].1; }
    let law = traj.to_thrust_direction_replay();
    let last = tab[n - 1].0;
    let name = |d: Option<V3>| match d { None => "none".to_string(), Some(v) => format!("{:.9} {:.9} {:.9}", v[0], v[1], v[2]) };
    for _ in 0..40 {
        let at = match r.u(6) {
            0 => tab[r.u(n)].0,
            1 => tab[r.u(n)].0 + 1.nanoseconds(),
            2 => tab[r.u(n)].0 - 1.nanoseconds(),
            3 => if r.b() { last + r.i(1, 1_000_000_000_000).nanoseconds() } else { tab[0].0 - r.i(1, 1_000_000_000_000).nanoseconds() },
            _ => tab[0].0 + r.i(0, (last - tab[0].0).total_nanoseconds() as i64).nanoseconds(),
        };
        let mut s = s0;
        s.orbit.epoch = at;
        s.mut_mode(*r.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust]));
        let want = if at < tab[0].0 || at > last { None } else { tab.iter().rev().find(|x| x.0 <= at).unwrap().1 };
        let d = a3(law.direction(&s).unwrap());
        let th = law.throttle(&s).unwrap();
        let got = if norm(d) == 0.0 && th == 0.0 { None } else if th == 1.0 { Some(d) } else { Some([9.0, 9.0, 9.0]) };
        rec.ev("command", json!({"what": "direction", "got": name(got), "want": name(want)}));
        law.next(&mut s, &world());
        let d2 = s.thrust_direction().map(a3);
        rec.ev("command", json!({"what": "next", "got": format!("{} {}", mode_name(s.mode()), name(d2)), "want": format!("{} {}", if want.is_some() { "thrust" } else { "coast" }, name(want))}));
        rec.ev("command", json!({"what": "achieved", "got": law.achieved(&s).unwrap(), "want": at > last}));
    }
}
