//! P19: impulsive targeting, judged with the Kepler propagator and own element formulas.
use crate::kepler::kepler;
use crate::num::*;
use crate::sc::{MU, METHODS, rand_orbit};
use crate::util::*;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::constants::frames::{EARTH_ECLIPJ2000, MOON_J2000};
use anise::prelude::*;
use hifitime::TimeUnits;
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Mass, Spacecraft};
use nyx_space::dynamics::guidance::{LocalFrame, Maneuver, MnvrRepr, Thruster};
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::targeter::Targeter;
use nyx_space::md::{StateParameter, Variable, Vary};
use nyx_space::propagators::*;
use serde_json::json;
use std::sync::Arc;

type RV = (V3, V3);
/// Independent values of the objectives (km, km/s, deg)
fn value(p: StateParameter, x: &RV, mu: f64) -> Option<f64> {
    let (r, v) = *x;
    let h = cross(r, v);
    let ev = sub(sc(1.0 / mu, cross(v, h)), hat(r));
    let en = dot(v, v) / 2.0 - mu / norm(r);
    let (sma, ecc) = (-mu / (2.0 * en), norm(ev));
    Some(match p {
        StateParameter::Element(e) => match e {
            OE::X => r[0], OE::Y => r[1], OE::Z => r[2], OE::VX => v[0], OE::VY => v[1], OE::VZ => v[2],
            OE::Rmag => norm(r), OE::Vmag => norm(v),
            OE::SemiMajorAxis => sma, OE::Eccentricity => ecc, OE::Hmag => norm(h), OE::Energy => en,
            OE::ApoapsisRadius => sma * (1.0 + ecc), OE::PeriapsisRadius => sma * (1.0 - ecc),
            OE::Inclination => (h[2] / norm(h)).acos().to_degrees(),
            OE::RAAN => h[0].atan2(-h[1]).to_degrees().rem_euclid(360.0),
            _ => return None,
        },
        StateParameter::BdotR() | StateParameter::BdotT() => {
            if ecc <= 1.0 { return None; }
            let (eh, hh) = (hat(ev), hat(h));
            // incoming asymptote: the velocity direction infinitely long before periapsis
            let s = hat(add(sc(1.0 / ecc, eh), sc((1.0 - 1.0 / ecc / ecc).sqrt(), cross(hh, eh))));
            let b = sc(sma.abs() * (ecc * ecc - 1.0).sqrt(), cross(s, hh));
            let t = hat(cross(s, [0.0, 0.0, 1.0]));
            dot(b, if matches!(p, StateParameter::BdotT()) { t } else { cross(s, t) })
        }
        _ => return None,
    })
}
/// A tolerance well above the accuracy of the propagation, well below the effect of the correction.
fn tolerance(p: StateParameter, r: &mut Rng64) -> f64 {
    let k = [0.03, 0.1, 1.0][r.u(3)];
    k * match p {
        StateParameter::Element(OE::VX | OE::VY | OE::VZ | OE::Vmag) => 1e-4,
        StateParameter::Element(OE::Eccentricity) => 1e-4,
        StateParameter::Element(OE::Inclination | OE::RAAN) => 1e-2,
        StateParameter::Element(OE::Energy) => 1e-3,
        StateParameter::Element(OE::Hmag) => 1.0,
        _ => 0.3,
    }
}
const COMPS: [Vary; 6] = [Vary::PositionX, Vary::PositionY, Vary::PositionZ, Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ];
fn idx(v: Vary) -> usize { COMPS.iter().position(|c| *c == v).unwrap_or(9) }
fn rv(o: &Orbit) -> RV { ([o.radius_km[0], o.radius_km[1], o.radius_km[2]], [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]]) }
fn moved(x: &RV, d: &[f64; 6], frame: usize) -> RV {
    let dv = to_inertial(&axes(frame, x.0, x.1), [d[3], d[4], d[5]]);
    (add(x.0, [d[0], d[1], d[2]]), add(x.1, dv))
}
/// In units of 1e-6 km and 1e-9 km/s
fn far(a: &RV, b: &RV) -> i64 { mag(norm(sub(a.0, b.0)), 1e-6).max(mag(norm(sub(a.1, b.1)), 1e-9)) }

struct Pb {
    x0: Spacecraft,
    corr: Epoch,
    ach: Epoch,
    vars: Vec<Variable>,
    objs: Vec<Objective>,
    frame: usize,
    obj_frame: Option<Frame>,
    dual: bool,
    maxit: usize,
}

fn run<const V: usize, const O: usize>(pb: &Pb, rec: &Rec) {
    let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), METHODS[if pb.maxit % 2 == 0 { 0 } else { 1 }], IntegratorOptions::default());
    let vars: [Variable; V] = pb.vars.clone().try_into().unwrap();
    let objs: [Objective; O] = pb.objs.clone().try_into().unwrap();
    let lf = [None, Some(LocalFrame::RIC), Some(LocalFrame::VNC), Some(LocalFrame::RCN)][pb.frame];
    let mut tgt = Targeter::new(&prop, vars, objs);
    tgt.iterations = pb.maxit;
    tgt.objective_frame = pb.obj_frame;
    tgt.correction_frame = lf;
    let a = world();
    let res = if pb.dual { tgt.try_achieve_dual(pb.x0, pb.corr, pb.ach, a.clone()) } else { tgt.try_achieve_from(pb.x0, pb.corr, pb.ach, a.clone()) };
    let sol = match res {
        Err(e) => return rec.ev("err", json!({"msg": errs(&e)})),
        Ok(s) => s,
    };
    let fk = if pb.frame == 3 { 1 } else { pb.frame };
    let x0 = rv(&pb.x0.orbit);
    let base = kepler(x0.0, x0.1, (pb.corr - pb.x0.epoch()).to_seconds(), MU);
    let mut d = [0.0; 6];
    let mut bounds = true;
    for (k, v) in vars.iter().enumerate() {
        if idx(v.component) < 6 { d[idx(v.component)] += sol.correction[k]; }
        bounds &= sol.correction[k] <= v.max_value + 1e-9 && sol.correction[k] >= v.min_value - 1e-9;
    }
    let cs = rv(&sol.corrected_state.orbit);
    let fin = kepler(cs.0, cs.1, (pb.ach - pb.corr).to_seconds(), MU);
    let seen = |x: &RV| -> RV {
        match pb.obj_frame {
            None => *x,
            Some(f) => {
                let o = Orbit::new(x.0[0], x.0[1], x.0[2], x.1[0], x.1[1], x.1[2], pb.ach, eme_w());
                rv(&a.transform_to(o, f, None).unwrap())
            }
        }
    };
    let mu = match pb.obj_frame { Some(f) if f.ephemeris_id == MOON_J2000.ephemeris_id => MU_MOON, _ => MU };
    let y = seen(&fin);
    let (mut obj, mut er) = (vec![], vec![]);
    for (k, o) in objs.iter().enumerate() {
        let val = value(o.parameter, &y, mu).unwrap_or(f64::NAN);
        let e = o.multiplicative_factor * (o.desired_value - val) + o.additive_factor;
        obj.push(mag(e / o.tolerance, 1e-3));
        er.push(mag((sol.achieved_errors[k] - e) / o.tolerance, 1e-3));
    }
    let c = &sol.corrected_state;
    let f = &sol.achieved_state;
    let same_sc = |s: &Spacecraft| s.mass == pb.x0.mass && s.srp == pb.x0.srp && s.drag == pb.x0.drag && s.orbit.frame == pb.x0.orbit.frame && s.mode == pb.x0.mode && s.thruster == pb.x0.thruster;
    let same = sol.variables == vars && sol.achieved_objectives.iter().zip(&objs).all(|(p, q)| p.parameter == q.parameter && p.desired_value == q.desired_value && p.tolerance == q.tolerance);
    rec.ev("sol", json!({"obj": obj, "err": er, "corr": far(&cs, &moved(&base, &d, fk)), "ach": far(&rv(&f.orbit), &fin), "bounds": bounds,
        "rest": same_sc(c) && same_sc(f) && c.epoch() == pb.corr && f.epoch() == pb.ach, "same": same, "it": sol.iterations, "corrv": sol.correction.iter().map(|x| format!("{x:e}")).collect::<Vec<_>>()}));
    if obj.iter().all(|o| *o < 980) {
        match tgt.apply(&sol, a) {
            Ok(s) => rec.ev("apply", json!({"ok": true, "dev": far(&rv(&s.orbit), &fin)})),
            Err(e) => rec.ev("apply", json!({"ok": false, "dev": 0, "msg": errs(&e)})),
        }
    }
}
fn go(pb: &Pb, rec: &Rec) {
    macro_rules! d { ($(($v:literal, $o:literal)),*) => { match (pb.vars.len(), pb.objs.len()) { $(($v, $o) => run::<$v, $o>(pb, rec),)* _ => panic!("combination") } } }
    d!((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (6, 3), (3, 0), (2, 3), (1, 2), (6, 6))
}

/// A thrust over the whole arc, in the RCN frame, whose angles are polynomials of time
fn burn(t0: Epoch, t1: Epoch, c: &[f64; 6]) -> Maneuver {
    let q = |k: usize| CommonPolynomial::Quadratic { a: c[k + 2], b: c[k + 1], c: c[k] };
    Maneuver { start: t0, end: t1, thrust_prct: 1.0, representation: MnvrRepr::Angles { azimuth: q(0), elevation: q(3) }, frame: LocalFrame::RCN }
}
const ANGLES: [Vary; 6] = [Vary::MnvrAlpha, Vary::MnvrAlphaDot, Vary::MnvrAlphaDDot, Vary::MnvrDelta, Vary::MnvrDeltaDot, Vary::MnvrDeltaDDot];
fn fly(x: &Spacecraft, m: Maneuver) -> Option<Spacecraft> {
    let prop = Propagator::new(SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(m)), METHODS[0], IntegratorOptions::builder().max_step(5.seconds()).build());
    prop.with(x.with_guidance_mode(GuidanceMode::Thrust), world()).until_epoch(m.end).ok()
}
fn burn_run<const V: usize, const O: usize>(x0: Spacecraft, corr: Epoch, ach: Epoch, vars: Vec<Variable>, objs: Vec<Objective>, maxit: usize, rec: &Rec) {
    let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), METHODS[0], IntegratorOptions::default());
    let vars: [Variable; V] = vars.try_into().unwrap();
    let objs: [Objective; O] = objs.try_into().unwrap();
    let mut tgt = Targeter::new(&prop, vars, objs);
    tgt.iterations = maxit;
    let a = world();
    let sol = match tgt.try_achieve_from(x0, corr, ach, a.clone()) { Err(e) => return rec.ev("err", json!({"msg": errs(&e)})), Ok(s) => s };
    let x = rv(&x0.orbit);
    let base = kepler(x.0, x.1, (corr - x0.epoch()).to_seconds(), MU);
    let mut c = [0.0; 6];
    let mut bounds = true;
    for (k, v) in vars.iter().enumerate() {
        c[ANGLES.iter().position(|a| *a == v.component).unwrap()] += sol.correction[k];
        bounds &= sol.correction[k] <= v.max_value + 1e-9 && sol.correction[k] >= v.min_value - 1e-9;
    }
    let at = |m: Maneuver| fly(&sol.corrected_state, m).map(|s| rv(&s.orbit)).unwrap_or(([f64::NAN; 3], [f64::NAN; 3]));
    let fin = at(burn(corr, ach, &c));
    let (mut obj, mut er) = (vec![], vec![]);
    for (k, o) in objs.iter().enumerate() {
        let e = o.desired_value - value(o.parameter, &fin, MU).unwrap();
        obj.push(mag(e / o.tolerance, 1e-3));
        er.push(mag((sol.achieved_errors[k] - e) / o.tolerance, 1e-3));
    }
    let (s, f) = (&sol.corrected_state, &sol.achieved_state);
    let rest = |s: &Spacecraft| s.srp == x0.srp && s.drag == x0.drag && s.orbit.frame == x0.orbit.frame && s.thruster == x0.thruster;
    let same = sol.variables == vars && sol.achieved_objectives.iter().zip(&objs).all(|(p, q)| p.parameter == q.parameter && p.desired_value == q.desired_value && p.tolerance == q.tolerance);
    rec.ev("sol", json!({"obj": obj, "err": er, "corr": far(&rv(&s.orbit), &base), "ach": far(&rv(&f.orbit), &fin), "bounds": bounds,
        "rest": rest(s) && rest(f) && s.epoch() == corr && f.epoch() == ach && s.mass == x0.mass, "same": same, "it": sol.iterations, "corrv": sol.correction.iter().map(|x| format!("{x:e}")).collect::<Vec<_>>()}));
    // the maneuver handed out is that one
    match sol.to_mnvr() {
        Err(e) => rec.ev("apply", json!({"ok": false, "dev": 0, "msg": errs(&e)})),
        Ok(m) => rec.ev("apply", json!({"ok": true, "dev": if m.start == corr && m.end == ach { far(&at(m), &fin) } else { 2_000_000_000 }})),
    }
    if obj.iter().all(|o| *o < 980) {
        match tgt.apply(&sol, a) {
            Ok(s) => rec.ev("apply", json!({"ok": true, "dev": far(&rv(&s.orbit), &fin)})),
            Err(e) => rec.ev("apply", json!({"ok": false, "dev": 0, "msg": errs(&e)})),
        }
    }
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    use OE::*;
    let el = StateParameter::Element;
    let mut v = vec![];
    let sc0 = |r: &mut Rng64, hyper: bool| {
        let e = crate::sc::epoch0() + r.r(-3e6, 3e6).seconds();
        let o = if hyper {
            let o = Orbit::try_keplerian(-r.r(8000.0, 40000.0), r.r(1.2, 2.5), r.r(10.0, 170.0), r.r(0.0, 360.0), r.r(0.0, 360.0), r.r(0.0, 60.0), e, eme_w()).unwrap();
            let (p, q) = rv(&o);
            let (p, q) = kepler(p, q, r.r(-9000.0, 0.0), MU);
            Orbit::new(p[0], p[1], p[2], q[0], q[1], q[2], e, eme_w())
        } else {
            let o = rand_orbit(r, e);
            Orbit { frame: eme_w(), ..o }
        };
        let mut s = Spacecraft::from(o);
        s.mass = Mass::from_dry_and_prop_masses(r.r(100.0, 900.0), r.r(0.0, 300.0));
        s.srp.area_m2 = r.r(0.0, 10.0);
        s
    };
    // ---- scenarios of the model: reach the position that a known velocity change leads to
    for (i, s) in ctx.scen.iter().enumerate() {
        let id = format!("s{i}");
        let g = |k: &str| s[k].as_i64().unwrap() as f64;
        let mut r = ctx.rng(&id);
        let x0 = sc0(&mut r, false);
        let corr = x0.epoch() + r.r(0.0, 4000.0).seconds();
        let t = r.r(0.12, 0.3) * x0.orbit.period().unwrap().to_seconds();
        let ach = corr + t.seconds();
        let unit = 0.01;
        let comp = r.u(3);
        let dual = i % 3 == 2;
        let frame = if dual { 0 } else { [0, 2, 1, 3][r.u(4)] };
        let fk = if frame == 3 { 1 } else { frame };
        let mut d = [0.0; 6];
        d[3 + comp] = g("tgt") * unit;
        let x = rv(&x0.orbit);
        let base = kepler(x.0, x.1, (corr - x0.epoch()).to_seconds(), MU);
        let fin = { let m = moved(&base, &d, fk); kepler(m.0, m.1, (ach - corr).to_seconds(), MU) };
        let objs: Vec<Objective> = [X, Y, Z].iter().map(|o| { let p = el(*o); Objective::within_tolerance(p, value(p, &fin, MU).unwrap(), 0.02) }).collect();
        let mut vars: Vec<Variable> = COMPS[3..].iter().map(|c| Variable::from(*c)).collect();
        for (k, var) in vars.iter_mut().enumerate() {
            var.max_step = g("step") * unit;
            if k == comp {
                var.init_guess = g("guess") * unit;
                var.max_value = g("hi") * unit;
                var.min_value = g("lo") * unit;
            }
        }
        // only a target strictly inside its bounds must be reached: Newton iterates overshoot slightly
        // and where Newton's method converges at ease
        let pos = |u: &[f64; 3]| { let m = moved(&base, &[0.0, 0.0, 0.0, u[0], u[1], u[2]], fk); let f = kepler(m.0, m.1, (ach - corr).to_seconds(), MU); nalgebra::Vector3::new(f.0[0], f.0[1], f.0[2]) };
        let mut u = [0.0; 3];
        for (k, var) in vars.iter().enumerate() { u[k] = var.init_guess; }
        let mut ease = false;
        for _ in 0..9 {
            let miss = nalgebra::Vector3::new(fin.0[0], fin.0[1], fin.0[2]) - pos(&u);
            if miss.amax() < 0.02 { ease = true; break; }
            let cols: Vec<_> = (0..3).map(|k| { let mut w = u; w[k] += 1e-5; (pos(&w) - pos(&u)) / 1e-5 }).collect();
            let Some(inv) = nalgebra::Matrix3::from_columns(&cols).try_inverse() else { break };
            let st = inv * miss;
            for k in 0..3 { u[k] = (u[k] + st[k].clamp(-vars[k].max_step.abs(), vars[k].max_step.abs())).clamp(vars[k].min_value, vars[k].max_value); }
        }
        let must = if ease && g("tgt") < g("hi") && g("tgt") > g("lo") { "solve" } else { "may" };
        let pb = Pb { x0, corr, ach, vars, objs, frame, obj_frame: None, dual, maxit: 16 };
        v.push(case(id, json!({"must": must, "maxit": 16, "step": g("step"), "frame": frame, "dual": dual, "tgt": g("tgt"), "lo": g("lo"), "hi": g("hi")}), move |rec| go(&pb, rec)));
    }
    // ---- random problems
    for i in 0..ctx.n(160, 2000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let bpl = r.u(6) == 0;
        let x0 = sc0(&mut r, bpl);
        let sgn = if r.u(5) == 0 { -1.0 } else { 1.0 };
        let corr = x0.epoch() + (r.r(0.0, 5000.0) * if r.u(6) == 0 { -1.0 } else if r.u(6) == 0 { 0.0 } else { 1.0 }).seconds();
        let ach = corr + (sgn * r.r(600.0, 12000.0)).seconds();
        let (nv, no) = *r.pick(&[(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (6, 3), (2, 3), (1, 2), (6, 6)]);
        let (nv, no) = if bpl { *r.pick(&[(3, 1), (3, 2), (2, 2), (1, 1)]) } else { (nv, no) };
        let dual = r.u(3) == 0;
        let vel_only = nv <= 3 && r.u(3) > 0;
        let frame = if dual || !vel_only { 0 } else { [0, 2, 1, 3][r.u(4)] };
        let fk = if frame == 3 { 1 } else { frame };
        let mut comps: Vec<Vary> = if vel_only { COMPS[3..].to_vec() } else { COMPS.to_vec() };
        for k in (1..comps.len()).rev() { let j = r.u(k + 1); comps.swap(k, j); }
        comps.truncate(nv);
        let mut vars: Vec<Variable> = comps.iter().map(|c| Variable::from(*c)).collect();
        let mut d = [0.0; 6];
        let size = [0.002, 0.02, 0.1][r.u(3)];
        for var in vars.iter_mut() {
            let k = idx(var.component);
            d[k] = r.r(-1.0, 1.0) * if k < 3 { size * 200.0 } else { size };
            if k < 3 { var.perturbation = 0.1; var.max_step = 20.0; var.max_value = 50.0; var.min_value = -50.0; }
            match r.u(5) {
                0 => { let m = d[k].abs() * r.r(0.3, 1.5); var.max_value = m; var.min_value = -m; }
                1 => var.max_step = var.max_step.min(d[k].abs() * r.r(0.05, 0.5) + 1e-5),
                2 => var.init_guess = d[k] * r.r(-0.5, 0.9),
                _ => {}
            }
            var.init_guess = var.init_guess.clamp(var.min_value, var.max_value);
        }
        let obj_frame = if bpl { None } else { match r.u(6) { 0 => Some(EARTH_ECLIPJ2000), 1 => Some(MOON_J2000), _ => None } };
        let obj_frame = obj_frame.map(|f| world().frame_info(f).unwrap());
        let x = rv(&x0.orbit);
        let base = kepler(x.0, x.1, (corr - x0.epoch()).to_seconds(), MU);
        let fin = { let m = moved(&base, &d, fk); kepler(m.0, m.1, (ach - corr).to_seconds(), MU) };
        let fin = match obj_frame { None => fin, Some(f) => rv(&world().transform_to(Orbit::new(fin.0[0], fin.0[1], fin.0[2], fin.1[0], fin.1[1], fin.1[2], ach, eme_w()), f, None).unwrap()) };
        let mut pool = if bpl { vec![StateParameter::BdotR(), StateParameter::BdotT()] }
            else if obj_frame.is_some() { [X, Y, Z, VX, VY, VZ, Rmag, Vmag].iter().map(|o| el(*o)).collect() }
            else if no == 3 && r.b() { [X, Y, Z].iter().map(|o| el(*o)).collect() }
            else { [X, Y, Z, VX, VY, VZ, Rmag, Vmag, SemiMajorAxis, Eccentricity, Hmag, Energy, ApoapsisRadius, PeriapsisRadius, Inclination, RAAN].iter().map(|o| el(*o)).collect::<Vec<_>>() };
        for k in (1..pool.len()).rev() { let j = r.u(k + 1); pool.swap(k, j); }
        let objs: Vec<Objective> = pool.iter().take(no).map(|p| {
            let tol = tolerance(*p, &mut r);
            let mut o = Objective::within_tolerance(*p, value(*p, &fin, MU).unwrap_or(0.0), tol);
            if r.u(6) == 0 { o.multiplicative_factor = *r.pick(&[-1.0, 0.5, 2.0]); o.tolerance *= o.multiplicative_factor.abs(); }
            if r.u(8) == 0 { o.additive_factor = o.tolerance * r.r(-2.0, 2.0); }
            o
        }).collect();
        let maxit = *r.pick(&[1usize, 3, 12, 14, 15]);
        let pb = Pb { x0, corr, ach, vars, objs, frame, obj_frame, dual, maxit };
        v.push(case(id, json!({"must": "may", "maxit": maxit, "frame": frame, "dual": dual, "bpl": bpl}), move |rec| go(&pb, rec)));
    }
    // ---- burns: the angles of a thrust over the arc
    for i in 0..ctx.n(60, 800) {
        let id = format!("f{i}");
        let mut r = ctx.rng(&id);
        let mut x0 = sc0(&mut r, false);
        x0.thruster = Some(Thruster { thrust_N: r.r(50.0, 500.0), isp_s: r.r(200.0, 400.0) });
        x0.mass = Mass::from_dry_and_prop_masses(r.r(100.0, 400.0), r.r(80.0, 200.0));
        x0 = x0.with_guidance_mode(if r.u(3) > 0 { GuidanceMode::Thrust } else { GuidanceMode::Coast });
        let corr = x0.epoch() + (if r.b() { 0.0 } else { r.r(1.0, 900.0) }).seconds();
        let t = r.r(20.0, 120.0);
        let ach = corr + t.seconds();
        let kind = i % 3;
        let mut truth = [r.r(0.2, 2.9), 0.0, 0.0, r.r(-1.2, 1.2), 0.0, 0.0];
        let mut comps = vec![0, 3];
        if kind == 1 { truth[1] = r.r(0.0, 0.3) / t; truth[4] = r.r(-0.3, 0.3) / t; comps = vec![0, 1, 3, 4]; }
        if kind == 2 { comps = vec![3]; }
        if r.b() { comps.reverse(); }
        let mut vars: Vec<Variable> = comps.iter().map(|k| Variable::from(ANGLES[*k])).collect();
        for (v, k) in vars.iter_mut().zip(&comps) {
            let u = if k % 3 == 0 { 1.0 } else { 1.0 / t };
            v.init_guess = if kind == 2 || k % 3 == 0 { (truth[*k] + r.r(-0.3, 0.3)).clamp(v.min_value, v.max_value) } else { 0.0 };
            if r.u(4) > 0 || k % 3 != 0 { v.perturbation = 1e-3 * u; }
            if r.u(5) == 0 { v.max_value = truth[*k].max(v.init_guess).max(0.0) + r.r(-0.2, 0.1) * u; v.max_value = v.max_value.max(v.init_guess).max(0.0); }
        }
        let x = rv(&x0.orbit);
        let b = kepler(x.0, x.1, (corr - x0.epoch()).to_seconds(), MU);
        let xs = x0.with_orbit(Orbit::new(b.0[0], b.0[1], b.0[2], b.1[0], b.1[1], b.1[2], corr, eme_w()));
        if kind == 2 { truth[0] = 0.0; }
        let Some(xf) = fly(&xs, burn(corr, ach, &truth)) else { continue };
        let fin = rv(&xf.orbit);
        let pool = if kind == 1 { vec![X, Y, Z, VX, VY, VZ] } else if kind == 2 { vec![*r.pick(&[Inclination, VZ, RAAN, SemiMajorAxis])] } else { vec![VX, VY, VZ] };
        let objs: Vec<Objective> = pool.iter().map(|o| { let p = el(*o); let tol = match o { X | Y | Z => 1e-3, VX | VY | VZ => 3e-5, SemiMajorAxis => 0.05, _ => 1e-4 }; Objective::within_tolerance(p, value(p, &fin, MU).unwrap(), tol) }).collect();
        let nice = vars.iter().zip(&comps).all(|(v, k)| v.perturbation < 0.01 && truth[*k] < v.max_value - 0.02 && truth[*k] > v.min_value + 0.02);
        let must = if kind == 0 && nice { "solve" } else { "may" };
        let maxit = 25;
        v.push(case(id, json!({"must": must, "maxit": maxit, "kind": kind, "truth": format!("{truth:?}")}), move |rec| match (vars.len(), objs.len()) {
            (2, 3) => burn_run::<2, 3>(x0, corr, ach, vars, objs, maxit, rec),
            (4, 6) => burn_run::<4, 6>(x0, corr, ach, vars, objs, maxit, rec),
            _ => burn_run::<1, 1>(x0, corr, ach, vars, objs, maxit, rec),
        }));
    }
    // ---- burns: the direction of a thrust over the arc
    for i in 0..ctx.n(12, 100) {
        let id = format!("t{i}");
        let mut r = ctx.rng(&id);
        let mut x0 = sc0(&mut r, false);
        x0.thruster = Some(Thruster { thrust_N: r.r(50.0, 500.0), isp_s: r.r(200.0, 400.0) });
        x0.mass = Mass::from_dry_and_prop_masses(r.r(100.0, 400.0), r.r(80.0, 200.0));
        let corr = x0.epoch();
        let ach = corr + r.r(20.0, 120.0).seconds();
        let truth = hat([1.0, r.r(-0.5, 0.5), r.r(-0.5, 0.5)]);
        let m = Maneuver::from_time_invariant(corr, ach, 1.0, nalgebra::Vector3::new(truth[0], truth[1], truth[2]), LocalFrame::RCN);
        let Some(xf) = fly(&x0, m) else { continue };
        let fin = rv(&xf.orbit);
        let objs: Vec<Objective> = [VX, VY, VZ].iter().map(|o| Objective::within_tolerance(el(*o), value(el(*o), &fin, MU).unwrap(), 3e-5)).collect();
        v.push(case(id, json!({"must": "may", "maxit": 25, "truth": format!("{truth:?}")}), move |rec| {
            let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), METHODS[0], IntegratorOptions::default());
            let objs: [Objective; 3] = objs.try_into().unwrap();
            let tgt = Targeter::thrust_dir(&prop, objs);
            let ach_e = ach;
            let sol = match tgt.try_achieve_from(x0, corr, ach, world()) { Err(e) => return rec.ev("err", json!({"msg": errs(&e)})), Ok(s) => s };
            let got = sol.to_mnvr().ok().and_then(|m| fly(&sol.corrected_state, m)).map(|s| rv(&s.orbit));
            let miss = got.map(|f| objs.iter().map(|o| mag((o.desired_value - value(o.parameter, &f, MU).unwrap()) / o.tolerance, 1e-3)).max().unwrap()).unwrap_or(2_000_000_000);
            let ach = objs.iter().map(|o| mag((o.desired_value - value(o.parameter, &rv(&sol.achieved_state.orbit), MU).unwrap()) / o.tolerance, 1e-3)).max().unwrap();
            let ok = miss >= 980 || tgt.apply(&sol, world()).is_ok();
            let inb = sol.to_mnvr().is_ok_and(|m| { let d = m.vector(corr); (0..3).all(|k| d[k].abs() <= 1.0 + 1e-9) && m.thrust_prct <= 1.0 && m.thrust_prct > 0.0 && m.start == corr && m.end == ach_e });
            rec.ev("dir", json!({"ok": ok, "inb": inb, "miss": miss, "ach": ach, "it": sol.iterations, "corr": format!("{:?}", sol.correction)}));
        }));
    }
    // ---- setups that are wrong
    for (i, kind) in ["max-step", "max-value", "min-over-max", "position-in-frame", "no-thruster", "no-thruster-rate", "mass-objective", "no-objective", "dual-frame", "dual-burn", "bplane-bound", "huge-value", "dual-mass-objective"].iter().enumerate() {
        for n in 0..ctx.n(2, 12) {
            let id = format!("b{i}-{n}");
            let mut r = ctx.rng(&id);
            let mut x0 = sc0(&mut r, false);
            x0.thruster = None;
            let corr = x0.epoch() + r.r(0.0, 100.0).seconds();
            let ach = corr + r.r(600.0, 3000.0).seconds();
            let mut vars: Vec<Variable> = COMPS[3..].iter().map(|c| Variable::from(*c)).collect();
            let mut objs = vec![Objective::within_tolerance(el(SemiMajorAxis), x0.orbit.sma_km().unwrap() + 3.0, 0.1)];
            let (mut frame, mut dual) = (0, n % 2 == 1);
            match *kind {
                "max-step" => vars[r.u(3)].max_step = -0.1,
                "max-value" => { vars[0].max_value = -0.1; vars[0].min_value = -0.2 }
                "min-over-max" => { vars[1].min_value = 1.0; vars[1].max_value = 0.5 }
                "position-in-frame" => { vars[0] = Variable::from(Vary::PositionY); frame = 1 + r.u(3); }
                "no-thruster" => { vars[2] = Variable::from(*r.pick(&[Vary::MnvrAlpha, Vary::ThrustX, Vary::ThrustLevel, Vary::Duration, Vary::ThrustRateY])); frame = r.u(2) * 2; dual = false }
                "no-thruster-rate" => { vars[2] = Variable::from(*r.pick(&[Vary::MnvrAlphaDot, Vary::MnvrDeltaDot, Vary::MnvrAlphaDDot, Vary::MnvrDeltaDDot])); dual = false }
                "mass-objective" => { objs[0].parameter = *r.pick(&[StateParameter::PropMass(), StateParameter::TotalMass(), StateParameter::Isp(), StateParameter::Cr()]); dual = false }
                "dual-mass-objective" => { objs[0].parameter = StateParameter::PropMass(); dual = true }
                "no-objective" => objs.clear(),
                "dual-frame" => { frame = 1 + r.u(3); dual = true }
                "dual-burn" => { vars[1] = Variable::from(Vary::ThrustX); dual = true }
                "bplane-bound" => objs[0] = Objective::within_tolerance(*r.pick(&[StateParameter::BdotR(), StateParameter::BdotT()]), 1000.0, 1.0),
                _ => { objs[0].desired_value = 1e9; objs[0].tolerance = 1000.0 }
            }
            let pb = Pb { x0, corr, ach, vars, objs, frame, obj_frame: None, dual, maxit: 10 };
            let must = if *kind == "huge-value" { "may" } else { "error" };
            v.push(case(id, json!({"must": must, "maxit": 10, "setup": kind}), move |rec| go(&pb, rec)));
        }
    }
    v
}
