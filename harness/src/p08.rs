//! P08: mission sequences, each phase judged against the event applied by hand and a hand-built propagator.
use crate::num::*;
use crate::sc::*;
use crate::util::*;
use crate::world::*;
use anise::constants::celestial_objects::{MOON, SUN};
use anise::constants::frames::{EARTH_ECLIPJ2000, EARTH_J2000, MOON_J2000};
use anise::prelude::*;
use hifitime::{Duration, TimeUnits};
use nyx_space::State;
use nyx_space::cosmic::{DragData, Mass, SRPData, Spacecraft};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::guidance::{GuidanceLaw, Kluever, LocalFrame, Maneuver, ObjectiveEfficiency, ObjectiveWeight, Ruggiero, Thruster};
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::Objective;
use anise::analysis::prelude::OrbitalElement as OE;
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{OrbitalDynamics, PointMasses, SolarPressure, SpacecraftDynamics};
use nyx_space::linalg::Vector3;
use nyx_space::propagators::*;
use serde_json::json;
use std::sync::Arc;

fn cfg(kind: usize) -> PropagatorConfig {
    let am = |pm: bool| AccelModels { point_masses: if pm { Some(PointMasses::new(vec![MOON, SUN])) } else { None }, ..Default::default() };
    let fm = |srp: bool| ForceModels { solar_pressure: if srp { Some(srp_model()) } else { None }, drag: None };
    match kind {
        0 => PropagatorConfig { method: IntegratorMethod::RungeKutta89, options: IntegratorOptions::with_fixed_step(10.seconds()), dynamics: Dynamics { accel_models: am(false), force_models: fm(false) } },
        1 => PropagatorConfig { method: IntegratorMethod::DormandPrince78, options: IntegratorOptions::default(), dynamics: Dynamics { accel_models: am(true), force_models: fm(false) } },
        _ => PropagatorConfig { method: IntegratorMethod::DormandPrince45, options: IntegratorOptions::with_max_step(30.seconds()), dynamics: Dynamics { accel_models: am(false), force_models: fm(true) } },
    }
}
fn srp_model() -> SolarPressure {
    SolarPressure::default_flux_raw(vec![EARTH_J2000], &world()).unwrap()
}
fn by_hand(kind: usize) -> Propagator<SpacecraftDynamics> {
    match kind {
        0 => Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step(10.seconds())),
        1 => Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::point_masses(vec![MOON, SUN])), IntegratorMethod::DormandPrince78, IntegratorOptions::default()),
        _ => Propagator::new(SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), Arc::new(srp_model())), IntegratorMethod::DormandPrince45, IntegratorOptions::with_max_step(30.seconds())),
    }
}

#[derive(Clone)]
enum Ev {
    None,
    Stage(Option<(LocalFrame, usize, V3)>, Option<PhysicalProperties>, f64),
    Swap(Frame),
}
impl Ev {
    fn to_nyx(&self) -> Option<Box<DiscreteEvent>> {
        match self {
            Ev::None => None,
            Ev::Swap(f) => Some(Box::new(DiscreteEvent::FrameSwap { new_frame: *f })),
            Ev::Stage(m, p, sg) => {
                let m = m.map(|(lf, _, dv)| ImpulsiveManeuver { local_frame: lf, dv_km_s: Vector3::new(dv[0], dv[1], dv[2]) });
                Some(Box::new(if *sg < 0.0 { DiscreteEvent::Staging { impulsive_maneuver: m, decrement_properties: p.clone() } } else { DiscreteEvent::Docking { impulsive_maneuver: m, increment_properties: p.clone() } }))
            }
        }
    }
    fn apply(&self, mut s: Spacecraft, a: &Almanac) -> Spacecraft {
        match self {
            Ev::None => {}
            Ev::Swap(f) => s.orbit = a.transform_to(s.orbit, *f, None).unwrap(),
            Ev::Stage(m, p, sg) => {
                if let Some((_, fk, dv)) = m {
                    let o = s.orbit;
                    let d = to_inertial(&axes(*fk, [o.radius_km[0], o.radius_km[1], o.radius_km[2]], [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]]), *dv);
                    for i in 0..3 { s.orbit.velocity_km_s[i] += d[i]; }
                }
                if let Some(p) = p {
                    if let Some(m) = p.mass { s.mass.dry_mass_kg += sg * m.dry_mass_kg; s.mass.prop_mass_kg += sg * m.prop_mass_kg; s.mass.extra_mass_kg += sg * m.extra_mass_kg; }
                    if let Some(m) = p.srp { s.srp.area_m2 += sg * m.area_m2; s.srp.coeff_reflectivity += sg * m.coeff_reflectivity; }
                    if let Some(m) = p.drag { s.drag.area_m2 += sg * m.area_m2; s.drag.coeff_drag += sg * m.coeff_drag; }
                }
            }
        }
        s
    }
}

/// In units of 1e-9 km, 1e-12 km/s, 1e-9 (kg, m2, -); a different frame or thruster is infinitely far
fn dev(a: &Spacecraft, b: &Spacecraft, vu: f64) -> i64 {
    if a.orbit.frame.ephemeris_id != b.orbit.frame.ephemeris_id || a.orbit.frame.orientation_id != b.orbit.frame.orientation_id || a.epoch() != b.epoch() { return 2_000_000_000; }
    let mut m = mag((a.orbit.radius_km - b.orbit.radius_km).norm(), 1e-9).max(mag((a.orbit.velocity_km_s - b.orbit.velocity_km_s).norm(), vu));
    for (x, y) in [(a.mass.dry_mass_kg, b.mass.dry_mass_kg), (a.mass.prop_mass_kg, b.mass.prop_mass_kg), (a.mass.extra_mass_kg, b.mass.extra_mass_kg), (a.srp.area_m2, b.srp.area_m2), (a.srp.coeff_reflectivity, b.srp.coeff_reflectivity), (a.drag.area_m2, b.drag.area_m2), (a.drag.coeff_drag, b.drag.coeff_drag)] {
        m = m.max(mag(x - y, 1e-9));
    }
    m
}

#[derive(Clone)]
enum Steer { Burn(Maneuver), Rug(Vec<ObjectiveEfficiency>, Option<f64>), Klu(Vec<ObjectiveWeight>, Option<f64>) }
impl Steer {
    fn to_nyx(&self) -> SteeringLaw {
        match self.clone() { Steer::Burn(m) => SteeringLaw::FiniteBurn(m), Steer::Rug(objectives, max_eclipse_prct) => SteeringLaw::Ruggiero { objectives, max_eclipse_prct }, Steer::Klu(objectives, max_eclipse_prct) => SteeringLaw::Kluever { objectives, max_eclipse_prct } }
    }
    fn by_hand(&self, s: &Spacecraft) -> Arc<dyn GuidanceLaw> {
        match self.clone() { Steer::Burn(m) => Arc::new(m), Steer::Rug(objectives, max_eclipse_prct) => Arc::new(Ruggiero { objectives, max_eclipse_prct, init_state: *s }), Steer::Klu(objectives, max_eclipse_prct) => Arc::new(Kluever { objectives, max_eclipse_prct }) }
    }
}
/// A closed-loop law whose targets lie some way off the elements of the first orbit, with or without a limit on the eclipse
fn closed_loop(r: &mut Rng64, x0: &Spacecraft) -> Steer {
    let n = 1 + r.u(3);
    let mut objs = vec![];
    for (e, span) in [(OE::SemiMajorAxis, 400.0), (OE::Eccentricity, 0.05), (OE::Inclination, 4.0)].into_iter().take(n) {
        let p = StateParameter::Element(e);
        objs.push(Objective::within_tolerance(p, x0.value(p).unwrap() + r.r(0.2, 1.0) * span, span * 0.01));
    }
    let lim = if r.u(4) == 0 { None } else { Some(r.r(0.0, 0.6)) };
    if r.b() { Steer::Rug(objs.into_iter().map(|objective| ObjectiveEfficiency { objective, efficiency: if r.b() { 0.0 } else { r.r(0.3, 0.95) } }).collect(), lim) }
    else { Steer::Klu(objs.into_iter().map(|objective| ObjectiveWeight { objective, weight: r.r(0.1, 2.0) }).collect(), lim) }
}

#[derive(Clone)]
struct Ph {
    t: Epoch,
    term: bool,
    name: String,
    dis: bool,
    ev: Ev,
    prop: usize,
    burn: Option<(Steer, usize, bool)>,
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = Epoch::from_gregorian_utc_hms(2023, 2, 22, 12, 30, 15);
    let mut specs: Vec<(String, Vec<String>, String, i64, usize)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        let kinds: Vec<String> = s["kinds"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        specs.push((format!("s{i}"), kinds, s["until"].as_str().unwrap().to_string(), s["t0"].as_i64().unwrap(), 0));
    }
    for i in 0..ctx.n(500, 3000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&(id.clone() + "k"));
        let n = r.u(5) + 1;
        let mut kinds: Vec<String> = (0..n).map(|_| r.pick(&["on", "on", "on", "off", "term"]).to_string()).collect();
        kinds.push("term".into());
        let until = if r.u(3) == 0 { format!("p{}", r.u(n) + 1) } else if r.u(10) == 0 { "unknown".into() } else { String::new() };
        let t0 = r.i(2, 2 * n as i64 + 1);
        let kind = if r.u(3) == 0 { 1 + r.u(6) } else { 0 };
        specs.push((id, kinds, until, t0, kind));
    }
    for (id, kinds, until, t0, kind) in specs {
        let mut r = ctx.rng(&id);
        let mut gaps: Vec<Duration> = vec![];
        for _ in 0..kinds.len() + 1 { gaps.push(Duration::from_total_nanoseconds(if r.b() { r.i(20, 900) as i128 * 1_000_000_000 } else { r.i(20_000_000_000, 900_000_000_000) as i128 })); }
        // phase j (1-based) is at tick 2j; odd ticks lie in between
        let at = |x: i64| { let j = (x / 2) as usize; let mut e = zero; for g in &gaps[..j] { e += *g; } if x % 2 == 1 { e += gaps[j] / 2; } e };
        let mut phs: Vec<Ph> = vec![];
        let mut frame_moon = false;
        for (j, k) in kinds.iter().enumerate() {
            let t = at(2 * (j as i64 + 1));
            let next = at(2 * (j as i64 + 2).min(kinds.len() as i64));
            let ev = match r.u(5) {
                0 => Ev::None,
                1 if !frame_moon && r.b() => { let f = world().frame_info(*r.pick(&[MOON_J2000, EARTH_ECLIPJ2000])).unwrap(); frame_moon = true; Ev::Swap(f) }
                x => {
                    let mut dv = || [r.r(-1e-2, 1e-2), r.r(-1e-2, 1e-2), r.r(-1e-2, 1e-2)];
                    let d = dv();
                    let m = match r.u(5) { 0 => None, 1 => Some((LocalFrame::Inertial, 0, d)), 2 => Some((LocalFrame::RIC, 1, d)), 3 => Some((LocalFrame::RCN, 1, d)), _ => Some((LocalFrame::VNC, 2, d)) };
                    let p = if r.b() { None } else { Some(PhysicalProperties {
                        mass: if r.b() { Some(Mass { dry_mass_kg: r.r(1.0, 30.0), prop_mass_kg: r.r(1.0, 20.0), extra_mass_kg: r.r(0.0, 2.0) }) } else { None },
                        srp: if r.b() { Some(SRPData { area_m2: r.r(0.1, 2.0), coeff_reflectivity: r.r(0.01, 0.05) }) } else { None },
                        drag: if r.b() { Some(DragData { area_m2: r.r(0.1, 2.0), coeff_drag: r.r(0.01, 0.05) }) } else { None },
                    }) };
                    Ev::Stage(m, p, if x == 4 { 1.0 } else { -1.0 })
                }
            };
            let burn = if r.u(3) == 0 && next > t {
                let s0 = t + (next - t) * r.r(0.0, 0.5);
                let d = hat([r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]);
                Some((Steer::Burn(Maneuver::from_time_invariant(s0, s0 + (next - t) * r.r(0.05, 0.6), r.r(0.2, 1.0), Vector3::new(d[0], d[1], d[2]), *r.pick(&[LocalFrame::Inertial, LocalFrame::RCN, LocalFrame::VNC]))), r.u(2), r.b()))
            } else { None };
            phs.push(Ph { t, term: k == "term", name: format!("p{}", j + 1), dis: k == "off", ev, prop: r.u(3), burn });
        }
        let ts = at(t0);
        let mut orbit = rand_orbit(&mut r, ts);
        orbit.frame = eme_w();
        let x0 = Spacecraft::builder().orbit(orbit).mass(Mass { dry_mass_kg: r.r(500.0, 2000.0), prop_mass_kg: r.r(200.0, 500.0), extra_mass_kg: r.r(10.0, 50.0) })
            .srp(SRPData { area_m2: r.r(20.0, 30.0), coeff_reflectivity: r.r(1.2, 1.6) }).drag(DragData { area_m2: r.r(20.0, 30.0), coeff_drag: r.r(2.0, 2.4) }).build();
        let thr = [Thruster { thrust_N: r.r(1.0, 60.0), isp_s: r.r(200.0, 400.0) }, Thruster { thrust_N: r.r(1.0, 60.0), isp_s: r.r(1000.0, 3000.0) }];
        // away from the Moon, some of the burns and coasts are closed-loop guidance; with a fixed step, as a law that switches makes adaptive ones crawl
        if !frame_moon {
            for p in phs.iter_mut() { if r.b() && !p.term { p.burn = Some((closed_loop(&mut r, &x0), r.u(2), r.b())); p.prop = 0; } }
        }
        // what is wrong with it: 1 no terminate, 2 unknown propagator, 3 unknown thruster, 4 never set up, 5 reconfigured, 6 empty
        let mut valid = true;
        let mut ready = true;
        if kind == 1 { phs.retain(|p| !p.term); valid = false; }
        if kind == 6 { phs.clear(); valid = false; }
        let nact = phs.iter().filter(|p| !p.term).count();
        let bad_at = if nact > 0 { r.u(nact) } else { 0 };
        if kind == 2 || kind == 3 { valid = nact == 0; }
        if kind == 4 { ready = !phs.iter().any(|p| !p.term) ; }
        let begin = json!({"ph": phs.iter().map(|p| json!({"t": ep(p.t, zero), "kind": if p.term {"term"} else {"act"}, "name": if p.term { "" } else { p.name.as_str() }, "dis": p.dis, "ev": !matches!(p.ev, Ev::None)})).collect::<Vec<_>>(), "until": until, "t": ep(ts, zero), "valid": valid, "ready": ready, "what": kind});
        // never set up: executing anything must fail, but nothing may have to be executed
        if kind == 4 && !ready {
            // only a sequence in which the first phase reached does run is decided
            let en = |p: &Ph| p.term || !p.dis || p.name == until;
            let first = phs.iter().filter(|p| en(p) && p.t <= ts).next_back();
            match first { Some(p) if !p.term && p.name != until => {} _ => continue }
        }
        v.push(case(id, begin, move |rec| {
            let a = world();
            let mut seq = SpacecraftSequence::default();
            let names = ["A", "B", "C"];
            for k in 0..3 { seq.propagators.insert(names[k].into(), cfg(if kind == 5 { (k + 1) % 3 } else { k })); }
            for k in 0..2 { seq.thruster_sets.insert(format!("T{k}"), thr[k]); }
            let mut ia = 0;
            for p in &phs {
                let ph = if p.term { Phase::Terminate } else {
                    let mut prop = names[p.prop].to_string();
                    let mut g = p.burn.as_ref().map(|(m, k, dis)| GuidanceConfig { thruster_model: format!("T{k}"), disable_prop_mass: *dis, law: m.to_nyx() });
                    if ia == bad_at {
                        if kind == 2 { prop = "nope".into(); }
                        if kind == 3 { g = Some(GuidanceConfig { thruster_model: "nope".into(), disable_prop_mass: false, law: SteeringLaw::FiniteBurn(Maneuver::from_time_invariant(p.t, p.t + 1.seconds(), 1.0, Vector3::new(1.0, 0.0, 0.0), LocalFrame::VNC)) }); }
                    }
                    ia += 1;
                    Phase::Activity { name: p.name.clone(), propagator: prop, guidance: g.map(Box::new), on_entry: p.ev.to_nyx(), disabled: p.dis }
                };
                seq.seq.insert(p.t, ph);
            }
            if kind != 4 {
                let r = seq.setup(a.clone());
                rec.ev("setup", json!({"ok": r.is_ok()}));
                if kind == 5 {
                    for k in 0..3 { seq.propagators.insert(names[k].into(), cfg(k)); }
                    rec.ev("setup", json!({"ok": seq.setup(a.clone()).is_ok()}));
                }
            }
            let un = if until.is_empty() { None } else { Some(until.clone()) };
            match seq.propagate(x0, un, a.clone()) {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok(trajs) => {
                    let mut cur = x0;
                    for tr in trajs {
                        let name = tr.name.clone().unwrap_or_default();
                        let (f, l) = (*tr.first(), *tr.last());
                        let (wi, wo, dy) = match phs.iter().find(|p| p.name == name) {
                            None => (2_000_000_000, 2_000_000_000, 2_000_000_000),
                            Some(p) => {
                                let wi = dev(&f, &p.ev.apply(cur, &a), 1e-12);
                                let wo = dev(&f, &cur, 1e-12);
                                let mut setup = by_hand(p.prop);
                                let mut s = f;
                                if let Some((m, k, dis)) = &p.burn {
                                    s.thruster = Some(thr[*k]);
                                    setup.dynamics = setup.dynamics.with_guidance_law(m.by_hand(&s));
                                    setup.dynamics.decrement_mass = !dis;
                                }
                                let y = setup.with(s, a.clone()).until_epoch(l.epoch()).unwrap();
                                (wi, wo, dev(&l, &y, 1e-12))
                            }
                        };
                        rec.ev("phase", json!({"name": name, "t0": ep(f.epoch(), zero), "t1": ep(l.epoch(), zero), "wi": wi, "wo": wo, "dyn": dy}));
                        cur = l;
                    }
                    rec.ev("done", json!({}));
                }
            }
        }));
    }
    v
}
