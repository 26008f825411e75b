//! P30: multiple shooting, each leg judged with the Kepler propagator.
use crate::kepler::kepler;
use crate::num::*;
use crate::sc::{MU, rand_orbit};
use crate::util::*;
use crate::world::*;
use anise::constants::frames::IAU_EARTH_FRAME;
use anise::prelude::*;
use hifitime::Unit;
use nyx_space::State;
use nyx_space::cosmic::{Mass, Spacecraft};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::ctrlnodes::Node;
use nyx_space::md::opti::multipleshooting::CostFunction;
use nyx_space::md::opti::multishoot::MultipleShooting;
use nyx_space::propagators::*;
use serde_json::json;

type RV = (V3, V3);
fn rv(o: &Orbit) -> RV { ([o.radius_km[0], o.radius_km[1], o.radius_km[2]], [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]]) }
/// Thousandths of 1e-4 km and 1e-7 km/s
fn far(a: &RV, b: &RV) -> i64 { mag(norm(sub(a.0, b.0)) / 1e-4, 1e-3).max(mag(norm(sub(a.1, b.1)) / 1e-7, 1e-3)) }
fn at(n: &Node) -> V3 { [n.x, n.y, n.z] }
/// The worst of the node's objectives
fn miss(n: &Node, p: V3) -> i64 {
    let o: [Objective; 3] = (*n).into();
    (0..3).map(|k| mag((p[k] - o[k].desired_value) / o[k].tolerance, 1e-3)).max().unwrap()
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mut specs = vec![];
    let mut ns: Vec<i64> = ctx.scen.iter().map(|s| s["n"].as_i64().unwrap()).collect();
    ns.sort();
    ns.dedup();
    for n in ns { for k in 0..ctx.n(24, 160) { specs.push((format!("s{n}-{k}"), n as usize)); } }
    for k in 0..ctx.n(30, 300) { specs.push((format!("r{k}"), 0)); }
    for (id, n) in specs {
        let mut r = ctx.rng(&id);
        let n = if n == 0 { 3 + r.u(6) } else { n };
        let t0 = Epoch::from_gregorian_utc_hms(2024, 5, 6, 7, 8, 9);
        let mut o = rand_orbit(&mut r, t0);
        o.frame = eme_w();
        let x0 = Spacecraft::builder().orbit(o).mass(Mass { dry_mass_kg: r.r(100.0, 900.0), prop_mass_kg: r.r(1.0, 100.0), extra_mass_kg: 0.0 }).build();
        let p = rv(&o);
        // some way along the flight, after a change of velocity
        let peri = (norm(p.0).powi(3) / MU).sqrt() * 2.0 * std::f64::consts::PI;
        let tof = (peri * r.r(0.01, 0.12) * 1e9).round() / 1e9;
        let kick = r.r(1e-3, 0.05);
        let d = sc(kick, hat([r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]));
        let same = n >= 3 && r.u(12) == 0;
        let y = if same { p } else { kepler(p.0, add(p.1, d), tof, MU) };
        let tf = t0 + tof * Unit::Second;
        let xf = Orbit::new(y.0[0], y.0[1], y.0[2], y.1[0], y.1[1], y.1[2], tf, eme_w());
        let alt = r.b();
        let bad = n < 3 || (same && !alt);
        if same && alt { continue; }
        let cost = if r.b() { CostFunction::MinimumEnergy } else { CostFunction::MinimumFuel };
        let begin = json!({"n": n, "bad": bad, "must": !alt && !bad && n <= 4, "alt": alt, "tof": tof, "kick": kick});
        v.push(case(id, begin, move |rec| {
            let a = world();
            let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta89, IntegratorOptions::default());
            let make = || if alt {
                MultipleShooting::linear_altitude_heuristic(x0, xf, n, a.frame_info(IAU_EARTH_FRAME).unwrap(), &prop, a.clone()).map_err(|e| errs(&e))
            } else { MultipleShooting::equidistant_nodes(x0, xf, n, &prop).map_err(|e| errs(&e)) };
            let ms = make();
            let mut ms0 = match make() { Ok(x) => x, Err(e) => return rec.ev("refused", json!({"msg": e})) };
            let mut ms = match ms { Ok(x) => x, Err(e) => return rec.ev("refused", json!({"msg": e})) };
            let epoch = |k: usize| t0 + (tf - t0) * (k as f64 / n as f64);
            let off_t = |e: Epoch, k: usize| clampi((e - epoch(k)).total_nanoseconds() as f64);
            for (i, nd) in ms.targets.iter().enumerate() {
                let q = at(nd);
                let (off, end) = if alt {
                    // above the same point of the ground as the flight, and in the end at the height of the target
                    let f = kepler(p.0, p.1, (nd.epoch - t0).to_seconds(), MU);
                    let g = |x: V3| { let o = Orbit::new(x[0], x[1], x[2], 0.0, 0.0, 0.0, nd.epoch, eme_w()); let b = a.transform_to(o, IAU_EARTH_FRAME, None).unwrap(); (b.latitude_deg().unwrap(), b.longitude_deg(), b.height_km().unwrap()) };
                    let (l1, l2) = (g(q), g(f.0));
                    let dl = ((l1.1 - l2.1 + 540.0).rem_euclid(360.0) - 180.0) * l2.0.to_radians().cos();
                    let o = Orbit::new(y.0[0], y.0[1], y.0[2], 0.0, 0.0, 0.0, tf, eme_w());
                    let hf = a.transform_to(o, IAU_EARTH_FRAME, None).unwrap().height_km().unwrap();
                    (mag((l1.0 - l2.0).abs().max(dl.abs()) / 1e-4, 1e-3), mag((l1.2 - hf) / 1e-3, 1e-3))
                } else {
                    let k = (i + 1) as f64 / n as f64;
                    let w = add(p.0, sc(k, sub(y.0, p.0)));
                    (mag(norm(sub(w, q)) / 1e-6, 1e-3), mag(norm(sub(q, y.0)) / 1e-6, 1e-3))
                };
                rec.ev("node", json!({"i": i + 1, "t": off_t(nd.epoch, i + 1), "off": off, "end": end}));
            }
            let last = *ms.targets.last().unwrap();
            let sol = match ms.solve(cost, a.clone()) { Ok(s) => s, Err(e) => return rec.ev("fail", json!({"msg": errs(&e)})) };
            // the search does not end with more than it began with
            ms0.improvement_threshold = f64::INFINITY;
            let total = |s: &nyx_space::md::opti::multishoot::MultipleShootingSolution<Node, 3>| s.solutions.iter().map(|s| s.correction.norm_squared()).sum::<f64>();
            if let Ok(first) = ms0.solve(cost, a.clone()) { rec.ev("cost", json!({"ratio": clampi(total(&sol) / total(&first) * 1e6), "d": format!("{:e}", total(&first))})); }
            let mut prev = x0;
            let keep = |s: &Spacecraft| s.mass == x0.mass && s.srp == x0.srp && s.drag == x0.drag && s.thruster == x0.thruster && s.orbit.frame == x0.orbit.frame;
            for (i, s) in sol.solutions.iter().enumerate() {
                let (c, f) = (rv(&s.corrected_state.orbit), rv(&s.achieved_state.orbit));
                let b = rv(&prev.orbit);
                let fin = kepler(c.0, c.1, (s.achieved_state.epoch() - s.corrected_state.epoch()).to_seconds(), MU);
                let dv = [s.correction[0], s.correction[1], s.correction[2]];
                let nd = sol.nodes.get(i).copied();
                rec.ev("seg", json!({"i": i + 1, "t0": off_t(s.corrected_state.epoch(), i), "t1": off_t(s.achieved_state.epoch(), i + 1),
                    "start": mag(norm(sub(c.0, b.0)) / 1e-6, 1e-3), "dv": mag(norm(sub(sub(c.1, b.1), dv)) / 1e-9, 1e-3),
                    "err": nd.map(|nd| miss(&nd, fin.0).max(if nd.epoch == s.achieved_state.epoch() { 0 } else { 999_999_999 })).unwrap_or(999_999_999),
                    "ach": far(&f, &fin), "rest": keep(&s.corrected_state) && keep(&s.achieved_state), "end": miss(&last, fin.0), "dvn": format!("{:.6}", norm(dv))}));
                prev = s.achieved_state;
            }
            match sol.build_trajectories(&prop, a) {
                Err(e) => rec.ev("fail", json!({"msg": errs(&e)})),
                Ok(ts) => for (i, t) in ts.iter().enumerate() {
                    let s = &sol.solutions[i.min(sol.solutions.len() - 1)];
                    rec.ev("traj", json!({"i": i + 1, "t0": off_t(t.first().epoch(), i), "t1": off_t(t.last().epoch(), i + 1), "first": far(&rv(&t.first().orbit), &rv(&s.corrected_state.orbit)), "last": far(&rv(&t.last().orbit), &rv(&s.achieved_state.orbit))}));
                }
            }
            rec.ev("done", json!({}));
        }));
    }
    v
}
