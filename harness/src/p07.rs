//! P07: finite burns, judged step by step against an independent integration with and without thrust.
use crate::num::*;
use crate::sc::*;
use crate::util::*;
use nyx_space::dynamics::guidance::LocalFrame;
use anise::prelude::*;
use hifitime::{Duration, TimeUnits, Unit};
use nyx_space::State;
use nyx_space::cosmic::{GuidanceMode, Mass, Spacecraft};
use nyx_space::dynamics::guidance::{Maneuver, MnvrRepr, Thruster};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::linalg::Vector3;
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::*;
use serde_json::json;
use std::sync::Arc;

const G0: f64 = 9.80665;

#[derive(Clone)]
struct Burn {
    fk: usize,
    az: [f64; 3],
    el: [f64; 3],
    vec: Option<V3>,
    start: Epoch,
    throttle: f64,
    thr: Thruster,
    dry: f64,
    decr: bool,
}
impl Burn {
    fn u(&self, e: Epoch) -> V3 {
        if let Some(v) = self.vec { return v; }
        let t = (e - self.start).to_seconds();
        let a = self.az[0] + self.az[1] * t + self.az[2] * t * t;
        let d = self.el[0] + self.el[1] * t + self.el[2] * t * t;
        [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()]
    }
    fn step(&self, s: &Spacecraft, e1: Epoch, on: bool) -> [f64; 7] {
        let e0 = s.epoch();
        let o = s.orbit;
        let y = [o.radius_km[0], o.radius_km[1], o.radius_km[2], o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2], s.mass.prop_mass_kg];
        let f = |t: f64, y: &[f64; 7]| {
            let r = [y[0], y[1], y[2]];
            let v = [y[3], y[4], y[5]];
            let n = norm(r);
            let mut a = sc(-MU / n.powi(3), r);
            let mut md = 0.0;
            if on {
                let u = to_inertial(&axes(self.fk, r, v), self.u(e0 + t * Unit::Second));
                let m = self.dry + y[6];
                a = add(a, sc(self.throttle * self.thr.thrust_N * 1e-3 / m, u));
                if self.decr { md = -self.throttle * self.thr.thrust_N / (self.thr.isp_s * G0); }
            }
            [v[0], v[1], v[2], a[0], a[1], a[2], md]
        };
        rk4(&f, y, 0.0, (e1 - e0).to_seconds(), 0.5)
    }
}

fn dev(s: &Spacecraft, y: &[f64; 7]) -> (i64, f64) {
    let o = s.orbit;
    let dr = norm(sub([o.radius_km[0], o.radius_km[1], o.radius_km[2]], [y[0], y[1], y[2]]));
    let dv = norm(sub([o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]], [y[3], y[4], y[5]]));
    // position in units of 1e-9 km, velocity in units of 1e-11 km/s
    (mag(dr, 1e-9).max(mag(dv, 1e-11)), (s.mass.prop_mass_kg - y[6]).abs())
}

fn step_ev(rec: &Rec, b: &Burn, a: &Spacecraft, s: &Spacecraft, zero: Epoch) {
    let on = b.step(a, s.epoch(), true);
    let off = b.step(a, s.epoch(), false);
    let (don, mon) = dev(s, &on);
    let (doff, _) = dev(s, &off);
    let dm = (s.mass.prop_mass_kg - a.mass.prop_mass_kg).abs();
    let o = s.orbit;
    let want = to_inertial(&axes(b.fk, [o.radius_km[0], o.radius_km[1], o.radius_km[2]], [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]]), b.u(s.epoch()));
    let dir = match s.thrust_direction() {
        None => "none",
        Some(u) => if norm(sub([u[0], u[1], u[2]], want)) < 1e-6 { "ok" } else { "off" },
    };
    let same = s.mass.dry_mass_kg == a.mass.dry_mass_kg && s.mass.extra_mass_kg == a.mass.extra_mass_kg && s.srp == a.srp && s.drag == a.drag && s.thruster == a.thruster;
    rec.ev("step", json!({"t0": ep(a.epoch(), zero), "t1": ep(s.epoch(), zero), "on": don, "off": doff, "mon": mag(mon, 1e-8), "moff": mag(dm, 1e-8), "dry": if same {"same"} else {"changed"}, "neg": s.mass.prop_mass_kg < 0.0, "mode": format!("{:?}", s.mode()), "dir": dir}));
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let zero = epoch0();
    let mut specs: Vec<(String, i64, i64, bool, i64, bool, usize)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(1, 4) {
            specs.push((format!("s{i}-{rep}"), s["st"].as_i64().unwrap(), s["en"].as_i64().unwrap(), s["back"] == 1, s["fuel"].as_i64().unwrap(), s["init"] == "Thrust", 0));
        }
    }
    for i in 0..ctx.n(150, 1500) {
        specs.push((format!("r{i}"), 0, 0, false, 0, false, 1));
    }
    for i in 0..ctx.n(60, 400) {
        specs.push((format!("bad{i}"), 0, 0, false, 0, false, 2));
    }
    for (id, st, en, back, fuel, init, kind) in specs {
        let mut r = ctx.rng(&id);
        let steps = 4i64;
        let h_ns = if r.b() { r.i(2, 60) * 1_000_000_000 } else { r.i(2_000_000_000, 60_000_000_000) };
        let h = Duration::from_total_nanoseconds(h_ns as i128);
        let half = Duration::from_total_nanoseconds((h_ns / 2) as i128);
        let (back, init) = if kind == 0 { (back, init) } else { (r.b(), if kind == 2 { true } else { r.b() }) };
        // the window boundaries, in half steps from the grid origin; in random cases anywhere
        let tick = |x: i64| if x % 2 == 0 { zero + h * (x / 2) } else { zero + h * (x.div_euclid(2)) + half };
        let (start, end) = if kind == 0 { (tick(st), tick(en)) } else {
            let a = zero + (r.r(-2.0, 10.0) * h.to_seconds()) * Unit::Second;
            (a, a + (r.r(0.0, 10.0) * h.to_seconds()) * Unit::Second)
        };
        let nsteps = if kind == 0 { steps } else { r.i(3, 12) };
        let fuel = if kind == 0 { fuel } else if r.u(3) == 0 { r.i(0, 4) } else { 99 };
        let thr = Thruster { thrust_N: r.r(0.5, 500.0), isp_s: r.r(80.0, 4000.0) };
        let throttle = if r.u(3) == 0 { 1.0 } else { r.r(0.05, 1.0) };
        let use_step = throttle * thr.thrust_N / (thr.isp_s * G0) * h.to_seconds();
        let fuel_kg = if fuel == 99 { use_step * (nsteps as f64 + 5.0) + r.r(1.0, 500.0) } else { use_step * (fuel as f64 + 0.5) };
        let dry = r.r(100.0, 5000.0);
        let extra = if r.b() { 0.0 } else { r.r(0.0, 200.0) };
        let fk = r.u(4);
        let (lf, fk) = match fk { 0 => (LocalFrame::Inertial, 0), 1 => (LocalFrame::RIC, 1), 2 => (LocalFrame::RCN, 1), _ => (LocalFrame::VNC, 2) };
        let decr = kind == 0 || r.u(4) != 0;
        let poly = r.u(4);
        let az = [r.r(-3.0, 3.0), if poly > 1 { r.r(-1e-3, 1e-3) } else { 0.0 }, if poly > 2 { r.r(-1e-6, 1e-6) } else { 0.0 }];
        let el = [r.r(-1.4, 1.4), if poly > 1 { r.r(-1e-3, 1e-3) } else { 0.0 }, if poly > 2 { r.r(-1e-6, 1e-6) } else { 0.0 }];
        let cp = |c: [f64; 3]| match poly { 2 => CommonPolynomial::Linear { a: c[1], b: c[0] }, 3 => CommonPolynomial::Quadratic { a: c[2], b: c[1], c: c[0] }, _ => CommonPolynomial::Constant { a: c[0] } };
        let dir0 = [el[0].cos() * az[0].cos(), el[0].cos() * az[0].sin(), el[0].sin()];
        let mut burn = Burn { fk, az, el, vec: if poly == 0 { Some(dir0) } else { None }, start, throttle, thr, dry: dry + extra, decr };
        let mut mnvr = Maneuver { start, end, thrust_prct: throttle, representation: if poly == 0 { MnvrRepr::Vector(Vector3::new(dir0[0], dir0[1], dir0[2])) } else { MnvrRepr::Angles { azimuth: cp(az), elevation: cp(el) } }, frame: lf };
        let mut has_thr = true;
        let mut stm = false;
        if kind == 2 {
            match r.u(4) {
                0 => mnvr.thrust_prct = *r.pick(&[1.001, 1.5, -0.2, -1e-9, f64::NAN]),
                1 => { let k = *r.pick(&[0.5, 1.01, 2.0, 0.999, 1e-3, 0.0]); mnvr.representation = MnvrRepr::Vector(Vector3::new(dir0[0] * k, dir0[1] * k, dir0[2] * k)); }
                2 => has_thr = false,
                _ => stm = true,
            }
            burn.throttle = 1.0;
        }
        let t0 = if back { zero + h * nsteps } else { zero };
        let mut orbit = rand_orbit(&mut r, t0);
        orbit.epoch = t0;
        let mut x0 = Spacecraft::builder().orbit(orbit).mass(Mass { dry_mass_kg: dry, prop_mass_kg: fuel_kg, extra_mass_kg: extra }).build();
        x0.mode = if init { GuidanceMode::Thrust } else { GuidanceMode::Coast };
        if has_thr { x0.thruster = Some(thr) }
        if stm { x0.enable_stm() }
        let how = if kind == 0 { r.u(2) } else { r.u(3) };
        let meth = *r.pick(&[IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78]);
        let begin = json!({"mode": format!("{:?}", x0.mode()), "t": ep(t0, zero), "start": ep(start, zero), "end": ep(end, zero), "decr": decr, "bad": kind == 2, "how": how, "nosteps": nsteps, "frame": fk, "poly": poly, "throttle": format!("{:?}", mnvr.thrust_prct)});
        let nothr = !has_thr || stm;
        let swap = r.u(4) == 0;
        v.push(case(id, begin, move |rec| {
            let law = Arc::new(mnvr);
            let two = OrbitalDynamics::two_body;
            // the law is that of the manoeuvre, whether given at once or put in place of another one
            let other = || Arc::new(Maneuver::from_time_invariant(start - 1.hours(), end + 1.hours(), 1.0, Vector3::new(0.0, 0.0, 1.0), LocalFrame::RCN));
            let dynm = if swap && decr { SpacecraftDynamics::from_guidance_law(two(), other()).with_guidance_law(law) } else if swap { SpacecraftDynamics::from_guidance_law_no_decr(two(), other()).with_guidance_law(law) } else if decr { SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law) } else { SpacecraftDynamics::from_guidance_law_no_decr(OrbitalDynamics::two_body(), law) };
            let opts = if how == 2 { IntegratorOptions::builder().init_step(10.seconds()).min_step(1.milliseconds()).max_step(h).tolerance(1e-13).error_ctrl(ErrorControl::RSSCartesianStep).build() } else { IntegratorOptions::with_fixed_step(h) };
            let setup = Propagator::new(dynm, meth, opts);
            let sg = if back { -1 } else { 1 };
            let err = |cur: &Spacecraft, e: String, longest: Duration| {
                let y = burn.step(cur, cur.epoch() + longest * sg, true);
                rec.ev("err", json!({"exhausts": y[6] < 0.0, "nothr": nothr, "msg": e}));
            };
            if how == 0 {
                // one call per step
                let a = alm();
                let mut p = setup.with(x0, a);
                for _ in 0..nsteps {
                    let cur = p.state;
                    match p.for_duration(h * sg) {
                        Ok(s) => step_ev(rec, &burn, &cur, &s, zero),
                        Err(e) => { err(&cur, errs(&e), h); return; }
                    }
                }
            } else {
                // one call over all steps, the published states are the steps
                let (tx, rx) = std::sync::mpsc::channel();
                let res = setup.with(x0, alm()).for_duration_with_channel(h * nsteps * sg, tx);
                let mut cur = x0;
                for s in rx.iter() {
                    if s.epoch() == cur.epoch() { continue; }
                    step_ev(rec, &burn, &cur, &s, zero);
                    cur = s;
                }
                match res {
                    Ok(s) => rec.ev("done", json!({"t1": ep(s.epoch(), zero)})),
                    Err(e) => err(&cur, errs(&e), h),
                }
            }
        }));
    }
    v
}
