//! P29: the spacecraft state as a record of named quantities.
use crate::num::*;
use crate::util::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, TimeUnits};
use nyx_space::Spacecraft;
use nyx_space::cosmic::{GuidanceMode, State};
use nyx_space::dynamics::guidance::{LocalFrame, Thruster};
use nyx_space::linalg::{Const, OMatrix, OVector, Vector3};
use nyx_space::md::StateParameter as SP;
use serde_json::{Map, Value, json};
const MU: f64 = 398600.435436096;
fn t0() -> Epoch { Epoch::from_gregorian_utc_at_midnight(2025, 6, 1) }
fn frame() -> Frame { Frame { ephemeris_id: 399, orientation_id: 1, mu_km3_s2: Some(MU), shape: None, frozen_epoch: None, force_inertial: false } }
fn modeno(m: GuidanceMode) -> i64 { match m { GuidanceMode::Coast => 0, GuidanceMode::Thrust => 1, GuidanceMode::Inhibit => 2 } }
/// Every quantity by name: its value and its unit
fn raw(s: &Spacecraft) -> Vec<(&'static str, f64, f64)> {
    let (r, v, d) = (s.orbit.radius_km, s.orbit.velocity_km_s, s.thrust_direction());
    let d = d.unwrap_or(Vector3::zeros());
    let t = s.thruster.unwrap_or(Thruster { thrust_N: 0.0, isp_s: 0.0 });
    vec![("x", r[0], 1e-3), ("y", r[1], 1e-3), ("z", r[2], 1e-3), ("vx", v[0], 1e-6), ("vy", v[1], 1e-6), ("vz", v[2], 1e-6), ("cr", s.srp.coeff_reflectivity, 1e-6), ("cd", s.drag.coeff_drag, 1e-6),
        ("prop", s.mass.prop_mass_kg, 1e-3), ("dry", s.mass.dry_mass_kg, 1e-3), ("extra", s.mass.extra_mass_kg, 1e-3), ("sa", s.srp.area_m2, 1e-4), ("da", s.drag.area_m2, 1e-4), ("isp", t.isp_s, 1e-3), ("thr", t.thrust_N, 1e-3),
        ("dx", d[0], 1e-4), ("dy", d[1], 1e-4), ("dz", d[2], 1e-4), ("mode", modeno(s.mode) as f64, 1.0), ("ep", (s.orbit.epoch - t0()).to_seconds(), 1.0)]
}
type M9 = OMatrix<f64, Const<9>, Const<9>>;
fn stm_kind(s: &Spacecraft, given: &Option<M9>) -> &'static str {
    match (s.stm, given) { (None, _) => "none", (Some(m), _) if m == M9::identity() => "id", (Some(m), Some(g)) if m == *g => "set", _ => "odd" }
}
fn snap(s: &Spacecraft, given: &Option<M9>) -> Value {
    let mut m = Map::new();
    for (n, v, u) in raw(s) { m.insert(n.into(), json!(clampi(v / u))); }
    m.insert("hasthr".into(), json!(s.thruster.is_some()));
    m.insert("hasdir".into(), json!(s.thrust_direction.is_some()));
    m.insert("stm".into(), json!(stm_kind(s, given)));
    Value::Object(m)
}
fn changed(a: &Spacecraft, b: &Spacecraft) -> Vec<&'static str> {
    let mut o: Vec<&'static str> = raw(a).iter().zip(raw(b)).filter(|(x, y)| x.1.to_bits() != y.1.to_bits()).map(|(x, _)| x.0).collect();
    if a.thruster.is_some() != b.thruster.is_some() { o.push("hasthr"); }
    if a.thrust_direction.is_some() != b.thrust_direction.is_some() { o.push("hasdir"); }
    if a.stm != b.stm { o.push("stm"); }
    if a.orbit.frame != b.orbit.frame { o.push("frame"); }
    o
}
/// Keplerian elements by the textbook: sma, ecc, inc, raan, aop, ta (degrees)
fn kep(r: V3, v: V3) -> [f64; 6] {
    let h = cross(r, v);
    let n = [-h[1], h[0], 0.0];
    let e = sub(sc(1.0 / MU, cross(v, h)), hat(r));
    let a = 1.0 / (2.0 / norm(r) - dot(v, v) / MU);
    let inc = (h[0].hypot(h[1])).atan2(h[2]);
    let raan = n[1].atan2(n[0]);
    let m = cross(hat(h), hat(n));
    let aop = dot(e, m).atan2(dot(e, hat(n)));
    let q = cross(hat(h), hat(e));
    let ta = dot(r, q).atan2(dot(r, hat(e)));
    let w = |x: f64| x.to_degrees().rem_euclid(360.0);
    [a, norm(e), inc.to_degrees(), w(raan), w(aop), w(ta)]
}
fn rv(s: &Spacecraft) -> (V3, V3) { let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s); ([r[0], r[1], r[2]], [v[0], v[1], v[2]]) }
fn kepj(s: &Spacecraft) -> (Value, bool) {
    let (r, v) = rv(s);
    let k = kep(r, v);
    let well = k[0] > 1000.0 && k[0] < 2e6 && k[1] > 0.01 && k[1] < 0.9 && k[2] > 1.0 && k[2] < 179.0;
    (json!({"sma": clampi(k[0] * 1e3), "ecc": clampi(k[1] * 1e8), "inc": clampi(k[2] * 1e6), "raan": clampi(k[3] * 1e6), "aop": clampi(k[4] * 1e6), "ta": clampi(k[5] * 1e6)}), well)
}
/// The parameters which do not read the quantity they are named after
fn reads(s: &Spacecraft) -> Vec<String> {
    let (r, v) = rv(s);
    let k = kep(r, v);
    let d = s.thrust_direction().map(|d| [d[0], d[1], d[2]]);
    let th = s.thruster;
    let mut w: Vec<(String, Result<f64, ()>, Option<f64>, f64)> = vec![];
    let mut p = |n: &str, sp: SP, want: Option<f64>, tol: f64| w.push((n.into(), s.value(sp).map_err(|_| ()), want, tol));
    p("cd", SP::Cd(), Some(s.drag.coeff_drag), 0.0);
    p("cr", SP::Cr(), Some(s.srp.coeff_reflectivity), 0.0);
    p("dry", SP::DryMass(), Some(s.mass.dry_mass_kg), 0.0);
    p("prop", SP::PropMass(), Some(s.mass.prop_mass_kg), 0.0);
    p("total", SP::TotalMass(), Some(s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg), 1e-9 * (1.0 + s.mass.dry_mass_kg.abs() + s.mass.prop_mass_kg.abs() + s.mass.extra_mass_kg.abs()));
    p("isp", SP::Isp(), th.map(|t| t.isp_s), 0.0);
    p("thrust", SP::Thrust(), th.map(|t| t.thrust_N), 0.0);
    p("tx", SP::ThrustX(), d.map(|d| d[0]), 0.0);
    p("ty", SP::ThrustY(), d.map(|d| d[1]), 0.0);
    p("tz", SP::ThrustZ(), d.map(|d| d[2]), 0.0);
    p("mode", SP::GuidanceMode(), Some(match s.mode { GuidanceMode::Coast => 0.0, GuidanceMode::Thrust => 1.0, GuidanceMode::Inhibit => -1.0 }), 0.0);
    p("epoch", SP::Epoch(), None, 0.0);
    for (i, el) in [OE::X, OE::Y, OE::Z].into_iter().enumerate() { p("r", SP::Element(el), Some(r[i]), 0.0); }
    for (i, el) in [OE::VX, OE::VY, OE::VZ].into_iter().enumerate() { p("v", SP::Element(el), Some(v[i]), 0.0); }
    p("rmag", SP::Element(OE::Rmag), Some(norm(r)), 1e-12 * norm(r));
    p("vmag", SP::Element(OE::Vmag), Some(norm(v)), 1e-12 * norm(v));
    if kepj(s).1 {
        p("sma", SP::Element(OE::SemiMajorAxis), Some(k[0]), 1e-8 * k[0]);
        p("ecc", SP::Element(OE::Eccentricity), Some(k[1]), 1e-8);
        for (i, el) in [(2, OE::Inclination), (3, OE::RAAN), (4, OE::AoP), (5, OE::TrueAnomaly)] {
            // angles wrap
            let got = s.value(SP::Element(el)).map(|g| { let d = (g - k[i]).rem_euclid(360.0); d.min(360.0 - d) });
            if !matches!(got, Ok(d) if d < 1e-4) { w.push((format!("{el:?}"), got.map_err(|_| ()), None, 0.0)); }
        }
    }
    let mut o: Vec<String> = w.into_iter().filter(|(_, g, want, tol)| match (g, want) { (Ok(g), Some(x)) => !((g - x).abs() <= *tol), (Err(()), None) => false, _ => true }).map(|x| x.0).collect();
    // the thrust angles in the local frames
    if norm(cross(r, v)) > 1e-3 * norm(r) * norm(v) {
        for (lf, kind) in [(LocalFrame::Inertial, 0), (LocalFrame::RIC, 1), (LocalFrame::RCN, 1), (LocalFrame::VNC, 2)] {
            let got = (s.value(SP::ThrustInPlane(lf)), s.value(SP::ThrustOutOfPlane(lf)));
            match (got, d) {
                ((Ok(a), Ok(b)), Some(d)) => {
                    let ax = axes(kind, r, v);
                    let u = [dot(ax[0], d), dot(ax[1], d), dot(ax[2], d)];
                    let (a, b) = (a.to_radians(), b.to_radians());
                    let w = [b.cos() * a.cos(), b.cos() * a.sin(), b.sin()];
                    if !(norm(sub(u, w)) < 1e-6) { o.push(format!("angles {lf:?}")); }
                }
                ((Err(_), Err(_)), None) => {}
                _ => o.push(format!("angles {lf:?}")),
            }
        }
    }
    o
}
struct Op { op: &'static str, p: Value, v: Value, e: i64, f: Box<dyn FnOnce(Spacecraft, &mut Option<M9>) -> Result<Spacecraft, ()> + Send>, mag: u8 }
fn mkop(op: &'static str, p: Value, v: Value, f: impl FnOnce(Spacecraft, &mut Option<M9>) -> Result<Spacecraft, ()> + Send + 'static) -> Op { Op { op, p, v, e: 0, f: Box::new(f), mag: 0 } }
fn setop(p: &'static str, sp: SP, val: f64, unit: f64) -> Op {
    mkop("set", json!(p), json!(clampi(val / unit)), move |mut s, _| { let o = s; match s.set_value(sp, val) { Ok(()) => Ok(s), Err(_) => if changed(&o, &s).is_empty() { Err(()) } else { Ok(s) } } })
}
fn make(kind: &str, r: &mut Rng64) -> Op {
    let el = |e: OE| SP::Element(e);
    let pos = |r: &mut Rng64| (r.r(-20000.0, 20000.0) * 1e3).round() * 1e-3;
    let vel = |r: &mut Rng64| (r.r(-8.0, 8.0) * 1e6).round() * 1e-6;
    match kind {
        "x" => setop("x", el(OE::X), pos(r), 1e-3),
        "y" => setop("y", el(OE::Y), pos(r), 1e-3),
        "z" => setop("z", el(OE::Z), pos(r), 1e-3),
        "vx" => setop("vx", el(OE::VX), vel(r), 1e-6),
        "vy" => setop("vy", el(OE::VY), vel(r), 1e-6),
        "vz" => setop("vz", el(OE::VZ), vel(r), 1e-6),
        "cr" => setop("cr", SP::Cr(), r.r(0.0, 2.0), 1e-6),
        "cd" => setop("cd", SP::Cd(), r.r(0.1, 4.0), 1e-6),
        "prop" => setop("prop", SP::PropMass(), r.r(0.0, 500.0), 1e-3),
        "dry" => setop("dry", SP::DryMass(), r.r(1.0, 2000.0), 1e-3),
        "isp" => setop("isp", SP::Isp(), r.r(100.0, 3000.0), 1e-3),
        "thr" => setop("thr", SP::Thrust(), r.r(0.01, 500.0), 1e-3),
        "tx" | "ty" | "tz" => {
            let v = *r.pick(&[1.0, -1.0, 0.5, -0.25, 2.0, 1.5]);
            match kind { "tx" => setop("tx", SP::ThrustX(), v, 1e-4), "ty" => setop("ty", SP::ThrustY(), v, 1e-4), _ => setop("tz", SP::ThrustZ(), v, 1e-4) }
        }
        // a component of nothing: whatever the direction is afterwards, it is one
        "t0" => { let (p, sp) = *r.pick(&[("tx", SP::ThrustX()), ("ty", SP::ThrustY()), ("tz", SP::ThrustZ())]); setop(p, sp, 0.0, 1e-4) }
        "sma" => setop("sma", el(OE::SemiMajorAxis), r.r(7000.0, 60000.0), 1e-3),
        "ecc" => setop("ecc", el(OE::Eccentricity), r.r(0.02, 0.8), 1e-8),
        "inc" => setop("inc", el(OE::Inclination), r.r(2.0, 178.0), 1e-6),
        "raan" => setop("raan", el(OE::RAAN), r.r(0.0, 359.9), 1e-6),
        "aop" => setop("aop", el(OE::AoP), r.r(0.0, 359.9), 1e-6),
        "ta" => setop("ta", el(OE::TrueAnomaly), r.r(0.0, 359.9), 1e-6),
        "rmag" => { let mut o = setop("rmag", el(OE::Rmag), r.r(6600.0, 40000.0), 1e-3); o.mag = 1; o }
        "vmag" => { let mut o = setop("vmag", el(OE::Vmag), r.r(1.0, 9.0), 1e-6); o.mag = 2; o }
        "total" => setop("total", SP::TotalMass(), 12.0, 1e-3),
        "ro" => { let (p, sp) = *r.pick(&[("mode", SP::GuidanceMode()), ("epoch", SP::Epoch()), ("bdotr", SP::BdotR()), ("bdott", SP::BdotT()), ("period", SP::Element(OE::Period)), ("energy", SP::Element(OE::Energy)),
            ("inplane", SP::ThrustInPlane(LocalFrame::VNC)), ("outplane", SP::ThrustOutOfPlane(LocalFrame::RIC)), ("apo", SP::Element(OE::ApoapsisRadius)), ("decl", SP::Element(OE::Declination))]); setop(p, sp, 1.0, 1.0) }
        "with" => {
            let (a, b) = ((r.r(0.1, 50.0) * 1e4).round() * 1e-4, (r.r(0.1, 1.9) * 1e6).round() * 1e-6);
            match r.u(8) {
                0 => mkop("with", json!(["sa", "cr"]), json!([clampi(a / 1e-4), clampi(b / 1e-6)]), move |s, _| Ok(s.with_srp(a, b))),
                1 => mkop("with", json!(["da", "cd"]), json!([clampi(a / 1e-4), clampi(b / 1e-6)]), move |s, _| Ok(s.with_drag(a, b))),
                2 => mkop("with", json!(["sa"]), json!([clampi(a / 1e-4)]), move |s, _| Ok(s.with_srp_area(a))),
                3 => mkop("with", json!(["da"]), json!([clampi(a / 1e-4)]), move |s, _| Ok(s.with_drag_area(a))),
                4 => mkop("with", json!(["cr"]), json!([clampi(b / 1e-6)]), move |s, _| Ok(s.with_cr(b))),
                5 => mkop("with", json!(["cd"]), json!([clampi(b / 1e-6)]), move |s, _| Ok(s.with_cd(b))),
                6 => mkop("with", json!(["dry"]), json!([clampi(a / 1e-3)]), move |s, _| Ok(s.with_dry_mass(a))),
                _ => mkop("with", json!(["prop"]), json!([clampi(a / 1e-3)]), move |s, _| Ok(s.with_prop_mass(a))),
            }
        }
        "vec" | "add9" | "add6" => {
            let k = if kind == "vec" { 1.0 } else { 0.01 };
            let mut v = OVector::<f64, Const<9>>::zeros();
            for i in 0..3 { v[i] = pos(r) * k; }
            for i in 3..6 { v[i] = vel(r) * k; }
            v[6] = *r.pick(&[0.3, 1.2, 1.9, -0.5, 2.6, -1.2]);
            v[7] = if kind == "vec" { r.r(0.1, 3.0) } else { r.r(-4.0, 3.0) };
            v[8] = if kind == "vec" { r.r(0.0, 100.0) } else { r.r(-60.0, 100.0) };
            if kind == "add6" { v[6] = 0.0; v[7] = 0.0; v[8] = 0.0; }
            let units = [1e-3, 1e-3, 1e-3, 1e-6, 1e-6, 1e-6, 1e-6, 1e-6, 1e-3];
            let vj = json!((0..9).map(|i| clampi(v[i] / units[i])).collect::<Vec<_>>());
            let e = r.i(-100000, 100000);
            let m = M9::from_fn(|_, _| r.r(-1.0, 1.0));
            let kd = kind.to_string();
            let mut o = mkop(match kind { "vec" => "vec", "add9" => "add9", _ => "add6" }, json!(""), vj, move |s, given| {
                match kd.as_str() {
                    "vec" => {
                        let mut full = OVector::<f64, Const<90>>::zeros();
                        for i in 0..9 { full[i] = v[i]; }
                        for (i, x) in m.as_slice().iter().enumerate() { full[9 + i] = *x; }
                        *given = Some(m);
                        let mut s = s;
                        s.set(t0() + (e as f64).seconds(), &full);
                        // and back
                        let back = s.to_vector();
                        let want = if s.stm.is_some() { full } else { let mut f = full; for i in 9..90 { f[i] = 0.0; } f };
                        for i in 0..90 { if i != 6 && back[i] != want[i] { return Err(()); } }
                        Ok(s)
                    }
                    "add9" => Ok(State::add(s, v)),
                    _ => Ok(s + OVector::<f64, Const<6>>::from_iterator((0..6).map(|i| v[i]))),
                }
            });
            o.e = e;
            o
        }
        "epoch" => { let e = r.i(-100000, 100000); let mut o = mkop("epoch", json!(""), json!(0), move |mut s, _| { s.set_epoch(t0() + (e as f64).seconds()); Ok(s) }); o.e = e; o }
        "dv" => { let d = [vel(r) * 0.1, vel(r) * 0.1, vel(r) * 0.1]; mkop("dv", json!(""), json!(d.map(|x| clampi(x / 1e-6))), move |s, _| Ok(s.with_dv_km_s(Vector3::new(d[0], d[1], d[2])))) }
        "enable" => if r.b() { mkop("enable", json!(""), json!(0), |s, _| Ok(s.with_stm())) } else { mkop("enable", json!(""), json!(0), |mut s, _| { s.enable_stm(); Ok(s) }) },
        "reset" => mkop("reset", json!(""), json!(0), |mut s, _| { s.reset_stm(); Ok(s) }),
        "unset" => mkop("unset", json!(""), json!(0), |mut s, _| { s.unset_stm(); Ok(s) }),
        "mode" => { let m = *r.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit]); let b = r.b(); mkop("mode", json!(""), json!(modeno(m)), move |mut s, _| Ok(if b { s.with_guidance_mode(m) } else { s.mut_mode(m); s })) }
        _ => { let d = loop { let d = [r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]; if norm(d) > 0.1 { break d; } }; mkop("dir", json!(""), json!(d.map(|x| clampi(x / 1e-4))), move |mut s, _| { s.mut_thrust_direction(Some(Vector3::new(d[0], d[1], d[2]))); Ok(s) }) }
    }
}
const ALL: [&str; 37] = ["x", "y", "z", "vx", "vy", "vz", "cr", "cd", "prop", "dry", "isp", "thr", "tx", "ty", "tz", "t0", "sma", "ecc", "inc", "raan", "aop", "ta", "rmag", "vmag", "total", "ro", "with", "with", "vec", "add9", "add6", "epoch", "dv", "enable", "reset", "unset", "mode"];
fn start(r: &mut Rng64, thr: bool) -> Spacecraft {
    // a well conditioned orbit, in Cartesian form by the textbook
    let (a, e, inc, raan, aop, ta) = (r.r(7000.0, 42000.0), r.r(0.02, 0.7), r.r(5.0f64, 175.0).to_radians(), r.r(0.0, 6.28), r.r(0.0, 6.28), r.r(0.0, 6.28));
    let p = a * (1.0 - e * e);
    let rr = p / (1.0 + e * f64::cos(ta));
    let (pf, qf) = ([raan.cos() * f64::cos(aop) - raan.sin() * f64::sin(aop) * inc.cos(), raan.sin() * f64::cos(aop) + raan.cos() * f64::sin(aop) * inc.cos(), f64::sin(aop) * inc.sin()],
        [-raan.cos() * f64::sin(aop) - raan.sin() * f64::cos(aop) * inc.cos(), -raan.sin() * f64::sin(aop) + raan.cos() * f64::cos(aop) * inc.cos(), f64::cos(aop) * inc.sin()]);
    let k = (MU / p).sqrt();
    let (x, v) = (add(sc(rr * f64::cos(ta), pf), sc(rr * f64::sin(ta), qf)), add(sc(-k * f64::sin(ta), pf), sc(k * (e + f64::cos(ta)), qf)));
    let o = Orbit { radius_km: Vector3::new(x[0], x[1], x[2]), velocity_km_s: Vector3::new(v[0], v[1], v[2]), epoch: t0(), frame: frame() };
    let mut s = Spacecraft::new(o, r.r(10.0, 2000.0), r.r(0.0, 500.0), r.r(0.1, 50.0), r.r(0.1, 50.0), r.r(0.0, 2.0), r.r(0.5, 4.0));
    s.mass.extra_mass_kg = r.r(0.0, 20.0);
    if thr { s.thruster = Some(Thruster { thrust_N: r.r(0.1, 400.0), isp_s: r.r(200.0, 3000.0) }); }
    s.mode = *r.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit]);
    if r.b() { s.mut_thrust_direction(Some(Vector3::new(r.r(-1.0, 1.0), r.r(0.1, 1.0), r.r(-1.0, 1.0)))); }
    if r.b() { s.enable_stm(); }
    s
}
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut specs: Vec<(String, bool, Vec<String>)> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() { specs.push((format!("s{i}"), s["thr"] == true, s["ops"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect())); }
    for i in 0..ctx.n(400, 6000) {
        let mut r = ctx.rng(&format!("spec{i}"));
        let n = 2 + r.u(10);
        specs.push((format!("r{i}"), r.b(), (0..n).map(|_| if r.u(12) == 0 { "dir".into() } else { r.pick(&ALL).to_string() }).collect()));
    }
    let mut out = vec![];
    for (id, thr, ops) in specs {
        let mut r = ctx.rng(&id);
        let s0 = start(&mut r, thr);
        let ops: Vec<Op> = ops.iter().map(|o| make(o, &mut r)).collect();
        let eqk = r.u(10);
        out.push(case(id, json!({"obs": snap(&s0, &None), "kep": kepj(&s0).0}), move |rec| {
            let (mut s, mut given) = (s0, None);
            for o in ops {
                let before = s;
                let wb = kepj(&before).1;
                // setting an element of an orbit which is not an ellipse is left out
                if o.op == "set" && ["sma", "ecc", "inc", "raan", "aop", "ta"].contains(&o.p.as_str().unwrap()) && !wb { continue; }
                if matches!(o.op, "set") && o.mag > 0 && { let (a, b) = rv(&s); norm(a) < 1.0 || norm(b) < 1e-3 } { continue; }
                let got = (o.f)(s, &mut given);
                let ok = got.is_ok();
                if let Ok(n) = got { s = n; }
                let (k, wa) = kepj(&s);
                let fin = raw(&s).iter().all(|x| x.1.is_finite());
                let (a, b) = (rv(&before), rv(&s));
                let (mag, turned) = match o.mag { 1 => (norm(b.0) / 1e-3, norm(sub(hat(a.0), hat(b.0)))), 2 => (norm(b.1) / 1e-6, norm(sub(hat(a.1), hat(b.1)))), _ => (0.0, 0.0) };
                rec.ev("op", json!({"op": o.op, "p": o.p, "v": o.v, "e": o.e, "ok": ok, "obs": snap(&s, &given), "chg": changed(&before, &s), "reads": if fin { reads(&s) } else { vec![] }, "kep": k, "well": wa && wb, "fin": fin,
                    "mag": clampi(mag), "turned": clampi(turned / 1e-7 * 1000.0)}));
            }
            // equality: what is compared, and how closely
            let mut t = s;
            let want = match eqk {
                0 => true,
                1 => { t.orbit.radius_km[1] += 1e-7 * (1.0 + t.orbit.radius_km[1].abs()); false }
                2 => { t.orbit.velocity_km_s[2] += 1e-6; false }
                3 => { t.mass.prop_mass_kg += 1e-3; false }
                4 => { t.mass.dry_mass_kg -= 1e-3; t.mass.prop_mass_kg += 1e-3; false }
                5 => { t.srp.area_m2 += 1e-3; false }
                6 => { t.drag.coeff_drag += 1e-3; false }
                7 => { t.srp.coeff_reflectivity += 1e-3; false }
                8 => { t.orbit.epoch += 1.0.seconds(); false }
                _ => { t.stm = None; true }
            };
            if raw(&s).iter().all(|x| x.1.is_finite()) { rec.ev("eq", json!({"got": s == t, "want": want})); rec.ev("eq", json!({"got": t == s, "want": want})); }
        }));
    }
    out
}
