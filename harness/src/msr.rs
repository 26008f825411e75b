//! P21: measurement models of ground stations, inter-satellite links, position devices and ground assets against an independent geometry.
use crate::gs::*;
use crate::kepler::kepler;
use crate::num::*;
use crate::od::rv;
use crate::sc::*;
use crate::util::*;
use crate::world::*;
use anise::constants::frames::*;
use anise::prelude::*;
use hifitime::{Duration, Epoch, TimeUnits};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, OVector};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::trajectory::Traj;
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::noise::*;
use nyx_space::od::position::PositionDevice;
use nyx_space::od::prelude::sensitivity::TrackerSensitivity;
use nyx_space::od::prelude::*;
use nyx_space::propagators::*;
use serde_json::{Value, json};
use MeasurementType as MT;

fn name(t: MT) -> &'static str { match t { MT::Range => "Range", MT::Doppler => "Doppler", MT::Azimuth => "Azimuth", MT::Elevation => "Elevation", MT::X => "X", MT::Y => "Y", MT::Z => "Z", _ => "other" } }
fn white(s: f64) -> StochasticNoise { StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: s }), bias: None } }
/// Earth centred J2000 position and velocity of a state in any frame of the world
fn j2000(o: Orbit) -> (V3, V3) { let q = world().transform_to(o, EARTH_J2000, None).unwrap(); (v3(q.radius_km), v3(q.velocity_km_s)) }
fn v3(v: nalgebra::Vector3<f64>) -> V3 { [v.x, v.y, v.z] }
/// A vehicle in two body motion about the Earth or the Moon, followed in closed form
#[derive(Clone, Copy)]
struct Veh { x0: Spacecraft, mu: f64 }
impl Veh {
    fn own(&self, e: Epoch) -> (V3, V3) { let (r, v) = rv(&self.x0); kepler(r, v, (e - self.x0.epoch()).to_seconds(), self.mu) }
    fn orbit(&self, e: Epoch) -> Orbit { let (r, v) = self.own(e); Orbit::new(r[0], r[1], r[2], v[0], v[1], v[2], e, self.x0.orbit.frame) }
    fn at(&self, e: Epoch) -> (V3, V3) { j2000(self.orbit(e)) }
}
fn kep_traj(v: &Veh, span: Duration, step: Duration) -> Traj<Spacecraft> {
    let p = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::builder().init_step(step * 0.5).min_step(1.seconds()).max_step(step).tolerance(1e-12).build());
    p.with(v.x0, world()).for_duration_with_traj(span).unwrap().1
}
/// distance from the origin c of the segment a b
fn seg_dist(a: V3, b: V3, c: V3) -> f64 {
    let d = sub(b, a);
    let t = (dot(sub(c, a), d) / dot(d, d)).clamp(0.0, 1.0);
    norm(sub(add(a, sc(t, d)), c))
}
fn both(a: i64, b: i64) -> i64 { if a == 0 || b == 0 { 0 } else if a == 2 || b == 2 { 2 } else { 1 } }
fn vis_gs(st: &Station, v: &Veh, e: Epoch) -> i64 {
    let (r, vv) = v.at(e);
    let a = st.site.aer(r, vv, e);
    let near_step = !st.ignore && st.mask.len() > 1 && st.mask.iter().any(|m| { let d = (a.az - m.0).abs(); d.min(360.0 - d) < 1e-4 });
    let mut g = if st.margin(&a).abs() < 1e-5 || near_step || a.el > 89.99 { 2 } else if st.margin(&a) > 0.0 { 1 } else { 0 };
    if v.mu == MU_MOON {
        let m = world().translate(MOON_J2000, EARTH_J2000, e, None).unwrap();
        let d = seg_dist(st.site.at(e).0, r, v3(m.radius_km));
        g = both(g, if (d - 1737.4).abs() < 0.1 { 2 } else { (d > 1737.4) as i64 });
    }
    g
}
fn vis_link(tx: &Veh, v: &Veh, e: Epoch) -> i64 {
    let d = seg_dist(tx.at(e).0, v.at(e).0, [0.0; 3]);
    if d > RE_POLE - 1.0 && d < RE + 1.0 { 2 } else { (d > RE) as i64 }
}
fn angle(t: MT, d: f64) -> f64 { if t == MT::Azimuth { (d + 540.0).rem_euclid(360.0) - 180.0 } else { d } }
/// numerical derivative of f with respect to the 6 components of the orbit
fn fd(t: MT, o: Orbit, hr: f64, hv: f64, f: &dyn Fn(Orbit) -> f64) -> [f64; 6] {
    let mut out = [0.0; 6];
    for (i, x) in out.iter_mut().enumerate() {
        let h = if i < 3 { hr } else { hv };
        let g = |s: f64| { let mut q = o; if i < 3 { q.radius_km[i] += s } else { q.velocity_km_s[i - 3] += s } f(q) };
        *x = angle(t, g(h) - g(-h)) / (2.0 * h);
    }
    out
}
#[derive(Clone)]
enum Dev { Gs(Station), Link(Veh, Traj<Spacecraft>), Pos }

pub fn cases21(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    type Sp = (String, String, Vec<(String, String)>, bool, String);
    let mut specs: Vec<Sp> = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        specs.push((format!("scen{i}"), s["dev"].as_str().unwrap().into(), s["ops"].as_array().unwrap().iter().map(|o| (o["op"].as_str().unwrap().to_string(), o["t"].as_str().unwrap().to_string())).collect(), s["int"].as_bool().unwrap(), s["place"].as_str().unwrap().into()));
    }
    let keep = ctx.n(400, 6000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(400, 8000) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let dev = r.pick(&["gs", "gs", "moon", "link", "link", "pos", "asset"]).to_string();
        let ty: Vec<&str> = match dev.as_str() { "gs" | "moon" => vec!["Range", "Doppler", "Azimuth", "Elevation"], "pos" => vec!["X", "Y", "Z"], _ => vec!["Range", "Doppler"] };
        let ops = (0..1 + r.u(5)).map(|_| (r.pick(&["add", "add", "del"]).to_string(), r.pick(&ty).to_string())).collect();
        let place = r.pick(&["in", "in", "in", "edge-in", "edge-out", "out", "any", "start", "past"]).to_string();
        specs.push((id, dev, ops, r.b(), place));
    }
    for (id, dev, ops, int, place) in specs {
        if dev == "asset" { v.push(asset(ctx, id, ops, int, place)); continue; }
        let mut r = ctx.rng(&id);
        let moon = dev == "moon";
        let veh = if moon {
            let f = world().frame_info(MOON_J2000).unwrap();
            let ecc = r.r(0.0, 0.3);
            Veh { x0: Spacecraft::from(Orbit::try_keplerian(r.r(1900.0, 9000.0) / (1.0 - ecc), ecc, r.r(5.0, 175.0), r.r(0.0, 360.0), r.r(0.0, 360.0), r.r(0.0, 360.0), epoch0(), f).unwrap()), mu: MU_MOON }
        } else { let hi = *r.pick(&[9000.0, 30000.0]); Veh { x0: rand_world_sc(&mut r, 6900.0, hi), mu: MU } };
        let x0e = veh.x0.epoch();
        let span = if moon { 8.hours() } else { 2.hours() };
        let mid = x0e + span * r.r(0.3, 0.7);
        let d_int = Duration::from_total_nanoseconds(r.i(1, 40) as i128 * 1_000_000_000 + r.i(0, 999_999_999) as i128);
        let device = match dev.as_str() {
            "gs" | "moon" => {
                let mut st = rand_station(&mut r, "GS", true);
                if r.u(5) > 0 || moon {
                    // a station from which the vehicle is in sight around mid
                    let (rr, _) = veh.at(mid);
                    let m = body_to_j2000(mid);
                    let f = [0, 1, 2].map(|i| m[0][i] * rr[0] + m[1][i] * rr[1] + m[2][i] * rr[2]);
                    st.site = Site { lat: ((f[2] / norm(f)).asin().to_degrees() + r.r(-8.0, 8.0)).clamp(-85.0, 85.0), lon: (f[1].atan2(f[0]).to_degrees() + r.r(-8.0, 8.0)).rem_euclid(360.0), h: r.r(0.0, 4.0) };
                }
                st.types = vec![];
                Dev::Gs(st)
            }
            "link" => {
                let hi = *r.pick(&[9000.0, 30000.0]);
                let tx = Veh { x0: rand_world_sc(&mut r, 6900.0, hi), mu: MU };
                let mut t = kep_traj(&tx, span, 2.minutes());
                t.name = Some("GS".into());
                Dev::Link(tx, t)
            }
            _ => Dev::Pos,
        };
        let vis = |e: Epoch| match &device { Dev::Gs(st) => vis_gs(st, &veh, e), Dev::Link(tx, _) => vis_link(tx, &veh, e), _ => 1 };
        // the pass around mid
        let (mut a, mut b) = (mid, mid);
        let st = 5.seconds();
        while a > x0e && vis(a) == 1 { a = a - st; }
        while b < x0e + span && vis(b) == 1 { b = b + st; }
        let end = x0e + span;
        let clampe = |e: Epoch| if e < x0e { x0e } else if e > end { end } else { e };
        let t = match place.as_str() {
            "in" => clampe(a + (b - a) * 0.5), "edge-in" => clampe(a + d_int * 0.5 + st), "edge-out" => clampe(b + d_int * 0.5), "out" => clampe(b + d_int * 3.0 + 1.minutes()),
            "start" => x0e + d_int * r.r(0.0, 0.99), "past" => end + Duration::from_total_nanoseconds(r.i(1, 5_000_000_000) as i128), _ => x0e + span * r.r(0.0, 1.0),
        };
        // the frame in which the vehicle is followed
        let fr = if moon { MOON_J2000 } else { *r.pick(&[EARTH_J2000, EARTH_J2000, EARTH_ECLIPJ2000, IAU_EARTH_FRAME]) };
        let seed = r.i(0, 1 << 40) as u64;
        let kind = if moon { "gs".to_string() } else { dev.clone() };
        v.push(case(id, json!({"dev": kind}), move |rec| {
            let alm = world();
            let mut r = Rng64(rand_pcg::Pcg64Mcg::new(seed as u128 | 1));
            let traj0 = kep_traj(&veh, span, if moon { 4.minutes() } else { 2.minutes() });
            let traj = if fr == EARTH_J2000 || moon { traj0 } else { traj0.to_frame(fr, &alm).unwrap() };
            let mut sig: IndexMap<MT, f64> = IndexMap::new();
            let all = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation, MT::X, MT::Y, MT::Z];
            let mt = |s: &str| *all.iter().find(|t| name(**t) == s).unwrap();
            enum D { G(GroundStation), L(InterlinkTxSpacecraft), P(PositionDevice) }
            let mut d = match &device {
                Dev::Gs(st) => { let mut g = st.to_nyx(); g.stochastic_noises = None; D::G(g) }
                Dev::Link(_, t) => D::L(InterlinkTxSpacecraft { traj: t.clone(), measurement_types: IndexSet::new(), integration_time: None, timestamp_noise_s: None, stochastic_noises: Some(IndexMap::new()), ab_corr: None }),
                Dev::Pos => D::P(PositionDevice::new("GS".into())),
            };
            for (op, t) in &ops {
                let t = mt(t);
                if op == "add" {
                    let s = r.r(1e-4, 1e-2);
                    sig.insert(t, s);
                    d = match d {
                        D::G(g) => D::G(g.with_msr_type(t, white(s))),
                        D::L(mut l) => { l.measurement_types.insert(t); l.stochastic_noises.as_mut().unwrap().insert(t, white(s)); D::L(l) }
                        D::P(p) => D::P(p.with_noise(t, white(s))),
                    };
                    rec.ev("add", json!({"t": name(t)}));
                } else {
                    if let D::G(g) = d { d = D::G(g.without_msr_type(t)); sig.shift_remove(&t); rec.ev("del", json!({"t": name(t)})); }
                }
            }
            let int = int && !matches!(d, D::P(_));
            if int { d = match d { D::G(g) => D::G(g.with_integration_time(Some(d_int))), D::L(mut l) => { l.integration_time = Some(d_int); D::L(l) } x => x }; }
            rec.ev("int", json!({"on": int}));
            let types: IndexSet<MT> = match &d { D::G(g) => g.measurement_types.clone(), D::L(l) => l.measurement_types.clone(), D::P(p) => p.measurement_types.clone() };
            let mut names: Vec<&str> = types.iter().map(|t| name(*t)).collect();
            names.sort();
            rec.ev("cfg", json!({"types": names}));
            // own value of a type for a state, in the frame of the trajectory for positions
            let value = |t: MT, o: Orbit| -> f64 {
                match &device {
                    Dev::Gs(st) => { let (rr, vv) = j2000(o); st.site.value(t, &st.site.aer(rr, vv, o.epoch)) }
                    Dev::Link(tx, _) => { let (rr, vv) = j2000(o); let (tr, tv) = tx.at(o.epoch); let d = sub(rr, tr); if t == MT::Range { norm(d) } else { dot(d, sub(vv, tv)) / norm(d) } }
                    Dev::Pos => { let i = match t { MT::X => 0, MT::Y => 1, _ => 2 }; o.radius_km[i] }
                }
            };
            let own = |e: Epoch| -> Orbit { alm.transform_to(veh.orbit(e), fr, None).unwrap() };
            let vis = |e: Epoch| match &device { Dev::Gs(st) => vis_gs(st, &veh, e), Dev::Link(tx, _) => vis_link(tx, &veh, e), _ => 1 };
            let inside = |e: Epoch| e >= x0e && e <= end;
            // values to compare with
            let expect = |ty: MT, two: bool, inst: bool| -> f64 {
                let own = |e: Epoch| if inst { own(e) } else { traj.at(e).unwrap().orbit };
                let w = value(ty, own(t));
                if !two { return w; }
                // the interpolation is judged elsewhere
                let o = value(ty, own(t - d_int));
                w + 0.5 * angle(ty, o - w)
            };
            let tol = |ty: MT| -> f64 {
                let far = if moon { 10.0 } else { 1.0 };
                match ty {
                    MT::Range | MT::X | MT::Y | MT::Z => 1e-6 * far, MT::Doppler => 1e-8 * far,
                    _ => if let Dev::Gs(st) = &device { let (rr, vv) = veh.at(t); let a = st.site.aer(rr, vv, t); (1e-6 / a.range).to_degrees() * far / if ty == MT::Azimuth { a.el.to_radians().cos().max(1e-3) } else { 1.0 } + 1e-8 } else { 1.0 },
                }
            };
            let report = |m: Result<Option<Measurement>, ODError>, two: bool, inst: bool| {
                let (in0, in1) = (inside(t - d_int), inside(t));
                let mut e = json!({"inst": inst, "in0": in0, "in1": in1, "vis0": if in0 { vis(t - d_int) } else { 0 }, "vis1": if in1 { vis(t) } else { 0 }, "types": Vec::<&str>::new(), "val": 0, "stamp": true});
                match m {
                    Err(x) => { e["got"] = json!("err"); e["msg"] = json!(errs(&x)); }
                    Ok(None) => { e["got"] = json!("none"); }
                    Ok(Some(m)) => {
                        e["got"] = json!("msr");
                        let mut nn: Vec<&str> = m.data.keys().map(|t| name(*t)).collect();
                        nn.sort();
                        e["types"] = json!(nn);
                        e["stamp"] = json!(m.epoch == t && m.tracker == "GS");
                        if in1 && (in0 || !two) { e["val"] = json!(m.data.iter().map(|(ty, x)| mag(angle(*ty, x - expect(*ty, two, inst)), tol(*ty))).max().unwrap_or(0)); }
                    }
                }
                rec.ev("msr", e);
            };
            let rng_on = r.b();
            // no noise is applied without a generator, nor by one of zero spread
            let m = match &mut d {
                D::G(g) => { if rng_on { for (_, s) in g.stochastic_noises.get_or_insert_with(IndexMap::new).iter_mut() { *s = white(0.0); } } let mut q = rand_pcg::Pcg64Mcg::new(1); let o = g.measure(t, &traj, if rng_on { Some(&mut q) } else { None }, &alm); if rng_on { for (ty, s) in g.stochastic_noises.as_mut().unwrap().iter_mut() { *s = white(sig[ty]); } } o }
                D::L(l) => l.measure(t, &traj, None, &alm),
                D::P(p) => p.measure(t, &traj, None, &alm),
            };
            report(m, int, false);
            if !inside(t) { return; }
            let rx = Spacecraft::from(own(t));
            let m = match &mut d { D::G(g) => g.measure_instantaneous(rx, None, &alm), D::L(l) => l.measure_instantaneous(rx, None, &alm), D::P(p) => p.measure_instantaneous(rx, None, &alm) };
            report(m, false, true);
            if let (D::G(g), Dev::Gs(st)) = (&d, &device) {
                let q = g.azimuth_elevation_of(rx.orbit, None, &alm).unwrap();
                let (rr, vv) = veh.at(t);
                let a = st.site.aer(rr, vv, t);
                rec.ev("aer", json!({"dev": mag(q.range_km - a.range, tol(MT::Range)).max(mag(q.range_rate_km_s - a.rate, tol(MT::Doppler))).max(mag(angle(MT::Azimuth, q.azimuth_deg - a.az), tol(MT::Azimuth))).max(mag(q.elevation_deg - a.el, tol(MT::Elevation)))}));
            }
            // sensitivity: the device, its types in any order, some of them missing in the measurement, whatever the values observed
            let sup: Vec<MT> = match &device { Dev::Gs(_) => vec![MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation], Dev::Link(..) => vec![MT::Range, MT::Doppler], Dev::Pos => vec![MT::X, MT::Y, MT::Z] };
            let mut ask = sup.clone();
            for i in (1..ask.len()).rev() { let j = r.u(i + 1); ask.swap(i, j); }
            let mut m = Measurement::new("GS".into(), t);
            for ty in &sup { if r.u(4) > 0 { let x = value(*ty, rx.orbit); m.push(*ty, x * r.r(0.5, 1.5) + r.r(-1.0, 1.0)); } }
            let aset: IndexSet<MT> = ask.iter().copied().collect();
            type M4 = Const<4>;
            let h = match &d { D::G(g) => g.h_tilde::<M4>(&m, &aset, &rx, &alm), D::L(l) => l.h_tilde::<M4>(&m, &aset, &rx, &alm), D::P(p) => p.h_tilde::<M4>(&m, &aset, &rx, &alm) };
            match h {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok(h) => {
                    let mut rows = vec![];
                    // distance to the device and the relative speed, for scale
                    let rho = match &device { Dev::Pos => 7000.0, _ => value(MT::Range, rx.orbit) };
                    let sp = norm(rv(&rx).1) + 1.0;
                    let el = if let Dev::Gs(st) = &device { let (rr, vv) = veh.at(t); st.site.aer(rr, vv, t).el } else { 0.0 };
                    for (i, ty) in ask.iter().enumerate() {
                        let have = m.data.contains_key(ty);
                        let row: Vec<f64> = (0..9).map(|j| h[(i, j)]).collect();
                        let hor = rho * if *ty == MT::Azimuth { el.to_radians().cos() } else { 1.0 };
                        let n = fd(*ty, rx.orbit, 1e-5 * hor, 1e-3, &|o| value(*ty, o));
                        let s_pos = match ty { MT::Range | MT::X | MT::Y | MT::Z => 1.0, MT::Doppler => sp / rho, _ => 57.3 / hor };
                        let s_vel = match ty { MT::Doppler => 1.0, _ => s_pos * 100.0 };
                        let dev = (0..3).map(|j| mag(row[j] - n[j], s_pos * 1e-6).max(mag(row[3 + j] - n[3 + j], s_vel * 1e-6))).max().unwrap();
                        let rest = row[6..].iter().all(|x| *x == 0.0);
                        // straight overhead the azimuth has no derivative
                        let skip = *ty == MT::Azimuth && el.abs() > 89.0;
                        rows.push(json!({"t": name(*ty), "have": have, "dev": if skip { 0 } else { dev }, "zero": row.iter().all(|x| *x == 0.0), "rest": rest}));
                    }
                    rec.ev("h", json!({"rows": rows}));
                }
            }
            // covariance of the noises, in the order asked
            let rm = match &d { D::G(g) => g.measurement_covar_matrix::<M4>(&aset, t), D::L(l) => <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar_matrix::<M4>(l, &aset, t), D::P(p) => p.measurement_covar_matrix::<M4>(&aset, t) };
            match rm {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok(q) => rec.ev("cov", json!({"rows": ask.iter().enumerate().map(|(i, ty)| json!({"t": name(*ty), "in": types.contains(ty), "dev": mag(q[(i, i)] - if types.contains(ty) { sig[ty].powi(2) } else { 0.0 }, 1e-18), "off": (0..4).any(|j| j != i && q[(i, j)] != 0.0)})).collect::<Vec<Value>>()})),
            }
            // a type the device cannot measure is an error, not a crash
            let bad = match &device { Dev::Gs(_) => MT::X, Dev::Link(..) => *r.pick(&[MT::Azimuth, MT::X]), Dev::Pos => MT::Range };
            let got = match d {
                D::G(g) => { let mut g = g.with_msr_type(bad, white(1.0)).with_integration_time(None); g.measure_instantaneous(rx, None, &alm) }
                D::L(mut l) => { l.measurement_types.insert(bad); l.integration_time = None; l.measure_instantaneous(rx, None, &alm) }
                D::P(p) => { let mut p = p.with_noise(bad, white(1.0)); p.measure_instantaneous(rx, None, &alm) }
            };
            rec.ev("bad", json!({"vis": vis(t), "got": match got { Err(_) => "err", Ok(None) => "none", _ => "msr" }}));
        }));
    }
    v
}

/// A ground asset, possibly moving, seen by a transmitter in orbit
fn asset(ctx: &Ctx, id: String, ops: Vec<(String, String)>, int: bool, place: String) -> Case {
    let mut r = ctx.rng(&id);
    let hi = *r.pick(&[9000.0, 30000.0]);
    let tx = Veh { x0: rand_world_sc(&mut r, 6900.0, hi), mu: MU };
    let x0e = tx.x0.epoch();
    let span = 40.minutes();
    let end = x0e + span;
    let mid = x0e + span * r.r(0.3, 0.7);
    let (rr, _) = tx.at(mid);
    let m = body_to_j2000(mid);
    let f = [0, 1, 2].map(|i| m[0][i] * rr[0] + m[1][i] * rr[1] + m[2][i] * rr[2]);
    let (lat, lon, h) = (((f[2] / norm(f)).asin().to_degrees() + r.r(-8.0, 8.0)).clamp(-80.0, 80.0), f[1].atan2(f[0]).to_degrees() + r.r(-8.0, 8.0), r.r(0.0, 4.0));
    let moving = r.u(3) > 0;
    let sez = if moving { [r.r(-30.0, 30.0), r.r(-30.0, 30.0), r.r(-0.5, 0.5)] } else { [0.0; 3] };
    let fr = *r.pick(&[EARTH_J2000, EARTH_J2000, IAU_EARTH_FRAME]);
    let d_int = Duration::from_total_nanoseconds(r.i(1, 40) as i128 * 1_000_000_000 + r.i(0, 999_999_999) as i128);
    let seed = r.i(0, 1 << 40) as u64;
    case(id, json!({"dev": "asset"}), move |rec| {
        let alm = world();
        let mut r = Rng64(rand_pcg::Pcg64Mcg::new(seed as u128 | 1));
        let fixed = alm.frame_info(IAU_EARTH_FRAME).unwrap();
        let mut a0 = GroundAsset::from_fixed(lat, lon, h, x0e, fixed);
        if moving { a0 = a0.with_velocity_sez_m_s(sez[0], sez[1], sez[2]).unwrap(); }
        let mut ttraj = kep_traj(&tx, span, 2.minutes());
        if fr != EARTH_J2000 { ttraj = ttraj.to_frame(fr, &alm).unwrap(); }
        ttraj.name = Some("PNT".into());
        // the interpolation is judged elsewhere
        let t2 = ttraj.clone();
        let txat = move |e: Epoch| t2.at(e).map(|s| j2000(s.orbit)).unwrap_or_else(|_| tx.at(e));
        // geodetic rates by our own model: displace along the local axes
        let back = a0.velocity_sez_m_s().unwrap();
        let x = [a0.latitude_deg, a0.longitude_deg, a0.height_km, a0.latitude_rate_deg_s, a0.longitude_rate_deg_s, a0.height_rate_km_s];
        let fix = |x: &[f64; 6], dt: f64| Site { lat: x[0] + x[3] * dt, lon: x[1] + x[4] * dt, h: x[2] + x[5] * dt }.fixed();
        let vfix = |x: &[f64; 6]| { let k = 50.0; sc(1.0 / (2.0 * k), sub(fix(x, k), fix(x, -k))) };
        let (la, lo) = (lat.to_radians(), lon.to_radians());
        let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
        let east = [-lo.sin(), lo.cos(), 0.0];
        let south = sc(-1.0, cross(up, east));
        let vf = vfix(&x);
        let got = [dot(vf, south) * 1e3, dot(vf, east) * 1e3, dot(vf, up) * 1e3];
        rec.ev("rate", json!({"dev": (0..3).map(|i| mag(got[i] - sez[i], 1e-3).max(mag(back[i] - sez[i], 1e-6))).max().unwrap()}));
        // state at time t
        let xa = |e: Epoch| { let dt = (e - x0e).to_seconds(); [x[0] + x[3] * dt, x[1] + x[4] * dt, x[2] + x[5] * dt, x[3], x[4], x[5]] };
        let value = |t: MT, x: &[f64; 6], e: Epoch| -> f64 {
            let site = Site { lat: x[0], lon: x[1], h: x[2] };
            let (s, sv) = site.at(e);
            let sv = add(sv, mul(&body_to_j2000(e), vfix(x)));
            let (tr, tv) = txat(e);
            let d = sub(tr, s);
            if t == MT::Range { norm(d) } else { dot(d, sub(tv, sv)) / norm(d) }
        };
        let vis = |e: Epoch| { let x = xa(e); let (tr, tv) = tx.at(e); let a = Site { lat: x[0], lon: x[1], h: x[2] }.aer(tr, tv, e); if a.el.abs() < 1e-4 { 2 } else { (a.el > 0.0) as i64 } };
        let (mut a, mut b) = (mid, mid);
        let st = 5.seconds();
        while a > x0e && vis(a) == 1 { a = a - st; }
        while b < end && vis(b) == 1 { b = b + st; }
        let clampe = |e: Epoch| if e < x0e { x0e } else if e > end { end } else { e };
        let t = match place.as_str() {
            "in" => clampe(a + (b - a) * 0.5), "edge-in" => clampe(a + d_int * 0.5 + st), "edge-out" => clampe(b + d_int * 0.5), "out" => clampe(b + d_int * 3.0 + 1.minutes()),
            "start" => x0e + d_int * 0.4, "past" => end + 1.seconds(), _ => x0e + span * 0.37,
        };
        let inside = |e: Epoch| e >= x0e && e <= end;
        let prop = Propagator::rk89(GroundDynamics {}, IntegratorOptions::builder().max_step(1.minutes()).build());
        let (xf, traj) = prop.with(a0.with_stm(), alm.clone()).for_duration_with_traj(span).unwrap();
        // the motion, and how deviations grow
        let w = xa(end);
        let dt = span.to_seconds();
        let gv = xf.to_vector();
        let pdev = (0..6).map(|i| mag(gv[i] - w[i], 1e-9)).max().unwrap();
        let phi = xf.stm().unwrap();
        let sdev = (0..6).flat_map(|i| (0..6).map(move |j| (i, j))).map(|(i, j)| mag(phi[(i, j)] - if i == j { 1.0 } else if j == i + 3 { dt } else { 0.0 }, 1e-6)).max().unwrap();
        rec.ev("move", json!({"pos": pdev, "stm": sdev}));
        let mut l = InterlinkTxSpacecraft { traj: ttraj, measurement_types: IndexSet::new(), integration_time: None, timestamp_noise_s: None, stochastic_noises: Some(IndexMap::new()), ab_corr: None };
        for (op, ty) in &ops { if op == "add" {
            let ty = if ty == "Range" { MT::Range } else { MT::Doppler };
            l.measurement_types.insert(ty); l.stochastic_noises.as_mut().unwrap().insert(ty, white(0.0));
            rec.ev("add", json!({"t": name(ty)}));
        } }
        if int { l.integration_time = Some(d_int); }
        rec.ev("int", json!({"on": int}));
        let ms = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut l, t, &traj, None, &alm);
        let (in0, in1) = (inside(t - d_int), inside(t));
        let mut e = json!({"inst": false, "in0": in0, "in1": in1, "vis0": if in0 { vis(t - d_int) } else { 0 }, "vis1": if in1 { vis(t) } else { 0 }, "types": Vec::<&str>::new(), "val": 0, "stamp": true});
        match ms {
            Err(x) => { e["got"] = json!("err"); e["msg"] = json!(errs(&x)); }
            Ok(None) => { e["got"] = json!("none"); }
            Ok(Some(m)) => {
                e["got"] = json!("msr");
                let mut nn: Vec<&str> = m.data.keys().map(|t| name(*t)).collect();
                nn.sort();
                e["types"] = json!(nn);
                e["stamp"] = json!(m.epoch == t);
                if in1 && (in0 || !int) { e["val"] = json!(m.data.iter().map(|(ty, x)| { let mut w = value(*ty, &xa(t), t); if int { w = 0.5 * (w + value(*ty, &xa(t - d_int), t - d_int)); } mag(x - w, if *ty == MT::Range { 1e-5 } else { 1e-7 }) }).max().unwrap_or(0)); }
            }
        }
        rec.ev("msr", e);
        if !inside(t) { return; }
        let rx = traj.at(t).unwrap();
        let mut ask = vec![MT::Range, MT::Doppler];
        if r.b() { ask.reverse(); }
        let mut m = Measurement::new("x".into(), t);
        for ty in &ask { if r.u(4) > 0 { let z = value(*ty, &xa(t), t); m.push(*ty, z * r.r(0.5, 1.5)); } }
        let aset: IndexSet<MT> = ask.iter().copied().collect();
        match TrackerSensitivity::<GroundAsset, GroundAsset>::h_tilde::<Const<2>>(&l, &m, &aset, &rx, &alm) {
            Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
            Ok(hm) => {
                let rows: Vec<Value> = ask.iter().enumerate().map(|(i, ty)| {
                    let row: Vec<f64> = (0..6).map(|j| hm[(i, j)]).collect();
                    let x = xa(t);
                    let rho = value(MT::Range, &x, t);
                    let mut dev = 0;
                    for j in 0..6 {
                        let st = [1e-3 * rho / 1000.0, 1e-3 * rho / 1000.0, 1e-1 * rho / 1000.0, 1e-4, 1e-4, 1e-2][j];
                        let (mut p, mut q) = (x, x);
                        p[j] += st; q[j] -= st;
                        let n = (value(*ty, &p, t) - value(*ty, &q, t)) / (2.0 * st);
                        let k = if j % 3 < 2 { 111.0 } else { 1.0 };
                        let s = match (ty, j < 3) { (MT::Range, true) => k, (MT::Range, false) => k, (_, true) => k * 8.0 / rho, (_, false) => k };
                        dev = dev.max(mag(row[j] - n, s * 1e-5));
                    }
                    json!({"t": name(*ty), "have": m.data.contains_key(ty), "dev": dev, "zero": row.iter().all(|x| *x == 0.0), "rest": true})
                }).collect();
                rec.ev("h", json!({"rows": rows}));
            }
        }
        let _ = OVector::<f64, Const<6>>::zeros();
    })
}
