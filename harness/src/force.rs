//! P24: accelerations and partials of the force models, judged against closed-form laws written here.
use crate::num::*;
use crate::util::*;
use crate::world::*;
use anise::constants::frames::*;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, TimeUnits};
use nyx_space::State;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{DragData, Mass, SRPData, Spacecraft};
use nyx_space::dynamics::*;
use nyx_space::io::gravity::{GravityFieldConfig, GravityFieldData};
use nyx_space::linalg::{Matrix3, Vector3};
use serde_json::json;
use std::sync::Arc;

fn a3(a: Vector3<f64>) -> V3 { [a[0], a[1], a[2]] }
fn v3(a: V3) -> Vector3<f64> { Vector3::new(a[0], a[1], a[2]) }
fn rot(m: &Matrix3<f64>, a: V3) -> V3 { a3(m * v3(a)) }
fn dcm(from: Frame, to: Frame, e: Epoch) -> Matrix3<f64> { world().rotate(from, to, e).unwrap().rot_mat }
/// Position of a body seen from the centre of the frame f, on the axes of f
fn body(id: i32, f: Frame, e: Epoch) -> V3 {
    let j = f.with_orient(1);
    let p = world().translate(Frame::new(id, 1), j, e, None).unwrap().radius_km;
    rot(&dcm(j, f, e), a3(p))
}
pub struct Field { pub deg: usize, pub ord: usize, pub c: Vec<Vec<f64>>, pub s: Vec<Vec<f64>> }
fn fact(n: usize) -> f64 { (1..=n).map(|x| x as f64).product() }
/// Normalised spherical harmonic potential without its central term
fn pot(f: &Field, deg: usize, ord: usize, mu: f64, re: f64, p: V3) -> f64 {
    let r = norm(p);
    let x = p[2] / r;
    let q = (1.0 - x * x).max(0.0).sqrt();
    let lam = p[1].atan2(p[0]);
    let mut u = 0.0;
    for m in 0..=ord.min(deg) {
        // unnormalised P_mm without the Condon-Shortley phase
        let mut pmm = 1.0;
        for k in 1..=m { pmm *= (2 * k - 1) as f64 * q; }
        let (mut a, mut b) = (0.0, pmm);
        for n in m..=deg {
            if n > m {
                let nx = ((2 * n - 1) as f64 * x * b - (n + m - 1) as f64 * a) / (n - m) as f64;
                a = b;
                b = nx;
            }
            if n == 0 { continue; }
            let k = ((if m == 0 { 1.0 } else { 2.0 }) * (2 * n + 1) as f64 * fact(n - m) / fact(n + m)).sqrt();
            u += mu / r * (re / r).powi(n as i32) * k * b * (f.c[n][m] * (m as f64 * lam).cos() + f.s[n][m] * (m as f64 * lam).sin());
        }
    }
    u
}
fn grad8<F: Fn(V3) -> f64>(f: F, p: V3, h: f64) -> V3 {
    let w = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
    let mut g = [0.0; 3];
    for i in 0..3 {
        for (k, wk) in w.iter().enumerate() {
            let d = h * (k + 1) as f64;
            let (mut a, mut b) = (p, p);
            a[i] += d;
            b[i] -= d;
            g[i] += wk * (f(a) - f(b)) / h;
        }
    }
    g
}
fn legendre(n: i32, c: f64) -> (f64, f64) {
    if n == 2 { (1.5 * c * c - 0.5, 3.0 * c) } else { (2.5 * c * c * c - 1.5 * c, 7.5 * c * c - 1.5) }
}
#[derive(Clone)]
enum Model { Pm(Vec<i32>, bool), Gf(Arc<Field>, usize, usize, Frame, Arc<dyn AccelModel + Sync>), St(f64, f64, bool, bool), Srp(f64, Vec<Frame>, bool, Arc<dyn ForceModel>), Drag(AtmDensity, bool, Arc<dyn ForceModel>) }
use nyx_space::dynamics::drag::{AtmDensity, ConstantDrag, Drag};
impl Model {
    fn name(&self) -> &'static str {
        match self { Model::Pm(..) => "pm", Model::Gf(..) => "gf", Model::St(..) => "st", Model::Srp(..) => "srp", Model::Drag(..) => "drag" }
    }
    fn accel(&self) -> Option<Arc<dyn AccelModel + Sync>> {
        Some(match self {
            Model::Pm(b, _) => Arc::new(PointMasses::new(b.clone())),
            Model::Gf(.., m) => m.clone(),
            Model::St(k2, k3, d3, sun) => {
                let w = world();
                let mut pert = vec![solid_tides::TidalPerturber { frame: w.frame_info(MOON_J2000).unwrap(), compute_degree_3: *d3 }];
                if *sun { pert.push(solid_tides::TidalPerturber { frame: w.frame_info(SUN_J2000).unwrap(), compute_degree_3: false }); }
                Arc::new(solid_tides::SolidTides { frame: w.frame_info(IAU_EARTH_FRAME).unwrap(), k2: *k2, k3: *k3, perturbers: pert })
            }
            _ => return None,
        })
    }
    fn force(&self) -> Option<Arc<dyn ForceModel>> {
        match self { Model::Srp(.., m) => Some(m.clone()), Model::Drag(.., m) => Some(m.clone()), _ => None }
    }
}
/// Illumination: Some(1) in full light, Some(0) in full shadow, None in between or too close to tell
fn light(sc: V3, f: Frame, e: Epoch, bodies: &[Frame]) -> Option<f64> {
    let s = sub(body(10, f, e), sc);
    let ds = norm(s);
    let a = (695700.0f64 / ds).asin();
    let mut k = Some(1.0);
    for b in bodies {
        let (lo, hi) = if b.ephemeris_id == 399 { (RE_POLE, RE) } else { (1737.4, 1737.4) };
        let p = sub(body(b.ephemeris_id, f, e), sc);
        let d = norm(p);
        if d > ds { continue; }
        let c = norm(cross(hat(s), hat(p))).atan2(dot(hat(s), hat(p)));
        let (bl, bh) = ((lo / d).min(1.0).asin(), (hi / d).min(1.0).asin());
        if c > a + bh + 2e-3 { continue; }
        if c < bl - a - 2e-3 && bl > a { k = k.map(|_| 0.0); continue; }
        if k != Some(0.0) { k = None; }
    }
    k
}
/// The law of one model: value (acceleration), its scale for the tolerance, or None when the shadow cannot be told
fn law(m: &Model, sc_: &Spacecraft) -> Option<(V3, f64)> {
    let o = sc_.orbit;
    let (r, v, f, e) = (a3(o.radius_km), a3(o.velocity_km_s), o.frame, o.epoch);
    let mass = sc_.mass.dry_mass_kg + sc_.mass.prop_mass_kg + sc_.mass.extra_mass_kg;
    match m {
        Model::Pm(bodies, _) => {
            let (mut a, mut t) = ([0.0; 3], 0.0);
            for b in bodies {
                if *b == f.ephemeris_id { continue; }
                let mu = match b { 10 => MU_SUN, 301 => MU_MOON, 5 => MU_JUP, 399 => crate::sc::MU, _ => unreachable!() };
                let s = body(*b, f, e);
                let d = sub(s, r);
                let (x, y) = (sc(mu / norm(d).powi(3), d), sc(mu / norm(s).powi(3), s));
                a = add(a, sub(x, y));
                t += 1e-14 * (norm(x) + norm(y));
            }
            let n = norm(a);
            Some((a, 1e-9 * n + t))
        }
        Model::Gf(fd, deg, ord, gf, _) => {
            let c = body(gf.ephemeris_id, f, e);
            let m = dcm(f, *gf, e);
            let p = rot(&m, sub(r, c));
            let (mu, re) = (gf.mu_km3_s2().unwrap(), gf.mean_equatorial_radius_km().unwrap());
            let g = grad8(|p| pot(fd, *deg, *ord, mu, re, p), p, 1e-3 * norm(p));
            let a = rot(&m.transpose(), g);
            Some((a, 1e-8 * norm(a) + 1e-12 * (mu / dot(p, p)) * 1e-3))
        }
        Model::St(k2, k3, d3, sun) => {
            let c = body(399, f, e);
            let p = sub(r, c);
            let rm = norm(p);
            let mut a = [0.0; 3];
            for (id, mu, deg3) in [(301, MU_MOON, *d3), (10, MU_SUN, false)] {
                if id == 10 && !*sun { continue; }
                let s = sub(body(id, f, e), c);
                for n in 2..=(if deg3 { 3 } else { 2 }) {
                    let k = if n == 2 { *k2 } else { *k3 };
                    let co = dot(hat(p), hat(s));
                    let (pn, dp) = legendre(n, co);
                    let g = k * mu * RE.powi(2 * n + 1) / norm(s).powi(n + 1) / rm.powi(n + 2);
                    a = add(a, sc(g, sub(sc(dp, sub(hat(s), sc(co, hat(p)))), sc((n + 1) as f64 * pn, hat(p)))));
                }
            }
            Some((a, 1e-9 * norm(a)))
        }
        Model::Srp(phi, bodies, _, _) => {
            let k = light(r, f, e, bodies)?;
            let s = sub(r, body(10, f, e));
            let d = norm(s) / 149597870.7;
            let a = k * 1e-3 * sc_.srp.coeff_reflectivity * sc_.srp.area_m2 * phi / 299792458.0 / (d * d) / mass;
            Some((sc(a, hat(s)), 1e-9 * a + 1e-30))
        }
        Model::Drag(den, _, _) => {
            let w = world();
            let iau = w.frame_info(IAU_EARTH_FRAME).unwrap();
            // velocity of the spacecraft and of the Earth's centre on the axes of f
            let j = f.with_orient(1);
            let ce = w.translate(Frame::new(399, 1), j, e, None).unwrap();
            let toj = dcm(j, f, e);
            let p = sub(r, rot(&toj, a3(ce.radius_km)));
            let pv = sub(v, rot(&toj, a3(ce.velocity_km_s)));
            let m = dcm(f, iau, e);
            let dm = (dcm(f, iau, e + 10.seconds()) - dcm(f, iau, e - 10.seconds())) / 20.0;
            let vr = rot(&m.transpose(), add(rot(&m, pv), rot(&dm, p)));
            let h = norm(p) - RE;
            let rho = match den {
                AtmDensity::Constant(x) => *x,
                AtmDensity::Exponential { rho0, r0, ref_alt_m } => rho0 * ((r0 - 1000.0 * h) / ref_alt_m).exp(),
                AtmDensity::StdAtm { max_alt_m } => {
                    if h * 1e3 > *max_alt_m { 10f64.powf(-7e-5 * h - 14.464) } else {
                        let s = (h - 526.8) / 292.8563;
                        let mut l = 0.34047;
                        for c in [-0.5889, -0.5269, 1.0036, 0.60713, -2.3024, -12.575] { l = l * s + c; }
                        10f64.powf(l)
                    }
                }
            };
            let k = 0.5e3 * rho * sc_.drag.coeff_drag * sc_.drag.area_m2 / mass;
            let a = sc(-k * norm(vr), vr);
            Some((a, 2e-6 * norm(a) + k * norm(vr) * 2e-9 * norm(p) + 1e-30))
        }
    }
}
/// Maximum that keeps NaN
fn nmax(a: f64, b: f64) -> f64 { if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) } }
fn err(a: V3, b: V3, tol: f64) -> i64 { mag(norm(sub(a, b)) / tol.max(1e-300) * 1000.0, 1.0) }
fn rand_dir(r: &mut Rng64) -> V3 { loop { let v = [r.r(-1.0, 1.0), r.r(-1.0, 1.0), r.r(-1.0, 1.0)]; let n = norm(v); if n > 0.2 && n < 1.0 { return sc(1.0 / n, v); } } }
fn frame(name: &str) -> Frame {
    let w = world();
    match name { "eme" => w.frame_info(EARTH_J2000).unwrap(), "moon" => w.frame_info(MOON_J2000).unwrap(), _ => eme_w().with_orient(EARTH_ECLIPJ2000.orientation_id) }
}
/// A spacecraft near the Earth (or the Moon) in the integration frame, lit, shadowed or anywhere
fn craft(r: &mut Rng64, fr: Frame, at: &str, lit: &str) -> Spacecraft {
    let e = Epoch::from_gregorian_utc_hms(2021, 3, 4, 5, 6, 7) + r.r(0.0, 3000.0).days();
    let eme = eme_w();
    let (id, mu, re) = if at == "moon" { (301, MU_MOON, 1737.4) } else { (399, crate::sc::MU, RE) };
    let c = body(id, eme, e);
    let s = hat(sub(body(10, eme, e), c));
    let d = loop {
        let d = rand_dir(r);
        match lit { "shadow" if dot(d, s) > -0.9 => continue, "light" if dot(d, s) < 0.1 => continue, _ => break d }
    };
    let rm = re + if r.u(3) == 0 { r.r(1000.0, 40000.0) } else { r.r(180.0, 1500.0) };
    let rm = if lit == "shadow" { re + r.r(180.0, 1200.0) } else { rm };
    let t = loop { let t = cross(d, rand_dir(r)); if norm(t) > 0.2 { break hat(t); } };
    let vm = (mu / rm).sqrt() * r.r(0.9, 1.3);
    let ce = world().translate(Frame::new(id, 1), eme, e, None).unwrap();
    let p = add(c, sc(rm, d));
    let v = add(a3(ce.velocity_km_s), add(sc(vm, t), sc(vm * r.r(-0.2, 0.2), d)));
    let o = Orbit::cartesian(p[0], p[1], p[2], v[0], v[1], v[2], e, eme);
    let mut o = world().transform_to(o, fr, None).unwrap();
    o.frame = fr;
    Spacecraft::builder().orbit(o)
        .mass(Mass { dry_mass_kg: r.r(10.0, 900.0), prop_mass_kg: r.r(0.0, 500.0), extra_mass_kg: if r.b() { r.r(0.0, 50.0) } else { 0.0 } })
        .srp(SRPData { area_m2: r.r(0.5, 40.0), coeff_reflectivity: r.r(0.2, 1.9) })
        .drag(DragData { area_m2: r.r(0.5, 30.0), coeff_drag: r.r(1.0, 3.0) }).build()
}
/// Writes a field as SHADR or COF (plain or compressed) and loads it back through the library
fn field(r: &mut Rng64, ctx_dir: &std::path::Path, tag: &str) -> (Arc<Field>, usize, usize, Frame, Arc<dyn AccelModel + Sync>, bool) {
    let deg = 2 + r.u(7);
    let (mut c, mut s) = (vec![vec![0.0; deg + 1]; deg + 1], vec![vec![0.0; deg + 1]; deg + 1]);
    let q = |x: f64| -> f64 { format!("{x:.10E}").parse().unwrap() };
    let mut shadr = String::from("  0.6378136460000000E+04,  0.3986004415000000E+06, 0.0, 8, 8, 1, 0.0, 0.0\n");
    let mut cof = String::from("COMMENT   test field\nPOTFIELD  8  8  1 3.98600441500000e+14 6.37813646000000e+06 1.0\n");
    let e2 = |x: f64| { let t = format!("{x:.10E}"); let (m, e) = t.split_once('E').unwrap(); let e: i32 = e.parse().unwrap(); format!("{m}E-{:02}", -e) };
    let first = 1 + r.u(2);
    for n in first..=deg {
        for m in 0..=n {
            let mut g = || { let x = 10f64.powf(r.r(-8.5, -3.5)) * if r.b() { 1.0 } else { -1.0 }; q(x) };
            c[n][m] = g();
            s[n][m] = if m == 0 { 0.0 } else { g() };
            let dexp = |x: f64| format!("{x:.10E}").replace('E', if n % 2 == 0 { "D" } else { "E" });
            shadr.push_str(&format!("{n:5},{m:5}, {}, {}, 0.1E-12, 0.1E-12\n", dexp(c[n][m]), dexp(s[n][m])));
            if m == 0 { cof.push_str(&format!("RECOEF  {n:4}{m:5}   {}\n", e2(c[n][m]))); }
            else { cof.push_str(&format!("RECOEF  {n:4}{m:5}   {}{}{}\n", e2(c[n][m]), if s[n][m] < 0.0 { "" } else { " " }, e2(s[n][m]))); }
        }
    }
    cof.push_str("END\n");
    // as a config, asking for no more than the file holds
    let ad = 2 + r.u(deg - 1);
    let ao = r.u(ad + 1);
    let fmt = r.u(4);
    let gz = fmt >= 2;
    let is_cof = fmt % 2 == 1;
    let name = format!("{tag}.{}", if is_cof { "cof" } else { "sha" });
    let path = ctx_dir.join(&name);
    std::fs::create_dir_all(ctx_dir).unwrap();
    std::fs::write(&path, if is_cof { cof } else { shadr }).unwrap();
    let path = if gz { assert!(std::process::Command::new("gzip").arg("-f").arg(&path).status().unwrap().success()); ctx_dir.join(format!("{name}.gz")) } else { path };
    let moon = r.u(4) == 0;
    let fr = if moon { IAU_MOON_FRAME } else { IAU_EARTH_FRAME };
    let w = world();
    let info = w.frame_info(fr).unwrap();
    let data = match r.u(2) {
        0 => GravityFieldData::from_config(GravityFieldConfig { degree: ad, order: ao, filepath: path.clone(), gunzipped: gz, frame: fr.into() }, &w),
        _ if is_cof => GravityFieldData::from_cof(path.clone(), ad, ao, gz, info),
        _ => GravityFieldData::from_shadr(path.clone(), ad, ao, gz, info),
    };
    let _ = std::fs::remove_file(&path);
    let data = data.expect("field written here loads");
    // what was loaded is what was written, up to the requested degree and order
    let mut same = true;
    for n in first..=ad { for m in 0..=n {
        let want = if m <= ao { (c[n][m], s[n][m]) } else { (0.0, 0.0) };
        let got = data.cs_nm(n, m);
        same &= (got.0 - want.0).abs() <= 1e-15 * want.0.abs() && (got.1 - want.1).abs() <= 1e-15 * want.1.abs();
    } }
    (Arc::new(Field { deg, ord: deg, c, s }), ad, ao, info, GravityField::new(data), same)
}
fn build(r: &mut Rng64, name: &str, dir: &std::path::Path, tag: &str, rec: &Rec) -> Model {
    let w = world();
    match name {
        "pm" => Model::Pm(match r.u(4) { 0 => vec![301], 1 => vec![10, 301], 2 => vec![399, 301, 10, 5], _ => vec![10, 399, 301] }, true),
        "gf" => {
            let (f, d, o, fr, m, same) = field(r, dir, tag);
            rec.ev("load", json!({"same": same, "full": f.deg == d && f.ord == o}));
            Model::Gf(f, d, o, fr, m)
        }
        "st" => Model::St(r.r(0.1, 0.5), r.r(0.02, 0.2), r.b(), r.b()),
        "srp" => {
            let b: Vec<Frame> = match r.u(3) { 0 => vec![], 1 => vec![w.frame_info(EARTH_J2000).unwrap()], _ => vec![w.frame_info(EARTH_J2000).unwrap(), w.frame_info(MOON_J2000).unwrap()] };
            let phi = if r.b() { 1367.0 } else { r.r(900.0, 1500.0) };
            let est = r.b();
            let m: Arc<dyn ForceModel> = match (phi == 1367.0, est) {
                (true, true) => solarpressure::SolarPressure::new(b.clone(), &w).unwrap(),
                (true, false) => solarpressure::SolarPressure::default_no_estimation(b.clone(), &w).unwrap(),
                (false, true) => solarpressure::SolarPressure::with_flux(phi, b.clone(), &w).unwrap(),
                _ => Arc::new(solarpressure::SolarPressure { phi, shadow_model: ShadowModel { light_source: w.frame_info(SUN_J2000).unwrap(), shadow_bodies: b.clone() }, estimate: false }),
            };
            Model::Srp(phi, b, est, m)
        }
        _ => {
            let iau = w.frame_info(IAU_EARTH_FRAME).unwrap();
            match r.u(5) {
                0 => { let rho = 10f64.powf(r.r(-14.0, -11.0)); Model::Drag(AtmDensity::Constant(rho), false, Arc::new(ConstantDrag { rho, frame: iau, estimate: false })) }
                1 => { let d = AtmDensity::Constant(10f64.powf(r.r(-14.0, -11.0))); Model::Drag(d, false, Arc::new(Drag { density: d, frame: iau, estimate: r.b() })) }
                2 => { let d = Drag::earth_exp(&w).unwrap(); Model::Drag(d.density, false, d) }
                3 => { let d = AtmDensity::Exponential { rho0: 10f64.powf(r.r(-13.5, -11.0)), r0: r.r(200e3, 900e3), ref_alt_m: r.r(40e3, 120e3) }; Model::Drag(d, false, Arc::new(Drag { density: d, frame: iau, estimate: false })) }
                _ => { let d = Drag::std_atm1976(&w).unwrap(); Model::Drag(d.density, false, d) }
            }
        }
    }
}
/// What is integrated is in the vector: the context it is set in may have been left anywhere
fn elsewhere(s: &Spacecraft) -> Spacecraft {
    let mut t = *s;
    t.orbit.radius_km *= 1.1;
    t.orbit.velocity_km_s *= 0.8;
    t.mass.prop_mass_kg = t.mass.prop_mass_kg * 1.7 + 3.0;
    t.srp.coeff_reflectivity *= 0.5;
    t.drag.coeff_drag *= 0.4;
    t
}
fn total(dynm: &SpacecraftDynamics, s: &Spacecraft) -> Result<V3, String> {
    let x = dynm.eom(0.0, &s.to_vector(), &elsewhere(s), &world()).map_err(|e| errs(&e))?;
    Ok([x[3], x[4], x[5]])
}
fn eom1(m: &Model, s: &Spacecraft) -> Result<V3, String> {
    let w = world();
    match (m.accel(), m.force()) {
        (Some(a), _) => a.eom(&s.orbit, &w).map(a3).map_err(|e| errs(&e)),
        (_, Some(f)) => f.eom(s, &w).map(|x| sc(1.0 / s.mass_kg(), a3(x))).map_err(|e| errs(&e)),
        _ => unreachable!(),
    }
}
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    let reps = ctx.n(4, 60);
    for sce in ctx.scen.iter() {
        for rep in 0..reps {
            let names: Vec<String> = sce["models"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
            let (fr, at, lit) = (sce["frame"].as_str().unwrap().to_string(), sce["at"].as_str().unwrap().to_string(), sce["lit"].as_str().unwrap().to_string());
            let massless = sce["massless"].as_bool().unwrap();
            let id = format!("m:{}:{fr}:{at}:{lit}:{massless}:{rep}", names.join("+"));
            let mut r = ctx.rng(&id);
            // a model may be there twice, with other parameters
            let mut names = names;
            if !names.is_empty() && r.u(3) == 0 { let n = names[r.u(names.len())].clone(); names.push(n); }
            let dir = ctx.scratch.join("fields");
            let tag = id.replace([':', '+'], "_");
            out.push(case(id, json!({"models": names, "massless": massless}), move |rec| one(rec, &mut r, &names, &fr, &at, &lit, massless, &dir, &tag)));
        }
    }
    out
}
fn one(rec: &Rec, r: &mut Rng64, names: &[String], fr: &str, at: &str, lit: &str, massless: bool, dir: &std::path::Path, tag: &str) {
    let f = frame(fr);
    let mut s = craft(r, f, at, lit);
    let mut models: Vec<Model> = names.iter().map(|n| build(r, n, dir, tag, rec)).collect();
    for i in (1..models.len()).rev() { let j = r.u(i + 1); models.swap(i, j); }
    let mut acc: Vec<Arc<dyn AccelModel + Sync>> = vec![];
    let mut frc: Vec<Arc<dyn ForceModel>> = vec![];
    for m in &models {
        if let Some(a) = m.accel() { acc.push(a); }
        if let Some(x) = m.force() { frc.push(x); }
    }
    let dynm = SpacecraftDynamics::from_models(OrbitalDynamics::new(acc.clone()), frc.clone());
    if massless {
        s.mass = Mass::default();
        rec.ev("massless", json!({"ok": dynm.eom(0.0, &s.to_vector(), &s, &world()).is_ok(), "stm": dynm.eom(0.0, &s.with_stm().to_vector(), &s.with_stm(), &world()).is_ok()}));
        return;
    }
    let rr = a3(s.orbit.radius_km);
    let mu = f.mu_km3_s2().unwrap();
    let two = sc(-mu / norm(rr).powi(3), rr);
    // each model on its own
    let (mut sum, mut tol, mut known) = (two, 1e-12 * norm(two), true);
    for m in &models {
        let got = match eom1(m, &s) { Ok(x) => x, Err(e) => { rec.ev("fail", json!({"m": m.name(), "e": e})); return; } };
        match law(m, &s) {
            Some((a, t)) => { if std::env::var_os("DBG").is_some() { eprintln!("{} got {got:?} want {a:?} tol {t:e} orb {} {:?}", m.name(), s.orbit, if let Model::Srp(_, b, ..) = m { b.clone() } else { vec![] }); } rec.ev("term", json!({"m": m.name(), "err": err(got, a, t)})); sum = add(sum, a); tol += t; }
            None => {
                known = false;
                // in between: some fraction of the light
                let Model::Srp(phi, ..) = m else { unreachable!() };
                let d = norm(sub(rr, body(10, f, s.orbit.epoch))) / 149597870.7;
                let full = 1e-3 * s.srp.coeff_reflectivity * s.srp.area_m2 * phi / 299792458.0 / (d * d) / s.mass_kg();
                let u = hat(sub(rr, body(10, f, s.orbit.epoch)));
                let k = dot(got, u) / full;
                rec.ev("part-light", json!({"frac": clampi(k * 1e6), "side": mag(norm(sub(got, sc(dot(got, u), u))) / full * 1e9, 1.0)}));
                sum = add(sum, got);
                tol += 1e-9 * full;
            }
        }
    }
    let _ = known;
    // all of them together
    let tot = match total(&dynm, &s) { Ok(x) => x, Err(e) => { rec.ev("fail", json!({"m": "all", "e": e})); return; } };
    let x = dynm.eom(0.0, &s.to_vector(), &s, &world()).unwrap();
    let rest = (0..3).map(|i| (x[i] - s.orbit.velocity_km_s[i]).abs()).sum::<f64>() + (6..90).map(|i| x[i].abs()).sum::<f64>();
    rec.ev("sum", json!({"err": err(tot, sum, tol), "rest": mag(rest, 1e-12)}));
    // how each one scales
    for m in &models {
        let base = eom1(m, &s).unwrap();
        if norm(base) < 1e-28 { continue; }
        for p in ["srp-area", "cr", "drag-area", "cd", "mass"] {
            for k in [2.0, 0.0, 0.5] {
                let mut t = s;
                match p {
                    "srp-area" => t.srp.area_m2 *= k,
                    "cr" => t.srp.coeff_reflectivity *= k,
                    "drag-area" => t.drag.area_m2 *= k,
                    "cd" => t.drag.coeff_drag *= k,
                    _ => { if k == 0.0 { continue; } t.mass.dry_mass_kg *= k; t.mass.prop_mass_kg *= k; t.mass.extra_mass_kg *= k; }
                }
                let g = match eom1(m, &t) { Ok(x) => x, Err(e) => { rec.ev("fail", json!({"m": m.name(), "e": e})); return; } };
                let q = dot(g, base) / dot(base, base);
                rec.ev("scale", json!({"m": m.name(), "p": p, "f": clampi(k * 2.0), "ratio": clampi(q * 1e6), "side": mag(norm(sub(g, sc(q, base))) / norm(base) * 1e9, 1.0)}));
            }
        }
    }
    partials(rec, &dynm, &models, &s, tot, tol);
}
fn partials(rec: &Rec, dynm: &SpacecraftDynamics, models: &[Model], s: &Spacecraft, tot: V3, tol: f64) {
    let w = world();
    let f = s.orbit.frame;
    let rr = a3(s.orbit.radius_km);
    let (mu, rm) = (f.mu_km3_s2().unwrap(), norm(rr));
    // expected partials: the two-body ones in closed form, the others from the models
    let mut want = [[0.0; 9]; 9];
    for i in 0..3 {
        want[i][3 + i] = 1.0;
        for j in 0..3 { want[3 + i][j] += mu * (3.0 * rr[i] * rr[j] / rm.powi(5) - if i == j { 1.0 / rm.powi(3) } else { 0.0 }); }
    }
    let mut bad = false;
    for m in models {
        let (a, g, p): (V3, [[f64; 3]; 3], V3) = match (m.accel(), m.force()) {
            (Some(x), _) => match x.gradient(&s.orbit, &w) {
                Ok((a, g)) => (a3(a), std::array::from_fn(|i| std::array::from_fn(|j| g[(i, j)])), [0.0; 3]),
                Err(_) => { bad = true; rec.ev("nopart", json!({"m": m.name()})); continue; }
            },
            (_, Some(x)) => match x.gradient(s, &w) {
                Ok((a, g)) => { let k = 1.0 / s.mass_kg(); (sc(k, a3(a)), std::array::from_fn(|i| std::array::from_fn(|j| k * g[(i, j)])), [k * g[(3, 0)], k * g[(3, 1)], k * g[(3, 2)]]) }
                Err(_) => { bad = true; rec.ev("nopart", json!({"m": m.name()})); continue; }
            },
            _ => unreachable!(),
        };
        // differences of the accelerations
        let h = if m.name() == "srp" { 100.0 } else { 3.0 };
        let mut num = [[0.0; 3]; 3];
        let mut skip = false;
        for j in 0..3 {
            for (d, c) in [(1.0, 2.0 / 3.0), (2.0, -1.0 / 12.0)] {
                let mut at = |k: f64| { let mut t = *s; t.orbit.radius_km[j] += k * d * h;
                    if let Model::Srp(_, b, ..) = m { let l = light(a3(t.orbit.radius_km), f, t.orbit.epoch, b); if l.is_none() || l != light(rr, f, s.orbit.epoch, b) { skip = true; } }
                    eom1(m, &t).unwrap_or([f64::NAN; 3]) };
                let dd = sub(at(1.0), at(-1.0));
                for i in 0..3 { num[i][j] += c * dd[i] / h; }
            }
        }
        let base = eom1(m, s).unwrap();
        let fro = |m: &[[f64; 3]; 3]| m.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
        let diff: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| num[i][j] - g[i][j]));
        let round = 1e-15 * norm(base) / h + if let Model::Pm(..) = m { 3e-20 / h } else { 0.0 };
        let t = 1e-5 * fro(&num) + 100.0 * round + 1e-40;
        rec.ev("part", json!({"m": m.name(), "val": mag(norm(sub(a, base)) / (1e-9 * norm(base) + 1e-18 + 1e-40) * 1000.0, 1.0), "pos": if skip { 0 } else { mag(fro(&diff) / t * 1000.0, 1.0) }}));
        for i in 0..3 { for j in 0..3 { want[3 + i][j] += g[i][j]; } }
        if let Model::Srp(_, _, est, _) = m {
            // derivative with respect to the reflectivity
            let mut t = *s;
            t.srp.coeff_reflectivity = 1.0;
            let per = eom1(m, &t).unwrap();
            rec.ev("coeff", json!({"m": "srp", "err": mag(norm(sub(per, p)) / (1e-9 * norm(per) + 1e-40) * 1000.0, 1.0)}));
            // also for a surface that reflects nothing
            t.srp.coeff_reflectivity = 0.0;
            let z = m.force().unwrap().gradient(&t, &w).map(|(_, g)| [g[(3, 0)] / t.mass_kg(), g[(3, 1)] / t.mass_kg(), g[(3, 2)] / t.mass_kg()]).unwrap_or([f64::NAN; 3]);
            rec.ev("coeff", json!({"m": "srp0", "err": mag(norm(sub(per, z)) / (1e-9 * norm(per) + 1e-40) * 1000.0, 1.0)}));
            if *est { for i in 0..3 { want[3 + i][6] += per[i]; } }
        }
    }
    let dual = dynm.dual_eom(0.0, s, &w);
    let st = s.with_stm();
    let e2 = dynm.eom(0.0, &st.to_vector(), &elsewhere(&st), &w);
    if bad || dual.is_err() || e2.is_err() {
        rec.ev("dual", json!({"ok": dual.is_ok() && e2.is_ok(), "must": !bad, "acc": 0, "grad": 0, "stm": 0}));
        return;
    }
    let ((dx, g), x) = (dual.unwrap(), e2.unwrap());
    let ga: f64 = (0..9).map(|i| (0..9).map(|j| { let sc = want[3 + i.min(5) % 3][j].abs().max(if j < 3 { mu / rm.powi(3) } else { 0.0 }); let t = if i < 3 { 1e-12 } else { 1e-9 * sc + 1e-40 }; (g[(i, j)] - want[i][j]).abs() / t }).fold(0.0, nmax)).fold(0.0, nmax);
    let stm0 = st.stm.unwrap();
    let sd = g * stm0;
    let stm: f64 = sd.iter().enumerate().map(|(i, v)| (x[9 + i] - v).abs() / (1e-12 * v.abs() + 1e-40)).fold(0.0, nmax);
    rec.ev("dual", json!({"ok": true, "must": true,
        "acc": err([x[3], x[4], x[5]], tot, tol).max(err([dx[3], dx[4], dx[5]], tot, tol)),
        "grad": mag(ga * 1000.0, 1.0), "stm": mag(stm * 1000.0, 1.0)}));
}
