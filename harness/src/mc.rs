//! Monte Carlo runs (P17) and dispersions (P18).
use crate::p05::fp;
use crate::sc::*;
use crate::util::*;
use anise::analysis::prelude::*;
use anise::prelude::*;
use arrow::array::{Array, Float64Array, Int32Array, StringArray};
use hifitime::{Duration, TimeScale, Unit};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{Dynamics, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::io::ExportCfg;
use nyx_space::linalg::{Const, OVector};
use nyx_space::mc::{DispersedState, MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::Traj;
use nyx_space::propagators::*;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use rand::Rng;
use nyx_space::mc::Distribution;
use rand_pcg::Pcg64Mcg;
use serde_json::{Value, json};

/// Two-body motion; some runs fail and some are slow, as told by their propellant mass alone.
#[derive(Clone)]
struct Iso {
    inner: SpacecraftDynamics,
    z: Epoch,
    fail: u64,
    late: f64,
    slow: bool,
}
impl Iso {
    fn dice(&self, s: &Spacecraft) -> u64 { s.mass.prop_mass_kg.to_bits().wrapping_mul(0x9E3779B97F4A7C15) >> 40 }
    fn fails(&self, s: &Spacecraft) -> bool { self.fail > 0 && self.dice(s) % self.fail == 0 && (s.epoch() - self.z).to_seconds() >= if (self.dice(s) / self.fail) % 2 == 0 { 0.0 } else { self.late } }
}
impl Dynamics for Iso {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(&self, dt: f64, x: &OVector<f64, Const<90>>, ctx: &Spacecraft, a: &Almanac) -> Result<OVector<f64, Const<90>>, DynamicsError> {
        if self.fails(ctx) { return Err(DynamicsError::MasslessSpacecraft); }
        if self.slow && ctx.epoch() == self.z { std::thread::sleep(std::time::Duration::from_micros(self.dice(ctx) % 4 * 60)); }
        self.inner.eom(dt, x, ctx, a)
    }
    fn finally(&self, s: Spacecraft, a: &Almanac) -> Result<Spacecraft, DynamicsError> { self.inner.finally(s, a) }
}
#[derive(Clone)]
enum Rv { Own(Spacecraft), Mvn(MvnSpacecraft) }
impl Distribution<DispersedState<Spacecraft>> for Rv {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> DispersedState<Spacecraft> {
        match self {
            Rv::Mvn(m) => m.sample(rng),
            Rv::Own(t) => {
                let mut s = *t;
                let dx = (rng.next_u32() % 2000) as f64 / 1000.0;
                s.orbit.radius_km.x += dx;
                let mut d = vec![(StateParameter::Element(OrbitalElement::X), dx)];
                s.mass.prop_mass_kg += (rng.next_u64() % 1_000_000) as f64 / 1e4;
                if dx < 1.9 { d.push((StateParameter::PropMass(), s.mass.prop_mass_kg - t.mass.prop_mass_kg)); }
                DispersedState { state: s, actual_dispersions: d }
            }
        }
    }
}
const PX: StateParameter = StateParameter::Element(OrbitalElement::X);
fn thash(s: &Spacecraft, t: &Traj<Spacecraft>) -> String {
    let mut h = fp(s);
    for q in &t.states { h = format!("{:016x}", h.bytes().chain(fp(q).bytes()).fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))); }
    format!("{h}/{}", t.states.len())
}
fn iso(e: Epoch) -> String { e.to_time_scale(TimeScale::UTC).to_isoformat() }
/// what one run has to show
fn shows(d: &DispersedState<Spacecraft>, res: &Result<(Spacecraft, Traj<Spacecraft>), PropagationError>, step: Duration, win: &(Option<Epoch>, Option<Epoch>)) -> Value {
    let disp: Vec<Value> = d.actual_dispersions.iter().map(|(p, x)| json!([format!("{p:?}"), hex(*x)])).collect();
    match res {
        Err(_) => json!({"d": fp(&d.state), "ok": false, "h": "", "first": "", "last": "", "every": [], "between": [], "raw": [], "stepped": [], "disp": disp}),
        Ok((s, t)) => {
            let lo = win.0.unwrap_or(t.first().epoch()).max(t.first().epoch());
            let hi = win.1.unwrap_or(t.last().epoch()).min(t.last().epoch());
            let at = |lo: Epoch, hi: Epoch| { let mut v = vec![]; let mut e = lo; while e <= hi { v.push(t.at(e).unwrap()); e += step; } v };
            let x = |s: &Spacecraft| hex(s.orbit.radius_km.x);
            json!({"d": fp(&d.state), "ok": true, "h": thash(s, t), "first": x(t.first()), "last": x(t.last()),
                "every": at(t.first().epoch(), t.last().epoch()).iter().map(x).collect::<Vec<_>>(), "between": at(lo, hi).iter().map(x).collect::<Vec<_>>(),
                "raw": t.states.iter().map(|s| json!([iso(s.epoch()), x(s)])).collect::<Vec<_>>(), "stepped": at(lo, hi).iter().map(|s| json!([iso(s.epoch()), x(s)])).collect::<Vec<_>>(), "disp": disp})
        }
    }
}
fn read_mc(p: &std::path::Path) -> Result<Vec<Value>, String> {
    let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
    let rd = ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| e.to_string())?.build().map_err(|e| e.to_string())?;
    let mut v = vec![];
    for b in rd {
        let b = b.map_err(|e| e.to_string())?;
        let sch = b.schema();
        let col = |n: &str| sch.fields().iter().position(|f| f.name().starts_with(n)).ok_or(format!("no column {n}"));
        let e = b.column(col("Epoch (UTC)")?).as_any().downcast_ref::<StringArray>().ok_or("epoch")?.clone();
        let i = b.column(col("Monte Carlo")?).as_any().downcast_ref::<Int32Array>().ok_or("index")?.clone();
        let x = b.column(col("X")?).as_any().downcast_ref::<Float64Array>().ok_or("x")?.clone();
        for k in 0..b.num_rows() { v.push(json!([i.value(k), e.value(k), if x.is_null(k) { "null".into() } else { hex(x.value(k)) }])); }
    }
    Ok(v)
}
fn hexes(v: &[f64]) -> Vec<String> { v.iter().map(|x| hex(*x)).collect() }
pub fn cases17(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let z = epoch0();
    let mut specs: Vec<(String, usize, usize, usize, Option<u64>, Option<bool>)> = vec![];
    let st = (ctx.scen.len() / ctx.n(60, 600)).max(1);
    for (i, s) in ctx.scen.iter().enumerate() {
        if i % st != (ctx.seed as usize) % st { continue; }
        specs.push((format!("scen{i}"), s["n"].as_u64().unwrap() as usize, s["skip"].as_u64().unwrap() as usize, s["w"].as_u64().unwrap() as usize, None, None));
    }
    for i in 0..ctx.n(140, 2500) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        specs.push((id, *r.pick(&[0, 1, 2, 3, 5, 9, 17, 33, 40]), *r.pick(&[0, 0, 1, 2, 7, 20]), *r.pick(&[1, 2, 3, 4, 7, 8]), None, None));
    }
    for (id, n, skip, w, _, _) in specs {
        let mut r = ctx.rng(&format!("{id}m"));
        let mut t = rand_sc(&mut r, z);
        t.mass.dry_mass_kg = 200.0;
        t.mass.prop_mass_kg = 100.0;
        let rv = if r.b() { Rv::Own(t) } else {
            Rv::Mvn(MvnSpacecraft::new(t, vec![StateDispersion::zero_mean(PX, 2.0), StateDispersion::builder().param(StateParameter::PropMass()).mean(1.0).std_dev(3.0).build(), StateDispersion::zero_mean(StateParameter::Element(OrbitalElement::VZ), 1e-3)]).unwrap())
        };
        let fail = *r.pick(&[0u64, 0, 2, 3, 6, 1]);
        let dy = Iso { inner: SpacecraftDynamics::new(OrbitalDynamics::two_body()), z, fail, late: r.r(100.0, 500.0), slow: r.b() };
        let method = *r.pick(&METHODS[..3]);
        let prop = Propagator::new(dy, method, IntegratorOptions::default());
        let seed = (r.u(1 << 30) as u128) << 2 | 1;
        let event = r.u(3) == 0;
        let end = z + r.r(200.0, 1500.0) * Unit::Second;
        let maxd = t.orbit.period().unwrap() * 1.2;
        let ta = (t.orbit.ta_deg().unwrap() + r.r(3.0, 40.0)) % 360.0;
        let ev = Event::new(ScalarExpr::Element(OrbitalElement::TrueAnomaly), Condition::Equals(ta));
        let step = r.r(20.0, 300.0).round() * Unit::Second;
        let pick = |r: &mut Rng64| if r.b() { None } else { Some(z + r.r(0.0, 400.0).round() * Unit::Second) };
        let win = (pick(&mut r), pick(&mut r).map(|e| e + 100 * Unit::Second));
        let dflt = if r.b() { None } else { Some(r.r(-5.0, 5.0)) };
        let scratch = ctx.scratch.join(format!("p17-{id}.parquet"));
        // The oracle: the draws of the generator and each of them propagated on its own
        let a = alm();
        let draws: Vec<DispersedState<Spacecraft>> = (&rv).sample_iter(Pcg64Mcg::new(seed)).take(skip + n).collect();
        let exp: Vec<Value> = draws.iter().map(|d| {
            let mut inst = prop.with(d.state, a.clone()).quiet();
            let res = if event { inst.until_nth_event(maxd, &ev, None, 1) } else { inst.until_epoch_with_traj(end) };
            shows(d, &res, step, &win)
        }).collect();
        let begin = json!({"draws": exp, "dflt": dflt.map(|x| vec![hex(x)]).unwrap_or_default(), "win": win.0.is_some() || win.1.is_some()});
        v.push(case(id, begin, move |rec| {
            let mk = || MonteCarlo::new(t, rv.clone(), "verif".into(), Some(seed));
            let gen_ = |sk: usize, n: usize| { let m = mk(); let g = m.generate_states(sk, n, Some(seed)); rec.ev("gen", json!({"skip": sk, "n": n, "got": g.iter().map(|(i, d)| json!([i, fp(&d.state)])).collect::<Vec<_>>()})); };
            gen_(skip, n);
            gen_(0, skip + n);
            let go = |w: usize, sk: usize, n: usize, resume: bool, ask: bool| {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(w).build().unwrap();
                let (p, a, m) = (prop.clone(), alm(), mk());
                let res = pool.install(|| match (event, resume) {
                    (false, true) => m.resume_run_until_epoch(p, a, sk, end, n),
                    (false, false) => m.run_until_epoch(p, a, end, n),
                    (true, true) => m.resume_run_until_nth_event(p, a, sk, maxd, &ev, 1, n),
                    (true, false) => m.run_until_nth_event::<_, ()>(p, a, maxd, &ev, 1, n),
                });
                let runs: Vec<Value> = res.runs.iter().map(|q| json!([q.index, fp(&q.dispersed_state.state), match &q.result { Ok(p) => thash(&p.state, &p.traj), Err(_) => "".into() }])).collect();
                rec.ev("res", json!({"skip": sk, "n": n, "w": w, "got": runs, "name": res.scenario == "verif"}));
                if !ask { return; }
                let q = |kind: &str, v: Vec<f64>| rec.ev("ask", json!({"q": kind, "skip": sk, "n": n, "got": hexes(&v)}));
                q("first", res.first_values_of(PX, dflt));
                q("last", res.last_values_of(PX, dflt));
                q("every", res.every_value_of(PX, step, dflt));
                q("between", res.every_value_of_between(PX, step, win.0.unwrap_or(z - 1 * Unit::Day), win.1.unwrap_or(z + 100 * Unit::Day), dflt));
                q("first-none", res.first_values_of(StateParameter::Thrust(), dflt));
                q("last-none", res.last_values_of(StateParameter::Thrust(), dflt));
                for p in [PX, StateParameter::PropMass(), StateParameter::Cd()] {
                    let g = res.dispersion_values_of(p);
                    rec.ev("disp", json!({"p": format!("{p:?}"), "skip": sk, "n": n, "ok": g.is_ok(), "got": g.map(|v| hexes(&v)).unwrap_or_default()}));
                }
                let fields = Some(vec![PX]);
                for (kind, cfg) in [("raw", ExportCfg { fields: fields.clone(), ..Default::default() }), ("stepped", ExportCfg { fields: fields.clone(), step: Some(step), start_epoch: win.0, end_epoch: win.1, ..Default::default() })] {
                    let g = res.to_parquet(&scratch, cfg).map_err(|e| e.to_string()).and_then(|p| read_mc(&p));
                    let _ = std::fs::remove_file(&scratch);
                    rec.ev("file", json!({"q": kind, "skip": sk, "n": n, "ok": g.is_ok(), "got": g.unwrap_or_default()}));
                }
            };
            go(w, 0, skip + n, false, true);
            go(if w == 1 { 8 } else { 1 }, skip, n, true, skip > 0);
        }));
    }
    v
}

// ---------------------------------------------------------------- P18
use nalgebra::{Matrix3, SMatrix, SVector};
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::prelude::SpacecraftUncertainty;

fn el(e: OrbitalElement) -> StateParameter { StateParameter::Element(e) }
fn is_angle(p: StateParameter) -> bool { use OrbitalElement::*; matches!(p, StateParameter::Element(RAAN | AoP | TrueAnomaly | MeanAnomaly | TrueLongitude | AoL)) }
fn wrap(p: StateParameter, d: f64) -> f64 { if is_angle(p) { (d + 180.0).rem_euclid(360.0) - 180.0 } else { d } }
/// own right-handed local axes, as columns in the inertial frame
fn axes(o: &Orbit, f: LocalFrame) -> Matrix3<f64> {
    let (r, v) = (o.radius_km, o.velocity_km_s);
    let h = r.cross(&v).normalize();
    match f {
        LocalFrame::Inertial => Matrix3::identity(),
        LocalFrame::RIC => Matrix3::from_columns(&[r.normalize(), h.cross(&r.normalize()), h]),
        LocalFrame::RCN => Matrix3::from_columns(&[r.normalize(), h.cross(&r.normalize()), h]),
        LocalFrame::VNC => Matrix3::from_columns(&[v.normalize(), h, v.normalize().cross(&h)]),
    }
}
fn vec9(s: &Spacecraft) -> SVector<f64, 9> {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    SVector::from_iterator([r.x, r.y, r.z, v.x, v.y, v.z, s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.prop_mass_kg])
}
fn add9(s: &Spacecraft, i: usize, d: f64) -> Spacecraft {
    let mut q = *s;
    match i { 0..=2 => q.orbit.radius_km[i] += d, 3..=5 => q.orbit.velocity_km_s[i - 3] += d, 6 => q.srp.coeff_reflectivity += d, 7 => q.drag.coeff_drag += d, _ => q.mass.prop_mass_kg += d }
    q
}
/// gradient of a parameter by central differences
fn grad(s: &Spacecraft, p: StateParameter) -> SVector<f64, 9> {
    SVector::from_fn(|i, _| { let h = [1e-2, 1e-2, 1e-2, 1e-5, 1e-5, 1e-5, 1e-3, 1e-3, 1e-3][i]; wrap(p, add9(s, i, h).value(p).unwrap() - add9(s, i, -h).value(p).unwrap()) / (2.0 * h) })
}
fn template(r: &mut Rng64, hyper: bool) -> Spacecraft {
    let ecc = if hyper { r.r(1.2, 3.0) } else { r.r(0.05, 0.6) };
    let rp = r.r(6800.0, 20000.0);
    let ta = if hyper { r.r(0.0, 60.0) } else { r.r(0.0, 360.0) };
    let o = Orbit::keplerian(rp / (1.0 - ecc), ecc, r.r(20.0, 160.0), r.r(0.0, 360.0), r.r(0.0, 360.0), ta, epoch0(), eme());
    let mut s = Spacecraft::from(o);
    s.mass.dry_mass_kg = r.r(50.0, 500.0);
    s.mass.prop_mass_kg = r.r(50.0, 500.0);
    s.mass.extra_mass_kg = r.r(0.0, 3.0);
    s.srp.area_m2 = r.r(0.0, 10.0);
    s.srp.coeff_reflectivity = r.r(0.8, 1.8);
    s.drag.area_m2 = r.r(0.0, 10.0);
    s.drag.coeff_drag = r.r(1.8, 2.4);
    s
}
/// what no dispersion may touch
fn rest(s: &Spacecraft) -> String { format!("{}|{}|{}|{}|{}|{:?}|{:?}|{:?}", s.epoch(), hex(s.mass.dry_mass_kg), hex(s.mass.extra_mass_kg), hex(s.srp.area_m2), hex(s.drag.area_m2), s.mode, s.thruster, s.orbit.frame) }
const SLOTS: [&str; 9] = ["x", "y", "z", "vx", "vy", "vz", "cr", "cd", "pm"];
/// the slots of the state a parameter depends on
fn slots(p: StateParameter) -> Vec<&'static str> {
    use OrbitalElement::*;
    match p {
        StateParameter::Element(X) => vec!["x"], StateParameter::Element(Y) => vec!["y"], StateParameter::Element(Z) => vec!["z"],
        StateParameter::Element(VX) => vec!["vx"], StateParameter::Element(VY) => vec!["vy"], StateParameter::Element(VZ) => vec!["vz"],
        StateParameter::Cr() => vec!["cr"], StateParameter::Cd() => vec!["cd"], StateParameter::PropMass() => vec!["pm"],
        StateParameter::Element(Rmag) => vec!["x", "y", "z"], StateParameter::Element(Vmag) => vec!["vx", "vy", "vz"],
        _ => SLOTS[..6].to_vec(),
    }
}
fn pname(p: StateParameter) -> String { format!("{p:?}").chars().filter(|c| c.is_alphanumeric()).collect() }
const N: usize = 2000;
fn permille(x: f64) -> i64 { clampi(x * 1000.0) }
pub fn cases18(ctx: &Ctx) -> Vec<Case> {
    use OrbitalElement as E;
    let mut v = vec![];
    // --- sets of dispersions
    let kep = [(el(E::SemiMajorAxis), 1.0), (el(E::Eccentricity), 2e-5), (el(E::Inclination), 0.01), (el(E::RAAN), 0.01), (el(E::AoP), 0.01), (el(E::TrueAnomaly), 0.01)];
    let cart = [(el(E::X), 1.0), (el(E::Y), 0.5), (el(E::Z), 2.0), (el(E::VX), 1e-3), (el(E::VY), 2e-3), (el(E::VZ), 5e-4)];
    let odd = [(el(E::Rmag), 1.0), (el(E::Vmag), 1e-3), (el(E::Inclination), 0.01), (el(E::PeriapsisRadius), 0.5), (el(E::Energy), 1e-3), (el(E::Hmag), 1.0), (el(E::Declination), 0.005), (el(E::AoL), 0.01)];
    let sc = [(StateParameter::Cr(), 0.02), (StateParameter::Cd(), 0.03), (StateParameter::PropMass(), 2.0)];
    let bp = [(StateParameter::BdotR(), 1.0), (StateParameter::BdotT(), 2.0)];
    let mut specs: Vec<(String, Vec<&str>)> = vec![];
    let st = (ctx.scen.len() / ctx.n(60, 512)).max(1);
    for (i, s) in ctx.scen.iter().enumerate() {
        if i % st != (ctx.seed as usize) % st { continue; }
        specs.push((format!("scen{i}"), SLOTS.iter().copied().filter(|x| s["slots"].as_array().unwrap().iter().any(|y| y == x)).collect()));
    }
    for i in 0..ctx.n(150, 3000) { specs.push((format!("set{i}"), vec![])); }
    for (id, sl) in specs {
        let mut r = ctx.rng(&id);
        let fam = if !sl.is_empty() { 9 } else { r.u(5) };
        let s = template(&mut r, fam == 3);
        let mut ps: Vec<(StateParameter, f64)> = vec![];
        match fam {
            0 => for p in kep { if r.u(3) > 0 { ps.push(p); } },
            1 => for p in cart { if r.b() { ps.push(p); } },
            2 => { ps.push(odd[r.u(3)]); if r.b() { ps.push(odd[3 + r.u(5)]); } }
            3 => { for p in bp.iter().take(1 + r.u(2)) { ps.push(*p); } }
            9 => for (k, p) in cart.iter().chain(sc.iter()).enumerate() { if sl.contains(&SLOTS[k]) { ps.push(*p); } },
            _ => {}
        }
        if fam != 9 { for p in sc { if r.u(3) == 0 { ps.push(p); } } }
        for k in (1..ps.len()).rev() { let j = r.u(k + 1); ps.swap(k, j); }
        let bad = fam == 4 && r.b();
        if bad { ps.push((*r.pick(&[StateParameter::DryMass(), StateParameter::Isp(), StateParameter::TotalMass(), StateParameter::Epoch(), StateParameter::BdotR(), StateParameter::GuidanceMode()]), 1.0)); }
        let ds: Vec<StateDispersion> = ps.iter().map(|(p, u)| {
            let sd = u * r.r(0.3, 1.5);
            match r.u(6) { 0 => StateDispersion { param: *p, mean: Some(u * r.r(-2.0, 2.0)), std_dev: None }, 1 => StateDispersion { param: *p, mean: None, std_dev: Some(sd) }, 2 => StateDispersion::zero_mean(*p, sd), _ => StateDispersion { param: *p, mean: Some(u * r.r(-3.0, 3.0)), std_dev: Some(sd) } }
        }).collect();
        let zero = r.u(4) == 0;
        let ds: Vec<StateDispersion> = ds.into_iter().collect();
        let seed = (r.u(1 << 30) as u128) << 2 | 1;
        let mut free: Vec<&str> = vec![];
        for d in &ds { free.extend(slots(d.param)); }
        let begin = json!({"kind": "set", "bad": bad, "names": ds.iter().map(|d| pname(d.param)).collect::<Vec<_>>(), "sd": ds.iter().map(|d| d.std_dev.unwrap_or(0.0) > 0.0).collect::<Vec<_>>(), "free": free, "slots": SLOTS});
        v.push(case(id, begin, move |rec| {
            let m = match if zero { MvnSpacecraft::zero_mean(s, ds.clone()) } else { MvnSpacecraft::new(s, ds.clone()) } { Ok(m) => m, Err(e) => { rec.ev("err", json!({"msg": errs(&e)})); return; } };
            let draws: Vec<DispersedState<Spacecraft>> = (&m).sample_iter(Pcg64Mcg::new(seed)).take(N).collect();
            // reported dispersions, exactly
            let mut worst = 0.0f64;
            let mut named = true;
            let mut untouched = true;
            let mut moved: Vec<&str> = vec![];
            for d in &draws {
                named &= d.actual_dispersions.len() == ds.len() && d.actual_dispersions.iter().zip(&ds).all(|(a, b)| a.0 == b.param);
                for (p, x) in &d.actual_dispersions { let q = d.state.value(*p).unwrap() - s.value(*p).unwrap(); worst = nmax(worst, wrap(*p, x - q).abs() / (1e-9 + 1e-9 * q.abs())); }
                untouched &= rest(&d.state) == rest(&s);
                let dv = vec9(&d.state) - vec9(&s);
                for k in 0..9 { if dv[k].abs() > [1e-7, 1e-7, 1e-7, 1e-10, 1e-10, 1e-10, 1e-12, 1e-12, 1e-9][k] && !moved.contains(&SLOTS[k]) { moved.push(SLOTS[k]); } }
            }
            // statistics
            // (of the parameters linearised at the template, which is how the deviations are defined; the gradients are our own)
            let vals: Vec<Vec<f64>> = ds.iter().map(|d| { let g = grad(&s, d.param); draws.iter().map(|q| g.dot(&(vec9(&q.state) - vec9(&s)))).collect() }).collect();
            let nf = N as f64;
            let mean: Vec<f64> = vals.iter().map(|v| v.iter().sum::<f64>() / nf).collect();
            let sd: Vec<f64> = vals.iter().zip(&mean).map(|(v, m)| (v.iter().map(|x| (x - m).powi(2)).sum::<f64>() / (nf - 1.0)).sqrt()).collect();
            let mut zs = vec![];
            let mut ratios = vec![];
            for (k, d) in ds.iter().enumerate() {
                let want = if zero { 0.0 } else { d.mean.unwrap_or(0.0) };
                let u = ps.iter().find(|p| p.0 == d.param).unwrap().1;
                let sg = d.std_dev.unwrap_or(0.0);
                // 0.003 u: what linearising may cost
                zs.push(permille(((mean[k] - want).abs() - 0.003 * u).max(0.0) / (if sg > 0.0 { sg / nf.sqrt() } else { 0.01 * u })));
                ratios.push(if sg > 0.0 { permille(sd[k] / sg) } else { permille(1.0 + sd[k] / (0.1 * u)) });
            }
            let mut corr = vec![];
            for i in 0..ds.len() { for j in 0..i { if ds[i].std_dev.is_some() && ds[j].std_dev.is_some() { corr.push(permille(vals[i].iter().zip(&vals[j]).map(|(a, b)| (a - mean[i]) * (b - mean[j])).sum::<f64>() / nf / sd[i] / sd[j]).abs()); } } }
            rec.ev("stat", json!({"reported": clampi(worst * 100.0), "named": named, "rest": untouched, "moved": moved, "z": zs, "ratio": ratios, "corr": corr, "distinct": ds.iter().all(|d| d.std_dev.is_none()) || draws[0].state != draws[1].state}));
        }));
    }
    // --- covariances
    for i in 0..ctx.n(100, 2000) {
        let id = format!("cov{i}");
        let mut r = ctx.rng(&id);
        let s = template(&mut r, false);
        let sc9 = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.02, 0.02, 1.0];
        let mut c = SMatrix::<f64, 9, 9>::zeros();
        let full = r.b();
        let used: Vec<bool> = (0..9).map(|_| r.u(5) > 0).collect();
        let a = SMatrix::<f64, 9, 9>::from_fn(|i, j| if full && used[i] && used[j] { r.r(-1.0, 1.0) } else if i == j && used[i] { r.r(0.3, 1.0) } else { 0.0 });
        let aa = a * a.transpose() + if full { SMatrix::<f64, 9, 9>::from_fn(|i, j| if i == j && used[i] { 0.05 } else { 0.0 }) } else { SMatrix::zeros() };
        for i in 0..9 { for j in 0..9 { c[(i, j)] = aa[(i, j)] * sc9[i] * sc9[j]; } }
        let bad = r.u(6) == 0;
        if bad { let k = r.u(9); let x = sc9[k] * sc9[k]; for j in 0..9 { c[(k, j)] = 0.0; c[(j, k)] = 0.0; } c[(k, k)] = -x; }
        let mean = SVector::<f64, 9>::from_fn(|i, _| if r.b() { 0.0 } else { r.r(-2.0, 2.0) * sc9[i] });
        let seed = (r.u(1 << 30) as u128) << 2 | 1;
        let via = r.u(3) == 0;
        v.push(case(id, json!({"kind": "cov", "bad": bad, "names": [], "sd": [], "free": SLOTS, "slots": SLOTS}), move |rec| {
            let mk = || if via { let mut e = KfEstimate::from_covar(s, c); e.state_deviation = mean; e.to_random_variable() } else { MvnSpacecraft::from_spacecraft_cov(s, c, mean) };
            let m = match mk() { Ok(m) => m, Err(e) => { rec.ev("err", json!({"msg": errs(&e)})); return; } };
            let draws: Vec<DispersedState<Spacecraft>> = (&m).sample_iter(Pcg64Mcg::new(seed)).take(N).collect();
            let nf = N as f64;
            let xs: Vec<SVector<f64, 9>> = draws.iter().map(|d| vec9(&d.state) - vec9(&s)).collect();
            let mu = xs.iter().sum::<SVector<f64, 9>>() / nf;
            let cov = xs.iter().map(|x| (x - mu) * (x - mu).transpose()).sum::<SMatrix<f64, 9, 9>>() / (nf - 1.0);
            let mut z = vec![];
            let mut zc = vec![];
            for i in 0..9 {
                let ci = |k: usize| (c[(k, k)].sqrt() + 1e-7 + 1e-6 * sc9[k]).powi(2);
                z.push(permille((mu[i] - mean[i]).abs() / (ci(i) / nf).sqrt()));
                for j in 0..=i { zc.push(permille((cov[(i, j)] - c[(i, j)]).abs() / ((ci(i) * ci(j) + c[(i, j)].powi(2)) / nf).sqrt())); }
            }
            let mut worst = 0.0f64;
            for d in &draws { for (p, x) in &d.actual_dispersions { let q = d.state.value(*p).unwrap() - s.value(*p).unwrap(); worst = nmax(worst, (x - q).abs() / (1e-9 + 1e-9 * q.abs())); } }
            let sds = m.dispersions.iter().enumerate().all(|(k, d)| (d.std_dev.unwrap() - c[(k, k)].sqrt()).abs() <= 1e-9 * c[(k, k)].sqrt());
            rec.ev("cov", json!({"z": z, "zc": zc, "reported": clampi(worst * 100.0), "rest": draws.iter().all(|d| rest(&d.state) == rest(&s)), "sds": sds && m.dispersions.len() == 9}));
        }));
    }
    // --- uncertainties and estimates
    for i in 0..ctx.n(120, 3000) {
        let id = format!("unc{i}");
        let mut r = ctx.rng(&id);
        let s = template(&mut r, false);
        let f = *r.pick(&[None, Some(LocalFrame::Inertial), Some(LocalFrame::RIC), Some(LocalFrame::RCN), Some(LocalFrame::VNC)]);
        let mut q = |u: f64| if r.u(4) == 0 { 0.0 } else { u * r.r(0.1, 2.0) };
        let mut sg = [q(1.0), q(1.0), q(1.0), q(1e-3), q(1e-3), q(1e-3), q(0.1), q(0.1), q(1.0)];
        let bad = r.u(6) == 0;
        if bad { let k = r.u(9); sg[k] = -(sg[k] + 0.1); }
        let seed = (r.u(1 << 30) as u128) << 2 | 1;
        let ds: Vec<StateDispersion> = kep.iter().chain(sc.iter()).filter(|_| r.u(3) > 0).map(|(p, u)| StateDispersion { param: *p, mean: Some(u * 3.0), std_dev: Some(*u) }).collect();
        v.push(case(id, json!({"kind": "unc", "kf": if f.is_some() && f != Some(LocalFrame::Inertial) { "to-estimate-local-frame" } else { "" }, "bad": bad, "names": [], "sd": [], "free": SLOTS, "slots": SLOTS}), move |rec| {
            let b = SpacecraftUncertainty { nominal: s, frame: f, x_km: sg[0], y_km: sg[1], z_km: sg[2], vx_km_s: sg[3], vy_km_s: sg[4], vz_km_s: sg[5], coeff_reflectivity: sg[6], coeff_drag: sg[7], mass_kg: sg[8] };
            match b.to_estimate() {
                Err(e) => rec.ev("err", json!({"msg": errs(&e)})),
                Ok(e) => {
                    let a = axes(&s.orbit, f.unwrap_or(LocalFrame::Inertial));
                    let mut want = SMatrix::<f64, 9, 9>::zeros();
                    for blk in 0..2 { let d = Matrix3::from_diagonal(&SVector::<f64, 3>::from_fn(|k, _| sg[3 * blk + k].powi(2))); let m = a * d * a.transpose(); for i in 0..3 { for j in 0..3 { want[(3 * blk + i, 3 * blk + j)] = m[(i, j)]; } } }
                    for k in 6..9 { want[(k, k)] = sg[k].powi(2); }
                    let u = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.1, 0.1, 1.0];
                    let mut w = 0.0f64;
                    // (known finding: the position and velocity blocks come out rotated the other way)
                    let mut flipped = want;
                    for blk in 0..2 { let d = Matrix3::from_diagonal(&SVector::<f64, 3>::from_fn(|k, _| sg[3 * blk + k].powi(2))); let m = a.transpose() * d * a; for i in 0..3 { for j in 0..3 { flipped[(3 * blk + i, 3 * blk + j)] = m[(i, j)]; } } }
                    let mut wf = 0.0f64;
                    for i in 0..9 { for j in 0..9 {
                        w = nmax(w, (e.covar[(i, j)] - want[(i, j)]).abs() / u[i] / u[j]);
                        // the flipped blocks are coupled by the rotation rate of the frame
                        wf = wf.max(((e.covar[(i, j)] - flipped[(i, j)]).abs() / u[i] / u[j] - if i < 6 && j < 6 && (i < 3 || j < 3) { 1e-2 } else { 0.0 }).max(0.0));
                    } }
                    let mut wk = 0.0f64;
                    let els = [E::SemiMajorAxis, E::Eccentricity, E::Inclination, E::RAAN, E::AoP, E::TrueAnomaly];
                    let g: Vec<SVector<f64, 9>> = els.iter().map(|x| grad(&s, el(*x))).collect();
                    let kc = e.keplerian_covar();
                    let cc = { let mut c = e.covar; for k in 6..9 { c[(k, k)] = 0.0; } c };
                    let vr: Vec<f64> = g.iter().map(|x| (x.transpose() * cc * x)[(0, 0)].max(0.0).sqrt()).collect();
                    // scale of what rounding of the gradients may cost
                    let fl: Vec<f64> = g.iter().map(|x| 1e-4 * (0..6).map(|k| (x[k] * u[k]).powi(2)).sum::<f64>().sqrt()).collect();
                    for i in 0..6 {
                        wk = nmax(wk, (e.sigma_for(els[i]).unwrap() - vr[i]).abs() / (vr[i] + fl[i]));
                        for j in 0..6 { wk = nmax(wk, (kc[(i, j)] - (g[i].transpose() * cc * g[j])[(0, 0)]).abs() / ((vr[i] + fl[i]) * (vr[j] + fl[j]))); }
                    }
                    let kept = e.nominal_state == s && e.state_deviation.norm() == 0.0;
                    let rz = b.to_estimate_randomized(Some(seed)).unwrap();
                    let rz2 = b.to_estimate_randomized(Some(seed)).unwrap();
                    let far = (vec9(&rz.nominal_state) - vec9(&s)).iter().enumerate().map(|(k, x)| x.abs() / (7.0 * e.covar[(k, k)].sqrt() + 1e-9)).fold(0.0, nmax);
                    rec.ev("unc", json!({"cov": mag(w, 1e-6), "flip": mag(wf, 1e-6), "kep": mag(wk, 1e-4), "kept": kept, "again": vec9(&rz.nominal_state) == vec9(&rz2.nominal_state), "randcov": rz.covar == e.covar, "far": permille(far)}));
                }
            }
            // estimate from dispersions
            if !ds.is_empty() {
                let e = KfEstimate::from_dispersions(s, ds.clone(), Some(seed)).unwrap();
                let d = MvnSpacecraft::new(s, ds.clone()).unwrap().sample(&mut Pcg64Mcg::new(seed));
                let dev = vec9(&d.state) - vec9(&s);
                let w = (e.state_deviation - dev).norm();
                let cv = (0..9).map(|k| (e.covar[(k, k)] - 9.0 * dev[k] * dev[k]).abs()).fold(0.0, nmax);
                rec.ev("disp", json!({"dev": mag(w, 1e-9), "cov": mag(cv, 1e-9), "kept": e.nominal_state == s, "state": mag((vec9(&e.state()) - vec9(&d.state)).norm(), 1e-6)}));
            }
        }));
    }
    v
}
