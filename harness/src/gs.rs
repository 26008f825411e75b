//! Ground stations in the synthetic world: an independent model of the geometry, and the cases on simulated tracking and schedules.
use crate::kepler::kepler;
use crate::num::*;
use crate::od::rv;
use crate::sc::*;
use crate::util::*;
use crate::world::*;
use anise::constants::frames::IAU_EARTH_FRAME;
use anise::prelude::*;
use anise::structure::location::{Location, TerrainMask};
use hifitime::{Duration, Epoch, TimeUnits};
use indexmap::{IndexMap, IndexSet};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::trajectory::Traj;
use nyx_space::od::noise::*;
use nyx_space::od::prelude::*;
use nyx_space::propagators::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use MeasurementType as MT;

/// Rotation from the body fixed frame of the Earth of this world to J2000 (rows: J2000 axes)
pub fn body_to_j2000(e: Epoch) -> [V3; 3] {
    let t = e.to_et_seconds();
    let (d, c) = (t / 86400.0, t / (36525.0 * 86400.0));
    let a = (-0.641 * c).to_radians();
    let de = (90.0 - 0.557 * c).to_radians();
    let w = (190.147 + 360.9856235 * d).rem_euclid(360.0).to_radians();
    // axes of the body in J2000: pole, node (intersection of its equator with the J2000 equator), then the prime meridian
    let pole = [de.cos() * a.cos(), de.cos() * a.sin(), de.sin()];
    let q = [-(a.sin()), a.cos(), 0.0];
    let p = cross(pole, q);
    let x = add(sc(w.cos(), q), sc(w.sin(), p));
    let y = add(sc(-w.sin(), q), sc(w.cos(), p));
    // columns are x, y, pole
    [[x[0], y[0], pole[0]], [x[1], y[1], pole[1]], [x[2], y[2], pole[2]]]
}
pub fn mul(m: &[V3; 3], v: V3) -> V3 { [dot(m[0], v), dot(m[1], v), dot(m[2], v)] }

#[derive(Clone, Debug)]
pub struct Site { pub lat: f64, pub lon: f64, pub h: f64 }
#[derive(Clone, Copy, Debug)]
pub struct Aer { pub az: f64, pub el: f64, pub range: f64, pub rate: f64 }
impl Site {
    pub fn fixed(&self) -> V3 {
        let (la, lo) = (self.lat.to_radians(), self.lon.to_radians());
        let f = (RE - RE_POLE) / RE;
        let e2 = f * (2.0 - f);
        let n = RE / (1.0 - e2 * la.sin().powi(2)).sqrt();
        [(n + self.h) * la.cos() * lo.cos(), (n + self.h) * la.cos() * lo.sin(), (n * (1.0 - e2) + self.h) * la.sin()]
    }
    /// position and velocity in J2000
    pub fn at(&self, e: Epoch) -> (V3, V3) {
        let f = self.fixed();
        let p = |s: f64| mul(&body_to_j2000(e + s.seconds()), f);
        let (a, b) = (p(-5.0), p(5.0));
        // the spin is uniform: the chord over the sine of the angle is the exact velocity
        let w = (360.9856235f64 / 86400.0).to_radians();
        (p(0.0), sc(w / (2.0 * (5.0 * w).sin()), sub(b, a)))
    }
    pub fn aer(&self, r: V3, v: V3, e: Epoch) -> Aer {
        let m = body_to_j2000(e);
        let (s, sv) = self.at(e);
        let d = sub(r, s);
        let rho = norm(d);
        let (la, lo) = (self.lat.to_radians(), self.lon.to_radians());
        let up = mul(&m, [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]);
        let east = mul(&m, [-lo.sin(), lo.cos(), 0.0]);
        let north = cross(up, east);
        Aer { az: dot(d, east).atan2(dot(d, north)).to_degrees().rem_euclid(360.0), el: (dot(d, up) / rho).asin().to_degrees(), range: rho, rate: dot(d, sub(v, sv)) / rho }
    }
    /// value of a measurement type (one way)
    pub fn value(&self, t: MT, a: &Aer) -> f64 { match t { MT::Range => a.range, MT::Doppler => a.rate, MT::Azimuth => a.az, _ => a.el } }
}
#[derive(Clone)]
pub struct Station { pub site: Site, pub mask: Vec<(f64, f64)>, pub ignore: bool, pub int: Option<Duration>, pub types: Vec<(MT, f64)>, pub name: String }
impl Station {
    pub fn mask_at(&self, az: f64) -> f64 {
        if self.ignore { return 0.0; }
        if self.mask.is_empty() { return 0.0; }
        self.mask.iter().filter(|m| m.0 <= az).last().unwrap_or(self.mask.last().unwrap()).1
    }
    /// margin in degrees above the mask at an epoch; and the distance of the azimuth to a step of the mask
    pub fn margin(&self, a: &Aer) -> f64 { a.el - self.mask_at(a.az) }
    pub fn to_nyx(&self) -> GroundStation {
        GroundStation {
            name: self.name.clone(),
            location: Location { latitude_deg: self.site.lat, longitude_deg: self.site.lon, height_km: self.site.h, frame: IAU_EARTH_FRAME.into(),
                terrain_mask: self.mask.iter().map(|(a, e)| TerrainMask { azimuth_deg: *a, elevation_mask_deg: *e }).collect(), terrain_mask_ignored: self.ignore },
            measurement_types: self.types.iter().map(|x| x.0).collect::<IndexSet<_>>(),
            integration_time: self.int, light_time_correction: false, timestamp_noise_s: None,
            stochastic_noises: Some(self.types.iter().map(|(t, s)| (*t, StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: *s }), bias: None })).collect::<IndexMap<_, _>>()),
        }
    }
}
pub fn rand_site(r: &mut Rng64) -> Site { Site { lat: r.r(-75.0, 75.0), lon: r.r(0.0, 360.0), h: r.r(0.0, 3.0) } }
pub fn rand_station(r: &mut Rng64, name: &str, steps: bool) -> Station {
    let mut all = vec![(MT::Range, r.r(1e-3, 1e-1)), (MT::Doppler, r.r(1e-6, 1e-4)), (MT::Azimuth, r.r(1e-3, 1e-1)), (MT::Elevation, r.r(1e-3, 1e-1))];
    for i in (1..4).rev() { let j = r.u(i + 1); all.swap(i, j); }
    all.truncate(1 + r.u(4));
    let mut mask = vec![];
    if r.u(3) > 0 {
        mask.push((0.0, r.r(0.0, 15.0)));
        if steps && r.b() { let mut az: Vec<f64> = (0..1 + r.u(3)).map(|_| r.r(10.0, 350.0)).collect(); az.sort_by(|a, b| a.partial_cmp(b).unwrap()); for a in az { mask.push((a, r.r(0.0, 25.0))); } }
    }
    Station { site: rand_site(r), mask, ignore: r.u(5) == 0, int: None, types: all, name: name.into() }
}
/// A Kepler trajectory sampled by the propagator
pub fn make_traj(x0: Spacecraft, span: Duration) -> Traj<Spacecraft> {
    let p = Propagator::rk89(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorOptions::builder().init_step(30.seconds()).min_step(1.seconds()).max_step(2.minutes()).tolerance(1e-12).build());
    p.with(x0, world()).for_duration_with_traj(span).unwrap().1
}
pub fn rand_world_sc(r: &mut Rng64, lo: f64, hi: f64) -> Spacecraft {
    let ecc = r.r(0.0, 0.2);
    let rp = r.r(lo, hi);
    Spacecraft::from(Orbit::try_keplerian(rp / (1.0 - ecc), ecc, r.r(5.0, 175.0), r.r(0.0, 360.0), r.r(0.0, 360.0), r.r(0.0, 360.0), epoch0(), eme_w()).unwrap())
}
pub fn at(x0: &Spacecraft, e: Epoch) -> (V3, V3) { let (r, v) = rv(x0); kepler(r, v, (e - x0.epoch()).to_seconds(), MU) }

// ---------------------------------------------------------------------------------------------------------------- P13
pub fn cases13(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    // scenario: strands in ticks per device, with the sampling of each
    type Dev = (i64, Vec<(i64, i64)>);
    let mut specs: Vec<(String, Vec<Dev>, usize)> = ctx.scen.iter().enumerate().map(|(i, s)| (format!("scen{i}"), s["dev"].as_array().unwrap().iter().map(|d| (d["samp"].as_i64().unwrap(),
        d["strands"].as_array().unwrap().iter().map(|x| (x["a"].as_i64().unwrap(), x["b"].as_i64().unwrap())).collect())).collect(), 0)).collect();
    let keep = ctx.n(250, 3000);
    if specs.len() > keep { let st = specs.len() / keep + 1; let off = (ctx.seed as usize) % st; specs = specs.into_iter().enumerate().filter(|(i, _)| i % st == off).map(|x| x.1).collect(); }
    for i in 0..ctx.n(120, 2000) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let dev = (0..1 + r.u(3)).map(|_| { let s = r.i(1, 5); (s, (0..1 + r.u(3)).map(|_| { let a = r.i(0, 30); (a, a + s + r.i(0, 30)) }).collect()) }).collect();
        specs.push((id, dev, 0));
    }
    // long arcs of several trackers
    for i in 0..ctx.n(3, 12) {
        let id = format!("big{i}");
        let mut r = ctx.rng(&id);
        let dev = (0..2 + r.u(2)).map(|_| { let s = r.i(1, 2); let a = r.i(0, 30); let b = a + s * r.i(100, 250); let c = b + r.i(1, 40); (s, vec![(a, b), (c, c + s * r.i(50, 150))]) }).collect();
        specs.push((id, dev, 0));
    }
    for i in 0..8 { specs.push((format!("bad{i}"), vec![(1, vec![(0, 5)])], 1 + i % 4)); }
    for (id, devs, bad) in specs {
        let mut r = ctx.rng(&id);
        let x0 = rand_world_sc(&mut r, 7000.0, 20000.0);
        let tick = *r.pick(&[1_000_000_000i128, 7_500_000_000, 30_000_000_000, 60_000_000_000]);
        let tk = |n: i64| Duration::from_total_nanoseconds(n as i128 * tick);
        // some strands last longer than the trajectory
        let last = devs.iter().flat_map(|d| d.1.iter().map(|s| s.1)).max().unwrap_or(1);
        let span = tk(if r.u(4) == 0 { (last * 2 / 3).max(1) } else { last + 1 }) + 10.minutes();
        let end = x0.epoch() + span;
        let mut sts = vec![];
        let mut cfgs: BTreeMap<String, TrkConfig> = BTreeMap::new();
        let mut bd = vec![];
        let order = r.b();
        for (i, (samp, strands)) in devs.iter().enumerate() {
            let name = if order { format!("D{i}") } else { format!("D{}", 9 - i) };
            let mut st = rand_station(&mut r, &name, true);
            // a station which sees the vehicle more often than not
            if r.u(3) > 0 {
                let (rr, _) = at(&x0, x0.epoch() + span * r.r(0.0, 1.0));
                let m = body_to_j2000(x0.epoch() + span * 0.5);
                let f = [m[0][0] * rr[0] + m[1][0] * rr[1] + m[2][0] * rr[2], m[0][1] * rr[0] + m[1][1] * rr[1] + m[2][1] * rr[2], m[0][2] * rr[0] + m[1][2] * rr[1] + m[2][2] * rr[2]];
                st.site = Site { lat: (f[2] / norm(f)).asin().to_degrees().clamp(-80.0, 80.0), lon: f[1].atan2(f[0]).to_degrees().rem_euclid(360.0), h: 0.1 };
            }
            if r.u(4) == 0 { st.int = Some(Duration::from_total_nanoseconds(tick * r.i(1, 3) as i128 / 2)); }
            let base = if r.u(3) == 0 { Duration::from_total_nanoseconds(r.i(0, 500_000_000_000) as i128) } else { Duration::ZERO };
            let base = if base > 9.minutes() { Duration::ZERO } else { base };
            let sampling = tk(*samp);
            let mut bs = vec![];
            let mut ss = vec![];
            for (a, b) in strands {
                // the end of a strand need not be on the grid
                let e = if r.u(3) == 0 { Duration::from_total_nanoseconds(r.i(0, (tick - 1) as i64) as i128) } else { Duration::ZERO };
                let s = Strand { start: x0.epoch() + base + tk(*a), end: x0.epoch() + base + tk(*b) + e };
                // visibility at each epoch of the grid, by the independent model: 0 no, 1 yes, 2 too close to tell
                let mut vis = vec![];
                let mut t = s.start;
                while t <= s.end {
                    let mut f = 1;
                    for u in [Some(t), st.int.map(|d| t - d)].into_iter().flatten() {
                        if u > end || u < x0.epoch() { f = 0; continue; }
                        let (rr, vv) = at(&x0, u);
                        let a = st.site.aer(rr, vv, u);
                        let near_step = !st.ignore && st.mask.len() > 1 && st.mask.iter().any(|m| { let d = (a.az - m.0).abs(); d.min(360.0 - d) < 1e-4 });
                        let g = if st.margin(&a).abs() < 1e-5 || near_step || a.el > 89.9 { 2 } else if st.margin(&a) > 0.0 { 1 } else { 0 };
                        f = if f == 0 || g == 0 { 0 } else if f == 2 || g == 2 { 2 } else { 1 };
                    }
                    vis.push(f);
                    t += sampling;
                }
                bs.push(json!({"a": ep(s.start, x0.epoch()), "b": ep(s.end, x0.epoch()), "vis": vis}));
                ss.push(s);
            }
            bd.push(json!({"name": name, "samp": dur(sampling), "strands": bs}));
            cfgs.insert(name.clone(), TrkConfig { scheduler: None, sampling, strands: Some(ss) });
            sts.push(st);
        }
        match bad {
            1 => { for c in cfgs.values_mut() { c.sampling = Duration::ZERO; } }
            2 => { for c in cfgs.values_mut() { c.sampling = -c.sampling; } }
            3 => { cfgs.clear(); }
            4 => { for c in cfgs.values_mut() { c.strands = None; c.scheduler = Some(Scheduler::builder().build()); } }
            _ => {}
        }
        // a configuration without its device changes nothing
        if r.b() { cfgs.insert("unused".into(), TrkConfig { scheduler: None, sampling: 1.seconds(), strands: Some(vec![Strand { start: x0.epoch(), end: x0.epoch() + 1.minutes() }]) }); }
        let seed = r.i(0, 1 << 40) as u64;
        let begin = json!({"dev": bd, "bad": bad > 0, "end": ep(end, x0.epoch())});
        v.push(case(id, begin, move |rec| {
            let traj = make_traj(x0, span);
            let a = world();
            let mk = |seed: u64| -> Result<TrackingDataArc, String> {
                let devices: BTreeMap<String, GroundStation> = sts.iter().map(|s| (s.name.clone(), s.to_nyx())).collect();
                let mut sim = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices, traj.clone(), cfgs.clone(), seed).map_err(|e| format!("{e}"))?;
                sim.generate_measurements(&a).map_err(|e| format!("{e}"))
            };
            match mk(seed) {
                Err(e) => rec.ev("err", json!({"msg": e})),
                Ok(arc) => {
                    for m in &arc.measurements {
                        let st = sts.iter().find(|s| s.name == m.tracker);
                        let (mut val, mut types) = (2_000_000_000i64, false);
                        if let Some(st) = st {
                            types = m.data.len() == st.types.len() && st.types.iter().all(|t| m.data.contains_key(&t.0));
                            let two = |t: MT, e: Epoch| -> f64 { let (rr, vv) = at(&x0, e); st.site.value(t, &st.site.aer(rr, vv, e)) };
                            val = 0;
                            for (t, s) in &st.types { if let Some(x) = m.data.get(t) {
                                let mut w = two(*t, m.epoch);
                                if let Some(d) = st.int { let o = two(*t, m.epoch - d); let o = if *t == MT::Azimuth { w + ((o - w + 540.0).rem_euclid(360.0) - 180.0) } else { o }; w = 0.5 * (w + o); }
                                let mut d = x - w;
                                if *t == MT::Azimuth { d = (d + 540.0).rem_euclid(360.0) - 180.0; }
                                val = val.max(mag(d, s * 1e-2));
                            } }
                        }
                        rec.ev("m", json!({"t": ep(m.epoch, x0.epoch()), "trk": m.tracker, "val": val, "types": types}));
                    }
                    let same = mk(seed).map(|b| b.measurements.len() == arc.measurements.len() && b.measurements.iter().zip(&arc.measurements).all(|(p, q)| p.epoch == q.epoch && p.tracker == q.tracker && p.data.iter().map(|x| x.1.to_bits()).eq(q.data.iter().map(|x| x.1.to_bits()))));
                    let other = mk(seed ^ 0x5a5a40).map(|b| arc.measurements.is_empty() || b.measurements.iter().zip(&arc.measurements).any(|(p, q)| p.data != q.data));
                    rec.ev("done", json!({"same": same.unwrap_or(false), "other": other.unwrap_or(false)}));
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------- P14
pub fn cases14(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mut specs: Vec<(String, Vec<String>, i64)> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for s in &ctx.scen {
        let h: Vec<String> = s["hands"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let sm = s["samp"].as_i64().unwrap();
        if !seen.insert((h.clone(), sm)) { continue; }
        for k in 0..ctx.n(2, 40) { specs.push((format!("scen-{}{sm}-{k}", h.concat()), h.clone(), sm)); }
    }
    for i in 0..ctx.n(80, 2500) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        specs.push((id, (0..1 + r.u(5)).map(|_| r.pick(&["E", "G", "O", "F", "E", "G"]).to_string()).collect(), r.i(1, 4)));
    }
    for (id, hands, sm) in specs {
        let mut r = ctx.rng(&id);
        let hi = *r.pick(&[8000.0, 16000.0, 30000.0]);
        let x0 = rand_world_sc(&mut r, 7000.0, hi);
        let span = Duration::from_total_nanoseconds(r.i(3 * 3600, 12 * 3600) as i128 * 1_000_000_000);
        let base = rand_site(&mut r);
        let close = r.u(4) > 0;
        let mut sts = vec![];
        let mut cfgs: BTreeMap<String, TrkConfig> = BTreeMap::new();
        for (i, h) in hands.iter().enumerate() {
            let name = format!("D{}", (i * 7 + 3) % 10);
            let mut st = rand_station(&mut r, &name, true);
            if close { st.site = Site { lat: (base.lat + r.r(-12.0, 12.0)).clamp(-80.0, 80.0), lon: (base.lon + r.r(-25.0, 25.0)).rem_euclid(360.0), h: 0.2 }; }
            // two stations at the same place see the same passes
            if i > 0 && r.u(6) == 0 { let o: &Station = &sts[i - 1]; st.site = o.site.clone(); st.mask = o.mask.clone(); st.ignore = o.ignore; }
            let samp = Duration::from_total_nanoseconds(*r.pick(&[10i128, 30, 60]) * sm as i128 * 1_000_000_000);
            let mut sched = Scheduler::builder().min_samples(*r.pick(&[0u32, 1, 2, 5, 10, 20])).build();
            sched.handoff = match h.as_str() { "E" => Handoff::Eager, "G" => Handoff::Greedy, _ => Handoff::Overlap };
            sched.sample_alignment = *r.pick(&[None, Some(1.seconds()), Some(10.seconds()), Some(1.minutes())]);
            if r.u(3) == 0 { sched.cadence = Cadence::Intermittent { on: Duration::from_total_nanoseconds(r.i(60, 7200) as i128 * 1_000_000_000), off: Duration::from_total_nanoseconds(r.i(0, 4 * 3600) as i128 * 1_000_000_000) }; }
            let cfg = if h == "F" {
                let mut t = x0.epoch() + span * r.r(0.0, 0.3);
                let mut ss = vec![];
                for _ in 0..1 + r.u(3) { let e = t + Duration::from_total_nanoseconds(r.i(300, 3600) as i128 * 1_000_000_000); ss.push(Strand { start: t, end: e }); t = e + Duration::from_total_nanoseconds(r.i(60, 7200) as i128 * 1_000_000_000); }
                TrkConfig { scheduler: None, sampling: samp, strands: Some(ss) }
            } else { TrkConfig { scheduler: Some(sched), sampling: samp, strands: None } };
            cfgs.insert(name, cfg);
            sts.push(st);
        }
        v.push(case(id, json!({}), move |rec| {
            // the passes, as found by the event finder on an almanac of our own
            let traj = make_traj(x0, span);
            let a = world();
            let mut order: Vec<usize> = (0..sts.len()).collect();
            order.sort_by_key(|i| sts[*i].name.clone());
            let mut bd = vec![];
            let mut good = true;
            for i in &order {
                let st = &sts[*i];
                let c = &cfgs[&st.name];
                let z = x0.epoch();
                let mut win = vec![];
                if let Some(ss) = &c.strands { for s in ss { win.push(json!({"a": ep(s.start, z), "b": ep(s.end, z), "ra": ep(s.start, z), "rb": ep(s.end, z)})); } }
                else {
                    let mut ds = anise::structure::LocationDataSet::default();
                    ds.push(st.to_nyx().location, Some(77), Some("own")).unwrap();
                    let arcs = (*a).clone().with_location_data(ds).report_visibility_arcs(&traj, 77, traj.first().epoch(), traj.last().epoch(), 2.minutes(), None);
                    let Ok(arcs) = arcs else { good = false; break; };
                    for arc in arcs {
                        let (s, e) = (arc.rise.orbit.epoch, arc.fall.orbit.epoch);
                        // our own geometry agrees that the vehicle is in sight
                        for k in 0..=20 { let u = s + (e - s) * (k as f64 / 20.0); let (rr, vv) = at(&x0, u); let q = st.site.aer(rr, vv, u); if st.margin(&q) < -0.1 { good = false; } }
                        let al = |t: Epoch| c.scheduler.unwrap().sample_alignment.map(|d| t.round(d)).unwrap_or(t);
                        win.push(json!({"a": ep(s, z), "b": ep(e, z), "ra": ep(al(s), z), "rb": ep(al(e), z)}));
                    }
                }
                let (cad, on, off) = match c.scheduler.map(|s| s.cadence) { Some(Cadence::Intermittent { on, off }) => (true, on, off), _ => (false, Duration::ZERO, Duration::ZERO) };
                bd.push(json!({"name": st.name, "hand": hands[*i], "samp": dur(c.sampling), "cad": cad, "on": dur(on), "off": dur(off), "min": c.scheduler.map(|s| s.min_samples).unwrap_or(0), "win": win}));
            }
            if !good { return; }
            rec.ev("net", json!({"dev": bd}));
            let twice = span < 5.hours();
            let mk = |twice: bool| -> Result<BTreeMap<String, TrkConfig>, String> {
                let devices: BTreeMap<String, GroundStation> = sts.iter().map(|s| (s.name.clone(), s.to_nyx())).collect();
                let mut sim = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices, traj.clone(), cfgs.clone(), 0).map_err(|e| format!("{e}"))?;
                let out = if twice { sim.generate_schedule(&world()).map_err(|e| format!("{e}"))? } else { BTreeMap::new() };
                sim.build_schedule(&world()).map_err(|e| format!("{e}"))?;
                if twice && sim.configs != out { return Err("build_schedule differs".into()); }
                Ok(sim.configs.clone())
            };
            match (mk(false), mk(twice)) {
                (Ok(out), Ok(again)) => {
                    for (name, c) in &out {
                        let old = &cfgs[name];
                        rec.ev("sched", json!({"dev": name, "rest": c.sampling == old.sampling && c.scheduler.is_none(), "strands": c.strands.as_ref().unwrap_or(&vec![]).iter().map(|s| json!({"a": ep(s.start, x0.epoch()), "b": ep(s.end, x0.epoch())})).collect::<Vec<Value>>()}));
                    }
                    rec.ev("done", json!({"same": out == again}));
                }
                (Err(e), _) | (_, Err(e)) => rec.ev("err", json!({"msg": e})),
            }
        }));
    }
    v
}
