//! P26: noise models, their statistics over many draws, and the noise devices put on their measurements.
use crate::gs::*;
use crate::num::*;
use crate::sc::epoch0;
use crate::util::*;
use crate::world::*;
use anise::prelude::Orbit;
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use indexmap::{IndexMap, IndexSet};
use nyx_space::cosmic::Spacecraft;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::noise::link_specific::*;
use nyx_space::od::noise::*;
use nyx_space::od::position::PositionDevice;
use nyx_space::od::prelude::*;
use rand_pcg::Pcg64Mcg;
use serde_json::json;
use MeasurementType as MT;

fn z(x: f64) -> i64 { clampi(x * 1000.0) }
/// z-scores of the mean, of the variance and of the correlation of successive draws
fn stats(x: &[f64], mean: f64, sigma: f64) -> (i64, i64, i64) {
    let n = x.len() as f64;
    let m = x.iter().map(|v| (v - mean) / sigma).sum::<f64>() / n;
    let v = x.iter().map(|v| ((v - mean) / sigma).powi(2)).sum::<f64>() / n;
    let c = x.windows(2).map(|w| (w[0] - mean) * (w[1] - mean) / sigma / sigma).sum::<f64>() / (n - 1.0);
    (z(m * n.sqrt()), z((v - 1.0) * (n / 2.0).sqrt()), z(c * n.sqrt()))
}
fn epochs(r: &mut Rng64, kind: &str, n: usize) -> Vec<Epoch> {
    let mut e = epoch0() + r.r(0.0, 900.0).days();
    (0..n).map(|i| {
        e = match kind { "fwd" => e + r.r(0.1, 120.0).seconds(), "same" => e, "back" => e - r.r(0.1, 120.0).seconds(), _ => if i % 7 == 3 { e + 10.days() } else { e + 1.seconds() } };
        e
    }).collect()
}
fn model(r: &mut Rng64, kind: &str, cst: bool) -> StochasticNoise {
    let white = WhiteNoise { mean: if r.b() { 0.0 } else { r.r(-3.0, 3.0) }, sigma: 10f64.powf(r.r(-6.0, 1.0)) };
    let mut gm = GaussMarkov::new(Duration::from_total_nanoseconds(r.i(1_000_000_000, 90_000_000_000_000) as i128), 10f64.powf(r.r(-6.0, 1.0))).unwrap();
    if cst { gm.constant = Some(r.r(-5.0, 5.0)); }
    StochasticNoise { white_noise: if kind == "white" || kind == "both" { Some(white) } else { None }, bias: if kind == "gm" || kind == "both" { Some(gm) } else { None } }
}
fn draw(mut m: StochasticNoise, es: &[Epoch], seed: u64) -> Vec<f64> {
    let mut g = Pcg64Mcg::new((seed as u128) << 8 | 5);
    es.iter().map(|e| m.sample(*e, &mut g)).collect()
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * (a.abs() + b.abs()) + 1e-300 }
pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for (i, s) in ctx.scen.iter().enumerate() {
        for rep in 0..ctx.n(2, 10) {
            let kind = s["kind"].as_str().unwrap().to_string();
            let ek = s["epochs"].as_str().unwrap().to_string();
            let cst = s["cst"].as_bool().unwrap();
            let dev = s["dev"].as_str().unwrap().to_string();
            let id = format!("scen{i}:{kind}:{ek}:{cst}:{dev}:{rep}");
            let mut r = ctx.rng(&id);
            let n = ctx.n(4000, 20000);
            v.push(case(id, json!({"kind": kind, "cst": cst, "dev": dev, "kf": ""}), move |rec| {
                if dev == "none" { bare(rec, &mut r, &kind, &ek, cst, n) } else { device(rec, &mut r, &kind, cst, &dev, n / 2) }
            }));
        }
    }
    // the steady state of a Gauss-Markov bias
    for (i, (tau, dt)) in [(60.0, 60.0), (3600.0, 1800.0), (5.0, 60.0), (86400.0, 3600.0)].into_iter().enumerate() {
        let id = format!("steady{i}");
        let mut r = ctx.rng(&id);
        v.push(case(id, json!({"kind": "gm", "cst": false, "dev": "none", "kf": "gauss-markov-steady-state"}), move |rec| {
            let n = 4000;
            let sigma = 0.5;
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..n {
                let mut g = GaussMarkov::new(Unit::Second * tau, sigma).unwrap();
                let mut rng = Pcg64Mcg::new(r.i(0, i64::MAX - 1) as u128);
                a.push(g.sample(epoch0(), &mut rng));
                b.push(g.sample(epoch0() + Unit::Second * dt, &mut rng));
            }
            let cov = GaussMarkov::new(Unit::Second * tau, sigma).unwrap().covariance(epoch0() + Unit::Second * dt);
            let (zm, zv, _) = stats(&b, 0.0, cov.sqrt());
            let (sa, sb) = ((a.iter().map(|x| x * x).sum::<f64>()).sqrt(), (b.iter().map(|x| x * x).sum::<f64>()).sqrt());
            let rho = a.iter().zip(&b).map(|(x, y)| x * y).sum::<f64>() / sa / sb;
            rec.ev("steady", json!({"mean": zm, "var": zv, "corr": z((rho - (-dt / tau).exp()) * (n as f64).sqrt())}));
        }));
    }
    for i in 0..ctx.n(40, 400) {
        let id = format!("ctor{i}");
        let mut r = ctx.rng(&id);
        let scratch = ctx.scratch.clone();
        v.push(case(id.clone(), json!({"kind": "ctor", "cst": false, "dev": "none", "kf": ""}), move |rec| ctor(rec, &mut r, &scratch, &id, i < 3)));
    }
    v
}
fn bare(rec: &Rec, r: &mut Rng64, kind: &str, ek: &str, cst: bool, n: usize) {
    let m = model(r, kind, cst);
    let es = epochs(r, ek, 300);
    let seed = r.i(0, 1 << 50) as u64;
    let x = draw(m, &es, seed);
    let y = draw(m, &es, seed);
    let o = draw(m, &es, seed ^ 0x5a5a5a5a0);
    rec.ev("repro", json!({"same": x.iter().zip(&y).all(|(a, b)| a.to_bits() == b.to_bits()), "differ": x.iter().zip(&o).filter(|(a, b)| a != b).count(), "fin": x.iter().all(|v| v.is_finite())}));
    // a constant bias moves every sample by just as much
    if let Some(c) = m.bias.and_then(|b| b.constant) {
        let mut q = m;
        q.bias.as_mut().unwrap().constant = None;
        let w = draw(q, &es, seed);
        let spread = x.iter().map(|v| v.abs()).fold(0.0, f64::max) + c.abs();
        rec.ev("offset", json!({"ok": x.iter().zip(&w).all(|(a, b)| (a - b - c).abs() <= 1e-12 * spread)}));
    }
    // scaling the model scales its noise
    if !cst {
        let k = r.r(0.1, 9.0);
        let q = draw(m * k, &es, seed);
        let mu = m.white_noise.map(|w| w.mean).unwrap_or(0.0);
        let spread = x.iter().map(|v| v.abs()).fold(0.0, f64::max) * k + mu.abs();
        let mut a = m;
        a *= k;
        rec.ev("scaled", json!({"ok": x.iter().zip(&q).all(|(a, b)| (b - mu - k * (a - mu)).abs() <= 1e-12 * spread), "cov": close((m * k).covariance(es[0]), k * k * m.covariance(es[0])), "assign": a == m * k}));
    }
    // what is reported
    let w = m.white_noise.map(|w| w.sigma.powi(2)).unwrap_or(0.0);
    let g = m.bias.map(|b| b.process_noise.powi(2)).unwrap_or(0.0);
    rec.ev("cov", json!({"ok": es.iter().all(|e| close(m.covariance(*e), w + g))}));
    // statistics of fresh draws: white noise at any epochs, the first sample of a bias
    let mut xs = vec![];
    let es = epochs(r, ek, n);
    let c0 = m.bias.and_then(|b| b.constant).unwrap_or(0.0) + m.white_noise.map(|w| w.mean).unwrap_or(0.0);
    let mut rng = Pcg64Mcg::new(r.i(0, i64::MAX - 1) as u128);
    let mut keep = m;
    for e in &es { xs.push(if kind == "white" { keep.sample(*e, &mut rng) } else { let mut f = m; f.sample(*e, &mut rng) }); }
    if w + g > 0.0 {
        let (a, b, c) = stats(&xs, c0, (w + g).sqrt());
        rec.ev("stats", json!({"mean": a, "var": b, "lag": c}));
    } else {
        rec.ev("silent", json!({"ok": xs.iter().all(|v| *v == c0)}));
    }
}
fn device(rec: &Rec, r: &mut Rng64, kind: &str, cst: bool, dev: &str, n: usize) {
    let w = world();
    let sat = rand_world_sc(r, 7200.0, 30000.0);
    let (p, _) = crate::od::rv(&sat);
    let types: Vec<MT> = match dev { "gs" => vec![MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation], "link" => vec![MT::Range, MT::Doppler], _ => vec![MT::X, MT::Y, MT::Z] };
    let mut order = types.clone();
    for i in (1..order.len()).rev() { let j = r.u(i + 1); order.swap(i, j); }
    order.truncate(1 + r.u(order.len()));
    let mut noises: IndexMap<MT, StochasticNoise> = IndexMap::new();
    for t in &order {
        let mut m = model(r, kind, cst);
        // keep angles away from their limits
        if let Some(x) = m.white_noise.as_mut() { x.sigma = r.r(1e-5, 1e-2); x.mean *= 0.01; }
        if let Some(x) = m.bias.as_mut() { x.process_noise = r.r(1e-5, 1e-2); x.constant = x.constant.map(|c| c * 0.01); }
        noises.insert(*t, m);
    }
    let stamp = if dev != "pos" && r.b() { Some(StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: r.r(1e-3, 1.0) }), bias: None }) } else { None };
    enum D { G(GroundStation), L(InterlinkTxSpacecraft), P(PositionDevice) }
    let mut d = match dev {
        "gs" => {
            let m = body_to_j2000(sat.orbit.epoch);
            let f = [0, 1, 2].map(|i| m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2]);
            let site = Site { lat: ((f[2] / norm(f)).asin().to_degrees() + r.r(5.0, 9.0)).clamp(-85.0, 85.0), lon: (f[1].atan2(f[0]).to_degrees() + r.r(4.0, 8.0)).rem_euclid(360.0), h: 0.5 };
            let mut g = Station { site, mask: vec![], ignore: true, int: None, types: vec![], name: "N".into() }.to_nyx();
            g.measurement_types = order.iter().copied().collect::<IndexSet<_>>();
            g.stochastic_noises = Some(noises.clone());
            g.timestamp_noise_s = stamp;
            D::G(g)
        }
        "link" => {
            let q = Orbit::new(p[0] * 1.1 + 50.0, p[1] * 1.1, p[2] * 1.1, 0.0, 0.0, 7.0, sat.orbit.epoch, eme_w());
            let mut t = make_traj(Spacecraft::from(q), 5.minutes());
            t.name = Some("N".into());
            D::L(InterlinkTxSpacecraft { traj: t, measurement_types: order.iter().copied().collect(), integration_time: None, timestamp_noise_s: stamp, stochastic_noises: Some(noises.clone()), ab_corr: None })
        }
        _ => { let mut x = PositionDevice::new("N".into()); for (t, m) in &noises { x = x.with_noise(*t, *m); } D::P(x) }
    };
    let e = sat.orbit.epoch;
    macro_rules! on { ($x:ident, $b:expr) => { match &mut d { D::G($x) => $b, D::L($x) => $b, D::P($x) => $b } } }
    let clean = match on!(x, x.measure_instantaneous(sat, None, &w)) { Ok(Some(m)) => m, _ => { rec.ev("unseen", json!({})); return; } };
    // what is reported for each type
    let mut cov = true;
    for t in &order {
        let c = on!(x, TrackingDevice::<Spacecraft>::measurement_covar(x, *t, e));
        let b = on!(x, TrackingDevice::<Spacecraft>::measurement_bias(x, *t, e));
        cov &= c.map(|c| close(c, noises[t].covariance(e))).unwrap_or(false);
        cov &= b.map(|b| b == noises[t].bias.and_then(|g| g.constant).unwrap_or(0.0)).unwrap_or(false);
    }
    // types which are not configured are errors
    let mut refused = true;
    for t in &types { if !order.contains(t) { refused &= on!(x, TrackingDevice::<Spacecraft>::measurement_covar(x, *t, e)).is_err(); } }
    rec.ev("reported", json!({"ok": cov, "refused": refused || (dev == "pos" && order.is_empty())}));
    let fresh = |noises: &IndexMap<MT, StochasticNoise>, d: &mut D| match d { D::G(x) => x.stochastic_noises = Some(noises.clone()), D::L(x) => x.stochastic_noises = Some(noises.clone()), D::P(x) => x.stochastic_noises = Some(noises.clone()) };
    let mut rng = Pcg64Mcg::new(r.i(0, i64::MAX - 1) as u128);
    let mut all: IndexMap<MT, Vec<f64>> = order.iter().map(|t| (*t, vec![])).collect();
    let mut dts = vec![];
    for _ in 0..n {
        fresh(&noises, &mut d);
        let m = on!(x, x.measure_instantaneous(sat, Some(&mut rng), &w)).unwrap().unwrap();
        for t in &order { all[t].push(m.data[t] - clean.data[t]); }
        dts.push((m.epoch - e).to_seconds());
    }
    for t in &order {
        let m = noises[t];
        let c0 = m.bias.and_then(|b| b.constant).unwrap_or(0.0) + m.white_noise.map(|w| w.mean).unwrap_or(0.0);
        let s = m.covariance(e).sqrt();
        if s > 0.0 { let (a, b, c) = stats(&all[t], c0, s); rec.ev("stats", json!({"mean": a, "var": b, "lag": c})); } else { rec.ev("silent", json!({"ok": all[t].iter().all(|v| *v == c0)})); }
    }
    // noises of different types are independent
    for i in 1..order.len() {
        let (x, y) = (&all[&order[i - 1]], &all[&order[i]]);
        let (mx, my) = (x.iter().sum::<f64>() / n as f64, y.iter().sum::<f64>() / n as f64);
        let sx = x.iter().map(|v| (v - mx).powi(2)).sum::<f64>().sqrt();
        let sy = y.iter().map(|v| (v - my).powi(2)).sum::<f64>().sqrt();
        if sx > 0.0 && sy > 0.0 { rec.ev("cross", json!({"z": z(x.iter().zip(y).map(|(a, b)| (a - mx) * (b - my)).sum::<f64>() / sx / sy * (n as f64).sqrt())})); }
    }
    match stamp {
        Some(s) => { let (a, b, c) = stats(&dts, 0.0, s.covariance(e).sqrt()); rec.ev("stats", json!({"mean": a, "var": b, "lag": c})); }
        None => rec.ev("silent", json!({"ok": dts.iter().all(|v| *v == 0.0)})),
    }
    // a device without noises cannot simulate any, and says so
    match &mut d { D::G(x) => x.stochastic_noises = None, D::L(x) => x.stochastic_noises = None, D::P(x) => x.stochastic_noises = None }
    let sim = on!(x, x.measure_instantaneous(sat, Some(&mut rng), &w)).is_err();
    let cov = on!(x, TrackingDevice::<Spacecraft>::measurement_covar(x, order[0], e));
    let bias = on!(x, TrackingDevice::<Spacecraft>::measurement_bias(x, order[0], e));
    rec.ev("bare-device", json!({"refused": sim, "cov": cov.map(|c| c == 0.0).unwrap_or(true) && bias.map(|c| c == 0.0).unwrap_or(true)}));
}
fn ctor(rec: &Rec, r: &mut Rng64, scratch: &std::path::Path, id: &str, sim: bool) {
    let c = 299792.458;
    let pn = r.r(-2.0, 5.0);
    let t = Unit::Second * r.r(-10.0, 100.0);
    let w = WhiteNoise::new(pn, t);
    let valid = pn >= 0.0 && t > Duration::ZERO;
    rec.ev("ctor", json!({"ok": match w { Ok(w) => valid && close(w.sigma, pn / t.to_seconds()) && w.mean == 0.0, Err(_) => !valid }}));
    let g = GaussMarkov::new(t, pn.abs());
    rec.ev("ctor", json!({"ok": match g { Ok(g) => t > Duration::ZERO && g.tau == t && g.process_noise == pn.abs() && g.constant.is_none(), Err(_) => t <= Duration::ZERO }}));
    rec.ev("ctor", json!({"ok": WhiteNoise::constant_white_noise(pn.abs()).sigma == pn.abs()}));
    let (snr, bw) = (r.r(10.0, 1e6), r.r(1e3, 1e7));
    rec.ev("ctor", json!({"ok": close(WhiteNoise::from_pr_n0(snr, bw).sigma, c / (2.0 * bw * snr.sqrt()))}));
    let ti = r.r(0.1, 100.0);
    let ad = 10f64.powf(r.r(-15.0, -10.0));
    let (chip, cv) = match r.u(6) { 0 => (ChipRate::Lowest(), 1e3), 1 => (ChipRate::Low(), 1e5), 2 => (ChipRate::StandardT4B(), 1e6), 3 => (ChipRate::High(), 1e7), 4 => (ChipRate::VeryHigh(), 2.5e7), _ => { let x = r.r(1e3, 1e7); (ChipRate::ManualHz(x), x) } };
    let (sn, sv) = match r.u(4) { 0 => (SN0::Strong(), 65.0), 1 => (SN0::Average(), 50.0), 2 => (SN0::Poor(), 40.0), _ => { let x = r.r(20.0, 80.0); (SN0::ManualDbHz(x), x) } };
    let (cn, nv) = match r.u(4) { 0 => (CN0::Strong(), 70.0), 1 => (CN0::Average(), 55.0), 2 => (CN0::Poor(), 45.0), _ => { let x = r.r(20.0, 80.0); (CN0::ManualDbHz(x), x) } };
    let (fr, fv) = match r.u(4) { 0 => (CarrierFreq::SBand(), 2.2e9), 1 => (CarrierFreq::XBand(), 8.4e9), 2 => (CarrierFreq::KaBand(), 32e9), _ => { let x = r.r(1e9, 4e10); (CarrierFreq::ManualHz(x), x) } };
    let tau = std::f64::consts::TAU;
    let tid = Unit::Second * ti;
    let ti = tid.to_seconds();
    let hz = |db: f64| 10f64.powf(db / 10.0);
    let want = ((c * ad * ti / 3f64.sqrt()).powi(2) + (c / (tau * cv * (2.0 * hz(sv)).sqrt())).powi(2)).sqrt();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b;
    rec.ev("ctor", json!({"ok": near(StochasticNoise::from_hardware_range_km(ad, tid, chip, sn).white_noise.unwrap().sigma, want)}));
    let want = ((c * ad).powi(2) + (c / (tau * fv * (2.0 * hz(nv) * ti).sqrt())).powi(2)).sqrt();
    rec.ev("ctor", json!({"ok": near(StochasticNoise::from_hardware_doppler_km_s(ad, tid, fr, cn).white_noise.unwrap().sigma, want)}));
    if sim {
        let kind = *r.pick(&["white", "both"]);
        let m = model(r, kind, false);
        let _ = std::fs::create_dir_all(scratch);
        let f = scratch.join(format!("noise-{id}.parquet"));
        let runs = 1 + r.u(3) as u32;
        let out = m.simulate(&f, Some(runs), None).map_err(|e| e.to_string());
        let there = f.exists();
        let _ = std::fs::remove_file(&f);
        let ok = match out {
            Err(_) => false,
            Ok(s) => {
                let want: Vec<f64> = (0..=1440).filter(|i| !(*i > 360 && *i < 720)).map(|i| i as f64 * 60.0).collect();
                s.len() == want.len() * runs as usize && s.iter().enumerate().all(|(i, q)| q.run as usize == i / want.len() && (q.dt_s - want[i % want.len()]).abs() < 1e-6 && close(q.variance, m.covariance(epoch0())) && q.sample.is_finite())
            }
        };
        rec.ev("simulated", json!({"ok": ok && there}));
    }
}
