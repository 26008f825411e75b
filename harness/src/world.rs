//! A small universe held in memory: ephemerides of the Sun, the Earth, the Moon and Jupiter as Chebyshev segments generated here,
//! planetary constants, and body fixed frames for the Earth and the Moon.  No file of /repo/data is needed.
use crate::sc::MU;
use anise::naif::SPK;
use anise::prelude::*;
use anise::structure::PlanetaryDataSet;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use std::f64::consts::PI;
use std::sync::{Arc, OnceLock};

pub const MU_SUN: f64 = 132712440041.93938;
pub const MU_MOON: f64 = 4902.800066;
pub const MU_JUP: f64 = 126712764.1;
pub const RE: f64 = 6378.1366;
pub const RE_POLE: f64 = 6356.7519;
const DAY: f64 = 86400.0;
/// ET seconds past J2000 covered: 2018-01-01 to 2034-01-01 or so
const T0: f64 = 18.0 * 365.25 * DAY;
const T1: f64 = 34.0 * 365.25 * DAY;

struct Circ { r: f64, period_d: f64, inc: f64, node: f64, ph: f64, ecc: f64 }
impl Circ {
    fn pos(&self, t: f64) -> [f64; 3] {
        let m = 2.0 * PI * t / (self.period_d * DAY) + self.ph;
        // a slightly eccentric path: smooth and periodic is all that matters
        let r = self.r * (1.0 - self.ecc * m.cos());
        let th = m + 2.0 * self.ecc * m.sin();
        let (x, y) = (r * th.cos(), r * th.sin());
        let (ci, si) = (self.inc.cos(), self.inc.sin());
        let (cn, sn) = (self.node.cos(), self.node.sin());
        let (x1, y1, z1) = (x, y * ci, y * si);
        [cn * x1 - sn * y1, sn * x1 + cn * y1, z1]
    }
}
fn emb() -> Circ { Circ { r: 149597870.7, period_d: 365.256, inc: 23.43f64.to_radians(), node: 0.0, ph: 1.7, ecc: 0.0167 } }
fn moon_rel_earth() -> Circ { Circ { r: 384400.0, period_d: 27.3217, inc: 25.0f64.to_radians(), node: 0.3, ph: 0.8, ecc: 0.0549 } }
fn jup() -> Circ { Circ { r: 778.0e6, period_d: 4332.6, inc: 23.2f64.to_radians(), node: 0.05, ph: 2.1, ecc: 0.048 } }
const K_MOON: f64 = 1.0 / (1.0 + 81.30056);

/// Chebyshev fit of f on [a, b]
fn cheb<F: Fn(f64) -> f64>(f: F, a: f64, b: f64, n: usize) -> Vec<f64> {
    let vals: Vec<f64> = (0..n).map(|k| f(0.5 * (a + b) + 0.5 * (b - a) * (PI * (k as f64 + 0.5) / n as f64).cos())).collect();
    (0..n)
        .map(|j| {
            let s: f64 = (0..n).map(|k| vals[k] * (PI * j as f64 * (k as f64 + 0.5) / n as f64).cos()).sum();
            s * if j == 0 { 1.0 } else { 2.0 } / n as f64
        })
        .collect()
}

fn spk_bytes() -> Vec<u8> {
    type PosFn = Box<dyn Fn(f64) -> [f64; 3]>;
    let segs: Vec<(i32, i32, f64, PosFn)> = vec![
        (3, 0, 16.0, Box::new(|t| emb().pos(t))),
        (10, 0, 64.0, Box::new(|t| { let p = jup().pos(t); [-p[0] / 1047.0, -p[1] / 1047.0, -p[2] / 1047.0] })),
        (5, 0, 64.0, Box::new(|t| jup().pos(t))),
        (301, 3, 4.0, Box::new(|t| { let p = moon_rel_earth().pos(t); [p[0] * (1.0 - K_MOON), p[1] * (1.0 - K_MOON), p[2] * (1.0 - K_MOON)] })),
        (399, 3, 4.0, Box::new(|t| { let p = moon_rel_earth().pos(t); [-p[0] * K_MOON, -p[1] * K_MOON, -p[2] * K_MOON] })),
    ];
    let mut data: Vec<f64> = vec![];
    let mut sums: Vec<u8> = vec![];
    for (target, center, len_d, f) in &segs {
        let start = 385 + data.len();
        let len = len_d * DAY;
        let n = ((T1 - T0) / len).ceil() as usize;
        let deg = 14;
        for i in 0..n {
            let (a, b) = (T0 + i as f64 * len, T0 + (i + 1) as f64 * len);
            data.push(0.5 * (a + b));
            data.push(0.5 * len);
            for ax in 0..3 {
                data.extend(cheb(|t| f(t)[ax], a, b, deg));
            }
        }
        data.extend([T0, len, (2 + 3 * deg) as f64, n as f64]);
        let end = 385 + data.len() - 1;
        for d in [T0, T0 + n as f64 * len] {
            sums.extend(d.to_le_bytes());
        }
        for x in [*target, *center, 1, 2, start as i32, end as i32] {
            sums.extend(x.to_le_bytes());
        }
    }
    let mut out = vec![];
    out.extend(b"DAF/SPK ");
    out.extend(2u32.to_le_bytes());
    out.extend(6u32.to_le_bytes());
    let mut nm = b"verification ephemeris".to_vec();
    nm.resize(60, b' ');
    out.extend(nm);
    out.extend(2u32.to_le_bytes());
    out.extend(2u32.to_le_bytes());
    out.extend(((385 + data.len()) as u32).to_le_bytes());
    out.extend(b"LTL-IEEE");
    out.resize(1024, 0);
    for d in [0.0f64, 0.0, segs.len() as f64] {
        out.extend(d.to_le_bytes());
    }
    out.extend(sums);
    out.resize(2048, 0);
    out.resize(3072, b' ');
    for d in data {
        out.extend(d.to_le_bytes());
    }
    while out.len() % 1024 != 0 {
        out.push(0);
    }
    out
}

fn pa(o: f64, r: f64) -> Option<PhaseAngle<32>> {
    PhaseAngle::maybe_new(&[o, r, 0.0])
}

pub fn planetary() -> PlanetaryDataSet {
    let mut ds = PlanetaryDataSet::default();
    let earth = PlanetaryData {
        object_id: 399, parent_id: 1, mu_km3_s2: MU, shape: Some(Ellipsoid::from_spheroid(RE, RE_POLE)),
        pole_right_ascension: pa(0.0, -0.641), pole_declination: pa(90.0, -0.557), prime_meridian: pa(190.147, 360.9856235), ..Default::default()
    };
    let moon = PlanetaryData {
        object_id: 301, parent_id: 1, mu_km3_s2: MU_MOON, shape: Some(Ellipsoid::from_sphere(1737.4)),
        pole_right_ascension: pa(269.9949, 0.0031), pole_declination: pa(66.5392, 0.013), prime_meridian: pa(38.3213, 13.17635815), ..Default::default()
    };
    let sun = PlanetaryData {
        object_id: 10, parent_id: 1, mu_km3_s2: MU_SUN, shape: Some(Ellipsoid::from_sphere(695700.0)),
        pole_right_ascension: pa(286.13, 0.0), pole_declination: pa(63.87, 0.0), prime_meridian: pa(84.176, 14.1844), ..Default::default()
    };
    let j = PlanetaryData { object_id: 5, parent_id: 1, mu_km3_s2: MU_JUP, ..Default::default() };
    ds.push(earth, Some(399), Some("Earth")).unwrap();
    ds.push(moon, Some(301), Some("Moon")).unwrap();
    ds.push(sun, Some(10), Some("Sun")).unwrap();
    ds.push(PlanetaryData { object_id: 17, parent_id: 1, ..Default::default() }, Some(17), Some("Ecliptic")).unwrap();
    ds.push(j, Some(5), Some("Jupiter")).unwrap();
    ds
}

pub fn world() -> Arc<Almanac> {
    static W: OnceLock<Arc<Almanac>> = OnceLock::new();
    W.get_or_init(|| {
        let spk = SPK::parse(spk_bytes()).expect("own SPK");
        Arc::new(Almanac::default().with_spk_as(spk, Some("world".into())).with_planetary_data_as(planetary(), Some("pl".into())))
    })
    .clone()
}

/// Inertial Earth frame with the constants of this world.
pub fn eme_w() -> Frame {
    world().frame_info(anise::constants::frames::EARTH_J2000).unwrap()
}

pub fn selftest() {
    use anise::constants::frames::*;
    let a = world();
    let e = crate::sc::epoch0();
    let o = Orbit::try_keplerian(8000.0, 0.01, 30.0, 10.0, 10.0, 10.0, e, eme_w()).unwrap();
    for f in [EARTH_ECLIPJ2000, IAU_EARTH_FRAME, MOON_J2000, SUN_J2000, IAU_MOON_FRAME] {
        println!("{}", a.transform_to(o, f, None).unwrap());
    }
    let t = e.to_et_seconds();
    let p = moon_rel_earth().pos(t);
    let m = a.translate(MOON_J2000, EARTH_J2000, e, None).unwrap();
    println!("{:?} {:?}", p, m.radius_km);
    println!("{:?}", a.frame_info(EARTH_J2000).unwrap());
}
