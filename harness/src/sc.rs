//! Spacecraft, orbits, almanacs and instrumented dynamics used by the cases.
use crate::util::*;
use anise::prelude::*;
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::{Dynamics, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::linalg::{Const, OVector};
use nyx_space::propagators::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub const MU: f64 = 398600.435436;
pub fn eme() -> Frame {
    anise::constants::frames::EARTH_J2000.with_mu_km3_s2(MU)
}
pub fn epoch0() -> Epoch {
    Epoch::from_gregorian_utc_hms(2023, 2, 22, 12, 30, 15)
}
pub fn alm() -> Arc<Almanac> {
    Arc::new(Almanac::default())
}
pub const METHODS: [IntegratorMethod; 6] = [
    IntegratorMethod::RungeKutta89,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::RungeKutta4,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
];
pub const ADAPTIVE: [IntegratorMethod; 5] = [
    IntegratorMethod::RungeKutta89,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
];

/// A random bound Earth orbit.
pub fn rand_orbit(r: &mut Rng64, e: Epoch) -> Orbit {
    let ecc = if r.u(4) == 0 { r.r(0.0, 1e-3) } else { r.r(0.001, 0.7) };
    let rp = r.r(6700.0, 15000.0);
    let sma = rp / (1.0 - ecc);
    Orbit::try_keplerian(sma, ecc, r.r(1.0, 179.0), r.r(0.0, 360.0), r.r(0.0, 360.0), r.r(0.0, 360.0), e, eme()).unwrap()
}
pub fn rand_sc(r: &mut Rng64, e: Epoch) -> Spacecraft {
    Spacecraft::from(rand_orbit(r, e))
}

/// Wraps the real spacecraft dynamics: counts calls and fails on demand.
#[derive(Clone)]
pub struct Faulty {
    pub inner: SpacecraftDynamics,
    pub calls: Arc<AtomicU64>,
    /// fail when this many further eom calls have been made (negative: never)
    pub fuse: Arc<AtomicI64>,
    pub ffuse: Arc<AtomicI64>,
}
impl Faulty {
    pub fn new(inner: SpacecraftDynamics) -> Self {
        Faulty {
            inner,
            calls: Default::default(),
            fuse: Arc::new(AtomicI64::new(-1)),
            ffuse: Arc::new(AtomicI64::new(-1)),
        }
    }
    pub fn two_body() -> Self {
        Self::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()))
    }
    fn blow(f: &AtomicI64) -> bool {
        let v = f.load(Ordering::SeqCst);
        if v < 0 {
            return false;
        }
        f.store(v - 1, Ordering::SeqCst);
        v == 0
    }
}
impl Dynamics for Faulty {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(&self, dt: f64, x: &OVector<f64, Const<90>>, ctx: &Spacecraft, a: &Almanac) -> Result<OVector<f64, Const<90>>, DynamicsError> {
        self.calls.fetch_add(1, Ordering::SeqCst);
        if Self::blow(&self.fuse) {
            return Err(DynamicsError::MasslessSpacecraft);
        }
        self.inner.eom(dt, x, ctx, a)
    }
    fn finally(&self, s: Spacecraft, a: &Almanac) -> Result<Spacecraft, DynamicsError> {
        if Self::blow(&self.ffuse) {
            return Err(DynamicsError::MasslessSpacecraft);
        }
        self.inner.finally(s, a)
    }
}

/// Bit pattern of the whole integrated state and its epoch.
pub fn bits(s: &Spacecraft) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut mix = |b: u64| {
        for i in 0..8 {
            h ^= (b >> (8 * i)) & 0xff;
            h = h.wrapping_mul(0x100000001b3);
        }
    };
    for x in s.to_vector().iter() {
        mix(x.to_bits());
    }
    mix(s.epoch().to_tai_duration().total_nanoseconds() as u64);
    format!("{h:016x}")
}
