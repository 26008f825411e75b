//! Closed-form two-body propagation (universal variables), the reference for propagation checks.
fn stumpff(z: f64) -> (f64, f64) {
    if z.abs() < 0.05 {
        // series
        let (mut c, mut s) = (0.0, 0.0);
        let mut tc = 0.5;
        let mut ts = 1.0 / 6.0;
        for k in 0..14 {
            c += tc;
            s += ts;
            let k2 = 2.0 * k as f64;
            tc *= -z / ((k2 + 3.0) * (k2 + 4.0));
            ts *= -z / ((k2 + 4.0) * (k2 + 5.0));
        }
        (c, s)
    } else if z > 0.0 {
        let q = z.sqrt();
        ((1.0 - q.cos()) / z, (q - q.sin()) / (q * q * q))
    } else {
        let q = (-z).sqrt();
        ((q.cosh() - 1.0) / (-z), (q.sinh() - q) / (q * q * q))
    }
}

pub fn kepler(r0: [f64; 3], v0: [f64; 3], dt: f64, mu: f64) -> ([f64; 3], [f64; 3]) {
    let dot = |a: &[f64; 3], b: &[f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let r0n = dot(&r0, &r0).sqrt();
    let alpha = 2.0 / r0n - dot(&v0, &v0) / mu;
    let sm = mu.sqrt();
    let rv = dot(&r0, &v0) / sm;
    let mut dt = dt;
    if alpha > 0.0 {
        let per = 2.0 * std::f64::consts::PI / (sm * alpha.powf(1.5));
        dt -= per * (dt / per).round();
    }
    let t = |x: f64| {
        let (c, s) = stumpff(alpha * x * x);
        rv * x * x * c + (1.0 - alpha * r0n) * x * x * x * s + r0n * x
    };
    let target = sm * dt;
    // bracket then bisect/newton: t is increasing in x
    let mut hi = 1.0f64;
    while t(hi) < target.abs().max(1e-12) && t(-hi) > -target.abs().max(1e-12) || (target > 0.0 && t(hi) < target) || (target < 0.0 && t(-hi) > target) {
        hi *= 2.0;
        if hi > 1e9 {
            break;
        }
    }
    let (mut lo, mut hi) = (-hi, hi);
    let mut x = 0.0;
    for _ in 0..200 {
        let (c, s) = stumpff(alpha * x * x);
        let f = rv * x * x * c + (1.0 - alpha * r0n) * x * x * x * s + r0n * x - target;
        if f > 0.0 { hi = x } else { lo = x }
        let d = rv * x * (1.0 - alpha * x * x * s) + (1.0 - alpha * r0n) * x * x * c + r0n;
        let mut nx = x - f / d;
        if !(nx > lo && nx < hi) {
            nx = 0.5 * (lo + hi);
        }
        if (nx - x).abs() <= 1e-15 * (1.0 + x.abs()) {
            x = nx;
            break;
        }
        x = nx;
    }
    let (c, s) = stumpff(alpha * x * x);
    let f = 1.0 - x * x / r0n * c;
    let g = dt - x * x * x / sm * s;
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = f * r0[i] + g * v0[i];
    }
    let rn = dot(&r, &r).sqrt();
    let fd = sm / (rn * r0n) * (alpha * x * x * x * s - x);
    let gd = 1.0 - x * x / rn * c;
    let mut v = [0.0; 3];
    for i in 0..3 {
        v[i] = fd * r0[i] + gd * v0[i];
    }
    (r, v)
}

use anise::prelude::Orbit;
pub fn kep_orbit(o: &Orbit, dt: hifitime::Duration) -> ([f64; 3], [f64; 3]) {
    kepler(
        [o.radius_km[0], o.radius_km[1], o.radius_km[2]],
        [o.velocity_km_s[0], o.velocity_km_s[1], o.velocity_km_s[2]],
        dt.to_seconds(),
        o.frame.mu_km3_s2.unwrap(),
    )
}
pub fn dist(o: &Orbit, rv: &([f64; 3], [f64; 3])) -> (f64, f64) {
    let mut a = 0.0;
    let mut b = 0.0;
    for i in 0..3 {
        a += (o.radius_km[i] - rv.0[i]).powi(2);
        b += (o.velocity_km_s[i] - rv.1[i]).powi(2);
    }
    (a.sqrt(), b.sqrt())
}

/// The closed-form state as an orbit at exactly the given epoch.
pub fn kep_at(o: &Orbit, e: anise::prelude::Epoch) -> Orbit {
    let (r, v) = kep_orbit(o, e - o.epoch);
    Orbit::new(r[0], r[1], r[2], v[0], v[1], v[2], e, o.frame)
}
/// Distance between two orbits given in the same frame.
pub fn odist(a: &Orbit, b: &Orbit) -> (f64, f64) {
    ((a.radius_km - b.radius_km).norm(), (a.velocity_km_s - b.velocity_km_s).norm())
}
