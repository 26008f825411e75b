//! Small independent numerics: vectors, local frames, a classical RK4.
pub type V3 = [f64; 3];
pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn sc(k: f64, a: V3) -> V3 { [k * a[0], k * a[1], k * a[2]] }
pub fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn norm(a: V3) -> f64 { dot(a, a).sqrt() }
pub fn hat(a: V3) -> V3 { sc(1.0 / norm(a), a) }
pub fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
/// Unit axes (columns) of a local frame: 0 inertial, 1 RIC/RCN (radial, in-track, cross-track), 2 VNC (velocity, normal, v x n)
pub fn axes(kind: usize, r: V3, v: V3) -> [V3; 3] {
    let n = hat(cross(r, v));
    match kind {
        0 => [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
        1 => { let rh = hat(r); [rh, cross(n, rh), n] }
        _ => { let vh = hat(v); [vh, n, cross(vh, n)] }
    }
}
pub fn to_inertial(ax: &[V3; 3], u: V3) -> V3 {
    add(add(sc(u[0], ax[0]), sc(u[1], ax[1])), sc(u[2], ax[2]))
}
pub fn rk4<const N: usize>(f: &dyn Fn(f64, &[f64; N]) -> [f64; N], mut y: [f64; N], t0: f64, t1: f64, hmax: f64) -> [f64; N] {
    let n = (((t1 - t0).abs() / hmax).ceil() as usize).max(1);
    let h = (t1 - t0) / n as f64;
    for i in 0..n {
        let t = t0 + h * i as f64;
        let ax = |y: &[f64; N], k: &[f64; N], s: f64| { let mut o = *y; for j in 0..N { o[j] += s * k[j]; } o };
        let k1 = f(t, &y);
        let k2 = f(t + 0.5 * h, &ax(&y, &k1, 0.5 * h));
        let k3 = f(t + 0.5 * h, &ax(&y, &k2, 0.5 * h));
        let k4 = f(t + h, &ax(&y, &k3, h));
        for j in 0..N { y[j] += h / 6.0 * (k1[j] + 2.0 * k2[j] + 2.0 * k3[j] + k4[j]); }
    }
    y
}
