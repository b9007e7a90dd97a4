//! Reference models: short, independent formulations of the geodesy that the library
//! is checked against. Nothing here calls into geokit.
#![allow(non_snake_case)]
use std::f64::consts::PI;

/// Gauss-Legendre nodes/weights on [-1, 1].
pub struct Gl {
    pub x: Vec<f64>,
    pub w: Vec<f64>,
}
impl Gl {
    pub fn new(n: usize) -> Gl {
        let mut x = vec![0.0; n];
        let mut w = vec![0.0; n];
        for i in 0..n {
            let mut z = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
            let mut dp = 0.0;
            for _ in 0..100 {
                let (mut p0, mut p1) = (1.0, 0.0);
                for j in 0..n {
                    let p2 = p1;
                    p1 = p0;
                    p0 = ((2 * j + 1) as f64 * z * p1 - j as f64 * p2) / (j + 1) as f64;
                }
                dp = n as f64 * (z * p0 - p1) / (z * z - 1.0);
                let dz = p0 / dp;
                z -= dz;
                if dz.abs() < 1e-16 {
                    break;
                }
            }
            x[i] = z;
            w[i] = 2.0 / ((1.0 - z * z) * dp * dp);
        }
        Gl { x, w }
    }
}

pub fn gl16() -> &'static Gl {
    use std::sync::OnceLock;
    static G: OnceLock<Gl> = OnceLock::new();
    G.get_or_init(|| Gl::new(16))
}

/// Ellipsoid of revolution: semi-major axis and flattening.
#[derive(Clone, Copy, Debug)]
pub struct Ell {
    pub a: f64,
    pub b: f64,
    pub f: f64,
    pub e2: f64,
}

impl Ell {
    pub fn ab(a: f64, b: f64) -> Ell {
        Ell { a, b, f: (a - b) / a, e2: ((a - b) / a) * ((a + b) / a) }
    }
    pub fn e(&self) -> f64 {
        self.e2.sqrt()
    }

    /// Geodetic (Greenwich longitude) to geocentric, via the parametric latitude.
    pub fn to_xyz(&self, lon: f64, lat: f64, h: f64) -> [f64; 3] {
        let (sp, cp) = lat.sin_cos();
        let (u, v) = ((1.0 - self.f) * sp, cp);
        let r = u.hypot(v);
        let (sb, cb) = (u / r, v / r);
        let p = self.a * cb + h * cp;
        [p * lon.cos(), p * lon.sin(), self.b * sb + h * sp]
    }

    /// Isometric latitude.
    pub fn psi(&self, lat: f64) -> f64 {
        let e = self.e();
        lat.tan().asinh() - e * (e * lat.sin()).atanh()
    }

    /// Meridian arc from the equator.
    pub fn merid(&self, lat: f64) -> f64 {
        let g = gl16();
        let n = 4;
        let mut s = 0.0;
        for k in 0..n {
            let lo = lat * k as f64 / n as f64;
            let hi = lat * (k + 1) as f64 / n as f64;
            let (c, r) = (0.5 * (lo + hi), 0.5 * (hi - lo));
            for (x, w) in g.x.iter().zip(&g.w) {
                let t = c + r * x;
                s += w * r * (1.0 - self.e2 * t.sin().powi(2)).powf(-1.5);
            }
        }
        self.a * (1.0 - self.e2) * s
    }

    /// Unit tangent vector in direction azimuth `az` at (lon, lat).
    pub fn tangent(lon: f64, lat: f64, az: f64) -> [f64; 3] {
        let (sl, cl) = lon.sin_cos();
        let (sp, cp) = lat.sin_cos();
        let (sa, ca) = az.sin_cos();
        let e = [-sl, cl, 0.0];
        let n = [-sp * cl, -sp * sl, cp];
        [sa * e[0] + ca * n[0], sa * e[1] + ca * n[1], sa * e[2] + ca * n[2]]
    }
}

pub fn dist3(a: [f64; 3], b: [f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}

/// End of a geodesic as computed by the reference.
#[derive(Clone, Copy, Debug)]
pub struct GeoEnd {
    /// longitude difference accumulated along the geodesic, not wrapped
    pub dlon: f64,
    pub lat: f64,
    pub az: f64,
    /// arc on the auxiliary sphere
    pub sigma12: f64,
}

/// Reference direct geodesic: the Bessel/Helmert integrals on the auxiliary sphere by
/// Gauss-Legendre quadrature and Newton inversion of the distance integral (no series).
pub fn geod_direct(el: &Ell, lat1: f64, az1: f64, s12: f64) -> GeoEnd {
    let f = el.f;
    let (sp, cp) = lat1.sin_cos();
    let (u, v) = ((1.0 - f) * sp, cp);
    let r = u.hypot(v);
    let (sb1, cb1) = (u / r, v / r);
    let (sa1, ca1) = az1.sin_cos();
    let sa0 = sa1 * cb1;
    let ca0 = ca1.hypot(sa1 * sb1);
    let sig1 = sb1.atan2(ca1 * cb1);
    let ep2 = el.e2 / (1.0 - el.e2);
    let k2 = ep2 * ca0 * ca0;
    let g = gl16();
    let ds = |t: f64| (1.0 + k2 * t.sin().powi(2)).sqrt();
    let integ = |lo: f64, hi: f64, fun: &dyn Fn(f64) -> f64| -> f64 {
        let n = (((hi - lo).abs() / 0.8).ceil() as usize).max(1);
        let mut s = 0.0;
        for k in 0..n {
            let l = lo + (hi - lo) * k as f64 / n as f64;
            let h = lo + (hi - lo) * (k + 1) as f64 / n as f64;
            let (c, r) = (0.5 * (l + h), 0.5 * (h - l));
            for (x, w) in g.x.iter().zip(&g.w) {
                s += w * r * fun(c + r * x);
            }
        }
        s
    };
    // Newton for sigma2: b * int ds = s12
    let mut sig12 = s12 / (el.b * (1.0 + 0.25 * k2));
    for _ in 0..20 {
        let err = el.b * integ(sig1, sig1 + sig12, &ds) - s12;
        let d = err / (el.b * ds(sig1 + sig12));
        sig12 -= d;
        if d.abs() < 1e-16 {
            break;
        }
    }
    let sig2 = sig1 + sig12;
    // longitude on the auxiliary sphere, unwrapped (omega has the sign of sa0 and the revolution
    // count of sigma); omega1 from (beta1, az1) directly, which stays exact at the poles
    let sg = if sa0.is_sign_negative() { -1.0 } else { 1.0 };
    let om1 = (sa0 * sb1).atan2(ca1 * cb1);
    let k = (sig2 / (2.0 * PI)).round();
    let rr = sig2 - 2.0 * PI * k;
    let om2 = (sa0 * rr.sin()).atan2(rr.cos()) + 2.0 * PI * k * sg;
    let i3 = integ(sig1, sig2, &|t| (2.0 - f) / (1.0 + (1.0 - f) * ds(t)));
    let dlon = om2 - om1 - f * sa0 * i3;
    let (s2, c2) = sig2.sin_cos();
    let sb2 = ca0 * s2;
    let cb2 = (ca0 * c2).hypot(sa0);
    let lat2 = sb2.atan2((1.0 - f) * cb2);
    let az2 = sa0.atan2(ca0 * c2);
    GeoEnd { dlon, lat: lat2, az: az2, sigma12: sig12 }
}

/// Length of the shortest geodesic between two positions less than about 150 degrees apart: the
/// reference direct geodesic, aimed anew until it arrives. None if it does not get there.
pub fn geod_inv(el: &Ell, lat1: f64, lat2: f64, dlon: f64) -> Option<f64> {
    let beta = |l: f64| ((1.0 - el.f) * l.sin()).atan2(l.cos());
    let (b1, b2) = (beta(lat1), beta(lat2));
    let (y, x) = (b2.cos() * dlon.sin(), b1.cos() * b2.sin() - b1.sin() * b2.cos() * dlon.cos());
    let mut az = y.atan2(x);
    let mut s = el.a * y.hypot(x).atan2(b1.sin() * b2.sin() + b1.cos() * b2.cos() * dlon.cos());
    let to = el.to_xyz(dlon, lat2, 0.0);
    for _ in 0..60 {
        let w = geod_direct(el, lat1, az, s);
        let at = el.to_xyz(w.dlon, w.lat, 0.0);
        let e = [to[0] - at[0], to[1] - at[1], to[2] - at[2]];
        let (so, co) = w.dlon.sin_cos();
        let (sl, cl) = w.lat.sin_cos();
        let east = -so * e[0] + co * e[1];
        let north = -sl * co * e[0] - sl * so * e[1] + cl * e[2];
        let (sa, ca) = w.az.sin_cos();
        s += ca * north + sa * east;
        let m12 = el.a * (s / el.a).sin();
        if e.iter().all(|x| x.abs() < 4e-16 * el.a) || m12 < 1e-9 * el.a {
            break;
        }
        az += (ca * east - sa * north) / m12;
    }
    let w = geod_direct(el, lat1, az, s);
    (dist3(el.to_xyz(w.dlon, w.lat, 0.0), to) < 1e-13 * el.a).then_some(s)
}

// ---------------------------------------------------------------- complex helpers
#[derive(Clone, Copy, Debug)]
pub struct C(pub f64, pub f64);
impl C {
    pub fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
    pub fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
    pub fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    pub fn scale(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
    pub fn abs(self) -> f64 {
        self.0.hypot(self.1)
    }
    pub fn div(self, o: C) -> C {
        let d = o.0 * o.0 + o.1 * o.1;
        C((self.0 * o.0 + self.1 * o.1) / d, (self.1 * o.0 - self.0 * o.1) / d)
    }
    pub fn sin(self) -> C {
        C(self.0.sin() * self.1.cosh(), self.0.cos() * self.1.sinh())
    }
    pub fn tanh(self) -> C {
        // tanh(x+iy) = (sinh 2x + i sin 2y) / (cosh 2x + cos 2y)
        if self.0.abs() > 20.0 {
            let s = self.0.signum();
            return C(s, 4.0 * (2.0 * self.1).sin() * 0.5 * (-2.0 * self.0.abs()).exp());
        }
        let d = (2.0 * self.0).cosh() + (2.0 * self.1).cos();
        C((2.0 * self.0).sinh() / d, (2.0 * self.1).sin() / d)
    }
    pub fn atanh(self) -> C {
        // 1/2 ln((1+z)/(1-z))
        let (x, y) = (self.0, self.1);
        let re = 0.25 * (4.0 * x / ((1.0 - x).powi(2) + y * y)).ln_1p();
        let im = 0.5 * (2.0 * y).atan2((1.0 - x) * (1.0 + x) - y * y);
        C(re, im)
    }
    /// ln z
    pub fn ln(self) -> C {
        C(self.abs().ln(), self.1.atan2(self.0))
    }
    pub fn powf(self, p: f64) -> C {
        let l = self.ln().scale(p);
        let r = l.0.exp();
        C(r * l.1.cos(), r * l.1.sin())
    }
}

/// Exact transverse Mercator of an ellipsoid, unit scale, origin at (equator, central meridian):
/// (easting, northing). Analytic continuation of the meridian arc; valid well inside |dlon| < 90 deg.
pub fn tm_exact(el: &Ell, lat: f64, dlon: f64) -> (f64, f64) {
    let e = el.e();
    let psi = el.psi(lat);
    let q = C(psi, dlon);
    let mut w = q;
    for _ in 0..200 {
        let t = w.tanh().scale(e).atanh().scale(e);
        let nw = q.add(t);
        let d = nw.sub(w).abs();
        w = nw;
        if d < 1e-16 {
            break;
        }
    }
    // gudermannian: phi = atan(sinh w) ; closed form for complex argument
    let (x, y) = (w.0, w.1);
    let re = x.sinh().atan2(y.cos());
    let im = (y.sin() / x.cosh()).atanh();
    let phi = C(re, im);
    let g = gl16();
    let n = 6;
    let mut s = C(0.0, 0.0);
    for k in 0..n {
        let lo = k as f64 / n as f64;
        let hi = (k + 1) as f64 / n as f64;
        let (c, r) = (0.5 * (lo + hi), 0.5 * (hi - lo));
        for (xx, ww) in g.x.iter().zip(&g.w) {
            let t = phi.scale(c + r * xx);
            let sn = t.sin();
            let d = C(1.0, 0.0).sub(sn.mul(sn).scale(el.e2));
            s = s.add(d.powf(-1.5).scale(ww * r));
        }
    }
    let m = s.mul(phi).scale(el.a * (1.0 - el.e2));
    (m.1, m.0)
}

/// Difference of two angles wrapped to [-pi, pi].
pub fn adiff(a: f64, b: f64) -> f64 {
    let d = a - b;
    d.sin().atan2(d.cos())
}

impl Ell {
    /// Geocentric to geodetic (Greenwich longitude), near the surface: fixed point on the parametric latitude.
    pub fn from_xyz(&self, w: [f64; 3]) -> [f64; 3] {
        let p = w[0].hypot(w[1]);
        let ep2 = self.e2 / (1.0 - self.e2);
        let mut u = (w[2] * self.a).atan2(p * self.b);
        let mut lat = 0.0;
        for _ in 0..30 {
            let (s, c) = u.sin_cos();
            lat = (w[2] + ep2 * self.b * s * s * s).atan2(p - self.e2 * self.a * c * c * c);
            let nu = (self.b * lat.sin()).atan2(self.a * lat.cos());
            if (nu - u).abs() < 1e-17 {
                break;
            }
            u = nu;
        }
        // foot point and signed height along the normal
        let (s, c) = lat.sin_cos();
        let r = ((self.b / self.a * s).powi(2) + c * c).sqrt();
        let (fp, fz) = (self.a * c / r, self.b * (self.b / self.a * s) / r);
        let h = (p - fp) * c + (w[2] - fz) * s;
        [w[1].atan2(w[0]), lat, h]
    }
}

/// Value at 0 of the polynomial through the points (x, y).
pub fn at_zero(x: &[f64], y: &[f64]) -> f64 {
    let mut p = y.to_vec();
    for k in 1..p.len() {
        for i in 0..p.len() - k {
            p[i] = (x[i + k] * p[i] - x[i] * p[i + 1]) / (x[i + k] - x[i]);
        }
    }
    p[0]
}
