//! Finite input domains: boundary values, their floating point neighbours and dense grids.
use std::f64::consts::PI;

/// `x` moved by `k` representable values.
pub fn ulp(x: f64, k: i64) -> f64 {
    if x == 0.0 {
        return if k == 0 { x } else { f64::from_bits(k.unsigned_abs()) * (k.signum() as f64) };
    }
    let b = x.to_bits() as i64;
    f64::from_bits((if x > 0.0 { b + k } else { b - k }) as u64)
}

/// Values at and around `c`: floating point neighbours and offsets on a decimal log scale.
pub fn around(c: f64, lo_exp: i32, hi_exp: i32) -> Vec<f64> {
    let mut v = vec![c];
    for k in [1, 2, 3, 8] {
        v.push(ulp(c, k));
        v.push(ulp(c, -k));
    }
    for e in lo_exp..=hi_exp {
        for m in [1.0, 3.0] {
            let d = m * 10f64.powi(e);
            v.push(c + d);
            v.push(c - d);
        }
    }
    v
}

/// Few values at and around `c`.
pub fn near(c: f64, offs: &[f64]) -> Vec<f64> {
    let mut v = vec![c, ulp(c, 1), ulp(c, -1)];
    for d in offs {
        v.push(c + d);
        v.push(c - d);
    }
    v
}

pub fn uniq(mut v: Vec<f64>) -> Vec<f64> {
    v.retain(|x| x.is_finite());
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}

/// n+1 equally spaced values from lo to hi (both exact).
pub fn grid(lo: f64, hi: f64, n: usize) -> Vec<f64> {
    (0..=n).map(|i| if i == n { hi } else { lo + (hi - lo) * i as f64 / n as f64 }).collect()
}

/// 1-2-5 magnitudes of both signs, and 0.
pub fn mags(lo_exp: i32, hi_exp: i32) -> Vec<f64> {
    let mut v = vec![0.0];
    for e in lo_exp..=hi_exp {
        for m in [1.0, 2.0, 5.0, 7.3] {
            v.push(m * 10f64.powi(e));
            v.push(-m * 10f64.powi(e));
        }
    }
    v
}

/// Latitudes in degrees: a grid and the neighbourhoods of the equator and the poles.
pub fn lats_deg(n: usize) -> Vec<f64> {
    let mut v = grid(-90.0, 90.0, n);
    for c in [-90.0, 0.0, 90.0f64] {
        for e in -9..=0 {
            for m in [1.0, 4.0] {
                let d = m * 10f64.powi(e);
                v.push(c + d);
                v.push(c - d);
            }
        }
    }
    v.retain(|x| x.abs() <= 90.0);
    v.push(0.0);
    uniq(v)
}

/// Longitudes in degrees in [-180, 180]: a grid and the neighbourhoods of the quadrant limits.
pub fn lons_deg(n: usize) -> Vec<f64> {
    let mut v = grid(-180.0, 180.0, n);
    for c in [-180.0, -90.0, 0.0, 90.0, 180.0f64] {
        for e in [-12, -9, -6, -4, -2] {
            let d = 10f64.powi(e);
            v.push(c + d);
            v.push(c - d);
        }
    }
    v.retain(|x| x.abs() <= 180.0);
    uniq(v)
}

/// Values in radians around every multiple of pi/4 up to `k` eighths of a turn.
pub fn octants(k: i32, lo_exp: i32, hi_exp: i32) -> Vec<f64> {
    let mut v = vec![];
    for i in -k..=k {
        v.extend(around(i as f64 * PI / 4.0, lo_exp, hi_exp));
    }
    uniq(v)
}

pub const RAD: f64 = PI / 180.0;

/// Dense values of one degree argument over [-m, m]: an even grid through the whole degrees, and small values.
pub fn dense_deg(m: f64, n: usize) -> Vec<f64> {
    let mut v = grid(-m, m, n);
    v.extend(mags(-12, -1));
    v.retain(|x| x.abs() <= m);
    uniq(v)
}
/// Dense positive values on a log scale, `n` per decade.
pub fn log_grid(lo_exp: i32, hi_exp: i32, n: usize) -> Vec<f64> {
    (lo_exp * n as i32..=hi_exp * n as i32).map(|i| 10f64.powf(i as f64 / n as f64)).collect()
}
/// Dense lengths of both signs [m], from a micrometre to 1e`hi` metres.
pub fn dense_len(hi: i32, n: usize) -> Vec<f64> {
    let l = log_grid(-6, hi, n);
    uniq([vec![0.0], l.clone(), l.iter().map(|x| -x).collect(), grid(-12_000.0, 12_000.0, 10 * n)].concat())
}

/// About `n` values spread over [-m, m] degrees, and close to its multiples of 90 degrees.
pub fn joint_deg(m: f64, n: usize) -> Vec<f64> {
    let mut v = grid(-m, m, n.saturating_sub(25) | 1);
    for c in [-m, -90.0, 0.0, 90.0, m] {
        for d in [0.0, 1e-8, -1e-8, 1e-3, -1e-3] {
            v.push(c + d);
        }
    }
    v.retain(|x| x.abs() <= m);
    uniq(v)
}
/// About `n` lengths of both signs, on a log scale from a millimetre to 10^`hi` metres.
pub fn joint_len(hi: i32, n: usize) -> Vec<f64> {
    let h = n / 2;
    let l: Vec<f64> = (0..h).map(|i| 10f64.powf(-3.0 + (hi + 3) as f64 * i as f64 / (h - 1) as f64)).collect();
    uniq([vec![0.0], l.clone(), l.iter().map(|x| -x).collect()].concat())
}
/// About `n` positive values on a log scale.
pub fn joint_log(lo: f64, hi: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| 10f64.powf(lo + (hi - lo) * i as f64 / (n - 1) as f64)).collect()
}
/// About `n` inverse flattenings between 10^`lo` and a sphere.
pub fn joint_invf(lo: f64, n: usize) -> Vec<f64> {
    uniq([joint_log(lo, 3.0, n / 2), joint_log(3.0, 10.0, n / 3), vec![298.257_223_563, 297.0, 293.465]].concat())
}
/// About `n` scale factors.
pub fn joint_scale(n: usize) -> Vec<f64> {
    uniq([joint_log(-1.0, 1.0, n / 2), grid(0.99, 1.01, n / 2), vec![0.9996, 1.0]].concat())
}
