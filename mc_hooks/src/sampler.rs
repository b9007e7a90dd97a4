//! C26 the point sampler: the real command line tool, its random source replaced by an enumeration.
use crate::engine::*;
use crate::{close, ensure};
use std::f64::consts::PI;
use std::process::Command;

fn bin() -> String {
    std::env::var("MC_SAMPLE_BIN").unwrap_or_else(|_| "/verif/mc_hooks/target_bin/release/sample_s2".into())
}

#[derive(Clone, Copy)]
struct P {
    a: f64,
    invf: f64,
    mpu: f64,
    rpu: f64,
}

fn run(grid: usize, count: usize, kind: &str, p: &P, ncol: usize) -> Result<Vec<Vec<f64>>, Viol> {
    run_args(grid, count, kind, ncol, &[format!("-a={}", p.a), format!("--inverse-flattening={}", p.invf), format!("--meter-per-unit={}", p.mpu), format!("--rad-per-unit={}", p.rpu)])
}

fn run_args(grid: usize, count: usize, kind: &str, ncol: usize, args: &[String]) -> Result<Vec<Vec<f64>>, Viol> {
    let mut o = Command::new(bin());
    o.env("GEOKIT_VERIF_GRID", grid.to_string()).arg(count.to_string());
    if !kind.is_empty() {
        o.arg(kind);
    }
    let o = o.args(args).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot run {}: {e}", bin());
            std::process::exit(2);
        }
    };
    ensure!(o.status.success(), "run", "sample_s2 {count} {kind} exits with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut v = vec![];
    for l in t.lines() {
        let n: Vec<f64> = l.split_whitespace().map(|w| w.parse().unwrap_or(f64::NAN)).collect();
        ensure!(n.len() == ncol && n.iter().all(|x| x.is_finite()), "columns", "sample_s2 {count} {kind}: line {l:?}");
        v.push(n);
    }
    ensure!(v.len() == count, "count", "sample_s2 {count} {kind}: {} lines", v.len());
    Ok(v)
}

/// The three outputs of one run of the random source describe the same points of the ellipsoid.
/// An output that takes its random words in another order (agreeing with the geocentric points in
/// neither longitude nor latitude for the most part) is held to its range here, and to its
/// distribution in `even`.
fn points(c: &mut Ctx, n: usize, count: usize, p: &P) -> R {
    let f = 1.0 / p.invf;
    let b = p.a * (1.0 - f);
    let q = run(n, count, "xyz", p, 3)?;
    let ll = run(n, count, "lon-lat", p, 2)?;
    let h = run(n, count, "lon-lat-height", p, 3)?;
    // printed with 8 and 12 decimals
    let t = 2e-8 * p.mpu + 1e-14 * p.a;
    let ta = 2e-12 * p.rpu + 1e-14 + 4.0 * t / b;
    let errs = |q: &[f64], o: &[f64]| {
        let (x, y, z) = (q[0] * p.mpu, q[1] * p.mpu, q[2] * p.mpu);
        let r = x.hypot(y);
        let d = o[0] * p.rpu - y.atan2(x);
        let d = (d - (d / (2.0 * PI)).round() * 2.0 * PI) * (r / p.a);
        (d, o[1] * p.rpu - z.atan2((1.0 - f) * (1.0 - f) * r))
    };
    for k in 0..count {
        let (x, y, z) = (q[k][0] * p.mpu, q[k][1] * p.mpu, q[k][2] * p.mpu);
        let r = x.hypot(y);
        close!("on-surface", (r / p.a).hypot(z / b), 1.0, 4.0 * t / b, "point {k} ({x}, {y}, {z}) m of the ellipsoid a={} 1/f={}", p.a, p.invf);
        let m = h[k][2] * p.mpu;
        ensure!(m >= -1500.0 - 6e-4 * p.mpu && m <= 30_000.0 + 6e-4 * p.mpu, "height", "height {m} m");
        c.step(&[x, y, z]);
    }
    let mixed = run(0, 100, "xyz", p, 3)?;
    for (kind, o) in [("lon-lat", &ll), ("lon-lat-height", &h)] {
        // whether this output takes its words as the geocentric one does: from the mixed source,
        // where two points never share a coordinate by chance
        let (mut same_lon, mut same_lat) = (0, 0);
        for (q, o) in mixed.iter().zip(&run(0, 100, kind, p, o.first().map_or(kind.split('-').count(), |r| r.len()))?) {
            let (dl, dp) = errs(q, o);
            same_lon += (dl.abs() <= ta) as usize;
            same_lat += (dp.abs() <= ta) as usize;
        }
        let paired = same_lon > 50 || same_lat > 50;
        for k in 0..count {
            let (lon, lat) = (o[k][0] * p.rpu, o[k][1] * p.rpu);
            ensure!(lon.abs() <= PI + ta && lat.abs() <= PI / 2.0 + ta, "range", "point {k}: {lon} {lat}");
            if paired {
                let (dl, dp) = errs(&q[k], &o[k]);
                close!("latitude", dp, 0.0, ta, "point {k} {:?} of the ellipsoid a={} 1/f={}, latitude {lat}: difference", q[k], p.a, p.invf);
                close!("longitude", dl, 0.0, ta, "point {k} {:?}, longitude {lon}: difference", q[k]);
            }
        }
    }
    Ok(())
}

/// Largest distance of the distribution of `v` from the even one on [0, 1].
fn uneven(mut v: Vec<f64>) -> f64 {
    v.sort_by(f64::total_cmp);
    let n = v.len() as f64;
    v.iter().enumerate().map(|(i, x)| (x - i as f64 / n).abs().max((x - (i + 1) as f64 / n).abs())).fold(0.0, f64::max)
}

/// Unit sphere points of an output (parametric latitude) spread evenly, and so do the heights.
fn even(kind: &str, v: &[Vec<f64>], p: &P) -> R {
    let f = 1.0 / p.invf;
    let b = p.a * (1.0 - f);
    let lim = 5.0 / (v.len() as f64).sqrt();
    let sph: Vec<(f64, f64)> = v
        .iter()
        .map(|o| {
            if kind == "xyz" {
                (o[1].atan2(o[0]), o[2] * p.mpu / b)
            } else {
                let (s, c) = (o[1] * p.rpu).sin_cos();
                let s = s * (1.0 - f);
                (o[0] * p.rpu, s / s.hypot(c))
            }
        })
        .collect();
    close!("even-longitude", uneven(sph.iter().map(|s| s.0 / (2.0 * PI) + 0.5).collect()), 0.0, lim, "{kind}: longitudes, unevenness");
    close!("even-latitude", uneven(sph.iter().map(|s| s.1 / 2.0 + 0.5).collect()), 0.0, lim, "{kind}: heights above the equator of the unit sphere, unevenness");
    let mut cell = [0usize; 64];
    for (l, z) in &sph {
        cell[(((l / (2.0 * PI) + 0.5) * 8.0) as usize).min(7) * 8 + (((z + 1.0) * 4.0) as usize).min(7)] += 1;
    }
    for (k, n) in cell.iter().enumerate() {
        close!("even-cells", *n as f64 / v.len() as f64, 1.0 / 64.0, lim, "{kind}: share of cell {k}");
    }
    if kind == "lon-lat-height" {
        close!("even-height", uneven(v.iter().map(|o| (o[2] * p.mpu + 1500.0) / 31_500.0).collect()), 0.0, lim, "heights, unevenness");
    }
    Ok(())
}

pub fn c26(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let n = if thorough { 48 } else { 20 };
    let axes = [6_378_137.0, 6_371_000.0, 1.0e6, 3_396_190.0];
    let invfs = [298.257_223_563, 20.0, 169.894, 1e9, f64::INFINITY];
    let mpus = [1.0, 0.3048, 1000.0];
    let rpus = [PI / 180.0, 1.0, PI / 200.0];
    let counts = vec![0, 1, 7, n * n];
    out.push(dfs("samples", format!("every point of a {n} x {n} grid of the random source x 4 axes x 5 flattenings x 3 length units x 3 angle units x 4 counts, the three output types"), move |c| {
        let p = P { a: c.val(&axes), invf: c.val(&invfs), mpu: c.val(&mpus), rpu: c.val(&rpus) };
        let count = c.val(&counts);
        points(c, n, count, &p)
    }));
    let big = if thorough { vec![501, 1000, 2001] } else { vec![501, 800] };
    out.push(dfs("dense", format!("every point of grids of {big:?} steps squared (the polar axis included), 2 bodies"), move |c| {
        let n = c.val(&big);
        let p = c.val(&[P { a: 6_378_137.0, invf: 298.257_223_563, mpu: 1.0, rpu: PI / 180.0 }, P { a: 3_396_190.0, invf: 20.0, mpu: 1000.0, rpu: 1.0 }]);
        points(c, n, n * n, &p)
    }));
    out.push(dfs("defaults", "every subset of the four options left to its default (WGS84, metres, degrees), and the default output type", move |c| {
        let d = P { a: 6_378_137.0, invf: 298.257_223_563, mpu: 1.0, rpu: PI / 180.0 };
        let o = P { a: 3_396_190.0, invf: 169.894, mpu: 0.3048, rpu: 1.0 };
        let f: Vec<bool> = (0..4).map(|_| c.flag()).collect();
        let p = P { a: if f[0] { o.a } else { d.a }, invf: if f[1] { o.invf } else { d.invf }, mpu: if f[2] { o.mpu } else { d.mpu }, rpu: if f[3] { o.rpu } else { d.rpu } };
        let mut args = vec![];
        for (on, s) in f.iter().zip([format!("-a={}", o.a), format!("--inverse-flattening={}", o.invf), format!("--meter-per-unit={}", o.mpu), format!("--rad-per-unit={}", o.rpu)]) {
            if *on {
                args.push(s);
            }
        }
        // without control over the random source two runs cannot be compared
        let controlled = run(15, 50, "xyz", &p, 3)? == run(15, 50, "xyz", &p, 3)?;
        for (kind, full, ncol) in [("", "xyz", 3), ("xyz", "xyz", 3), ("lon-lat", "lon-lat", 2), ("lon-lat-height", "lon-lat-height", 3)] {
            if !controlled {
                even(full, &run_args(0, 50_000, kind, ncol, &args)?, &p)?;
                continue;
            }
            let (g, w) = (run_args(15, 200, kind, ncol, &args)?, run(15, 200, full, &p, ncol)?);
            for (x, y) in g.iter().zip(&w) {
                for (u, v) in x.iter().zip(y) {
                    close!("defaults", *u, *v, 1e-9 + 1e-15 * v.abs(), "sample_s2 200 {kind} {args:?}");
                }
                c.step(x);
            }
        }
        Ok(())
    }));
    let m = if thorough { 2_000_000 } else { 150_000 };
    out.push(dfs("even", format!("{m} samples of a random source that enumerates a counter through a bijection of the words, 3 output types x 3 bodies x 2 pairs of units: distribution of longitudes, latitudes and heights, 64 cells"), move |c| {
        let (a, invf) = c.val(&[(6_378_137.0, 298.257_223_563), (3_396_190.0, 20.0), (1.0e6, 5.0)]);
        let (mpu, rpu) = c.val(&[(1.0, PI / 180.0), (0.3048, 1.0)]);
        let p = P { a, invf, mpu, rpu };
        let (kind, ncol) = c.val(&[("xyz", 3), ("lon-lat", 2), ("lon-lat-height", 3)]);
        let v = run(0, m, kind, &p, ncol)?;
        even(kind, &v, &p)?;
        if kind == "lon-lat-height" {
            let mut h: Vec<f64> = v.iter().map(|r| r[2] * mpu).collect();
            h.sort_by(f64::total_cmp);
            let step = 31_500.0 / m as f64;
            let (lo, hi) = (h[0], h[h.len() - 1]);
            ensure!(lo >= -1500.001 && lo <= -1500.0 + 40.0 * step && hi <= 30_000.001 && hi >= 30_000.0 - 40.0 * step, "height-range", "heights from {lo} to {hi}");
            for w in h.windows(2) {
                ensure!(w[1] - w[0] <= 40.0 * step, "height-gap", "no height between {} and {}", w[0], w[1]);
            }
        }
        c.step(&v[0]);
        c.step(&v[m - 1]);
        Ok(())
    }));
    let n = if thorough { 120 } else { 60 };
    out.push(dfs("coverage", format!("8 x {n}^2 points: every octant and 8 equal-area zones are covered evenly"), move |c| {
        let p = P { a: 6_378_137.0, invf: 298.257_223_563, mpu: 1.0, rpu: PI / 180.0 };
        let count = 8 * n * n;
        let v = run(n, count, "xyz", &p, 3)?;
        let b = p.a * (1.0 - 1.0 / p.invf);
        let (mut oct, mut zone) = ([0usize; 8], [0usize; 8]);
        for q in &v {
            oct[(q[0] > 0.0) as usize + 2 * (q[1] > 0.0) as usize + 4 * (q[2] > 0.0) as usize] += 1;
            zone[(((q[2] / b + 1.0) * 4.0) as usize).min(7)] += 1;
        }
        for k in 0..8 {
            let (o, z) = (oct[k] as f64 / count as f64, zone[k] as f64 / count as f64);
            ensure!((o - 0.125).abs() < 0.02, "octants", "octant {k} holds {o} of the points");
            ensure!((z - 0.125).abs() < 0.02, "zones", "zone {k} holds {z} of the points");
        }
        c.step(&[oct[0] as f64, zone[0] as f64]);
        Ok(())
    }));
    out
}
