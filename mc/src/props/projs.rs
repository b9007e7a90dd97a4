//! C10 Mercator, C11 Web Mercator, C12 Transverse Mercator, C13 UTM.
use super::earth::{ang, catalogue, ell, kin, KINP};
use crate::dom::*;
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::{ellipsoid::consts as el, Ellipsoid};
use geokit::projections::{ProjectionError, ProjectionSpec};
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI};

const HS: [f64; 5] = [0.0, 123.456, -9999.25, 35_786_000.0, 1e-3];
const FE: [(f64, f64); 4] = [(0.0, 0.0), (500_000.0, 0.0), (-3_900_000.5, 900_000.25), (400_000.0, -10_000_000.0)];

pub fn llh(lon: f64, lat: f64, h: f64) -> LLH {
    LLH { lon: Lon::new(ang(lon)), lat: Lat::new(ang(lat)), height: h * M }
}
pub fn enh(e: f64, n: f64, h: f64) -> ENH {
    ENH { easting: e * M, northing: n * M, height: h * M }
}

/// Latitude from the isometric latitude, by Newton on psi.
fn inv_psi(r: &Ell, psi: f64) -> f64 {
    let mut w = psi;
    let e = r.e();
    for _ in 0..200 {
        let nw = psi + e * (e * w.tanh()).atanh();
        let d = (nw - w).abs();
        w = nw;
        if d < 1e-17 {
            break;
        }
    }
    w.sinh().atan()
}

fn chk_merc(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, k0: f64, fe: f64, fn_: f64, lons: &[f64], lats: &[f64], web: bool) -> R {
    chk_merc_h(c, spec, e, lon0, k0, fe, fn_, lons, lats, web, &HS)
}
fn chk_merc_h(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, k0: f64, fe: f64, fn_: f64, lons: &[f64], lats: &[f64], web: bool, hs: &[f64]) -> R {
    let p = spec.applied_to(e);
    let r = if web { Ell::ab(e.a().m(), e.a().m()) } else { ell(e) };
    let a = r.a * k0;
    // the inverse is a series truncated after e^8
    let trunc = if web { 0.0 } else { 0.5 * r.e2.powi(5) };
    for (i, &ld) in lons.iter().enumerate() {
        for (j, &pd) in lats.iter().enumerate() {
            let h = hs[(i + j) % hs.len()];
            let x = llh(ld * RAD, pd * RAD, h);
            let (lo, la) = (x.lon.angle().rad(), x.lat.angle().rad());
            let out = p.proj(x);
            if la.abs() >= FRAC_PI_2 {
                ensure!(matches!(out, Err(ProjectionError::LLHOutOfBounds)), "pole", "{spec:?} on {e}: proj({x}) = {out:?}");
                c.step(&[la]);
                continue;
            }
            let Ok(g) = out else { return viol("proj-err", format!("{spec:?} on {e}: proj({x}) = {out:?}")) };
            let mut dl = adiff(lo, lon0);
            let psi = r.psi(la);
            let (ge, gn) = (g.easting.m(), g.northing.m());
            if dl.abs() > PI - 1e-9 && (ge - fe).signum() != dl.signum() {
                dl -= 2.0 * PI * dl.signum();
            }
            let rnd = 4e-16 * (fe.abs() + fn_.abs());
            close!("easting", ge, fe + a * dl, a * 8e-15 + 4.0 * rnd, "{spec:?} on {e}: proj({x}) easting");
            let cosl = la.cos().max(1e-17);
            close!("northing", gn, fn_ + a * psi, a * (8e-15 * (1.0 + psi.abs()) + 1e-15 / cosl) + 4.0 * rnd, "{spec:?} on {e}: proj({x}) northing");
            ensure!(g.height.m() == h, "height", "{spec:?}: proj({x}) height {}", g.height);
            c.step(&[ge, gn]);
            // inverse of the library's own result
            let b = p.unproj(g);
            let Ok(b) = b else { return viol("unproj-err", format!("{spec:?}: unproj({g}) = {b:?}")) };
            let rn2 = rnd / a + 1e-15 * (dl.abs() + psi.abs() + 1.0);
            close!("rt-lon", adiff(b.lon.angle().rad(), lo).abs(), 0.0, 4.0 * rn2 + 8e-15, "{spec:?} on {e}: unproj(proj({x})) = {b}: longitude error");
            close!("rt-lat", b.lat.angle().rad(), la, trunc + 4.0 * rn2 + 8e-15, "{spec:?} on {e}: unproj(proj({x})) = {b}: latitude");
            ensure!(b.height.m() == h, "height", "{spec:?}: unproj(proj({x})) height {}", b.height);
            c.step(&[b.lon.angle().rad(), b.lat.angle().rad()]);
        }
    }
    Ok(())
}

/// unproj of any finite grid coordinates: in range, and where meaningful the exact inverse.
fn chk_unmerc(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, k0: f64, fe: f64, fn_: f64, vs: &[f64], web: bool) -> R {
    chk_unmerc_xy(c, spec, e, lon0, k0, fe, fn_, vs, vs, web)
}
fn chk_unmerc_xy(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, k0: f64, fe: f64, fn_: f64, xs: &[f64], ys: &[f64], web: bool) -> R {
    let p = spec.applied_to(e);
    let r = if web { Ell::ab(e.a().m(), e.a().m()) } else { ell(e) };
    let a = r.a * k0;
    let trunc = if web { 0.0 } else { 0.5 * r.e2.powi(5) };
    for &x in xs {
        for &y in ys {
            let q = enh(x, y, 7.5);
            let Ok(g) = p.unproj(q) else { return viol("unproj-err", format!("{spec:?}: unproj({q}) fails")) };
            let (lo, la) = (g.lon.angle().rad(), g.lat.angle().rad());
            ensure!(lo.abs() <= PI && la.abs() <= FRAC_PI_2, "range", "{spec:?}: unproj({q}) = {g}");
            ensure!(g.height.m() == 7.5, "height", "{spec:?}: unproj({q}) = {g}");
            let d = (x - fe) / a;
            let rn = 8e-16 * (x.abs() + y.abs() + fe.abs() + fn_.abs()) / a;
            if d.abs() < 1e6 {
                close!("un-lon", adiff(lo, lon0 + d).abs(), 0.0, 8e-15 + 4.0 * rn, "{spec:?} on {e}: unproj({q}) = {g}: longitude error");
            }
            let psi = (y - fn_) / a;
            close!("un-lat", la, inv_psi(&r, psi), trunc + 8e-15 + 4.0 * rn.min(1e-6), "{spec:?} on {e}: unproj({q}) = {g}: latitude");
            c.step(&[lo, la]);
        }
    }
    Ok(())
}

fn ells() -> Vec<Ellipsoid> {
    vec![el::WGS84, el::CLRK80IGN, el::MPRTS, el::AIRY, el::SPHERE, Ellipsoid::from_ainvf("mars", 3_396_190.0 * M, 169.894), Ellipsoid::from_ainvf("flat", 7_000_000.0 * M, 50.0), Ellipsoid::from_ainvf("nearly a sphere", 6_371_000.0 * M, 3e9)]
}
/// Both directions of every projection of a list on the kindred ellipsoids.
fn calls(specs: &[ProjectionSpec]) -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    for (i, e) in kin().into_iter().enumerate().take(4) {
        for (j, s) in specs.iter().enumerate() {
            let p: std::rc::Rc<dyn geokit::projections::Projection> = std::rc::Rc::from(s.applied_to(&e));
            for (k, x) in [KINP[0], KINP[1], KINP[3], (8.0, 47.5, 0.0)].into_iter().enumerate() {
                let q = p.clone();
                v.push((format!("#{i} {j} proj {k}"), Box::new(move || q.proj(llh(x.0 * RAD, x.1 * RAD, x.2)).map_or(vec![], |g| vec![g.easting.m(), g.northing.m(), g.height.m()]))));
                if k == 3 {
                    continue;
                }
                let q = p.clone();
                let (a, b) = [(4e5, 5.2e6), (4e5, -5.2e6), (7e5, 5.2e6)][k];
                v.push((format!("#{i} {j} unproj {k}"), Box::new(move || q.unproj(enh(a, b, x.2)).map_or(vec![], |g| vec![g.lon.angle().rad(), g.lat.angle().rad(), g.height.m()]))));
            }
        }
    }
    v
}
fn deps(thorough: bool) -> usize {
    if thorough { 3 } else { 2 }
}
fn grid_xy(thorough: bool) -> Vec<f64> {
    uniq([mags(0, 12), grid(-2.5e7, 2.5e7, if thorough { 500 } else { 100 }), vec![1e100, -1e100, 1e307, -1e307]].concat())
}

/// Flattenings of a family of ellipsoids, for the order of a series.
const FAM: [f64; 6] = [0.008, 0.014, 0.02, 0.028, 0.036, 0.044];
/// Limit of err / x^4 for x to 0.
fn at4(x: &[f64], err: &[f64]) -> f64 {
    at_zero(x, &x.iter().zip(err).map(|(x, e)| e / x.powi(4)).collect::<Vec<_>>())
}
fn fam(f: f64) -> Ellipsoid {
    Ellipsoid::from_ainvf("family", 6_400_000.0 * M, 1.0 / f)
}

#[derive(Clone, Copy, PartialEq)]
enum Pk {
    M1,
    M2,
    Web,
    Tm,
}
/// One parameter or argument at a time over a dense set of values, the others at a few base values.
fn sweep(kind: Pk, thorough: bool) -> Scenario {
    let k = if thorough { 8 } else { 1 };
    let lons = dense_deg(180.0, 7_200 * k);
    let lats = dense_deg(90.0, 7_200 * k);
    let fo = uniq([dense_len(7, 30 * k), grid(-1e7, 1e7, 400 * k)].concat());
    let k0s = uniq([log_grid(-1, 1, 60 * k), grid(0.99, 1.01, 200 * k)].concat());
    let hs = dense_len(8, 60 * k);
    let inv = uniq([log_grid(2, 10, 30 * k), grid(280.0, 320.0, 200 * k)].concat());
    let ax = log_grid(-3, 9, 30 * k);
    let what = format!("one argument at a time, from 6 base configurations on 3 ellipsoids: {} longitudes (of the point, of origin), {} latitudes (of the point, of origin), {} false eastings and northings, {} scale factors, {} heights, {} flattenings, {} semi-major axes", lons.len(), lats.len(), fo.len(), k0s.len(), hs.len(), inv.len(), ax.len());
    dfs("sweeps", what, move |c| {
        // longitude and latitude relative to the origin, longitude and latitude of origin, scale, false origin
        let mut b = c.val(&[[3.0, 47.0, 0.0, 0.0, 0.9996, 500_000.0, 0.0], [-2.5, 52.0, -2.0, 49.0, 0.9996012717, 400_000.0, -100_000.0], [12.0, -31.0, 171.5, -44.0, 1.0, 500_000.0, 500_000.0], [-11.0, 5.0, -179.0, 30.0, 1.01, -1e6, 2e6], [35.0, -70.0, 177.0, -80.0, 0.9, 0.0, 1e7], [0.001, 0.001, -75.0, 1.0, 1.0, 0.0, 0.0]]);
        let ei = c.choose(3);
        let mut e = [el::WGS84, el::SPHERE, Ellipsoid::from_ainvf("flat", 6_400_000.0 * M, 100.0)][ei].clone();
        let dim = c.choose(10);
        let vs = [&lons, &lats, &lons, &lats, &k0s, &fo, &fo, &hs, &inv, &ax][dim];
        if (kind == Pk::M1 && dim == 3) || ((kind == Pk::M2 || kind == Pk::Web) && dim == 4) {
            return Ok(());
        }
        let mut h = 12.5;
        for &v in c.part(vs, 8) {
            match dim {
                0 if kind == Pk::Tm && v.abs() > 40.0 && v.abs() < 140.0 => continue,
                0..=6 => b[dim] = v,
                7 => h = v,
                8 => e = Ellipsoid::from_ainvf("swept", e.a(), v),
                _ => e = if e.is_spherical() { Ellipsoid::from_ab("swept", v * M, v * M) } else { Ellipsoid::from_ainvf("swept", v * M, e.invf()) },
            }
            let (l0, p0) = (Lon::deg(b[2]), Lat::deg(b[3]));
            let (l0r, p0r) = (l0.angle().rad(), p0.angle().rad());
            let (fe, fn_) = (b[5] * M, b[6] * M);
            match kind {
                Pk::Tm => chk_tm_h(c, ProjectionSpec::TransverseMercator { lon0: l0, lat0: p0, k0: b[4], false_easting: fe, false_northing: fn_ }, &e, l0r, p0r, b[4], b[5], b[6], &[b[0]], &[b[1]], &[h])?,
                Pk::M1 => chk_merc_h(c, ProjectionSpec::Mercator1SP { lon0: l0, k0: b[4], false_easting: fe, false_northing: fn_ }, &e, l0r, b[4], b[5], b[6], &[b[0] + b[2]], &[b[1]], false, &[h])?,
                Pk::M2 => {
                    if b[3].abs() > 89.99 {
                        continue;
                    }
                    let r = ell(&e);
                    let k0 = r.to_xyz(0.0, p0r, 0.0)[0] / r.a;
                    chk_merc_h(c, ProjectionSpec::Mercator2SP { lon0: l0, lat0: p0, false_easting: fe, false_northing: fn_ }, &e, l0r, k0, b[5], b[6], &[b[0] + b[2]], &[b[1]], false, &[h])?
                }
                Pk::Web => chk_merc_h(c, ProjectionSpec::WebMercator { lon0: l0, lat0: p0, false_easting: fe, false_northing: fn_ }, &e, l0r, 1.0, b[5], b[6], &[b[0] + b[2]], &[b[1]], true, &[h])?,
            }
        }
        Ok(())
    })
}

/// Joint values of all parameters and arguments, forward, back and (from grid coordinates) inverse.
fn joint(name: &'static str, kind: Pk, thorough: bool) -> Scenario {
    let (d, n) = match (thorough, kind == Pk::Tm) {
        (true, false) => (DEEPER, 401),
        (false, true) => (QUICK, 101),
        _ => (DEEP, 199),
    };
    let dl = if kind == Pk::Tm { uniq([joint_deg(40.0, 2 * n / 3), grid(140.0, 180.0, n / 6), grid(-180.0, -140.0, n / 6)].concat()) } else { joint_deg(180.0, n) };
    let mut args = vec![("longitude differences", dl), ("latitudes", joint_deg(90.0, n)), ("longitudes of origin", joint_deg(180.0, n)), ("false eastings", joint_len(7, n)), ("false northings", joint_len(7, n)), ("heights", joint_len(8, n)), ("inverse flattenings", [joint_invf(1.5, n), vec![f64::INFINITY]].concat()), ("semi-major axes", joint_log(5.0, 8.0, n))];
    if kind == Pk::M1 || kind == Pk::Tm {
        args.push(("scale factors", joint_scale(n)));
    }
    if kind != Pk::M1 {
        args.push(("latitudes of origin", joint_deg(90.0, n)));
    }
    tuples(name, "position, parameters and ellipsoid, both directions", d, args, move |c, x| {
        let e = if x[6].is_infinite() { Ellipsoid::from_ab("sphere", x[7] * M, x[7] * M) } else { Ellipsoid::from_ainvf("joint", x[7] * M, x[6]) };
        let (l0, p0) = (Lon::deg(x[2]), Lat::deg(x[x.len() - 1]));
        let (l0r, p0r) = (l0.angle().rad(), p0.angle().rad());
        let (fe, fn_) = (x[3] * M, x[4] * M);
        let (dl, la, hs) = (&x[..1], &x[1..2], &x[5..6]);
        let lo = [x[0] + x[2]];
        // grid coordinates up to the image of the poles
        let g = [x[3] + x[0] * RAD * x[7], x[4] + x[1] * RAD * 2.0 * x[7]];
        match kind {
            Pk::Tm => chk_tm_h(c, ProjectionSpec::TransverseMercator { lon0: l0, lat0: p0, k0: x[8], false_easting: fe, false_northing: fn_ }, &e, l0r, p0r, x[8], x[3], x[4], dl, la, hs),
            Pk::M1 => {
                let spec = ProjectionSpec::Mercator1SP { lon0: l0, k0: x[8], false_easting: fe, false_northing: fn_ };
                chk_merc_h(c, spec, &e, l0r, x[8], x[3], x[4], &lo, la, false, hs)?;
                chk_unmerc_xy(c, spec, &e, l0r, x[8], x[3], x[4], &g[..1], &g[1..], false)
            }
            Pk::M2 => {
                if x[8].abs() > 89.99 {
                    return Ok(());
                }
                let r = ell(&e);
                let k0 = r.to_xyz(0.0, p0r, 0.0)[0] / r.a;
                let spec = ProjectionSpec::Mercator2SP { lon0: l0, lat0: p0, false_easting: fe, false_northing: fn_ };
                chk_merc_h(c, spec, &e, l0r, k0, x[3], x[4], &lo, la, false, hs)?;
                chk_unmerc_xy(c, spec, &e, l0r, k0, x[3], x[4], &g[..1], &g[1..], false)
            }
            Pk::Web => {
                let spec = ProjectionSpec::WebMercator { lon0: l0, lat0: p0, false_easting: fe, false_northing: fn_ };
                chk_merc_h(c, spec, &e, l0r, 1.0, x[3], x[4], &lo, la, true, hs)?;
                chk_unmerc_xy(c, spec, &e, l0r, 1.0, x[3], x[4], &g[..1], &g[1..], true)
            }
        }
    })
}

pub fn c10(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lon0s = [0.0, 110.0, -179.0, 180.0, 90.0, -3.5];
    let k0s = [1.0, 0.997, 0.9996, 1.25];
    let lat0s = [0.0, 42.0, -42.0, 80.0, -0.5, 15.25, 85.0, -88.5, 1e-5];
    let lons = lons_deg(if thorough { 180 } else { 72 });
    let lats = lats_deg(if thorough { 360 } else { 180 });
    let (nl, np) = (lons.len(), lats.len());
    let (l2, p2) = (lons.clone(), lats.clone());
    out.push(dfs("1SP", format!("8 ellipsoids x 6 longitudes of origin x 4 scale factors x 4 false origins x {nl} longitudes x {np} latitudes"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let (l0, k0, f) = (c.val(&lon0s), c.val(&k0s), c.val(&FE));
        let spec = ProjectionSpec::Mercator1SP { lon0: Lon::deg(l0), k0, false_easting: f.0 * M, false_northing: f.1 * M };
        chk_merc(c, spec, e, Lon::deg(l0).angle().rad(), k0, f.0, f.1, &lons, &lats, false)
    }));
    out.push(dfs("2SP", format!("8 ellipsoids x 6 longitudes of origin x 9 standard parallels x 4 false origins x {nl} longitudes x {np} latitudes"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let r = ell(e);
        let (l0, p0, f) = (c.val(&lon0s), c.val(&lat0s), c.val(&FE));
        let spec = ProjectionSpec::Mercator2SP { lon0: Lon::deg(l0), lat0: Lat::deg(p0), false_easting: f.0 * M, false_northing: f.1 * M };
        // true scale on the standard parallels: k0 = radius of the parallel / a
        let k0 = r.to_xyz(0.0, p0 * RAD, 0.0)[0] / r.a;
        chk_merc(c, spec, e, Lon::deg(l0).angle().rad(), k0, f.0, f.1, &l2, &p2, false)
    }));
    let vs = grid_xy(thorough);
    let nv = vs.len();
    out.push(dfs("unproj", format!("8 ellipsoids x 1SP/2SP x false origins x {nv}^2 grid coordinates up to 1e307"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let r = ell(e);
        let (l0, f) = (c.val(&lon0s), c.val(&FE));
        if c.flag() {
            let p0 = c.val(&lat0s);
            let spec = ProjectionSpec::Mercator2SP { lon0: Lon::deg(l0), lat0: Lat::deg(p0), false_easting: f.0 * M, false_northing: f.1 * M };
            let k0 = r.to_xyz(0.0, p0 * RAD, 0.0)[0] / r.a;
            chk_unmerc(c, spec, e, l0 * RAD, k0, f.0, f.1, &vs, false)
        } else {
            let k0 = c.val(&k0s);
            let spec = ProjectionSpec::Mercator1SP { lon0: Lon::deg(l0), k0, false_easting: f.0 * M, false_northing: f.1 * M };
            chk_unmerc(c, spec, e, l0 * RAD, k0, f.0, f.1, &vs, false)
        }
    }));
    let few = lats_deg(36);
    out.push(dfs("catalogue", "every named ellipsoid x 1SP and 2SP x a coarse grid", move |c| {
        let cat = catalogue();
        let e = &c.pick(&cat).1;
        let r = ell(e);
        let l0 = c.val(&lon0s);
        let lons = grid(-180.0, 180.0, 16);
        if c.flag() {
            let spec = ProjectionSpec::Mercator1SP { lon0: Lon::deg(l0), k0: 0.997, false_easting: 1000.0 * M, false_northing: 2000.0 * M };
            chk_merc(c, spec, e, l0 * RAD, 0.997, 1000.0, 2000.0, &lons, &few, false)
        } else {
            let p0 = c.val(&lat0s);
            let spec = ProjectionSpec::Mercator2SP { lon0: Lon::deg(l0), lat0: Lat::deg(p0), false_easting: 1000.0 * M, false_northing: 2000.0 * M };
            chk_merc(c, spec, e, l0 * RAD, r.to_xyz(0.0, p0 * RAD, 0.0)[0] / r.a, 1000.0, 2000.0, &lons, &few, false)
        }
    }));
    let l3 = lats_deg(if thorough { 720 } else { 180 });
    out.push(dfs("order", "1SP and 2SP x latitudes on a family of 6 flattenings: every power of the squared eccentricity up to the fourth is right in the series of the inverse", move |c| {
        let two = c.flag();
        for &la in &l3 {
            if la.abs() >= 89.999 {
                continue;
            }
            let (mut x, mut er) = (vec![], vec![]);
            for f in FAM {
                let e = fam(f);
                let r = ell(&e);
                let k0 = if two { r.to_xyz(0.0, 0.5, 0.0)[0] / r.a } else { 0.9 };
                let spec = if two { ProjectionSpec::Mercator2SP { lon0: Lon::ZERO, lat0: Lat::new(ang(0.5)), false_easting: 0.0 * M, false_northing: 0.0 * M } } else { ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0, false_easting: 0.0 * M, false_northing: 0.0 * M } };
                let q = enh(0.0, k0 * r.a * r.psi(la * RAD), 0.0);
                let Ok(g) = spec.applied_to(&e).unproj(q) else { return viol("unproj-err", format!("{spec:?} on {e}: unproj({q}) fails")) };
                x.push(r.e2);
                er.push(g.lat.angle().rad() - la * RAD);
            }
            close!("order", at4(&x, &er), 0.0, 1e-6, "latitude {la}, two standard parallels {two}: error of the coefficient of e^8 in the latitude");
            c.step(&[la, at4(&x, &er)]);
        }
        Ok(())
    }));
    out.push(sweep(Pk::M1, thorough));
    out.push(joint("tuples-1sp", Pk::M1, thorough));
    out.push(joint("tuples-2sp", Pk::M2, thorough));
    out.push(Scenario { name: "sweeps-2SP", ..sweep(Pk::M2, thorough) });
    out.push(history("histories", "both directions of 7 Mercator projections with common parameters on 4 ellipsoids with common parameters", deps(thorough), || {
        let (l0, l1, o) = (Lon::deg(3.0), Lon::deg(9.0), 0.0 * M);
        calls(&[
            ProjectionSpec::Mercator1SP { lon0: l0, k0: 1.0, false_easting: o, false_northing: o },
            ProjectionSpec::Mercator1SP { lon0: l1, k0: 1.0, false_easting: o, false_northing: o },
            ProjectionSpec::Mercator1SP { lon0: l0, k0: 0.9, false_easting: o, false_northing: o },
            ProjectionSpec::Mercator1SP { lon0: l0, k0: 1.0, false_easting: 1e5 * M, false_northing: o },
            ProjectionSpec::Mercator1SP { lon0: l0, k0: 1.0, false_easting: o, false_northing: 1e5 * M },
            ProjectionSpec::Mercator2SP { lon0: l0, lat0: Lat::deg(42.0), false_easting: o, false_northing: o },
            ProjectionSpec::Mercator2SP { lon0: l0, lat0: Lat::deg(10.0), false_easting: o, false_northing: o },
        ])
    }));
    out
}

pub fn c11(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lon0s = [0.0, 110.0, -179.0, 180.0, 90.0, -3.5];
    let lons = lons_deg(if thorough { 240 } else { 120 });
    let lats = lats_deg(if thorough { 720 } else { 360 });
    let (nl, np) = (lons.len(), lats.len());
    out.push(dfs("forward", format!("53 ellipsoids x 6 longitudes of origin x 7 latitudes of origin (the other than zero on WGS 84) x 4 false origins x {nl} longitudes x {np} latitudes"), move |c| {
        let es: Vec<Ellipsoid> = catalogue().into_iter().map(|x| x.1).chain(ells()).collect();
        let e = c.pick(&es);
        let (l0, f, p0) = (c.val(&lon0s), c.val(&FE), c.val(&[0.0, 45.0, -12.5, 89.0, 90.0, -90.0, -75.0]));
        if p0 != 0.0 && e.name() != "WGS 84" {
            return Ok(());
        }
        let spec = ProjectionSpec::WebMercator { lon0: Lon::deg(l0), lat0: Lat::deg(p0), false_easting: f.0 * M, false_northing: f.1 * M };
        chk_merc(c, spec, e, Lon::deg(l0).angle().rad(), 1.0, f.0, f.1, &lons, &lats, true)
    }));
    let vs = grid_xy(thorough);
    let nv = vs.len();
    out.push(dfs("unproj", format!("8 ellipsoids x false origins x {nv}^2 grid coordinates up to 1e307"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let (l0, f, p0) = (c.val(&lon0s), c.val(&FE), c.val(&[0.0, 45.0, 90.0, -89.5]));
        let spec = ProjectionSpec::WebMercator { lon0: Lon::deg(l0), lat0: Lat::deg(p0), false_easting: f.0 * M, false_northing: f.1 * M };
        chk_unmerc(c, spec, e, l0 * RAD, 1.0, f.0, f.1, &vs, true)
    }));
    out.push(sweep(Pk::Web, thorough));
    out.push(joint("tuples", Pk::Web, thorough));
    out.push(history("histories", "both directions of 5 web Mercator projections with common parameters on 4 ellipsoids with common parameters", deps(thorough), || {
        let w = |l: f64, p: f64, e: f64, n: f64| ProjectionSpec::WebMercator { lon0: Lon::deg(l), lat0: Lat::deg(p), false_easting: e * M, false_northing: n * M };
        calls(&[w(3.0, 0.0, 0.0, 0.0), w(9.0, 0.0, 0.0, 0.0), w(3.0, 20.0, 0.0, 0.0), w(3.0, 0.0, 1e5, 0.0), w(3.0, 0.0, 0.0, 1e5)])
    }));
    out
}

/// Exact transverse Mercator over the whole domain that is checked: |dlon| up to `lim` from the
/// central meridian or from its antimeridian. `side` picks the pole the far side is reached over
/// on the equator.
fn tm_ref(r: &Ell, lat: f64, dlon: f64, side: f64) -> (f64, f64) {
    if dlon.abs() <= FRAC_PI_2 {
        tm_exact(r, lat, dlon)
    } else {
        let s = if lat == 0.0 { side } else { lat.signum() };
        let (e, n) = tm_exact(r, lat, adiff(PI, dlon));
        (e, 2.0 * s * r.merid(FRAC_PI_2) - n)
    }
}

/// Bound on the truncation error of the 4th order series, relative to a: n^5 terms grow like cosh(10 eta).
fn tm_trunc(r: &Ell, eta: f64) -> f64 {
    let n = r.f / (2.0 - r.f);
    let t = n.powi(5) * (10.0 * eta).cosh();
    if t < 1e-3 { t } else { f64::INFINITY }
}

fn chk_tm(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, lat0: f64, k0: f64, fe: f64, fn_: f64, dlons: &[f64], lats: &[f64]) -> R {
    chk_tm_h(c, spec, e, lon0, lat0, k0, fe, fn_, dlons, lats, &HS)
}
fn chk_tm_h(c: &mut Ctx, spec: ProjectionSpec, e: &Ellipsoid, lon0: f64, lat0: f64, k0: f64, fe: f64, fn_: f64, dlons: &[f64], lats: &[f64], hs: &[f64]) -> R {
    let p = spec.applied_to(e);
    let r = ell(e);
    let m0 = r.merid(lat0);
    for (i, &dd) in dlons.iter().enumerate() {
        for (j, &pd) in lats.iter().enumerate() {
            let h = hs[(i + j) % hs.len()];
            let x = llh(lon0 + dd * RAD, pd * RAD, h);
            let (lo, la) = (x.lon.angle().rad(), x.lat.angle().rad());
            let dl = adiff(lo, lon0);
            let out = p.proj(x);
            let Ok(g) = out else { return viol("proj-err", format!("{spec:?} on {e}: proj({x}) = {out:?}")) };
            let (ge, gn) = (g.easting.m(), g.northing.m());
            let (we, wn) = tm_ref(&r, la, dl, (gn - fn_ + k0 * m0).signum());
            let eta = we / r.a;
            let tr = tm_trunc(&r, eta);
            let rnd = 4e-16 * (fe.abs() + fn_.abs() + 4.0 * k0 * m0.abs());
            let tol = k0 * r.a * (8.0 * tr + 7e-14 * (1.0 + (2.0 * eta).cosh() * 0.1)) + 4.0 * rnd;
            close!("easting", ge, fe + k0 * we, tol, "{spec:?} on {e}: proj({x}) easting");
            close!("northing", gn, fn_ + k0 * (wn - m0), tol, "{spec:?} on {e}: proj({x}) northing");
            ensure!(g.height.m() == h, "height", "{spec:?}: proj({x}) height {}", g.height);
            c.step(&[ge, gn]);
            let b = p.unproj(g);
            let Ok(b) = b else { return viol("unproj-err", format!("{spec:?}: unproj({g}) = {b:?}")) };
            // position error on the ground
            let er = dist3(r.to_xyz(b.lon.angle().rad(), b.lat.angle().rad(), 0.0), r.to_xyz(lo, la, 0.0));
            // asin near the poles: error eps / colatitude
            let colat = FRAC_PI_2 - la.abs();
            let pole = (8e-15 / colat.max(1e-9)).min(6e-8);
            close!("round-trip", er, 0.0, r.a * (8.0 * tr + 2e-13 * (2.0 * eta).cosh() + pole) + 8.0 * rnd, "{spec:?} on {e}: unproj(proj({x})) = {b}: position error [m]");
            ensure!(b.height.m() == h, "height", "{spec:?}: unproj height {}", b.height);
            // inverse of the exact coordinates
            let q = enh(fe + k0 * we, fn_ + k0 * (wn - m0), h);
            let Ok(b) = p.unproj(q) else { return viol("unproj-err", format!("{spec:?}: unproj({q}) fails")) };
            let er = dist3(r.to_xyz(b.lon.angle().rad(), b.lat.angle().rad(), 0.0), r.to_xyz(lo, la, 0.0));
            close!("inverse", er, 0.0, r.a * (8.0 * tr + 2e-13 * (2.0 * eta).cosh() + pole) + 8.0 * rnd, "{spec:?} on {e}: unproj of the exact image of {x} = {b}: position error [m]");
            c.step(&[b.lon.angle().rad(), b.lat.angle().rad()]);
        }
    }
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lon0s = [0.0, -75.0, 180.0, -177.0, 9.0];
    let lat0s = [0.0, 49.0, -33.5, 90.0, -90.0, 1e-6, 89.999, -80.5, 74.25];
    let k0s = [1.0, 0.9996, 0.999601272];
    let near: Vec<f64> = uniq([grid(-40.0, 40.0, if thorough { 160 } else { 40 }), vec![1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3, 5e-3, -5e-3, 0.03, 0.1, -0.2, 0.5, -0.75, 1e-5]].concat());
    let far: Vec<f64> = uniq([grid(140.0, 220.0, if thorough { 80 } else { 20 }), vec![180.0 + 1e-6, 180.0 - 1e-6]].concat());
    let dl: Vec<f64> = [near, far].concat();
    let lats = lats_deg(if thorough { 90 } else { 36 });
    let (nd, np) = (dl.len(), lats.len());
    let (d2, p2) = (dl.clone(), lats.clone());
    out.push(dfs("accuracy", format!("5 central meridians x 9 latitudes of origin x 3 scale factors x 4 false origins (on 2 ellipsoids: every combination in which the scale factor and the false origin, or the central meridian and the latitude of origin, have the same rank; on 6 others: one combination out of five, a different fifth on each); {nd} longitude differences (within 40 deg of the central meridian or of its antimeridian) x {np} latitudes"), move |c| {
        let es = ells();
        let ei = c.choose(es.len());
        let l0i = c.choose(lon0s.len());
        let p0i = c.choose(lat0s.len());
        let ki = c.choose(k0s.len());
        let fi = c.choose(FE.len());
        // all pairs on the first two ellipsoids, a diagonal on the others
        if (ei >= 2 && (l0i + p0i + ki + fi) % 5 != ei % 5) || (ei < 2 && !(ki == fi % 3 || l0i == p0i % 5)) {
            return Ok(());
        }
        let (l0, p0, k0, f) = (lon0s[l0i], lat0s[p0i], k0s[ki], FE[fi]);
        let spec = ProjectionSpec::TransverseMercator { lon0: Lon::deg(l0), lat0: Lat::deg(p0), k0, false_easting: f.0 * M, false_northing: f.1 * M };
        let di = c.choose(dl.len());
        chk_tm(c, spec, &es[ei], Lon::deg(l0).angle().rad(), Lat::deg(p0).angle().rad(), k0, f.0, f.1, &dl[di..di + 1], &lats)
    }));
    out.push(dfs("catalogue", "every named ellipsoid, British and US style parameters", move |c| {
        let cat = catalogue();
        let e = &c.pick(&cat).1;
        let (l0, p0, k0, f) = *c.pick(&[(-2.0, 49.0, 0.9996012717, (400_000.0, -100_000.0)), (9.0, 0.0, 1.0, (3_500_000.0, 0.0)), (171.5, -44.0, 1.0, (500_000.0, 500_000.0))]);
        let spec = ProjectionSpec::TransverseMercator { lon0: Lon::deg(l0), lat0: Lat::deg(p0), k0, false_easting: f.0 * M, false_northing: f.1 * M };
        chk_tm(c, spec, e, l0 * RAD, p0 * RAD, k0, f.0, f.1, &d2, &p2)
    }));
    let (l3, d3) = (grid(-90.0, 90.0, if thorough { 180 } else { 72 }), grid(-40.0, 40.0, if thorough { 80 } else { 40 }));
    out.push(dfs("order", "3 latitudes of origin x longitude differences x latitudes on a family of 6 flattenings: every power of the third flattening up to the fourth is right in the series", move |c| {
        let p0 = c.val(&[0.0, 49.0, -90.0]);
        let dl = c.val(&d3);
        for &la in &l3 {
            let (mut x, mut er) = (vec![], [(); 5].map(|_| vec![]));
            for f in FAM {
                let e = fam(f);
                let r = ell(&e);
                let spec = ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::deg(p0), k0: 1.0, false_easting: 0.0 * M, false_northing: 0.0 * M };
                let p = spec.applied_to(&e);
                let (we, wn) = tm_exact(&r, la * RAD, dl * RAD);
                let wn = wn - r.merid(p0 * RAD);
                let Ok(g) = p.proj(llh(dl * RAD, la * RAD, 0.0)) else { return viol("proj-err", format!("{spec:?} on {e}: proj({dl},{la}) fails")) };
                let Ok(b) = p.unproj(enh(we, wn, 0.0)) else { return viol("unproj-err", format!("{spec:?} on {e}: unproj({we},{wn}) fails")) };
                let (b, w) = (r.to_xyz(b.lon.angle().rad(), b.lat.angle().rad(), 0.0), r.to_xyz(dl * RAD, la * RAD, 0.0));
                x.push(f / (2.0 - f));
                for (k, d) in [g.easting.m() - we, g.northing.m() - wn, b[0] - w[0], b[1] - w[1], b[2] - w[2]].into_iter().enumerate() {
                    er[k].push(d / r.a);
                }
            }
            let v = er.map(|e| at4(&x, &e));
            let g = 1e-3;
            close!("order-proj", v[0].hypot(v[1]), 0.0, g, "latitude of origin {p0}: proj({dl},{la}): error of the coefficient of n^4 [radii]");
            close!("order-unproj", v[2].hypot(v[3]).hypot(v[4]), 0.0, g, "latitude of origin {p0}: unproj to ({dl},{la}): error of the coefficient of n^4 [radii]");
            c.step(&[dl, la, v[0], v[1]]);
        }
        Ok(())
    }));
    // every finite input gets an answer: finite and in range, or an error
    let vs = uniq([mags(-3, 12), grid(-4e7, 4e7, if thorough { 400 } else { 100 }), vec![1e100, -1e100, 1e307, -1e307]].concat());
    let nv = vs.len();
    out.push(dfs("total-unproj", format!("8 ellipsoids x {nv}^2 finite grid coordinates up to 1e307"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let p0 = c.val(&[0.0, 49.0, 90.0]);
        let spec = ProjectionSpec::TransverseMercator { lon0: Lon::deg(9.0), lat0: Lat::deg(p0), k0: 0.9996, false_easting: 500_000.0 * M, false_northing: 0.0 * M };
        let p = spec.applied_to(e);
        let x = c.val(&vs);
        for &y in &vs {
            let q = enh(x, y, 1.0);
            match p.unproj(q) {
                Ok(g) => {
                    let (lo, la) = (g.lon.angle().rad(), g.lat.angle().rad());
                    ensure!(lo.abs() <= PI && la.abs() <= FRAC_PI_2, "range", "{spec:?} on {e}: unproj({q}) = {g}");
                    c.step(&[lo, la]);
                }
                Err(ProjectionError::ENHOutOfBounds) => c.step(&[x, y]),
                Err(o) => return viol("unproj-err", format!("{spec:?}: unproj({q}) = {o:?}")),
            }
        }
        Ok(())
    }));
    let lons = lons_deg(if thorough { 720 } else { 180 });
    let lats = lats_deg(180);
    out.push(dfs("total-proj", "8 ellipsoids x every longitude difference and latitude, including 90 degrees from the central meridian", move |c| {
        let es = ells();
        let e = c.pick(&es);
        let l0 = c.val(&lon0s);
        let spec = ProjectionSpec::TransverseMercator { lon0: Lon::deg(l0), lat0: Lat::ZERO, k0: 0.9996, false_easting: 500_000.0 * M, false_northing: 0.0 * M };
        let p = spec.applied_to(e);
        for &lo in &lons {
            for &la in &lats {
                let x = llh(lo * RAD, la * RAD, 1.0);
                match p.proj(x) {
                    // a number everywhere
                    Ok(g) => {
                        ensure!(!g.easting.m().is_nan() && !g.northing.m().is_nan(), "nan", "{spec:?} on {e}: proj({x}) = {g}");
                        c.step(&[g.easting.m(), g.northing.m()]);
                    }
                    Err(ProjectionError::LLHOutOfBounds) => {
                        let d = adiff(lo * RAD, l0 * RAD).abs();
                        ensure!((d - FRAC_PI_2).abs() < 0.2 && la.abs() < 10.0, "proj-err", "{spec:?} on {e}: proj({x}) is rejected");
                        c.step(&[lo, la]);
                    }
                    Err(o) => return viol("proj-err", format!("{spec:?}: proj({x}) = {o:?}")),
                }
            }
        }
        Ok(())
    }));
    out.push(sweep(Pk::Tm, thorough));
    out.push(joint("tuples", Pk::Tm, thorough));
    out.push(history("histories", "both directions of 7 transverse Mercator and UTM projections with common parameters on 4 ellipsoids with common parameters", deps(thorough), || {
        let t = |l: f64, p: f64, k0: f64, e: f64, n: f64| ProjectionSpec::TransverseMercator { lon0: Lon::deg(l), lat0: Lat::deg(p), k0, false_easting: e * M, false_northing: n * M };
        calls(&[t(9.0, 0.0, 0.9996, 5e5, 0.0), t(3.0, 0.0, 0.9996, 5e5, 0.0), t(9.0, 12.0, 0.9996, 5e5, 0.0), t(9.0, -12.0, 1.0, 5e5, 0.0), t(9.0, 0.0, 0.9996, 0.0, 0.0), t(9.0, 0.0, 0.9996, 5e5, 1e6), ProjectionSpec::UTMSouth { zone: 32 }])
    }));
    out
}

pub fn c13(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let dl = uniq([grid(-6.0, 6.0, if thorough { 48 } else { 16 }), vec![3.0, -3.0, 1e-9, -1e-6, 15.0, -20.0, 35.0, -39.5, 145.0, -160.0, 179.5]].concat());
    let lats = uniq([grid(-80.0, 84.0, if thorough { 164 } else { 82 }), vec![0.0, 1e-9, -1e-9, 1e-4, -1e-4, 89.0, -89.0]].concat());
    let (nd, np) = (dl.len(), lats.len());
    out.push(dfs("zones", format!("60 zones x north/south x 8 ellipsoids x {nd} longitude differences x {np} latitudes"), move |c| {
        let z = c.choose(60) as u8 + 1;
        let south = c.flag();
        let es = ells();
        let e = c.pick(&es);
        let spec = if south { ProjectionSpec::UTMSouth { zone: z } } else { ProjectionSpec::UTMNorth { zone: z } };
        let lon0 = (6.0 * z as f64 - 183.0) * RAD;
        chk_tm(c, spec, e, lon0, 0.0, 0.9996, 500_000.0, if south { 1e7 } else { 0.0 }, &dl, &lats)
    }));
    let m = if thorough { 4 } else { 1 };
    let sl = dense_deg(39.0, 390 * m);
    let sp = dense_deg(89.0, 890 * m);
    let (d0, d1) = (sl.len(), sp.len());
    out.push(dfs("sweeps", format!("60 zones x north/south x 3 ellipsoids, one argument at a time from 3 positions: {d0} longitude differences, {d1} latitudes"), move |c| {
        let z = c.choose(60) as u8 + 1;
        let south = c.flag();
        let es = ells();
        let e = &es[c.choose(3)];
        let spec = if south { ProjectionSpec::UTMSouth { zone: z } } else { ProjectionSpec::UTMNorth { zone: z } };
        let lon0 = (6.0 * z as f64 - 183.0) * RAD;
        let (dl, la) = c.val(&[(0.7, 45.0), (-2.9, -20.0), (3.5, 72.0)]);
        let (a, b): (&[f64], &[f64]) = if c.flag() { (&[dl], &sp) } else { (&sl, &[la]) };
        chk_tm(c, spec, e, lon0, 0.0, 0.9996, 500_000.0, if south { 1e7 } else { 0.0 }, a, b)
    }));
    let (d, n) = if thorough { (DEEP, 199) } else { (QUICK, 101) };
    let args = vec![("zones", (1..=60).map(|z| z as f64).collect()), ("hemispheres", vec![0.0, 1.0]), ("longitude differences", uniq([joint_deg(39.0, n / 2), grid(-6.0, 6.0, n / 2)].concat())), ("latitudes", joint_deg(90.0, n)), ("heights", joint_len(8, n)), ("inverse flattenings", [joint_invf(1.5, n), vec![f64::INFINITY]].concat()), ("semi-major axes", joint_log(5.0, 8.0, n))];
    out.push(tuples("tuples", "zone, hemisphere, position and ellipsoid, both directions", d, args, |c, x| {
        let e = if x[5].is_infinite() { Ellipsoid::from_ab("sphere", x[6] * M, x[6] * M) } else { Ellipsoid::from_ainvf("joint", x[6] * M, x[5]) };
        let (zone, south) = (x[0] as u8, x[1] == 1.0);
        let spec = if south { ProjectionSpec::UTMSouth { zone } } else { ProjectionSpec::UTMNorth { zone } };
        chk_tm_h(c, spec, &e, (6.0 * x[0] - 183.0) * RAD, 0.0, 0.9996, 500_000.0, if south { 1e7 } else { 0.0 }, &x[2..3], &x[3..4], &x[4..5])
    }));
    out.push(history("histories", "both directions of 7 UTM zones on 4 ellipsoids with common parameters", deps(thorough), || {
        calls(&[ProjectionSpec::UTMNorth { zone: 32 }, ProjectionSpec::UTMSouth { zone: 32 }, ProjectionSpec::UTMNorth { zone: 33 }, ProjectionSpec::UTMSouth { zone: 33 }, ProjectionSpec::UTMNorth { zone: 31 }, ProjectionSpec::UTMNorth { zone: 2 }, ProjectionSpec::UTMNorth { zone: 60 }])
    }));
    out
}
