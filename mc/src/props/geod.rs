//! C16 direct geodesic problem, C17 inverse geodesic problem.
use super::earth::{ang, catalogue, ell, kin, KINP};
use crate::dom::*;
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::{ellipsoid::consts as el, Ellipsoid};
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI};

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Vincenty,
    Rapp,
    Karney,
}
const SOLVERS: [S; 3] = [S::Vincenty, S::Rapp, S::Karney];

fn ells() -> Vec<Ellipsoid> {
    vec![
        el::WGS84,
        el::CLRK80IGN,
        el::MPRTS,
        el::SPHERE,
        Ellipsoid::from_ainvf("flattish", 6_400_000.0 * M, 100.0),
        Ellipsoid::from_ainvf("flat", 6_400_000.0 * M, 50.0),
        Ellipsoid::from_ainvf("rather flat", 6_400_000.0 * M, 30.0),
        Ellipsoid::from_ainvf("flatter", 6_400_000.0 * M, 20.0),
        Ellipsoid::from_ainvf("flattest", 6_400_000.0 * M, 10.0),
        Ellipsoid::from_ab("unit-ish", 1000.0 * M, 1000.0 * M),
        Ellipsoid::from_ainvf("rounder", 6_371_000.0 * M, 1000.0),
        Ellipsoid::from_ainvf("nearly a sphere", 6_371_000.0 * M, 3e9),
    ]
}

fn gv(g: Result<Geodesic, &'static str>) -> Vec<f64> {
    g.map_or(vec![], |g| vec![g.p1.0.angle().rad(), g.p1.1.angle().rad(), g.alpha1.angle().rad(), g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad(), g.s.m()])
}

/// Position tolerance [m]: the truncation order of each series, and rounding.
fn tol_pos(s: S, r: &Ell, d: f64) -> f64 {
    let q = d / r.a; // radians travelled
    match s {
        S::Vincenty => r.a * (r.f.powi(4) * (1.0 + 10.0 * r.f) * (0.08 + 0.07 * q) + 1e-12 + 1e-14 * q),
        S::Rapp => r.a * (r.f.powi(5) * (1.0 + 9.0 * r.f) * (1.7 + 0.4 * q) + 3e-13 + 1e-14 * q),
        S::Karney => r.a * (0.030 * (1.0 + 3.5 * r.f) * r.f.powi(7) + 1e-14 + 5e-15 * q),
    }
}
/// Azimuth tolerance [rad].
fn tol_az(s: S, r: &Ell, d: f64) -> f64 {
    tol_pos(s, r, d) / r.a + if s == S::Karney { 1e-14 } else { 1e-12 }
}

fn direct(s: S, e: &Ellipsoid, p: (Lon, Lat), az: Azimuth, d: f64) -> Result<Geodesic, &'static str> {
    match s {
        S::Vincenty => VincentyGeodesicSolver::new(e).solve_direct(p, az, d * M),
        S::Rapp => RappIterativeGeodisicSolver::new(e).solve_direct(p, az, d * M),
        S::Karney => KarneyGeodesicSolver::new(e).solve_direct(p, az, d * M),
    }
}

fn chk_direct(c: &mut Ctx, e: &Ellipsoid, lon: f64, lat: f64, az: f64, d: f64) -> R {
    let r = ell(e);
    let p = (Lon::deg(lon), Lat::deg(lat));
    let a1 = Azimuth::deg(az);
    let (lo, la, al) = (p.0.angle().rad(), p.1.angle().rad(), a1.angle().rad());
    let w = geod_direct(&r, la, al, d);
    let wp = r.to_xyz(lo + w.dlon, w.lat, 0.0);
    let wt = Ell::tangent(lo + w.dlon, w.lat, w.az);
    for s in SOLVERS {
        let g = match direct(s, e, p, a1, d) {
            Ok(g) => g,
            Err(m) => return viol("direct-err", format!("{s:?} on {e}: direct({lon},{lat},{az},{d}) fails: {m}")),
        };
        ensure!(g.p1 == p && g.alpha1 == a1 && g.s.m() == d, "echo", "{s:?}: direct({lon},{lat},{az},{d}) changes its input: {g:?}");
        let (gl, gp, ga) = (g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad());
        ensure!(gl.abs() <= PI && gp.abs() <= FRAC_PI_2 && ga > -PI && ga <= PI, "range", "{s:?} on {e}: direct({lon},{lat},{az},{d}) = {gl} {gp} {ga}");
        let er = dist3(r.to_xyz(gl, gp, 0.0), wp);
        let (kp, ka) = match s {
            S::Vincenty => ("pos-vincenty", "az-vincenty"),
            S::Rapp => ("pos-rapp", "az-rapp"),
            S::Karney => ("pos-karney", "az-karney"),
        };
        close!(kp, er, 0.0, tol_pos(s, &r, d), "{s:?} on {e}: direct({lon},{lat},{az},{d}) = ({gl},{gp}): position error [m]");
        // compare directions in space: longitude and azimuth are ill-conditioned at the poles,
        // and separately meaningless within a millimetre of them
        let col = w.lat.cos().abs();
        if col > 1.6e-10 || d == 0.0 {
            let t = Ell::tangent(gl, gp, ga);
            close!(ka, dist3(t, wt), 0.0, tol_az(s, &r, d) + 4e-15 / col, "{s:?} on {e}: direct({lon},{lat},{az},{d}): direction error at the end [rad]");
        }
        c.step(&[gl, gp, ga]);
    }
    Ok(())
}

fn dists(r: &Ell, thorough: bool) -> Vec<f64> {
    // fractions of the radius; long geodesics go around several times
    let mut v = vec![0.0, 1e-9, 1e-6, 1e-4, 1e-2, 0.1, 0.5, 1.0, FRAC_PI_2, 2.0, 3.0, PI, 3.2, 4.0, 5.0, 6.0, 2.0 * PI, 7.7, 12.0, 15.7];
    if thorough {
        v.extend((1..160).map(|i| i as f64 * 0.1));
    } else {
        v.extend((1..40).map(|i| i as f64 * 0.4));
    }
    v.iter().map(|x| x * r.a).collect()
}

/// Ellipsoids of one family, for the order of a series in the flattening.
const FAM: [f64; 6] = [0.008, 0.014, 0.02, 0.028, 0.036, 0.044];
const FAMK: [f64; 6] = [0.036, 0.048, 0.06, 0.074, 0.088, 0.104];
fn family(s: S) -> [f64; 6] {
    if s == S::Karney { FAMK } else { FAM }
}
/// The order of the first term of the flattening that a solver leaves out.
fn order(s: S) -> i32 {
    match s {
        S::Vincenty => 4,
        S::Rapp => 5,
        S::Karney => 7,
    }
}
fn fam(f: f64) -> Ellipsoid {
    Ellipsoid::from_ainvf("family", 6_400_000.0 * M, 1.0 / f)
}
/// The term of an error at the last order of the flattening that the solver keeps: the limit of err / f^o.
fn at_order(s: S, err: &[[f64; 3]]) -> f64 {
    let (o, fam) = (order(s) - 1, family(s));
    (0..3).map(|k| at_zero(&fam, &fam.iter().zip(err).map(|(f, e)| e[k] / f.powi(o)).collect::<Vec<_>>()).powi(2)).sum::<f64>().sqrt()
}
fn sub(a: [f64; 3], b: [f64; 3], k: f64) -> [f64; 3] {
    [(a[0] - b[0]) / k, (a[1] - b[1]) / k, (a[2] - b[2]) / k]
}

fn shape(a: f64, invf: f64) -> Ellipsoid {
    if invf.is_infinite() { Ellipsoid::from_ab("sphere", a * M, a * M) } else { Ellipsoid::from_ainvf("joint", a * M, invf) }
}

pub fn c16(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lats = lats_deg(if thorough { 72 } else { 36 });
    let azs = uniq([grid(-180.0, 180.0, if thorough { 120 } else { 48 }), vec![1e-9, -1e-9, 1e-4, -1e-4, 90.0 + 1e-6, 90.0 - 1e-6, -90.0 + 1e-4, 180.0 - 1e-6, -180.0 + 1e-6]].concat());
    let (np, na) = (lats.len(), azs.len());
    let (l2, a2) = (lats.clone(), azs.clone());
    out.push(dfs("grid", format!("3 solvers x 12 ellipsoids x {np} latitudes (poles, equator and neighbourhoods) x {na} azimuths x distances up to two and a half turns"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let r = ell(e);
        let (la, az) = (c.val(&lats), c.val(&azs));
        for (k, d) in dists(&r, thorough).into_iter().enumerate() {
            let lon = [0.0, 179.9, -103.25][k % 3];
            chk_direct(c, e, lon, la, az, d)?;
        }
        Ok(())
    }));
    out.push(dfs("catalogue", "every named ellipsoid x a coarse grid", move |c| {
        let cat = catalogue();
        let e = &c.pick(&cat).1;
        let r = ell(e);
        let la = c.val(&[-90.0, -61.3, -0.001, 0.0, 33.0, 89.9, 90.0]);
        let az = c.val(&[-180.0, -120.0, -90.0, 0.0, 0.5, 45.0, 90.0, 135.0, 179.0, 180.0]);
        for d in [1e-5, 0.02, 1.1, 2.9, 3.3, 9.0] {
            chk_direct(c, e, 12.5, la, az, d * r.a)?;
        }
        Ok(())
    }));
    let lons = uniq([grid(-180.0, 180.0, 72), vec![179.999999, -179.999999]].concat());
    out.push(dfs("longitudes", "3 solvers x every longitude of the start point: the geodesic turns with its start point", move |c| {
        let lo = c.val(&lons);
        let la = l2[c.choose(l2.len())];
        for &az in a2.iter().step_by(3) {
            chk_direct(c, &el::WGS84, lo, la, az, 4_321_000.0)?;
        }
        Ok(())
    }));
    let (la3, az3) = (grid(-90.0, 90.0, if thorough { 36 } else { 18 }), grid(-180.0, 180.0, if thorough { 72 } else { 24 }));
    out.push(dfs("order", "3 solvers x latitudes x azimuths x 8 lengths on a family of 6 flattenings: every power of the flattening which the series keeps is right", move |c| {
        let s = *c.pick(&SOLVERS);
        let (la, az) = (c.val(&la3), c.val(&az3));
        for d in [0.1, 0.5, 1.0, FRAC_PI_2, 2.5, 4.0, 6.0, 9.5] {
            let (mut ep, mut ea) = (vec![], vec![]);
            for f in family(s) {
                let e = fam(f);
                let r = ell(&e);
                let (p, a1) = ((Lon::deg(20.0), Lat::deg(la)), Azimuth::deg(az));
                let w = geod_direct(&r, p.1.angle().rad(), a1.angle().rad(), d * r.a);
                let lo = p.0.angle().rad() + w.dlon;
                let Ok(g) = direct(s, &e, p, a1, d * r.a) else { return viol("direct-err", format!("{s:?} on {e}: direct(20,{la},{az},{d} a) fails")) };
                let (gl, gp, ga) = (g.p2.0.angle().rad(), g.p2.1.angle().rad(), g.alpha2.angle().rad());
                ep.push(sub(r.to_xyz(gl, gp, 0.0), r.to_xyz(lo, w.lat, 0.0), r.a));
                ea.push(sub(Ell::tangent(gl, gp, ga), Ell::tangent(lo, w.lat, w.az), 1.0));
            }
            let (kp, ka, t) = match s {
                S::Vincenty => ("order-vincenty", "order-az-vincenty", 1e-5),
                // without the smallest term of that order, 16 * 5 / 65536
                S::Rapp => ("order-rapp", "order-az-rapp", 1.5e-3),
                S::Karney => ("order-karney", "order-az-karney", 0.05),
            };
            close!(kp, at_order(s, &ep), 0.0, t, "{s:?}: direct(20,{la},{az},{d} a): error of the term of order {} of the flattening [radii]", order(s) - 1);
            close!(ka, at_order(s, &ea), 0.0, t, "{s:?}: direct(20,{la},{az},{d} a): error of the term of order {} of the flattening in the azimuth", order(s) - 1);
            c.step(&[la, az, d, at_order(s, &ep)]);
        }
        Ok(())
    }));
    let k = if thorough { 8 } else { 1 };
    let (sl, sp, sa) = (dense_deg(180.0, 1_440 * k), dense_deg(90.0, 3_600 * k), dense_deg(180.0, 7_200 * k));
    let sd = uniq([vec![0.0], log_grid(-9, 1, 30 * k), grid(0.0, 15.7, 4_000 * k)].concat());
    let si = uniq([log_grid(1, 10, 30 * k), grid(280.0, 320.0, 100 * k)].concat());
    let sx = log_grid(-3, 9, 30 * k);
    out.push(dfs("sweeps", format!("3 solvers, one argument at a time from 8 base configurations on 3 ellipsoids: {} longitudes, {} latitudes, {} azimuths, {} distances, {} flattenings, {} semi-major axes", sl.len(), sp.len(), sa.len(), sd.len(), si.len(), sx.len()), move |c| {
        let mut b = c.val(&[[12.0, 48.0, 30.0, 0.2], [-77.0, -12.0, -120.0, 1.5], [179.9, 33.0, 95.0, 0.02], [-30.0, 0.0, 60.0, 3.0], [100.0, -65.0, 179.0, 0.7], [5.0, 89.5, -45.0, 1e-3], [0.0, 20.0, 90.0, 1e-5], [45.0, -5.0, -90.0, 4.5]]);
        let mut e = [el::WGS84, el::SPHERE, Ellipsoid::from_ainvf("flat", 6_400_000.0 * M, 100.0)][c.choose(3)].clone();
        let dim = c.choose(6);
        for &v in c.part([&sl, &sp, &sa, &sd, &si, &sx][dim], 8) {
            match dim {
                0..=3 => b[dim] = v,
                4 => e = Ellipsoid::from_ainvf("swept", e.a(), v),
                _ => e = if e.is_spherical() { Ellipsoid::from_ab("swept", v * M, v * M) } else { Ellipsoid::from_ainvf("swept", v * M, e.invf()) },
            }
            chk_direct(c, &e, b[0], b[1], b[2], b[3] * e.a().m())?;
        }
        Ok(())
    }));
    let (d, n) = if thorough { (DEEP, 199) } else { (QUICK, 101) };
    let args = vec![("longitudes", joint_deg(180.0, n)), ("latitudes", joint_deg(90.0, n)), ("azimuths", joint_deg(180.0, n)), ("distances in radii", uniq([vec![0.0], joint_log(-9.0, 0.0, n / 3), grid(0.0, 15.7, n / 2)].concat())), ("inverse flattenings", [joint_invf(1.0, n), vec![f64::INFINITY]].concat()), ("semi-major axes", joint_log(-3.0, 9.0, n))];
    out.push(tuples("tuples", "3 solvers; start, azimuth, distance and ellipsoid", d, args, |c, x| chk_direct(c, &shape(x[5], x[4]), x[0], x[1], x[2], x[3] * x[5])));
    out.push(history("histories", "the direct problem by 3 solvers on 6 ellipsoids with common parameters, for 7 starts, azimuths and lengths", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        for (i, e) in kin().into_iter().enumerate() {
            for s in SOLVERS {
                for (k, (lo, la, az, d)) in [(12.25, 47.5, 30.0, 1e6), (12.25, -47.5, 30.0, 1e6), (-33.0, 47.5, 30.0, 1e6), (12.25, 47.5, -30.0, 1e6), (12.25, 47.5, 30.0, 2e6), (12.25, 0.0, 90.0, 1e6), (12.25, 47.5, 30.0, 0.0)].into_iter().enumerate() {
                    let e = e.clone();
                    v.push((format!("#{i} {s:?} {k}"), Box::new(move || gv(direct(s, &e, (Lon::deg(lo), Lat::deg(la)), Azimuth::deg(az), d)))));
                }
            }
        }
        v
    }));
    out
}

fn inverse(s: S, e: &Ellipsoid, p: (Lon, Lat), q: (Lon, Lat)) -> Result<Geodesic, &'static str> {
    match s {
        S::Vincenty => VincentyGeodesicSolver::new(e).solve_inverse(p, q),
        _ => RappIterativeGeodisicSolver::new(e).solve_inverse(p, q),
    }
}

fn chk_inverse(c: &mut Ctx, e: &Ellipsoid, p1: (f64, f64), p2: (f64, f64)) -> R {
    let r = ell(e);
    let p = (Lon::deg(p1.0), Lat::deg(p1.1));
    let q = (Lon::deg(p2.0), Lat::deg(p2.1));
    let (lo1, la1) = (p.0.angle().rad(), p.1.angle().rad());
    let (lo2, la2) = (q.0.angle().rad(), q.1.angle().rad());
    let tgt = r.to_xyz(lo2, la2, 0.0);
    // distance to the antipode on the auxiliary sphere
    let beta = |l: f64| ((1.0 - r.f) * l.sin()).atan2(l.cos());
    let u = |lo: f64, b: f64| [b.cos() * lo.cos(), b.cos() * lo.sin(), b.sin()];
    let (u1, u2) = (u(lo1, beta(la1)), u(lo2, beta(la2)));
    let anti = dist3(u1, [-u2[0], -u2[1], -u2[2]]);
    let chord = dist3(r.to_xyz(lo1, la1, 0.0), tgt);
    // the solvers may give up near the antipode; the region grows with the flattening
    let may_fail = anti < 10.0 * r.f + 1e-8;
    for s in [S::Vincenty, S::Rapp] {
        let g = match inverse(s, e, p, q) {
            Ok(g) => g,
            Err(m) => {
                ensure!(may_fail, "inverse-err", "{s:?} on {e}: inverse({p1:?},{p2:?}) fails: {m}");
                c.step(&[lo1, la1, lo2, la2]);
                continue;
            }
        };
        ensure!(g.p1 == p && g.p2 == q, "echo", "{s:?}: inverse({p1:?},{p2:?}) changes its input: {g:?}");
        let (a1, a2, d) = (g.alpha1.angle().rad(), g.alpha2.angle().rad(), g.s.m());
        ensure!(a1 > -PI && a1 <= PI && a2 > -PI && a2 <= PI && d >= 0.0 && d.is_finite(), "range", "{s:?} on {e}: inverse({p1:?},{p2:?}) = {a1} {a2} {d}");
        c.step(&[a1, a2, d]);
        // an answer is right wherever it is given
        let w = geod_direct(&r, la1, a1, d);
        let wp = r.to_xyz(lo1 + w.dlon, w.lat, 0.0);
        let (kp, ka) = match s {
            S::Vincenty => ("pos-vincenty", "az-vincenty"),
            _ => ("pos-rapp", "az-rapp"),
        };
        // near the antipode the end point is sensitive to the last step of the iteration
        let amp = match s {
            S::Vincenty => 1.0 + (0.002 / anti).min(3000.0),
            _ => 1.0 + (1e-6 / anti).min(100.0),
        };
        // Vincenty's iteration stops at a step of 1e-12
        let stop = if s == S::Vincenty { 1.5e-12 * r.a } else { 0.0 };
        close!(kp, dist3(wp, tgt), 0.0, (tol_pos(s, &r, d) + stop) * amp, "{s:?} on {e}: following inverse({p1:?},{p2:?}) = (az {a1}, s {d}) misses the end point [m]");
        // the shortest one (next to opposite poles, every meridian is as short)
        ensure!(w.sigma12 <= PI + 1e-9 && (w.dlon.abs() <= PI + 1e-6 || la1.cos().min(la2.cos()) < 1e-12 || (la1.cos().min(la2.cos()) < 1e-9 && anti < 1e-8)), "shortest", "{s:?} on {e}: inverse({p1:?},{p2:?}) = (az {a1}, s {d}) is not the shortest");
        ensure!(d >= chord - tol_pos(s, &r, d), "chord", "{s:?} on {e}: inverse({p1:?},{p2:?}): {d} is shorter than the chord {chord}");
        if d > 1.0 {
            // direction at the end, compared in space at the end point; an error of position dp over
            // the distance d turns it by dp/d
            let t = Ell::tangent(lo2, la2, a2);
            let wt = Ell::tangent(lo1 + w.dlon, w.lat, w.az);
            let col = la2.cos().abs().max(1e-16);
            if col > 2e-5 {
                close!(ka, dist3(t, wt), 0.0, tol_az(s, &r, d) * amp + tol_pos(s, &r, d) / d + 4e-15 / col + 1e-14 / anti, "{s:?} on {e}: inverse({p1:?},{p2:?}): direction at the end {a2}");
            }
        }
        // the same length backwards
        if let Ok(b) = inverse(s, e, q, p) {
            close!("symmetry", b.s.m(), d, 0.02 * tol_pos(s, &r, d) * amp + 2e-13 * r.a, "{s:?} on {e}: length of inverse({p2:?},{p1:?})");
        } else if !may_fail {
            return viol("inverse-err", format!("{s:?} on {e}: inverse({p2:?},{p1:?}) fails"));
        }
    }
    Ok(())
}

pub fn c17(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lats = uniq([grid(-90.0, 90.0, if thorough { 36 } else { 20 }), vec![-89.999, 89.999, 1e-9, -1e-9, 0.001, -0.001, 0.02, -0.02, 0.3, 89.0, -89.0]].concat());
    let dl = uniq([grid(-180.0, 180.0, if thorough { 72 } else { 48 }), vec![0.0, 1e-9, -1e-9, 1e-6, 1e-3, -1e-3, 1.0, 179.0, -179.0, 179.999, -180.0 + 1e-6, 90.0 + 1e-6]].concat());
    let (np, nd) = (lats.len(), dl.len());
    out.push(dfs("grid", format!("2 solvers x 12 ellipsoids x {np} x {np} latitudes x {nd} longitude differences x 3 starting longitudes; an answer wherever the points are not within 10 f radians of being antipodal, and a right one wherever there is one"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let lon1 = c.val(&[0.0, 170.25, -180.0]);
        let la1 = c.val(&lats);
        for &la2 in &lats {
            for &d in &dl {
                chk_inverse(c, e, (lon1, la1), (lon1 + d, la2))?;
            }
        }
        Ok(())
    }));
    let offs = uniq(vec![0.0, 1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-4, 1e-3, -1e-3, 0.01, 0.1, -0.1, 0.5, 1.0, -1.0, 2.0]);
    let no = offs.len();
    let l1 = lats_deg(if thorough { 72 } else { 36 });
    out.push(dfs("short", format!("2 solvers x 12 ellipsoids x latitudes x {no}^2 small displacements down to 1e-9 degrees, coincident points included"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let la1 = c.val(&l1);
        let lon1 = c.val(&[0.0, 180.0, -33.3]);
        for &a in &offs {
            for &b in &offs {
                let la2 = la1 + a;
                if la2.abs() > 90.0 {
                    continue;
                }
                chk_inverse(c, e, (lon1, la1), (lon1 + b, la2))?;
            }
        }
        Ok(())
    }));
    out.push(dfs("coincident", "2 solvers x 58 ellipsoids x every latitude and longitude: zero length", move |c| {
        let es: Vec<Ellipsoid> = catalogue().into_iter().map(|x| x.1).chain(ells()).collect();
        let e = c.pick(&es);
        for la in lats_deg(90) {
            for lo in [0.0, 90.0, 180.0, -180.0, -45.0, 1e-9] {
                let p = (Lon::deg(lo), Lat::deg(la));
                for s in [S::Vincenty, S::Rapp] {
                    let g = inverse(s, e, p, p);
                    let Ok(g) = g else { return viol("inverse-err", format!("{s:?} on {e}: inverse of coincident points ({lo},{la}) = {g:?}")) };
                    ensure!(g.s.m() == 0.0 && g.alpha1.angle().rad().is_finite() && g.alpha2.angle().rad().is_finite(), "zero", "{s:?} on {e}: coincident ({lo},{la}) = {g:?}");
                    c.step(&[lo, la, g.s.m()]);
                }
            }
        }
        Ok(())
    }));
    // near the antipode: an answer or an error, never a wrong answer, a hang, a panic or NaN
    let near = uniq([vec![0.0], mags(-9, 0)].concat());
    let nn = near.len();
    out.push(dfs("antipodal", format!("2 solvers x 12 ellipsoids x latitudes x {nn}^2 displacements around the antipode: an error or a right answer"), move |c| {
        let es = ells();
        let e = c.pick(&es);
        let la1 = c.val(&[0.0, 1e-6, 30.0, -45.0, 89.9, 90.0, -90.0]);
        for &a in &near {
            for &b in &near {
                chk_inverse(c, e, (10.0, la1), (190.0 + b, (-la1 + a).clamp(-90.0, 90.0)))?;
            }
        }
        Ok(())
    }));
    let (la3, dl3) = (grid(-90.0, 90.0, if thorough { 36 } else { 18 }), grid(-140.0, 140.0, if thorough { 56 } else { 28 }));
    out.push(dfs("order", "2 solvers x latitudes x latitudes x longitude differences on a family of 6 flattenings: every power of the flattening which the series keeps is right", move |c| {
        let s = *c.pick(&[S::Vincenty, S::Rapp]);
        let (la1, la2) = (c.val(&la3), c.val(&la3));
        for &dl in &dl3 {
            if (la1 + la2).abs() < 40.0 && dl.abs() > 120.0 {
                continue;
            }
            let (mut ep, mut ea) = (vec![], vec![]);
            let (p, q) = ((Lon::deg(20.0), Lat::deg(la1)), (Lon::deg(20.0 + dl), Lat::deg(la2)));
            if p == q {
                continue;
            }
            for f in family(s) {
                let e = fam(f);
                let r = ell(&e);
                let Ok(g) = inverse(s, &e, p, q) else { return viol("inverse-err", format!("{s:?} on {e}: inverse((20,{la1}),({},{la2})) fails", 20.0 + dl)) };
                let (a1, a2) = (g.alpha1.angle().rad(), g.alpha2.angle().rad());
                let w = geod_direct(&r, p.1.angle().rad(), a1, g.s.m());
                let (lo1, lo2) = (p.0.angle().rad() + w.dlon, q.0.angle().rad());
                ep.push(sub(r.to_xyz(lo1, w.lat, 0.0), r.to_xyz(lo2, q.1.angle().rad(), 0.0), r.a));
                ea.push(sub(Ell::tangent(lo2, q.1.angle().rad(), a2), Ell::tangent(lo1, w.lat, w.az), 1.0));
            }
            let (kp, ka, t) = match s {
                S::Vincenty => ("order-vincenty", "order-az-vincenty", 1e-4),
                _ => ("order-rapp", "order-az-rapp", 1e-4),
            };
            close!(kp, at_order(s, &ep), 0.0, t, "{s:?}: inverse((20,{la1}),({},{la2})): error of the term of order {} of the flattening [radii]", 20.0 + dl, order(s) - 1);
            if la2.abs() < 89.9 {
            close!(ka, at_order(s, &ea), 0.0, t, "{s:?}: inverse((20,{la1}),({},{la2})): error of the term of order {} of the flattening in the azimuth", 20.0 + dl, order(s) - 1);
            }
            c.step(&[la1, la2, dl, at_order(s, &ep)]);
        }
        Ok(())
    }));
    let k = if thorough { 8 } else { 1 };
    let (sl, sp) = (dense_deg(180.0, 3_600 * k), dense_deg(90.0, 3_600 * k));
    let si = uniq([log_grid(1, 10, 30 * k), grid(280.0, 320.0, 100 * k)].concat());
    let sx = log_grid(-3, 9, 30 * k);
    out.push(dfs("sweeps", format!("2 solvers, one argument at a time from 8 base configurations on 3 ellipsoids: {} first longitudes, {} longitude differences, {} first and second latitudes, {} flattenings, {} semi-major axes", sl.len(), sl.len(), sp.len(), si.len(), sx.len()), move |c| {
        let mut b = c.val(&[[12.0, 5.0, 48.0, 41.0], [-77.0, 80.0, -12.0, 30.0], [179.9, 0.3, 33.0, 33.0], [-30.0, -120.0, 0.0, 0.0], [100.0, 0.0, -65.0, 20.0], [5.0, 145.0, 70.0, 30.0], [0.0, 1e-4, 20.0, 20.0], [45.0, -60.0, -5.0, -5.0]]);
        let mut e = [el::WGS84, el::SPHERE, Ellipsoid::from_ainvf("flat", 6_400_000.0 * M, 100.0)][c.choose(3)].clone();
        let dim = c.choose(6);
        for &v in c.part([&sl, &sl, &sp, &sp, &si, &sx][dim], 8) {
            match dim {
                0..=3 => b[dim] = v,
                4 => e = Ellipsoid::from_ainvf("swept", e.a(), v),
                _ => e = if e.is_spherical() { Ellipsoid::from_ab("swept", v * M, v * M) } else { Ellipsoid::from_ainvf("swept", v * M, e.invf()) },
            }
            chk_inverse(c, &e, (b[0], b[2]), (b[0] + b[1], b[3]))?;
        }
        Ok(())
    }));
    let (d, n) = if thorough { (DEEP, 199) } else { (QUICK, 101) };
    let args = vec![("first longitudes", joint_deg(180.0, n)), ("first latitudes", joint_deg(90.0, n)), ("longitude differences", joint_deg(180.0, n)), ("second latitudes", joint_deg(90.0, n)), ("inverse flattenings", [joint_invf(1.0, n), vec![f64::INFINITY]].concat()), ("semi-major axes", joint_log(-3.0, 9.0, n))];
    out.push(tuples("tuples", "2 solvers; both points and ellipsoid", d, args, |c, x| chk_inverse(c, &shape(x[5], x[4]), (x[0], x[1]), (x[0] + x[2], x[3]))));
    out.push(history("histories", "the inverse problem by 2 solvers on 6 ellipsoids with common parameters, for 12 pairs out of 6 points", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        for (i, e) in kin().into_iter().enumerate() {
            for s in [S::Vincenty, S::Rapp] {
                for (a, b) in [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (0, 4), (4, 0), (4, 2), (0, 5), (5, 0), (0, 0), (4, 4)] {
                    let e = e.clone();
                    let p = |k: usize| (Lon::deg(KINP[k].0), Lat::deg(KINP[k].1));
                    v.push((format!("#{i} {s:?} {a}->{b}"), Box::new(move || gv(inverse(s, &e, p(a), p(b))))));
                }
            }
        }
        v
    }));
    let _ = ang;
    out
}
