//! C18 distances in a CRS, C19 approximate equality and tolerances.
use super::earth::{ang, ell, gaxes, glayout, kin_datums, AU, KINP, LU};
use super::pipe::{arr, xyz};
use super::projs::{enh, llh};
use crate::dom::*;
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use approx::AbsDiffEq;
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs, Crs};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{approx_eq_xyz, GeocentricAxes};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{approx_eq_llh, GeodeticTolerance, Lat, Lon};
use geokit::geodesy::geodesics::{check_direct, check_inverse, DirectErrors, Geodesic, InverseErrors};
use geokit::geodesy::{ellipsoid::consts as el, geodetic_datum::consts as dc, prime_meridian::consts as pm, Ellipsoid, GeodeticDatum};
use geokit::projections::ProjectionSpec;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::DEG;
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::PI;

fn datums() -> Vec<GeodeticDatum> {
    vec![
        dc::WGS84,
        GeodeticDatum::new("NTF", el::CLRK80IGN, pm::PARIS),
        GeodeticDatum::new("SPH", el::SPHERE, pm::BOGOTA),
        GeodeticDatum::new("MP", el::MPRTS, pm::JAKARTA),
        GeodeticDatum::new("MARS", Ellipsoid::from_ainvf("mars", 3_396_190.0 * M, 169.894), pm::GREENWICH),
    ]
}

pub fn c18(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // geodesic distances: end points built by the reference direct problem
    let lats = uniq([grid(-90.0, 90.0, if thorough { 60 } else { 36 }), vec![89.99, -89.99, 1e-6, -1e-6]].concat());
    let azs = uniq([grid(-180.0, 180.0, if thorough { 72 } else { 48 }), vec![1e-4, -90.0 + 1e-4, 179.99]].concat());
    let fr = [0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.05, 0.3, 0.8, 1.3, 1.9, 2.4, 2.8];
    let lo1s = [0.0, 179.5, -120.0, 180.0];
    let (np, na) = (lats.len(), azs.len());
    out.push(dfs("geodesic", format!("5 datums x 3 two-dimensional layouts x 5 angle units x 4 longitudes x {np} latitudes x {na} azimuths x {} distances up to 160 degrees of arc", fr.len()), move |c| {
        let ds = datums();
        let d = c.pick(&ds);
        let layout = 2 + c.choose(3);
        let (au, per) = c.val(&AU);
        let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, au, M) };
        let (il, ip, sg, _) = glayout(layout);
        let r = ell(d.ellipsoid());
        let lo1 = c.val(&lo1s);
        let la1 = c.val(&lats);
        let mk = |lo: f64, la: f64| {
            let mut v = [0.0; 2];
            v[il] = sg * lo / per;
            v[ip] = la / per;
            v
        };
        for (k, &az) in azs.iter().enumerate() {
            for &q in &fr {
                let s = q * r.a;
                let w = geod_direct(&r, la1 * RAD, az * RAD, s);
                let a = mk(lo1 * RAD, la1 * RAD);
                // the second longitude as such, or some turns away
                let turns = [0.0, 0.0, 2.0 * PI, -2.0 * PI][k % 4];
                let b = mk(adiff(lo1 * RAD + w.dlon, 0.0) + turns, w.lat);
                let tol = r.a * (0.5 * r.f.powi(4) + 1.2e-11);
                // within 20 degrees of the antipode is left to the geodesic solver's own check
                let got = crs.dist(&a, &b);
                let Ok(g) = got else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) = {got:?}", d.id())) };
                close!("geodesic", g.m(), s, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
                let back = crs.dist(&b, &a);
                let Ok(gb) = back else { return viol("dist-err", format!("{}: dist({b:?},{a:?}) = {back:?}", d.id())) };
                close!("symmetry", gb.m(), g.m(), tol, "{}: dist({b:?},{a:?})", d.id());
                c.step(&[g.m()]);
            }
        }
        let a = mk(lo1 * RAD, la1 * RAD);
        let z = crs.dist(&a, &a);
        ensure!(matches!(z, Ok(l) if l.m() == 0.0), "zero", "{}: dist({a:?},{a:?}) = {z:?}", d.id());
        Ok(())
    }));
    // geodesic distances: all pairs of positions with round coordinates, so also with common and mirrored ones
    let plats = if thorough { vec![-90.0, -89.9, -75.0, -60.0, -45.0, -30.0, -12.5, -1.0, -1e-6, 0.0, 1e-6, 1.0, 12.5, 30.0, 45.0, 60.0, 75.0, 89.9, 90.0] } else { vec![-90.0, -60.0, -45.0, -12.5, -1e-6, 0.0, 1.0, 12.5, 45.0, 60.0, 89.9, 90.0] };
    let plons = if thorough { vec![-180.0, -167.5, -135.0, -90.0, -45.0, -12.5, -1.0, 0.0, 1.0, 12.5, 45.0, 60.0, 90.0, 135.0, 167.5, 180.0] } else { vec![-180.0, -135.0, -45.0, -12.5, 0.0, 12.5, 45.0, 90.0, 135.0, 180.0] };
    let (np, nl) = (plats.len(), plons.len());
    out.push(dfs("position-pairs", format!("5 datums x 3 two-dimensional layouts x all pairs of {nl} longitudes x {np} latitudes in degrees up to 150 degrees apart"), move |c| {
        let ds = datums();
        let d = c.pick(&ds);
        let (lo1, la1) = (c.val(&plons), c.val(&plats));
        let r = ell(d.ellipsoid());
        for &lo2 in &plons {
            for &la2 in &plats {
                let dlon = adiff((lo2 - lo1) * RAD, 0.0);
                let cosang = (la1 * RAD).sin() * (la2 * RAD).sin() + (la1 * RAD).cos() * (la2 * RAD).cos() * dlon.cos();
                if cosang < -0.87 {
                    continue;
                }
                let want = if la1 == la2 && (dlon == 0.0 || la1.abs() == 90.0) { Some(0.0) } else { geod_inv(&r, la1 * RAD, la2 * RAD, dlon) };
                let Some(want) = want else { return viol("reference", format!("{}: no reference distance ({lo1},{la1}) ({lo2},{la2})", d.id())) };
                let tol = r.a * (0.5 * r.f.powi(4) + 1.2e-11);
                for layout in 2..5 {
                    let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, DEG, M) };
                    let (il, ip, sg, _) = glayout(layout);
                    let mk = |lo: f64, la: f64| {
                        let mut v = [0.0; 2];
                        v[il] = sg * lo;
                        v[ip] = la;
                        v
                    };
                    let (a, b) = (mk(lo1, la1), mk(lo2, la2));
                    let got = crs.dist(&a, &b);
                    let Ok(g) = got else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) = {got:?}", d.id())) };
                    close!("geodesic", g.m(), want, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
                    c.step(&[g.m()]);
                }
            }
        }
        Ok(())
    }));
    // three-dimensional geographic: the chord
    let lons = if thorough { lons_deg(12) } else { vec![-180.0, -179.5, -90.0, -2.337, 0.0, 0.001, 45.0, 90.0, 106.8, 163.0, 179.9999, 180.0] };
    let lats = if thorough { lats_deg(6) } else { vec![-90.0, -89.9, -60.0, -30.0, -1e-6, 0.0, 12.5, 45.0, 75.0, 89.9999, 90.0] };
    let hs = [0.0, 1000.0, -50.0, 3e6];
    let (nl, np) = (lons.len(), lats.len());
    out.push(dfs("chord", format!("5 datums x 2 three-dimensional layouts x 5 angle units x 4 height units x ({nl} longitudes x {np} latitudes)^2, 4 heights"), move |c| {
        let ds = datums();
        let d = c.pick(&ds);
        let layout = c.choose(2);
        let ui = c.choose(AU.len() * LU.len());
        let ((au, per), (hu, hper)) = (AU[ui % AU.len()], LU[ui / AU.len()]);
        let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, au, hu) };
        let (il, ip, sg, _) = glayout(layout);
        let r = ell(d.ellipsoid());
        let mk = |lo: f64, la: f64, h: f64| {
            let mut v = [0.0; 3];
            v[il] = sg * lo * RAD / per;
            v[ip] = la * RAD / per;
            v[2] = h / hper;
            v
        };
        let (lo1, la1) = (c.val(&lons), c.val(&lats));
        for (i, &lo2) in lons.iter().enumerate() {
            for (j, &la2) in lats.iter().enumerate() {
                let (h1, h2) = (hs[i % 4], hs[(i + j) % 4]);
                let (a, b) = (mk(lo1, la1, h1), mk(lo2, la2, h2));
                let want = dist3(r.to_xyz(lo1 * RAD, la1 * RAD, h1), r.to_xyz(lo2 * RAD, la2 * RAD, h2));
                let tol = 2e-14 * (r.a + h1.abs() + h2.abs());
                let (Ok(g), Ok(gb)) = (crs.dist(&a, &b), crs.dist(&b, &a)) else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) fails", d.id())) };
                close!("chord", g.m(), want, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
                close!("symmetry", gb.m(), want, tol, "{}: dist({b:?},{a:?})", d.id());
                c.step(&[g.m()]);
            }
        }
        let a = mk(lo1, la1, hs[1]);
        ensure!(matches!(crs.dist(&a, &a), Ok(l) if l.m() == 0.0), "zero", "{}: dist({a:?},{a:?})", d.id());
        Ok(())
    }));
    let v = [0.0, 1.0, -2.5, 300.0, -4e4, 5e5, 6_378_137.0, -7e6];
    out.push(dfs("euclid", "geocentric, and projected 2D/3D in every pair of length units x 8^4 coordinate values", move |c| {
        let (x1, y1, x2, y2) = (c.val(&v), c.val(&v), c.val(&v), c.val(&v));
        let (z1, z2) = (0.5 * x1 - y2, 3.0 + y1);
        let g = GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ };
        let want = dist3([x1, y1, z1], [x2, y2, z2]);
        let t = |w: f64| 4e-15 * (w + x1.abs() + x2.abs() + y1.abs() + y2.abs());
        let r = g.dist(&[x1, y1, z1], &[x2, y2, z2]);
        let Ok(r) = r else { return viol("dist-err", "geocentric dist") };
        close!("geocentric", r.m(), want, t(want), "geocentric dist({x1},{y1},{z1} ; {x2},{y2},{z2})");
        c.step(&[r.m()]);
        for (u, per) in LU {
            let p = ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: u }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
            let want = (x1 - x2).hypot(y1 - y2) * per;
            let Ok(r) = p.dist(&[x1, y1], &[x2, y2]) else { return viol("dist-err", "projected dist") };
            close!("projected", r.m(), want, t(want), "projected {u:?} dist({x1},{y1} ; {x2},{y2})");
            for (hu, hper) in LU {
                let p = ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
                let want = dist3([x1 * per, y1 * per, z1 * hper], [x2 * per, y2 * per, z2 * hper]);
                let Ok(r) = p.dist(&[x1, y1, z1], &[x2, y2, z2]) else { return viol("dist-err", "projected dist") };
                close!("projected", r.m(), want, t(want), "projected {u:?} {hu:?} dist({x1},{y1},{z1} ; {x2},{y2},{z2})");
                c.step(&[r.m()]);
            }
        }
        Ok(())
    }));
    let m = if thorough { 4 } else { 1 };
    let (sl, sp, sh, sd, sx) = (dense_deg(360.0, 720 * m), dense_deg(90.0, 720 * m), dense_len(7, 10 * m), log_grid(-10, 0, 20 * m), dense_len(8, 12 * m));
    let az = dense_deg(180.0, 720 * m);
    let b = format!("one argument at a time: geographic 2D and 3D on 5 datums ({} longitudes, {} latitudes of either end, {} heights, {} azimuths and {} distances from 4 positions), geocentric and projected ({} values of each coordinate of either end)", sl.len(), sp.len(), sh.len(), az.len(), sd.len(), sx.len());
    out.push(dfs("sweeps", b, move |c| {
        let ds = datums();
        let d = c.pick(&ds);
        let r = ell(d.ellipsoid());
        match c.choose(3) {
            0 => {
                // geographic 2D, the second end by the reference direct problem
                let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(3, DEG, M) };
                let mut p = c.val(&[[12.0, 48.0, 30.0, 0.2], [-77.0, -12.0, -120.0, 1.5], [179.9, 33.0, 95.0, 0.02], [45.0, 0.0, -90.0, 1e-5]]);
                let dim = c.choose(4);
                for &v in [&sl, &sp, &az, &sd][dim] {
                    p[dim] = if dim == 3 { 2.7 * v } else { v };
                    let s = p[3] * r.a;
                    let w = geod_direct(&r, p[1] * RAD, p[2] * RAD, s);
                    let (a, b) = ([p[1], p[0]], [w.lat / RAD, p[0] + w.dlon / RAD]);
                    let tol = r.a * (0.5 * r.f.powi(4) + 1.2e-11);
                    let (Ok(g), Ok(gb)) = (crs.dist(&a, &b), crs.dist(&b, &a)) else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) fails", d.id())) };
                    close!("geodesic", g.m(), s, tol, "{}: dist({a:?},{b:?})", d.id());
                    close!("symmetry", gb.m(), g.m(), tol, "{}: dist({b:?},{a:?})", d.id());
                    c.step(&[g.m()]);
                }
            }
            1 => {
                // geographic 3D
                let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(0, DEG, M) };
                let mut p = c.val(&[[12.0, 48.0, 30.0, 15.0, 41.0, -20.0], [-77.0, -12.0, 4e5, -76.9, -12.0, 0.0], [179.9, 33.0, 0.0, -179.9, 33.0, 0.0], [45.0, 0.0, 1e3, -135.0, 80.0, 2e3]]);
                let dim = c.choose(6);
                for &v in [&sl, &sp, &sh][dim % 3] {
                    p[dim] = v;
                    let (a, b) = ([p[0], p[1], p[2]], [p[3], p[4], p[5]]);
                    let want = dist3(r.to_xyz(p[0] * RAD, p[1] * RAD, p[2]), r.to_xyz(p[3] * RAD, p[4] * RAD, p[5]));
                    let tol = 2e-14 * (r.a + p[2].abs() + p[5].abs());
                    let (Ok(g), Ok(gb)) = (crs.dist(&a, &b), crs.dist(&b, &a)) else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) fails", d.id())) };
                    close!("chord", g.m(), want, tol, "{}: dist({a:?},{b:?})", d.id());
                    close!("symmetry", gb.m(), want, tol, "{}: dist({b:?},{a:?})", d.id());
                    c.step(&[g.m()]);
                }
            }
            _ => {
                let g = GeocentricCrs { id: "x".into(), datum: d.clone(), axes: GeocentricAxes::XYZ };
                let axes = |k: usize| if k == 1 { ProjectedAxes::EastNorth { horiz_unit: US_FT } } else { ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: FT } };
                let prj = |k: usize| ProjectedCrs { id: "p".into(), datum: d.clone(), axes: axes(k), projection: ProjectionSpec::UTMNorth { zone: 1 } };
                let (p1, p2) = (prj(1), prj(2));
                let mut p = c.val(&[[0.0; 6], [5e5, 4.8e6, 120.0, 5.1e5, 4.9e6, 30.0], [-3e6, 4e6, 5e6, -3e6, 4e6, 5e6], [1.0, 2.0, 3.0, -1e3, 4e3, 5e3]]);
                let dim = c.choose(6);
                for &v in &sx {
                    p[dim] = v;
                    let (a, b) = ([p[0], p[1], p[2]], [p[3], p[4], p[5]]);
                    let o = [p[0] - p[3], p[1] - p[4], p[2] - p[5]];
                    let sum: f64 = p.iter().map(|x| x.abs()).sum();
                    let uf = 1200.0 / 3937.0;
                    for (k, want) in [dist3(o, [0.0; 3]), o[0].hypot(o[1]) * uf, dist3([o[0], o[1], o[2] * 0.3048], [0.0; 3])].into_iter().enumerate() {
                        let f = |a: &[f64; 3], b: &[f64; 3]| match k {
                            0 => g.dist(a, b),
                            1 => p1.dist(&a[..2], &b[..2]),
                            _ => p2.dist(a, b),
                        };
                        let (Ok(x), Ok(y)) = (f(&a, &b), f(&b, &a)) else { return viol("dist-err", format!("dist({a:?},{b:?}) fails")) };
                        let tag = ["geocentric", "projected", "projected"][k];
                        let tol = 1e-14 * want + 4.5e-16 * sum;
                        close!(tag, x.m(), want, tol, "{k}: dist({a:?},{b:?})");
                        close!("symmetry", y.m(), want, tol, "{k}: dist({b:?},{a:?})");
                        c.step(&[x.m()]);
                    }
                }
            }
        }
        Ok(())
    }));
    let (d, n) = if thorough { (DEEP, 199) } else { (QUICK, 101) };
    let idx = |a: usize, b: usize| (a..b).map(|i| i as f64).collect::<Vec<f64>>();
    let (ds, nd) = (datums(), datums().len());
    let args = vec![("datums", idx(0, nd)), ("layouts", idx(2, 5)), ("angle units", idx(0, AU.len())), ("longitudes", joint_deg(180.0, n)), ("latitudes", joint_deg(90.0, n)), ("azimuths", joint_deg(180.0, n)), ("distances in radii", uniq([vec![0.0], joint_log(-9.0, 0.0, n / 3), grid(0.0, 2.8, n / 2)].concat())), ("turns", vec![0.0, 0.0, 1.0, -1.0])];
    out.push(tuples("tuples-2d", "geographic 2D systems, both positions", d, args, move |c, x| {
        let d = &ds[x[0] as usize];
        let (layout, (au, per)) = (x[1] as usize, AU[x[2] as usize]);
        let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, au, M) };
        let (il, ip, sg, _) = glayout(layout);
        let r = ell(d.ellipsoid());
        let s = x[6] * r.a;
        let w = geod_direct(&r, x[4] * RAD, x[5] * RAD, s);
        let mk = |lo: f64, la: f64| {
            let mut v = [0.0; 2];
            v[il] = sg * lo / per;
            v[ip] = la / per;
            v
        };
        let (a, b) = (mk(x[3] * RAD, x[4] * RAD), mk(adiff(x[3] * RAD + w.dlon, 0.0) + 2.0 * PI * x[7], w.lat));
        let tol = r.a * (0.5 * r.f.powi(4) + 1.2e-11);
        let (Ok(g), Ok(gb)) = (crs.dist(&a, &b), crs.dist(&b, &a)) else { return viol("dist-err", format!("{} {:?}: dist({a:?},{b:?}) fails", d.id(), crs.axes)) };
        close!("geodesic", g.m(), s, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
        close!("symmetry", gb.m(), g.m(), tol, "{}: dist({b:?},{a:?})", d.id());
        c.step(&[g.m()]);
        Ok(())
    }));
    let ds = datums();
    let args = vec![("datums", idx(0, nd)), ("layouts", idx(0, 2)), ("angle units", idx(0, AU.len())), ("length units", idx(0, LU.len())), ("height units", idx(0, LU.len())), ("first longitudes", joint_deg(360.0, n)), ("first latitudes", joint_deg(90.0, n)), ("first heights", joint_len(7, n)), ("second longitudes", joint_deg(360.0, n)), ("second latitudes", joint_deg(90.0, n)), ("second heights", joint_len(7, n))];
    out.push(tuples("tuples-3d", "geographic 3D, geocentric, projected 2D and 3D systems, both positions", d, args, move |c, x| {
        let d = &ds[x[0] as usize];
        let (layout, (au, per), (lu, lper), (hu, hper)) = (x[1] as usize, AU[x[2] as usize], LU[x[3] as usize], LU[x[4] as usize]);
        let r = ell(d.ellipsoid());
        let (il, ip, sg, _) = glayout(layout);
        let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, au, hu) };
        let mk = |lo: f64, la: f64, h: f64| {
            let mut v = [0.0; 3];
            v[il] = sg * lo * RAD / per;
            v[ip] = la * RAD / per;
            v[2] = h / hper;
            v
        };
        let (a, b) = (mk(x[5], x[6], x[7]), mk(x[8], x[9], x[10]));
        let (wa, wb) = (r.to_xyz(x[5] * RAD, x[6] * RAD, x[7]), r.to_xyz(x[8] * RAD, x[9] * RAD, x[10]));
        let want = dist3(wa, wb);
        let tol = 2e-14 * (r.a + x[7].abs() + x[10].abs());
        let (Ok(g), Ok(gb)) = (crs.dist(&a, &b), crs.dist(&b, &a)) else { return viol("dist-err", format!("{} {:?}: dist({a:?},{b:?}) fails", d.id(), crs.axes)) };
        close!("chord", g.m(), want, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
        close!("symmetry", gb.m(), want, tol, "{}: dist({b:?},{a:?})", d.id());
        // the same positions as cartesian coordinates
        let xyz = GeocentricCrs { id: "x".into(), datum: d.clone(), axes: GeocentricAxes::XYZ };
        let p2 = ProjectedCrs { id: "p".into(), datum: d.clone(), axes: ProjectedAxes::EastNorth { horiz_unit: lu }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
        let p3 = ProjectedCrs { id: "p".into(), datum: d.clone(), axes: ProjectedAxes::EastNorthUp { horiz_unit: lu, height_unit: hu }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
        let sum: f64 = wa.iter().chain(&wb).map(|v| v.abs()).sum();
        let o = [wa[0] - wb[0], wa[1] - wb[1], wa[2] - wb[2]];
        for (k, want) in [dist3(wa, wb), o[0].hypot(o[1]) * lper, dist3([o[0] * lper, o[1] * lper, o[2] * hper], [0.0; 3])].into_iter().enumerate() {
            let f = |a: &[f64; 3], b: &[f64; 3]| match k {
                0 => xyz.dist(a, b),
                1 => p2.dist(&a[..2], &b[..2]),
                _ => p3.dist(a, b),
            };
            let (Ok(g), Ok(gb)) = (f(&wa, &wb), f(&wb, &wa)) else { return viol("dist-err", format!("{k}: dist({wa:?},{wb:?}) fails")) };
            let tag = ["geocentric", "projected", "projected"][k];
            let tol = 1e-14 * want + 4.5e-16 * sum * lper.max(hper).max(1.0);
            close!(tag, g.m(), want, tol, "{k}: dist({wa:?},{wb:?})");
            close!("symmetry", gb.m(), want, tol, "{k}: dist({wb:?},{wa:?})");
            c.step(&[g.m()]);
        }
        Ok(())
    }));
    let near = [0.0, 1e-7, -1e-6, 1e-5, 2e-4, -3e-4, 5e-4, 9e-4, 1.1e-3, -0.02, 0.7];
    out.push(dfs("close-positions", format!("pairs of positions {0}^3 small offsets (0 to 0.7 m) apart, axis by axis, around 4 positions, in geocentric, projected 2D/3D and geographic 2D/3D systems", near.len()), move |c| {
        let o = [c.val(&near), c.val(&near), c.val(&near)];
        let p = c.val(&[[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [1000.0, 1000.0, 1000.0], [5e5, 5e6, -40.0]]);
        let q = [p[0] + o[0], p[1] + o[1], p[2] + o[2]];
        let o = [q[0] - p[0], q[1] - p[1], q[2] - p[2]];
        let g = GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ };
        let want = dist3(o, [0.0; 3]);
        let t = |w: f64| 1e-14 * w;
        let (Ok(r), Ok(b)) = (g.dist(&p, &q), g.dist(&q, &p)) else { return viol("dist-err", "geocentric dist") };
        close!("geocentric", r.m(), want, t(want), "geocentric dist({p:?} ; {q:?})");
        close!("symmetry", b.m(), want, t(want), "geocentric dist({q:?} ; {p:?})");
        for (u, per) in LU {
            let crs = ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: u }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
            let want = o[0].hypot(o[1]) * per;
            // the coordinates are converted to metres before they are compared
            let t = |w: f64| 1e-14 * w + 4.5e-16 * per * (p[0].abs() + p[1].abs() + p[2].abs());
            let (Ok(r), Ok(b)) = (crs.dist(&p[..2], &q[..2]), crs.dist(&q[..2], &p[..2])) else { return viol("dist-err", "projected dist") };
            close!("projected", r.m(), want, t(want), "projected {u:?} dist({p:?} ; {q:?})");
            close!("symmetry", b.m(), want, t(want), "projected {u:?} dist({q:?} ; {p:?})");
            for (hu, hper) in LU {
                let crs = ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu }, projection: ProjectionSpec::UTMNorth { zone: 1 } };
                let want = dist3([o[0] * per, o[1] * per, o[2] * hper], [0.0; 3]);
                let t = |w: f64| 1e-14 * w + 4.5e-16 * per.max(hper) * (p[0].abs() + p[1].abs() + p[2].abs());
                let (Ok(r), Ok(b)) = (crs.dist(&p, &q), crs.dist(&q, &p)) else { return viol("dist-err", "projected dist") };
                close!("projected", r.m(), want, t(want), "projected {u:?} {hu:?} dist({p:?} ; {q:?})");
                close!("symmetry", b.m(), want, t(want), "projected {u:?} {hu:?} dist({q:?} ; {p:?})");
                c.step(&[r.m()]);
            }
        }
        // the same offsets on the ground
        let ds = datums();
        let d = c.pick(&ds);
        let e = ell(d.ellipsoid());
        for (lo, la, h) in [(0.0, 0.0, 0.0), (1.0, 0.7, 100.0), (-3.0, -1.5, -20.0), (PI, 1.0, 4e5)] {
            let n = 1.0 / e.a;
            let (lo2, la2, h2) = (lo + o[0] * n, la + o[1] * n, h + o[2]);
            for layout in 0..5 {
                let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, AU[0].0, M) };
                let per = AU[0].1;
                let (il, ip, sg, _) = glayout(layout);
                let mk = |lo: f64, la: f64, h: f64| {
                    let mut v = [0.0, 0.0, h];
                    v[il] = sg * lo / per;
                    v[ip] = la / per;
                    v
                };
                let (a, b) = (mk(lo, la, h), mk(lo2, la2, h2));
                let k = crs.dim();
                let hz = if k == 3 { (h, h2) } else { (0.0, 0.0) };
                let want = dist3(e.to_xyz(lo, la, hz.0), e.to_xyz(lo2, la2, hz.1));
                // rounding of the positions; the geodesic iteration stops at steps of 1e-12 rad
                let tol = 1e-8 + 1e-9 * want + if k == 2 { 1.1e-12 * e.a } else { 0.0 };
                let (Ok(r), Ok(s)) = (crs.dist(&a[..k], &b[..k]), crs.dist(&b[..k], &a[..k])) else { return viol("dist-err", format!("{}: dist({a:?},{b:?}) fails", d.id())) };
                close!("close-positions", r.m(), want, tol, "{} {:?}: dist({a:?},{b:?})", d.id(), crs.axes);
                close!("symmetry", s.m(), want, tol, "{} {:?}: dist({b:?},{a:?})", d.id(), crs.axes);
                c.step(&[r.m()]);
            }
        }
        Ok(())
    }));
    let alats = uniq([grid(-90.0, 90.0, if thorough { 60 } else { 36 }), vec![89.99, -89.99, 1e-6, -1e-6, 0.25, -0.4]].concat());
    let aoff = [0.0, 1e-9, -1e-6, 1e-4, 0.01, -0.2, 0.3, 0.55, -0.7, 1.0, 3.0, -8.0, 14.0, 19.0];
    let na = alats.len();
    out.push(dfs("far-apart", format!("5 datums x 3 two-dimensional layouts x {na} latitudes x {0}^2 second positions within 19 degrees of the antipode: an error, or a length between the straight line and half the circumference", aoff.len()), move |c| {
        let ds = datums();
        let d = c.pick(&ds);
        let layout = 2 + c.choose(3);
        let crs = GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(layout, AU[1].0, M) };
        let (il, ip, sg, _) = glayout(layout);
        let r = ell(d.ellipsoid());
        let la1 = c.val(&alats);
        let lo1 = c.val(&[0.0, 100.0, -180.0]);
        for &o1 in &aoff {
            for &o2 in &aoff {
                let (lo2, la2) = (lo1 + 180.0 + o1, -la1 + o2);
                if la2.abs() > 90.0 {
                    continue;
                }
                let mk = |lo: f64, la: f64| {
                    let mut v = [0.0; 2];
                    v[il] = sg * lo;
                    v[ip] = la;
                    v
                };
                let (a, b) = (mk(lo1, la1), mk(lo2, la2));
                let chord = dist3(r.to_xyz(lo1 * RAD, la1 * RAD, 0.0), r.to_xyz(lo2 * RAD, la2 * RAD, 0.0));
                match crs.dist(&a, &b) {
                    Ok(g) => {
                        ensure!(g.m() >= chord * (1.0 - 1e-12) && g.m() <= PI * r.a * (1.0 + 1e-9), "far-apart", "{}: dist({a:?},{b:?}) = {g}, straight line {chord}", d.id());
                        c.step(&[g.m()]);
                    }
                    Err(_) => c.step(&[lo2, la2]),
                }
            }
        }
        Ok(())
    }));
    out.push(dfs("dimension", "every CRS kind x every coordinate count 0..5 for both arguments: a mismatch panics, a match answers", move |c| {
        let (n1, n2) = (c.choose(6), c.choose(6));
        let z = vec![0.5; 6];
        let mut all: Vec<Box<dyn Crs>> = vec![Box::new(GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ })];
        for l in 0..5 {
            all.push(Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(l, AU[1].0, M) }));
        }
        for axes in [ProjectedAxes::EastNorth { horiz_unit: M }, ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }] {
            all.push(Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes, projection: ProjectionSpec::UTMNorth { zone: 1 } }));
        }
        for crs in all {
            let ok = n1 == crs.dim() && n2 == crs.dim();
            let p = panics(|| {
                let _ = crs.dist(&z[..n1], &z[..n2]);
            });
            ensure!(p != ok, "dimension", "{crs:?}: dist with {n1} and {n2} coordinates panics={p}");
            let p = panics(|| {
                let _ = crs.approx_eq(&z[..n1], &z[..n2], &[0.0; 3]);
            });
            ensure!(p != ok, "dimension", "{crs:?}: approx_eq with {n1} and {n2} coordinates panics={p}");
            c.step(&[n1 as f64, n2 as f64, crs.dim() as f64]);
        }
        Ok(())
    }));
    out.push(history("histories", "distances of 5 pairs of positions in geographic systems over 12 datums with common parameters, 3 layouts and 2 units, and in geocentric and projected systems", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        let mut add = |crs: std::rc::Rc<dyn Crs>, i: usize| {
            let n = crs.dim();
            for (a, b) in [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)] {
                let crs = crs.clone();
                let p = move |k: usize| [KINP[k].0, KINP[k].1, KINP[k].2][..n].to_vec();
                v.push((format!("system {i}: {a} {b}"), Box::new(move || crs.dist(&p(a), &p(b)).map_or(vec![], |l| vec![l.m()]))));
            }
        };
        for (i, d) in kin_datums().into_iter().enumerate() {
            for (k, (l, u)) in [(0, AU[1].0), (2, AU[1].0), (3, AU[1].0), (2, AU[2].0)].into_iter().enumerate() {
                if i > 0 && k > 1 {
                    continue;
                }
                add(std::rc::Rc::new(GeographicCrs { id: "g".into(), datum: d.clone(), axes: gaxes(l, u, M) }), 10 * i + k);
            }
        }
        add(std::rc::Rc::new(GeocentricCrs { id: "g".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ }), 1000);
        for (k, (u, _)) in LU.iter().enumerate() {
            add(std::rc::Rc::new(ProjectedCrs { id: "g".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: *u }, projection: ProjectionSpec::UTMNorth { zone: 1 } }), 1001 + k);
            add(std::rc::Rc::new(ProjectedCrs { id: "g".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorthUp { horiz_unit: *u, height_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } }), 1011 + k);
        }
        v
    }));
    out
}

pub fn c19(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // exactly representable values, so that the limit itself is exact
    let base = [0.0, 1.0, -3.25, 180.0, -179.5, 500_000.0, -6_378_137.0, 0.0078125, 4_999_999.5, -90.0];
    let tols = [0.0, 0.125, 0.5, 4.0, f64::EPSILON * 4_294_967_296.0, 1024.0];
    let k = [-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.5];
    let kx = if thorough { vec![-4.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.5, 8.0] } else { k.to_vec() };
    out.push(dfs("crs", "every CRS kind, layout and unit x per-axis offsets below, at and above the tolerance (all combinations) x distinct tolerances per axis", move |c| {
        let o: Vec<f64> = (0..3).map(|_| c.val(&kx)).collect();
        let t0 = c.choose(tols.len());
        let tr = 1 + c.choose(2);
        let t = [tols[t0], tols[(t0 + tr) % tols.len()], tols[(t0 + 2 * tr) % tols.len()]];
        let b0 = c.choose(base.len());
        let br = c.choose(4);
        let a = [base[b0], base[(b0 + br) % base.len()], base[(b0 + 2 * br) % base.len()]];
        // offsets in units of the tolerance (or of 1/8 when it is zero)
        let off = |i: usize| if t[i] == 0.0 { o[i] / 8.0 } else { o[i] * t[i] };
        let b = [a[0] + off(0), a[1] + off(1), a[2] + off(2)];
        let mut all: Vec<Box<dyn Crs>> = vec![Box::new(GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ })];
        for l in 0..5 {
            for (k, (au, _)) in AU.iter().enumerate() {
                all.push(Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(l, *au, LU[(l + k) % 3].0) }));
            }
        }
        for (k, (u, _)) in LU.iter().enumerate() {
            for axes in [ProjectedAxes::EastNorth { horiz_unit: *u }, ProjectedAxes::EastNorthUp { horiz_unit: *u, height_unit: LU[(k + 1) % 3].0 }] {
                all.push(Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes, projection: ProjectionSpec::UTMNorth { zone: 1 } }));
            }
        }
        for crs in all {
            let n = crs.dim();
            let want = (0..n).all(|i| (a[i] - b[i]).abs() <= t[i]);
            let (g1, g2) = (crs.approx_eq(&a[..n], &b[..n], &t[..n]), crs.approx_eq(&b[..n], &a[..n], &t[..n]));
            ensure!(g1 == want && g2 == want, "crs-approx", "{crs:?}: approx_eq({a:?},{b:?},{t:?}) = {g1}/{g2}");
            c.step(&[o[0], o[1], o[2], t[0], n as f64]);
        }
        Ok(())
    }));
    let (d, n) = if thorough { (DEEPER, 401) } else { (DEEP, 199) };
    // multiples of 2^-10, so that sums and limits are exact
    let exact = |v: Vec<f64>| uniq(v.into_iter().map(|x| (x * 1024.0).round() / 1024.0).collect());
    let crss = || -> Vec<Box<dyn Crs>> {
        let mut all: Vec<Box<dyn Crs>> = vec![Box::new(GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ })];
        for l in 0..5 {
            all.push(Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(l, AU[l % AU.len()].0, LU[l % 3].0) }));
        }
        for (k, (u, _)) in LU.iter().enumerate().take(2) {
            for axes in [ProjectedAxes::EastNorth { horiz_unit: *u }, ProjectedAxes::EastNorthUp { horiz_unit: *u, height_unit: LU[(k + 1) % 3].0 }] {
                all.push(Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes, projection: ProjectionSpec::UTMNorth { zone: 1 } }));
            }
        }
        all
    };
    let nc = crss().len();
    let val = exact(uniq([joint_len(7, n / 2), grid(-400.0, 400.0, n / 2)].concat()));
    let tol = exact([vec![0.0], joint_log(-3.0, 3.0, n / 2)].concat());
    let off = vec![0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 0.0, -2.0, 1.0, 0.25, -1.0, 0.75, 64.0];
    let args = vec![("systems", (0..nc).map(|i| i as f64).collect()), ("first coordinates", val.clone()), ("second", val.clone()), ("third", val), ("first tolerances", tol.clone()), ("second", tol.clone()), ("third", tol), ("first offsets in tolerances", off.clone()), ("second", off.clone()), ("third", off)];
    thread_local!(static ALL: std::cell::RefCell<Vec<Box<dyn Crs>>> = const { std::cell::RefCell::new(Vec::new()) });
    out.push(tuples("tuples", "system, coordinates, tolerances and offsets below, at and above them", d, args, move |c, x| {
        let (a, t) = ([x[1], x[2], x[3]], [x[4], x[5], x[6]]);
        let step = |i: usize| if t[i] == 0.0 { x[7 + i] / 8.0 } else { x[7 + i] * t[i] };
        let b = [a[0] + step(0), a[1] + step(1), a[2] + step(2)];
        ALL.with(|all| {
            if all.borrow().is_empty() {
                *all.borrow_mut() = crss();
            }
            let all = all.borrow();
            let crs = &all[x[0] as usize];
            let n = crs.dim();
            let want = (0..n).all(|i| (a[i] - b[i]).abs() <= t[i]);
            let (g1, g2) = (crs.approx_eq(&a[..n], &b[..n], &t[..n]), crs.approx_eq(&b[..n], &a[..n], &t[..n]));
            ensure!(g1 == want && g2 == want, "crs-approx", "{crs:?}: approx_eq({a:?},{b:?},{t:?}) = {g1}/{g2}");
            c.step(&[a[0], b[0], a[1], b[1], a[2], b[2], t[0], n as f64]);
            Ok(())
        })
    }));
    let f: [f64; 8] = [-3.0, -1.01, -0.99, 0.0, 0.5, 0.99, 1.01, 30.0];
    out.push(dfs("normalized", "LLH, XYZ, ENH approximate equality: every combination of per-component offsets around the tolerance x presets and custom tolerances x positions, the antimeridian included", move |c| {
        let (f1, f2, f3) = (c.val(&f), c.val(&f), c.val(&f));
        let ok = |x: f64| x.abs() <= 1.0;
        let (lo, la): (f64, f64) = c.val(&[(0.5, 0.3), (PI, -0.7), (-PI + 1e-13, 0.0), (3.14159265358, 1.2), (-1.0, -1.2), (0.25, FR), (0.25, -FR), (-2.0, FR - 1e-4), (0.0, 0.0)]);
        // three different component tolerances
        for (tl, tp, th) in [(1e-9, 2e-9, 1e-3), (1e-6, 1e-8, 0.5), (3e-7, 1e-5, 10.0)] {
            let a = llh(lo, la, 100.0);
            // a latitude stays within its range
            let s2 = if la.abs() == FR { -f2.abs() * la.signum() } else { f2 };
            let b = llh(lo + f1 * tl, la + s2 * tp, 100.0 + f3 * th);
            if la.abs() > 0.1 {
                // the other hemisphere is elsewhere
                let m = llh(lo, -la, 100.0);
                ensure!(!a.approx_eq(&m, GeodeticTolerance { lon: ang(tl), lat: ang(tp), height: th * M }), "llh-approx", "{a} ~ {m}");
            }
            let t = GeodeticTolerance { lon: ang(tl), lat: ang(tp), height: th * M };
            let want = ok(f1) && ok(f2) && ok(f3);
            ensure!(a.approx_eq(&b, t) == want && b.approx_eq(&a, t) == want, "llh-approx", "{a} ~ {b} within {t:?} is {}", a.approx_eq(&b, t));
            let a = xyz([1e6 * lo, 2e6 * la, -3e5]);
            let w = arr(a);
            let b = xyz([w[0] + f1 * th, w[1] + f2 * th, w[2] + f3 * th]);
            let t = CartesianTolerance { all: th * M };
            ensure!(a.approx_eq(b, t) == want && b.approx_eq(a, t) == want, "xyz-approx", "{a} ~ {b} within {t:?} is {}", a.approx_eq(b, t));
            let a = enh(5e5 * lo, 1e6 * la, 12.0);
            let b = enh(a.easting.m() + f1 * th, a.northing.m() + f2 * th, 12.0 + f3 * tl * 1e6);
            let t = ProjectedTolerance { horiz: th * M, height: tl * 1e6 * M };
            ensure!(a.approx_eq(b, t) == want && b.approx_eq(a, t) == want, "enh-approx", "{a} ~ {b} within {t:?} is {}", a.approx_eq(b, t));
            c.step(&[f1, f2, f3, tl, lo]);
        }
        Ok(())
    }));
    out.push(dfs("mirrored", "LLH, XYZ, ENH, every CRS kind: components swapped, with the opposite sign, or both, with or without a further offset below or above the tolerance, all combinations", move |c| {
        let v: [f64; 3] = [c.val(&[2.0, -1.25, 0.5]), c.val(&[0.5, -0.25]), c.val(&[30.0, -7.0, 0.5])];
        let mut w = v;
        match c.choose(4) {
            1 => w.swap(0, 1),
            2 => w.swap(1, 2),
            3 => w.swap(0, 2),
            _ => {}
        }
        for x in w.iter_mut() {
            if c.flag() {
                *x = -*x;
            }
        }
        let (w0, nudge) = (w, [c.val(&[0.0, 0.5, -2.0]), c.val(&[0.0, 0.5, -2.0]), c.val(&[0.0, 0.5, -2.0])]);
        for t in [0.0, 1e-6, 0.125] {
            for i in 0..3 {
                w[i] = w0[i] + nudge[i] * t;
            }
            let d = |i: usize| (v[i] - w[i]).abs() <= t;
            let want = d(0) && d(1) && d(2);
            let (a, b) = (xyz(v), xyz(w));
            let tol = CartesianTolerance { all: t * M };
            ensure!(a.approx_eq(b, tol) == want && b.approx_eq(a, tol) == want, "xyz-approx", "{a} ~ {b} within {t}");
            let (a, b) = (enh(v[0], v[1], v[2]), enh(w[0], w[1], w[2]));
            let tol = ProjectedTolerance { horiz: t * M, height: t * M };
            ensure!(a.approx_eq(b, tol) == want && b.approx_eq(a, tol) == want, "enh-approx", "{a} ~ {b} within {t}");
            if w[0].abs() < 3.0 && w[1].abs() < 1.5 {
                let (a, b) = (llh(v[0], v[1], v[2]), llh(w[0], w[1], w[2]));
                let tol = GeodeticTolerance { lon: ang(t), lat: ang(t), height: t * M };
                ensure!(a.approx_eq(&b, tol) == want && b.approx_eq(&a, tol) == want, "llh-approx", "{a} ~ {b} within {t}");
            }
            let tt = [t; 3];
            let mut all: Vec<Box<dyn Crs>> = vec![Box::new(GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ })];
            for l in 0..5 {
                all.push(Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(l, AU[l % 4].0, LU[l % 3].0) }));
            }
            for axes in [ProjectedAxes::EastNorth { horiz_unit: M }, ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: LU[1].0 }] {
                all.push(Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes, projection: ProjectionSpec::UTMNorth { zone: 1 } }));
            }
            for crs in all {
                let n = crs.dim();
                let want = (0..n).all(d);
                ensure!(crs.approx_eq(&v[..n], &w[..n], &tt[..n]) == want, "crs-approx", "{crs:?}: approx_eq({v:?},{w:?},{t})");
            }
            c.step(&[v[0], v[1], v[2], w[0], w[1], w[2], t]);
        }
        Ok(())
    }));
    let vals = uniq([grid(-180.0, 180.0, if thorough { 288 } else { 96 }), vec![1e-9, -1e-9, 1e-6, 0.001, -0.3, 17.123, -94.56, 179.99999, -179.99999, 89.9999, -89.9999]].concat());
    let lens = uniq([mags(-6, 8), vec![100.0, 100.5, 6_378_137.0, -6_378_136.5]].concat());
    let (nv, nl) = (vals.len(), lens.len());
    out.push(dfs("scalar-pairs", format!("all pairs of {nv} angles as Angle, Lon, Azimuth, Lat and of {nl} lengths x 10 tolerances from 0 to more than a turn"), move |c| {
        let a = c.val(&vals);
        for &b in &vals {
            for t in [0.0, 1e-12, 3e-9, 1e-6, 0.01, 0.3, 1.0, 2.5, 3.5, 7.0] {
                let (x, y, e) = (ang(a * RAD), ang(b * RAD), ang(t));
                let both = |d: f64, tag: &'static str, got: (bool, bool)| -> R {
                    // nothing is said within rounding of the limit
                    if d == 0.0 || (d - t).abs() > 2e-15 {
                        ensure!(got == (d <= t, d <= t), tag, "{a} ~ {b} degrees within {t} rad: {got:?}");
                    }
                    Ok(())
                };
                let plain = (a * RAD - b * RAD).abs();
                let round = if a == b { 0.0 } else { adiff(a * RAD, b * RAD).abs() };
                both(plain, "angle-approx", (x.abs_diff_eq(&y, e), y.abs_diff_eq(&x, e)))?;
                let (p, q) = (Lon::new(x), Lon::new(y));
                both(round, "lon-approx", (p.abs_diff_eq(&q, e), q.abs_diff_eq(&p, e)))?;
                let (p, q) = (Azimuth::new(x), Azimuth::new(y));
                both(round, "azimuth-approx", (p.abs_diff_eq(&q, e), q.abs_diff_eq(&p, e)))?;
                if a.abs() <= 90.0 && b.abs() <= 90.0 {
                    let (p, q) = (Lat::new(x), Lat::new(y));
                    both(plain, "lat-approx", (p.abs_diff_eq(&q, e), q.abs_diff_eq(&p, e)))?;
                }
                c.step(&[a, b, t]);
            }
        }
        Ok(())
    }));
    out.push(dfs("length-pairs", format!("all pairs of {nl} lengths x 10 tolerances"), move |c| {
        let a = c.val(&lens);
        for &b in &lens {
            for t in [0.0, 1e-12, 1e-4, 1e-3, 0.5, 1.0, 250.0, 1e5, 1e7, 1e9] {
                let (p, q) = (a * M, b * M);
                let want = (a - b).abs() <= t;
                ensure!(p.abs_diff_eq(&q, t * M) == want && q.abs_diff_eq(&p, t * M) == want, "length-approx", "{p} ~ {q} +- {t}");
                c.step(&[a, b, t]);
            }
        }
        Ok(())
    }));
    let g: [f64; 8] = [0.0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 7.0];
    out.push(dfs("scalars", "Angle, Lon (across the antimeridian), Lat, Azimuth (across south), Length: offsets around custom and default tolerances", move |c| {
        let x = c.val(&g);
        let want = x.abs() <= 1.0;
        let b = c.val(&[0.0, 1.0, -1.3, PI, -PI, 3.1415926535, FR, -FR + 1e-7, 2.0]);
        for t in [1e-12, 1e-9, 1e-7, 1e-3] {
            let e = ang(t);
            if t * 0.005 < 2e-15 * (1.0 + b.abs()) {
                continue;
            }
            let (p, q) = (ang(b), ang(b + x * t));
            ensure!(p.abs_diff_eq(&q, e) == want && q.abs_diff_eq(&p, e) == want, "angle-approx", "{p} ~ {q} +- {e}");
            let (p, q) = (Lon::new(ang(b)), Lon::new(ang(b + x * t)));
            ensure!(p.abs_diff_eq(&q, e) == want && q.abs_diff_eq(&p, e) == want, "lon-approx", "longitudes {p} ~ {q} +- {e}");
            let (p, q) = (Azimuth::new(ang(b)), Azimuth::new(ang(b + x * t)));
            ensure!(p.abs_diff_eq(&q, e) == want && q.abs_diff_eq(&p, e) == want, "azimuth-approx", "azimuths {p} ~ {q} +- {e}");
            let lb = b / 4.0;
            let (p, q) = (Lat::new(ang(lb)), Lat::new(ang(lb + x * t)));
            ensure!(p.abs_diff_eq(&q, e) == want && q.abs_diff_eq(&p, e) == want, "lat-approx", "latitudes {p} ~ {q} +- {e}");
            let (p, q) = ((b * 1e-2) * M, (b * 1e-2 + x * t) * M);
            ensure!(p.abs_diff_eq(&q, t * M) == want && q.abs_diff_eq(&p, t * M) == want, "length-approx", "{p} ~ {q} +- {t}");
            c.step(&[x, b, t]);
        }
        // exact limits: the tolerance itself is included, equal values are within zero
        for (p, q, e) in [(0.5, 0.75, 0.25), (1.0, 1.5, 0.5), (-0.25, 0.25, 0.5), (-1.0, -1.125, 0.125), (0.3, 0.3, 0.0), (-1.5, -1.5, 0.0), (0.0, -0.0, 0.0)] {
            let (a, b, t) = (ang(p), ang(q), ang(e));
            let z = Lon::new(a).abs_diff_eq(&Lon::new(b), t) && Lon::new(b).abs_diff_eq(&Lon::new(a), t);
            ensure!(z, "inclusive", "longitudes {p} ~ {q} within {e}");
            let z = Lat::new(a).abs_diff_eq(&Lat::new(b), t) && Lat::new(b).abs_diff_eq(&Lat::new(a), t);
            ensure!(z, "inclusive", "latitudes {p} ~ {q} within {e}");
            let z = Azimuth::new(a).abs_diff_eq(&Azimuth::new(b), t) && Azimuth::new(b).abs_diff_eq(&Azimuth::new(a), t);
            ensure!(z, "inclusive", "azimuths {p} ~ {q} within {e}");
            ensure!(a.abs_diff_eq(&b, t) && b.abs_diff_eq(&a, t), "inclusive", "angles {p} ~ {q} within {e}");
            let (a, b, t) = (p * M, q * M, e * M);
            ensure!(a.abs_diff_eq(&b, t) && b.abs_diff_eq(&a, t), "inclusive", "lengths {p} ~ {q} within {e}");
        }
        // neighbouring numbers differ
        for (v, k) in [0.5, -0.25, 1.0, -1.5, 1e-9, -1e-300, 0.0].into_iter().flat_map(|v| [1i64, 2, 3, 4, 5, 6, 8, 12, 16, -1, -2, -3, -4, -5, -7, -16].map(|k| (v, k))) {
            let w = ulp(v, k);
            let (a, b, t) = (ang(v), ang(w), ang(0.0));
            ensure!(!a.abs_diff_eq(&b, t) && !b.abs_diff_eq(&a, t), "zero-tolerance", "angles {v:?} ~ {w:?} within 0");
            ensure!(!(v * M).abs_diff_eq(&(w * M), 0.0 * M), "zero-tolerance", "lengths {v:?} ~ {w:?} within 0");
            ensure!(!Lat::new(a).abs_diff_eq(&Lat::new(b), t), "zero-tolerance", "latitudes {v:?} ~ {w:?} within 0");
            ensure!(!Lon::new(a).abs_diff_eq(&Lon::new(b), t), "zero-tolerance", "longitudes {v:?} ~ {w:?} within 0");
            ensure!(!Azimuth::new(a).abs_diff_eq(&Azimuth::new(b), t), "zero-tolerance", "azimuths {v:?} ~ {w:?} within 0");
        }
        ensure!((1.5 * M).abs_diff_eq(&(2.0 * M), 0.5 * M) && ang(1.5).abs_diff_eq(&ang(2.0), ang(0.5)), "inclusive", "the tolerance itself is included");
        let de = [Angle::default_epsilon().rad(), <Angle as AbsDiffEq>::default_epsilon().rad(), Lon::default_epsilon().rad(), Lat::default_epsilon().rad(), Azimuth::default_epsilon().rad(), GeodeticTolerance::tiny().lon.rad(), GeodeticTolerance::tiny().lat.rad(), GeodeticTolerance::default().lon.rad(), GeodeticTolerance::default().lat.rad(), Angle::TINY.rad()];
        for v in de {
            close!("tiny-angle", v, 1e-12, 1e-20, "tiny angle");
        }
        for v in [GeodeticTolerance::small().lon.rad(), GeodeticTolerance::small().lat.rad(), Angle::SMALL.rad()] {
            close!("small-angle", v, 1e-9, 1e-17, "small angle");
        }
        for v in [Length::default_epsilon().m(), <Length as AbsDiffEq>::default_epsilon().m(), Length::TINY.m(), GeodeticTolerance::tiny().height.m(), GeodeticTolerance::default().height.m(), CartesianTolerance::tiny().all.m(), CartesianTolerance::default().all.m(), ProjectedTolerance::tiny().horiz.m(), ProjectedTolerance::tiny().height.m()] {
            close!("tiny-length", v, 1e-4, 1e-12, "tiny length");
        }
        for v in [Length::SMALL.m(), GeodeticTolerance::small().height.m(), CartesianTolerance::small().all.m(), ProjectedTolerance::small().horiz.m(), ProjectedTolerance::small().height.m()] {
            close!("small-length", v, 1e-3, 1e-11, "small length");
        }
        Ok(())
    }));
    let h: [f64; 3] = [0.0, 0.9, -3.0];
    out.push(dfs("helpers", "the printing comparison helpers and the geodesic checkers: all 27 combinations of component offsets", move |c| {
        let (f1, f2, f3) = (c.val(&h), c.val(&h), c.val(&h));
        let want = f1.abs() <= 1.0 && f2.abs() <= 1.0 && f3.abs() <= 1.0;
        let (a, b) = (llh(1.0, 0.5, 10.0), llh(1.0 + f1 * 1e-9, 0.5 + f2 * 1e-9, 10.0 + f3 * 1e-3));
        ensure!(approx_eq_llh(a, b, GeodeticTolerance::small()) == want, "approx_eq_llh", "approx_eq_llh({a},{b})");
        for (t1, t2, t3) in [(1e-9, 1e-6, 1e-3), (1e-6, 1e-9, 1.0), (1e-3, 1e-2, 1e-9), (1e-2, 1e-3, 1e-6)] {
            let (a, b) = (llh(1.0, 0.5, 10.0), llh(1.0 + f1 * t1, 0.5 + f2 * t2, 10.0 + f3 * t3));
            let t = GeodeticTolerance { lon: ang(t1), lat: ang(t2), height: t3 * M };
            ensure!(approx_eq_llh(a, b, t) == want, "approx_eq_llh", "approx_eq_llh({a},{b}) with tolerances {t1} {t2} {t3}");
        }
        for t in [1e-9, 1.0, 1e3] {
            let (a, b) = (xyz([1.0, 2.0, 3.0]), xyz([1.0 + f1 * t, 2.0 + f2 * t, 3.0 + f3 * t]));
            ensure!(approx_eq_xyz(a, b, CartesianTolerance { all: t * M }) == want, "approx_eq_xyz", "approx_eq_xyz({a},{b}) within {t}");
        }
        let (a, b) = (xyz([1.0, 2.0, 3.0]), xyz([1.0 + f1 * 1e-3, 2.0 + f2 * 1e-3, 3.0 + f3 * 1e-3]));
        ensure!(approx_eq_xyz(a, b, CartesianTolerance::small()) == want, "approx_eq_xyz", "approx_eq_xyz({a},{b})");
        let g = Geodesic { p1: (Lon::ZERO, Lat::ZERO), alpha1: Azimuth::rad(0.3), p2: (Lon::new(ang(0.2)), Lat::new(ang(0.3))), alpha2: Azimuth::rad(0.4), s: 1000.0 * M };
        let o = Geodesic { p2: (Lon::new(ang(0.2 + f1 * 1e-12)), Lat::new(ang(0.3 + f2 * 1e-12))), alpha2: Azimuth::rad(0.4 + f3 * 1e-12), ..g };
        ensure!(panics(|| check_direct(&o, &g, &DirectErrors::default())) != want, "check_direct", "check_direct with offsets {f1} {f2} {f3}");
        let o = Geodesic { alpha1: Azimuth::rad(0.3 + f1 * 1e-12), alpha2: Azimuth::rad(0.4 + f2 * 1e-12), s: (1000.0 + f3 * 1e-4) * M, ..g };
        ensure!(panics(|| check_inverse(&o, &g, &InverseErrors::default())) != want, "check_inverse", "check_inverse with offsets {f1} {f2} {f3}");
        c.step(&[f1, f2, f3]);
        Ok(())
    }));
    let _: LengthUnit = M;
    out
}
const FR: f64 = std::f64::consts::FRAC_PI_2;
