//! C15 datum shifts: geocentric translation and 7-parameter Helmert transformation.
use crate::dom::*;
use crate::engine::*;
use crate::{close, ensure};
use geokit::crs::geocentric::GeocentricCrs;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::geodesy::geodetic_datum::consts as dc;
use geokit::quantities::{angle::Angle, length::Length, scale::PPM};
use geokit::transformations::xyz::{verif, CrsXYZTransformation, RotationConvention, XYZTransformation};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::PI;

type V = [f64; 3];

fn xyz(v: V) -> XYZ {
    XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M }
}
fn arr(p: XYZ) -> V {
    [p.x.m(), p.y.m(), p.z.m()]
}
fn norm(v: V) -> f64 {
    v[0].hypot(v[1]).hypot(v[2])
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// The reference model: position vector rotation by the small vector `r` is `x + r ^ x`,
/// the coordinate frame convention is the opposite rotation.
fn shift(conv: RotationConvention, r: V, t: V, ppm: f64, x: V) -> V {
    let sg = if conv == RotationConvention::PositionVector { 1.0 } else { -1.0 };
    let w = cross(r, x);
    let k = 1.0 + ppm * 1e-6;
    std::array::from_fn(|i| k * (x[i] + sg * w[i]) + t[i])
}

struct W(Box<dyn XYZTransformation>);
impl XYZTransformation for W {
    fn to_ref(&self, src: XYZ) -> XYZ {
        self.0.to_ref(src)
    }
    fn from_ref(&self, dst: XYZ) -> XYZ {
        self.0.from_ref(dst)
    }
}

fn points() -> Vec<V> {
    let v = [0.0, 3_657_660.66, -6_378_137.0, 255.5];
    let mut out = vec![];
    for x in v {
        for y in v {
            for z in v {
                out.push([x, y, z]);
            }
        }
    }
    out
}

/// Both directions of a Helmert transformation at one position.
fn chk_helmert(c: &mut Ctx, h: &dyn XYZTransformation, conv: RotationConvention, r: V, t: V, p: f64, x: V) -> R {
    let f = arr(h.to_ref(xyz(x)));
    let w = shift(conv, r, t, p, x);
    // back: exact inverse up to second order terms in the parameters
    let q = norm(r) + p.abs() * 1e-6;
    let second = 3.0 * q * (q * norm(x) + norm(t));
    let back = arr(h.from_ref(xyz(f)));
    let fore = arr(h.to_ref(h.from_ref(xyz(x))));
    for i in 0..3 {
        let tol = 4e-15 * (norm(x) + norm(t));
        close!("helmert", f[i], w[i], tol, "{conv:?} r={r:?} t={t:?} ppm={p}: {x:?}, component {i}");
        close!("helmert-back", back[i], x[i], second + tol, "{conv:?} r={r:?} t={t:?} ppm={p}: {x:?} forth and back, component {i}");
        close!("helmert-fore", fore[i], x[i], second + tol, "{conv:?} r={r:?} t={t:?} ppm={p}: {x:?} back and forth, component {i}");
    }
    c.step(&f);
    Ok(())
}

/// Both directions of a translation at one position.
fn chk_translation(c: &mut Ctx, tr: &dyn XYZTransformation, t: V, x: V) -> R {
    let (f, b) = (arr(tr.to_ref(xyz(x))), arr(tr.from_ref(xyz(x))));
    let rt = arr(tr.from_ref(tr.to_ref(xyz(x))));
    for i in 0..3 {
        let tol = 1e-15 * (x[i].abs() + t[i].abs());
        close!("translation", f[i], x[i] + t[i], tol, "translation {t:?} of {x:?}, component {i}");
        close!("translation-inverse", b[i], x[i] - t[i], tol, "inverse translation {t:?} of {x:?}, component {i}");
        close!("translation-round-trip", rt[i], x[i], tol, "translation {t:?} of {x:?} and back, component {i}");
    }
    c.step(&f);
    Ok(())
}

const AU: [(AngleUnit, f64); 4] = [(RAD, 1.0), (SEC, PI / 648_000.0), (DEG, PI / 180.0), (GRAD, PI / 200.0)];
const LU: [(LengthUnit, f64); 3] = [(M, 1.0), (FT, 0.3048), (US_FT, 1200.0 / 3937.0)];
const CONV: [RotationConvention; 2] = [RotationConvention::PositionVector, RotationConvention::CoordinateFrame];

pub fn c15(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let ts: Vec<f64> = if thorough { vec![0.0, 84.87, -1000.0, 1e-3, 4.5, 6.4e6, -0.333] } else { vec![0.0, 84.87, -1000.0, 1e-3, 4.5] };
    let n = ts.len();
    let t1 = ts.clone();
    out.push(dfs("translation", format!("{n}^3 translations x 3 length units x 64 points"), move |c| {
        let t: V = [c.val(&t1), c.val(&t1), c.val(&t1)];
        let (u, per) = c.val(&LU);
        let tr = verif::translation(t.map(|v| v / per * u));
        for x in points() {
            chk_translation(c, &*tr, t, x)?;
        }
        Ok(())
    }));
    // every component alone and combined
    let rs: Vec<f64> = if thorough { vec![0.0, 2.685868e-6, -4.8e-5, 1e-4, 3e-8] } else { vec![0.0, 2.685868e-6, -4.8e-5] };
    let th: Vec<f64> = if thorough { vec![0.0, 84.87, -1000.0, 4.5] } else { vec![0.0, 84.87, -1000.0] };
    let ps: Vec<f64> = if thorough { vec![0.0, 0.219, -21.0, 5.1, 100.0] } else { vec![0.0, 0.219, -21.0, 100.0] };
    let b = format!("2 rotation conventions x {}^3 rotations x {}^3 translations x {} scales x 64 points", rs.len(), th.len(), ps.len());
    out.push(dfs("helmert", b, move |c| {
        let conv = c.val(&CONV);
        let r: V = [c.val(&rs), c.val(&rs), c.val(&rs)];
        let t: V = [c.val(&th), c.val(&th), c.val(&th)];
        let p = c.val(&ps);
        let h = verif::helmert(conv, r.map(|v| v * RAD), t.map(|v| v * M), PPM(p));
        for x in points() {
            chk_helmert(c, &*h, conv, r, t, p, x)?;
        }
        Ok(())
    }));
    let (d, n) = if thorough { (DEEPER, 401) } else { (DEEP, 199) };
    let args = vec![("conventions", vec![0.0, 1.0]), ("rotations about x", joint_len(5, n)), ("rotations about y", joint_len(5, n)), ("rotations about z", joint_len(5, n)), ("translations along x", joint_len(7, n)), ("translations along y", joint_len(7, n)), ("translations along z", joint_len(7, n)), ("scale differences", joint_len(3, n)), ("x", joint_len(8, n)), ("y", joint_len(8, n)), ("z", joint_len(8, n))];
    out.push(tuples("tuples", "all parameters (rotations in nanoradians) and coordinates, both directions; the translation alone likewise", d, args, |c, v| {
        let conv = CONV[v[0] as usize];
        let (r, t, x): (V, V, V) = ([v[1] * 1e-9, v[2] * 1e-9, v[3] * 1e-9], [v[4], v[5], v[6]], [v[8], v[9], v[10]]);
        let h = verif::helmert(conv, r.map(|v| v * RAD), t.map(|v| v * M), PPM(v[7]));
        chk_helmert(c, &*h, conv, r, t, v[7], x)?;
        chk_translation(c, &*verif::translation(t.map(|v| v * M)), t, x)
    }));
    let k = if thorough { 4 } else { 1 };
    let log = |lo: i32, hi: i32, n: usize| -> Vec<f64> { (lo * n as i32..=hi * n as i32).flat_map(|i| { let v = 10f64.powf(i as f64 / n as f64); [v, -v] }).chain([0.0]).collect() };
    let (sr, st, sp, sx) = (log(-12, -3, 12 * k), log(-6, 7, 12 * k), log(-6, 4, 12 * k), log(-3, 8, 12 * k));
    let bounds = format!("2 rotation conventions, one argument at a time from 2 sets of parameters and 5 positions: {} rotations about, {} translations along, {} coordinates on each axis, {} scale differences; the translation alone likewise", sr.len(), st.len(), sx.len(), sp.len());
    out.push(dfs("sweeps", bounds, move |c| {
        let conv = c.val(&CONV);
        let (mut r, mut t, mut p) = c.val(&[([0.0; 3], [0.0; 3], 0.0), ([2.7e-6, -1.1e-5, 4e-6], [84.87, -96.49, 116.95], -3.5)]);
        let mut x = c.val(&[[3_657_660.66, 255_768.55, 5_201_382.11], [0.0, -4e6, 4e6], [-6_378_137.0, 1.0, -2.0], [250.0, -30.5, 0.0], [4.2e7, -3e7, 1e6]]);
        let dim = c.choose(10);
        for &v in [&sr, &st, &sx, &sp][dim / 3] {
            match dim / 3 {
                0 => r[dim % 3] = v,
                1 => t[dim % 3] = v,
                2 => x[dim % 3] = v,
                _ => p = v,
            }
            let h = verif::helmert(conv, r.map(|v| v * RAD), t.map(|v| v * M), PPM(p));
            chk_helmert(c, &*h, conv, r, t, p, x)?;
            if dim / 3 == 1 || dim / 3 == 2 {
                chk_translation(c, &*verif::translation(t.map(|v| v * M)), t, x)?;
            }
        }
        Ok(())
    }));
    out.push(dfs("units", "2 conventions x 4 angle units x 3 length units x 27 rotations x 27 translations: the same shift whatever the units; opposite conventions undo each other", move |c| {
        let conv = c.val(&CONV);
        let (au, pa) = c.val(&AU);
        let (lu, pl) = c.val(&LU);
        let rv = [0.0, 2.7e-6, -4.8e-5];
        let tv = [0.0, 12.5, -730.0];
        let r: V = [c.val(&rv), c.val(&rv), c.val(&rv)];
        let t: V = [c.val(&tv), c.val(&tv), c.val(&tv)];
        let ru: [Angle; 3] = r.map(|v| v / pa * au);
        let tu: [Length; 3] = t.map(|v| v / pl * lu);
        let h = verif::helmert(conv, ru, tu, PPM(1.5));
        let o = verif::helmert(if conv == CONV[0] { CONV[1] } else { CONV[0] }, ru.map(|a| -a), tu, PPM(1.5));
        for x in [[3_657_660.66, 255_768.55, 5_201_382.11], [-6_378_137.0, 1.0, -2.0], [10.0, -4e6, 4e6]] {
            let w = shift(conv, r, t, 1.5, x);
            let (f, g) = (arr(h.to_ref(xyz(x))), arr(o.to_ref(xyz(x))));
            for i in 0..3 {
                let tol = 4e-15 * norm(x);
                close!("helmert-units", f[i], w[i], tol, "{conv:?} r={r:?} rad in {au:?} t={t:?} m in {lu:?}: {x:?}, component {i}");
                close!("helmert-conventions", g[i], w[i], tol, "opposite convention and angles, r={r:?} t={t:?}: {x:?}, component {i}");
            }
            c.step(&f);
        }
        Ok(())
    }));
    // in a transformation between two systems
    out.push(dfs("between-systems", "source and destination shift among identity-like, translation, both Helmert conventions (6 x 6), 64 points, both directions", move |c| {
        let mk = |k: usize| -> (W, Box<dyn Fn(V) -> V>, f64) {
            let (r, t, p) = ([2.7e-6, -1.1e-5, 4e-6], [84.87, -96.49, 116.95], -3.5);
            match k {
                0 => (W(verif::translation([0.0 * M; 3])), Box::new(|x| x), 0.0),
                1 => (W(verif::translation(t.map(|v| v * M))), Box::new(move |x| [x[0] + t[0], x[1] + t[1], x[2] + t[2]]), 0.0),
                2 | 3 => (W(verif::helmert(CONV[k - 2], r.map(|v| v * RAD), t.map(|v| v * M), PPM(p))), Box::new(move |x| shift(CONV[k - 2], r, t, p, x)), 2e-5),
                4 => (W(verif::helmert(CONV[0], [0.0 * RAD, 0.0 * RAD, 0.0 * RAD], [0.0 * M; 3], PPM(12.0))), Box::new(move |x| shift(CONV[0], [0.0; 3], [0.0; 3], 12.0, x)), 1.3e-5),
                _ => (W(verif::helmert(CONV[1], [0.0 * RAD, 3e-5 * RAD, 0.0 * RAD], [0.0 * M; 3], PPM(0.0))), Box::new(move |x| shift(CONV[1], [0.0, 3e-5, 0.0], [0.0; 3], 0.0, x)), 3.1e-5),
            }
        };
        let (ka, kb) = (c.choose(6), c.choose(6));
        let ((a, ma, qa), (b, mb, qb)) = (mk(ka), mk(kb));
        let s = GeocentricCrs { id: "s".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ };
        let tr = CrsXYZTransformation::new(s.clone(), s, a, b);
        for x in points() {
            let mut y = [f64::NAN; 3];
            ensure!(tr.fwd(&x, &mut y).is_ok(), "between", "fwd fails at {x:?}");
            // the destination, shifted to the reference, is the source shifted to the reference
            let (u, v) = (mb(y), ma(x));
            let tol = 3.0 * qb * (qb * (norm(x) + 500.0) + 250.0) + 1e-14 * (norm(x) + 500.0);
            for i in 0..3 {
                close!("between-fwd", u[i], v[i], tol, "shifts {ka}->{kb}: {x:?} -> {y:?}, component {i} in the reference");
            }
            let mut z = [f64::NAN; 3];
            ensure!(tr.bwd(&x, &mut z).is_ok(), "between", "bwd fails at {x:?}");
            let (u, v) = (ma(z), mb(x));
            let tol = 3.0 * qa * (qa * (norm(x) + 500.0) + 250.0) + 1e-14 * (norm(x) + 500.0);
            for i in 0..3 {
                close!("between-bwd", u[i], v[i], tol, "shifts {ka}->{kb}: {x:?} <- {z:?}, component {i} in the reference");
            }
            c.step(&y);
        }
        Ok(())
    }));
    out.push(history("histories", "both directions of 10 translations and Helmert transformations with common parameters on 3 positions", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        let (r, t) = ([2.7e-6, -1.1e-5, 4e-6], [84.87, -96.49, 116.95]);
        let h = |c: usize, r: V, t: V, p: f64| verif::helmert(CONV[c], r.map(|v| v * RAD), t.map(|v| v * M), PPM(p));
        let all: Vec<Box<dyn XYZTransformation>> = vec![
            verif::translation(t.map(|v| v * M)),
            verif::translation([t[0] * M, t[1] * M, 0.0 * M]),
            h(0, r, t, -3.5),
            h(1, r, t, -3.5),
            h(0, [r[0], r[1], 0.0], t, -3.5),
            h(0, [0.0, r[1], r[2]], t, -3.5),
            h(0, r, [t[0], 0.0, t[2]], -3.5),
            h(0, r, t, 3.5),
            h(0, [0.0; 3], t, -3.5),
            h(0, r, [0.0; 3], -3.5),
        ];
        for (i, x) in all.into_iter().enumerate() {
            let x: std::rc::Rc<dyn XYZTransformation> = x.into();
            for p in [[3_657_660.66, 255_768.55, 5_201_382.11], [3_657_660.66, 255_768.55, -5_201_382.11], [0.0, -4e6, 4e6]] {
                let (a, b) = (x.clone(), x.clone());
                v.push((format!("#{i} to {p:?}"), Box::new(move || arr(a.to_ref(xyz(p))).to_vec())));
                v.push((format!("#{i} from {p:?}"), Box::new(move || arr(b.from_ref(xyz(p))).to_vec())));
            }
        }
        v
    }));
    out
}
