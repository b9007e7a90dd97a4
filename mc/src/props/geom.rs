//! C20 line strings, C21 curves and points.
use super::earth::{ell, gaxes, AU};
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs, Crs};
use geokit::cs::cartesian::geocentric::GeocentricAxes;
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::geodesy::geodetic_datum::consts as dc;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::projections::ProjectionSpec;
use geokit::units::length::{FT, M};
use std::any::Any;

/// A CRS with a few positions in it: far apart, or nearly equal (`near`).
fn crss(near: bool) -> Vec<(&'static str, Box<dyn Crs>, Vec<Vec<f64>>)> {
    let p2n = vec![vec![5.0, 7.0], vec![5.0, 7.000000001], vec![5.0, -7.0], vec![5.0000000001, 7.0]];
    let p3n = vec![vec![1.0, 2.0, 3.0], vec![1.0, 2.0, 3.5], vec![1.0, 2.0, 3.0000000001], vec![-1.0, 2.0, 3.0]];
    let lln = vec![vec![180.0, 10.0], vec![-180.0, 10.0], vec![180.0, 10.000000001], vec![179.5, 10.0]];
    let llhn = vec![vec![20.0, 30.0, 100.0], vec![20.0, 30.0, 100.000001], vec![20.0, 30.0, -100.0], vec![20.000000001, 30.0, 100.0]];
    let p2 = vec![vec![0.0, 0.0], vec![3.0, 4.0], vec![3.0, -1.0], vec![-100.25, 1e5]];
    let p3 = vec![vec![0.0, 0.0, 0.0], vec![1.0, 2.0, 2.0], vec![-1.0, 2.0, 5.0], vec![6e6, -2e6, 1e5]];
    let ll = vec![vec![0.0, 0.0], vec![10.0, 0.0], vec![10.0, 45.0], vec![-100.0, -20.0]];
    let llh = vec![vec![0.0, 0.0, 0.0], vec![10.0, 0.0, 100.0], vec![10.0, 45.0, -5.0], vec![-100.0, -20.0, 2e4]];
    let (p2, p3, ll, llh) = if near { (p2n, p3n, lln, llhn) } else { (p2, p3, ll, llh) };
    vec![
        ("projected 2D", Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 1 } }), p2.clone()),
        ("projected 2D ft", Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: FT }, projection: ProjectionSpec::UTMNorth { zone: 1 } }), p2),
        ("projected 3D", Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: FT }, projection: ProjectionSpec::UTMNorth { zone: 1 } }), p3.clone()),
        ("geocentric", Box::new(GeocentricCrs { id: "x".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ }), p3),
        ("geographic 2D", Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(2, AU[1].0, M) }), ll),
        ("geographic 3D", Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(0, AU[1].0, M) }), llh),
    ]
}

/// Model distance, independent of the CRS where it has a closed form.
fn mdist(kind: &str, crs: &dyn Crs, a: &[f64], b: &[f64]) -> f64 {
    match kind {
        "projected 2D" => (a[0] - b[0]).hypot(a[1] - b[1]),
        "projected 2D ft" => (a[0] - b[0]).hypot(a[1] - b[1]) * 0.3048,
        "projected 3D" => dist3([a[0], a[1], a[2] * 0.3048], [b[0], b[1], b[2] * 0.3048]),
        "geocentric" => dist3([a[0], a[1], a[2]], [b[0], b[1], b[2]]),
        "geographic 3D" => {
            let r = ell(dc::WGS84.ellipsoid());
            let q = crate::dom::RAD;
            dist3(r.to_xyz(a[0] * q, a[1] * q, a[2]), r.to_xyz(b[0] * q, b[1] * q, b[2]))
        }
        _ => crs.dist(a, b).map(|l| l.m()).unwrap_or(f64::NAN),
    }
}

/// The model of a path: its vertices and the lengths of its sides.
struct Path {
    pos: Vec<Vec<f64>>,
    len: Vec<f64>,
}
impl Path {
    fn total(&self) -> f64 {
        self.len.iter().sum()
    }
    /// Position at arc length s.
    fn at(&self, s: f64) -> Vec<f64> {
        let mut from = 0.0;
        for (i, l) in self.len.iter().enumerate() {
            if s < from + l || (i + 1 == self.len.len() && *l > 0.0) {
                let t = ((s - from) / l).clamp(0.0, 1.0);
                return self.pos[i].iter().zip(&self.pos[i + 1]).map(|(a, b)| a + t * (b - a)).collect();
            }
            from += l;
        }
        self.pos.last().unwrap().clone()
    }
}

fn chk_param(c: &mut Ctx, what: &str, crs: &dyn Crs, cv: &dyn ParameterizedCurve, m: &Path, fr: &[f64]) -> R {
    let dim = crs.dim();
    ensure!(cv.coord_dim() == dim, "coord-dim", "{what}: coord_dim {}", cv.coord_dim());
    ensure!(cv.start() == &m.pos[0][..], "start", "{what}: start {:?} expected {:?}", cv.start(), m.pos[0]);
    ensure!(cv.end() == &m.pos.last().unwrap()[..], "end", "{what}: end {:?} expected {:?}", cv.end(), m.pos.last());
    let l = cv.length(crs);
    let tot = m.total();
    // rounding of the geocentric coordinates in the geographic systems
    let size = m.pos.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let eps = 1e-12 * tot + (1 + m.len.len() / 7) as f64 * if what.starts_with("geographic") { 5e-9 } else { 4e-15 * size };
    // a side without length along which the coordinates change (across the antimeridian) has no
    // definite position at its distance
    let mut jumps = vec![];
    let mut acc = 0.0;
    for (p, k) in m.pos.windows(2).zip(&m.len) {
        if *k <= eps && p[0] != p[1] {
            jumps.push(acc);
        }
        acc += k;
    }
    let jump = |s: f64| jumps.iter().any(|j| (s - j).abs() <= 4.0 * eps);
    // a position is off by at most the step of its side per metre times the rounding of s
    let tol_at = |i: usize| {
        let rate = m.pos.windows(2).zip(&m.len).map(|(p, l)| if *l > 0.0 { (p[1][i] - p[0][i]).abs() / l } else { 0.0 }).fold(0.0, f64::max);
        let size = m.pos.iter().map(|p| p[i].abs()).fold(0.0, f64::max);
        2.0 * rate * eps + 1e-12 * size + 1e-300
    };
    close!("length", l.m(), tot, eps, "{what} {:?}: length", m.pos);
    // documented: param(0) is the start, param(length) the end
    let p0 = cv.param(crs, 0.0 * M);
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-13 * (x.abs() + y.abs()) + 1e-12);
    ensure!(tot == 0.0 || jump(0.0) || same(&p0, &m.pos[0]), "param-0", "{what} {:?}: param(0) = {p0:?}", m.pos);
    let p1 = cv.param(crs, l);
    ensure!(p1.len() == dim, "param-dim", "{what}: param(length) has {} coordinates", p1.len());
    // with one side of non-zero length no rounding can get in; otherwise the sum of the lengths may be rounded either way
    if m.len.iter().filter(|k| **k > 0.0).count() <= 1 {
        ensure!(same(&p1, m.pos.last().unwrap()), "param-length", "{what} {:?}: param(length) = {p1:?}", m.pos);
    } else if !jump(tot) {
        for (i, (a, b)) in p1.iter().zip(m.pos.last().unwrap()).enumerate() {
            close!("param-length", *a, *b, tol_at(i), "{what} {:?}: param(length) coordinate {i}", m.pos);
        }
    }
    c.step(&[l.m(), m.pos.len() as f64]);
    // fractions of the whole, and every vertex
    let mut ss: Vec<f64> = fr.iter().map(|f| f * tot).collect();
    let mut acc = 0.0;
    for k in &m.len {
        for t in [0.25, 0.5] {
            ss.push(acc + t * k);
        }
        acc += k;
        ss.push(acc);
        ss.push(acc - 1e-9 * k);
    }
    for s in ss {
        let s = s.min(l.m());
        let g = cv.param(crs, s * M);
        ensure!(g.len() == dim, "param-dim", "{what}: param({s}) has {} coordinates", g.len());
        if jump(s) {
            continue;
        }
        let w = m.at(s);
        for (i, (a, b)) in g.iter().zip(&w).enumerate() {
            close!("param", *a, *b, tol_at(i), "{what} {:?}: param({s}) coordinate {i}", m.pos);
        }
        c.step(&[s, g[0], g[1]]);
    }
    let beyond = l.m() * (1.0 + 1e-12) + 1e-6;
    ensure!(panics(|| { cv.param(crs, beyond * M); }), "beyond", "{what} {:?}: param({beyond}) beyond the length {} is accepted", m.pos, l);
    Ok(())
}

/// Building and measuring line strings and curves over common positions.
fn calls(curve: bool) -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut all: Vec<Box<dyn Crs>> = vec![];
    for d in super::earth::kin_datums().into_iter().step_by(4) {
        all.push(Box::new(GeographicCrs { id: "g".into(), datum: d, axes: gaxes(2, AU[1].0, M) }));
    }
    for u in [M, FT] {
        all.push(Box::new(ProjectedCrs { id: "p".into(), datum: dc::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: u }, projection: ProjectionSpec::UTMNorth { zone: 1 } }));
    }
    all.push(Box::new(GeographicCrs { id: "g".into(), datum: dc::WGS84, axes: gaxes(3, AU[1].0, M) }));
    let ps = [[0.0, 0.0], [10.0, 0.0], [10.0, 45.0], [-33.0, 20.0]];
    for (i, crs) in all.into_iter().enumerate() {
        let crs: std::rc::Rc<dyn Crs> = crs.into();
        for ix in [vec![0, 1, 2], vec![0, 1, 3], vec![2, 1, 0], vec![0, 1, 2, 0], vec![0, 1, 0, 1]] {
            let mk = {
                let (crs, ix) = (crs.clone(), ix.clone());
                move || -> Box<dyn ParameterizedCurve> {
                    let line = |a: &[usize]| {
                        let mut b = LineStringBuilder::with_line(crs.as_ref(), ps[a[0]], ps[a[1]]).unwrap();
                        for k in &a[2..] {
                            b = b.line_to(ps[*k]).unwrap();
                        }
                        b.build()
                    };
                    if curve {
                        Box::new(CurveBuilder::with_seg(crs.as_ref(), line(&ix[..2])).unwrap().append_segment(line(&ix[1..])).unwrap().build())
                    } else {
                        Box::new(line(&ix))
                    }
                }
            };
            let one: std::rc::Rc<dyn ParameterizedCurve> = mk().into();
            v.push((format!("build {i} {ix:?}"), {
                let (mk, crs) = (mk.clone(), crs.clone());
                Box::new(move || {
                    let q = mk();
                    [vec![q.length(crs.as_ref()).m()], q.start().to_vec(), q.end().to_vec()].concat()
                })
            }));
            let (o, k) = (one.clone(), crs.clone());
            v.push((format!("length {i} {ix:?}"), Box::new(move || vec![o.length(k.as_ref()).m()])));
            for f in [0.2, 0.8] {
                let (o, k) = (one.clone(), crs.clone());
                v.push((format!("param {f} {i} {ix:?}"), Box::new(move || o.param(k.as_ref(), o.length(k.as_ref()) * f).to_vec())));
            }
        }
    }
    v
}

const LONG: [usize; 10] = [7, 8, 9, 16, 17, 33, 65, 129, 257, 1025];
const FR: [f64; 7] = [0.1, 0.25, 0.3333, 0.5, 0.75, 0.9, 0.999];

pub fn c20(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 6 } else { 5 };
    vec![
        dfs("builder", format!("6 CRS kinds x 2 sets of 4 positions (far apart, nearly equal) x every sequence of up to {depth} builder operations (line_to each position, line_to with too few or too many coordinates, close, build), checked at 7 fractions, all vertices and side midpoints"), move |c| {
            let all = crss(c.choose(2) == 1);
            let (kind, crs, pts) = c.pick(&all);
            let crs = crs.as_ref();
            let dim = crs.dim();
            let (i, j) = (c.choose(pts.len()), c.choose(pts.len()));
            let mut m = Path { pos: vec![pts[i].clone(), pts[j].clone()], len: vec![mdist(kind, crs, &pts[i], &pts[j])] };
            let b = LineStringBuilder::with_line(crs, &pts[i], &pts[j]);
            let Ok(mut b) = b else { return viol("with-line", format!("{kind}: with_line fails: {:?}", b.err())) };
            let mut built: Option<LineString> = None;
            for _ in 0..depth {
                let op = c.choose(pts.len() + 4);
                match op {
                    0..=3 => {
                        let p = &pts[op];
                        m.len.push(mdist(kind, crs, m.pos.last().unwrap(), p));
                        m.pos.push(p.clone());
                        b = match b.line_to(p) {
                            Ok(b) => b,
                            Err(e) => return viol("line-to", format!("{kind}: line_to({p:?}) fails: {e}")),
                        };
                    }
                    4 | 5 => {
                        // a position of another dimension is refused
                        for n in if op == 4 { vec![dim - 1, 0, 1] } else { vec![dim + 1, 2 * dim, 3 * dim] } {
                            let bad = vec![1.0; n];
                            ensure!(b.clone().line_to(bad).is_err(), "wrong-dim", "{kind}: line_to accepts {n} coordinates");
                        }
                    }
                    6 => {
                        m.len.push(mdist(kind, crs, m.pos.last().unwrap(), &m.pos[0]));
                        m.pos.push(m.pos[0].clone());
                        let drawn = b.clone().line_to(&m.pos[0]).map(|b| b.build());
                        built = Some(match b.close() {
                            Ok(l) => l,
                            Err(e) => return viol("close", format!("{kind}: close fails: {e}")),
                        });
                        ensure!(drawn.as_ref().ok() == built.as_ref(), "close", "{kind}: closing {:?} gives {built:?}, a line to the first position {drawn:?}", m.pos);
                        b = LineStringBuilder::with_line(crs, &pts[0], &pts[1]).unwrap();
                        break;
                    }
                    _ => break,
                }
            }
            let ls = built.unwrap_or_else(|| b.build());
            ensure!(matches!(ls.interpolation(), CurveInterpolation::Linear), "interpolation", "{kind}: not linear");
            let cb = ls.curve_boundary();
            ensure!(cb.start[..] == m.pos[0][..] && cb.end[..] == m.pos.last().unwrap()[..], "boundary", "{kind}: boundary {cb:?} of {:?}", m.pos);
            ensure!(ls == ls.clone(), "eq", "{kind}: a line string differs from its copy");
            chk_param(c, kind, crs, &ls, &m, &FR)
        }),
        dfs("long", "6 CRS kinds x 2 sets of positions x line strings of 7 to 1025 sides going round the positions, open or closed", move |c| {
            let all = crss(c.choose(2) == 1);
            let (kind, crs, pts) = c.pick(&all);
            let crs = crs.as_ref();
            let n = *c.pick(&LONG);
            let close = c.choose(2) == 1;
            let mut m = Path { pos: vec![pts[0].clone(), pts[1].clone()], len: vec![mdist(kind, crs, &pts[0], &pts[1])] };
            let mut b = LineStringBuilder::with_line(crs, &pts[0], &pts[1]).unwrap();
            for k in 2..=n {
                let p = if close && k == n { &pts[0] } else { &pts[(k * k + k / 3) % 4] };
                m.len.push(mdist(kind, crs, m.pos.last().unwrap(), p));
                m.pos.push(p.clone());
                if !(close && k == n) {
                    b = b.line_to(p).unwrap();
                }
                if k < 80 || k > n - 3 {
                    let bad = &m.pos.concat()[..crs.dim() + 1];
                    ensure!(b.clone().line_to(bad).is_err(), "wrong-dim", "{kind}: line_to accepts {} coordinates after {k} sides", bad.len());
                }
            }
            let ls = if close { b.close().unwrap() } else { b.build() };
            chk_param(c, kind, crs, &ls, &m, &FR).map_err(|v| v.short())
        }),
        dfs("equality", "6 CRS kinds x 2 sets of 3 positions x all pairs of line strings of 2 to 5 positions: equal exactly when they hold the same positions", move |c| {
            let all = crss(c.choose(2) == 1);
            let (kind, crs, pts) = c.pick(&all);
            let lists: Vec<Vec<usize>> = (2..=5u32).flat_map(|n| (0..3usize.pow(n)).map(move |k| (0..n).map(|j| k / 3usize.pow(j) % 3).collect())).collect();
            let build = |ix: &[usize]| {
                let mut b = LineStringBuilder::with_line(crs.as_ref(), &pts[ix[0]], &pts[ix[1]]).unwrap();
                for p in &ix[2..] {
                    b = b.line_to(&pts[*p]).unwrap();
                }
                b.build()
            };
            let i = c.choose(lists.len());
            let x = build(&lists[i]);
            for l in &lists {
                let y = build(l);
                ensure!((x == y) == (lists[i] == *l) && (x != y) != (x == y), "eq", "{kind}: line strings through {:?} and {:?}: equal is {}", lists[i], l, x == y);
            }
            c.step(&[i as f64]);
            Ok(())
        }),
        dfs("wrong-start", "6 CRS kinds x every pair of coordinate counts 1..4: with_line refuses or panics when a count is not the dimension of the CRS", move |c| {
            let all = crss(false);
            let (kind, crs, _) = c.pick(&all);
            let (n1, n2) = (c.choose(4) + 1, c.choose(4) + 1);
            let (a, b) = (vec![1.0; n1], vec![2.0; n2]);
            let ok = n1 == crs.dim() && n2 == crs.dim();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| LineStringBuilder::with_line(crs.as_ref(), &a, &b).is_ok()));
            ensure!(matches!(r, Ok(true)) == ok, "with-line-dim", "{kind}: with_line with {n1} and {n2} coordinates: {r:?}");
            c.step(&[n1 as f64, n2 as f64, crs.dim() as f64]);
            Ok(())
        }),
        history("histories", "building line strings over common positions in 6 systems over 3 datums, their lengths and positions along them", if thorough { 3 } else { 2 }, || calls(false)),
    ]
}

pub fn c21(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 5 } else { 4 };
    let mut out = vec![];
    out.push(dfs("curves", format!("6 CRS kinds x 2 sets of 4 positions (far apart, nearly equal) x every sequence of up to {depth} appended segments (15 line strings of one to three sides over the positions, closed ones and one without extent included, connected or not, and one of another dimension)"), move |c| {
        let all = crss(c.choose(2) == 1);
        let ci = c.choose(all.len());
        let (kind, crs, pts) = &all[ci];
        let crs = crs.as_ref();
        let dim = crs.dim();
        // a CRS of the other dimension
        let other = all.iter().find(|o| o.1.dim() != dim).unwrap();
        let foreign = LineStringBuilder::with_line(other.1.as_ref(), &other.2[0], &other.2[1]).unwrap().build();
        ensure!(CurveBuilder::with_seg(crs, foreign.clone()).is_err(), "foreign", "{kind}: a curve starts with a segment of another dimension");
        let seg = |k: usize| -> (LineString, Vec<usize>) {
            let ix = match k {
                0..=7 => vec![k / 2, (k / 2 + 1 + k % 2) % 4],
                8..=11 => vec![k - 8, (k - 8 + 1) % 4, (k - 8 + 3) % 4],
                // closed on itself
                12 => vec![0, 1, 0],
                13 => vec![1, 2, 3, 1],
                // without extent
                _ => vec![1, 1],
            };
            let mut b = LineStringBuilder::with_line(crs, &pts[ix[0]], &pts[ix[1]]).unwrap();
            for p in &ix[2..] {
                b = b.line_to(&pts[*p]).unwrap();
            }
            (b.build(), ix)
        };
        let (s0, ix) = seg(c.choose(15));
        let b = CurveBuilder::with_seg(crs, s0);
        let Ok(mut b) = b else { return viol("with-seg", format!("{kind}: with_seg fails")) };
        let mut m = Path { pos: vec![], len: vec![] };
        let add = |m: &mut Path, ix: &[usize]| {
            for w in ix.windows(2) {
                m.len.push(mdist(kind, crs, &pts[w[0]], &pts[w[1]]));
            }
            let skip = if m.pos.is_empty() { 0 } else { 1 };
            m.pos.extend(ix[skip..].iter().map(|i| pts[*i].clone()));
        };
        add(&mut m, &ix);
        let mut last = *ix.last().unwrap();
        for _ in 0..depth {
            let op = c.choose(17);
            if op == 16 {
                break;
            }
            if op == 15 {
                ensure!(b.clone().append_segment(foreign.clone()).is_err(), "foreign", "{kind}: a segment of another dimension is appended");
                continue;
            }
            let (s, ix) = seg(op);
            let r = b.clone().append_segment(s);
            if ix[0] == last {
                b = match r {
                    Ok(b) => b,
                    Err(e) => return viol("append", format!("{kind}: a connected segment is refused: {e}")),
                };
                last = *ix.last().unwrap();
                add(&mut m, &ix);
            } else {
                ensure!(r.is_err(), "disconnected", "{kind}: a disconnected segment is accepted");
            }
        }
        let cv: Curve = b.build();
        chk_param(c, kind, crs, &cv, &m, &FR)?;
        let cycle = m.pos[0] == *m.pos.last().unwrap();
        ensure!(cv.geometry_type() == GeometryType::Curve(dim), "type", "{kind}: {:?}", cv.geometry_type());
        ensure!(cv.is_simple(), "simple", "{kind}: not simple");
        ensure!(cv.is_cycle() == cycle, "cycle", "{kind}: is_cycle of {:?} = {}", m.pos, cv.is_cycle());
        match cv.boundary() {
            None => ensure!(cycle, "boundary", "{kind}: {:?} has no boundary", m.pos),
            Some(bd) => {
                ensure!(!cycle, "boundary", "{kind}: cycle {:?} has a boundary {bd:?}", m.pos);
                ensure!(bd.geometry_type() == GeometryType::Point(dim) && bd.is_cycle() && bd.boundary().is_none(), "boundary", "{kind}: boundary {bd:?}");
                let any: &dyn Any = &*bd;
                match any.downcast_ref::<CurveBoundary>() {
                    Some(cb) => ensure!(cb.start[..] == m.pos[0][..] && cb.end[..] == m.pos.last().unwrap()[..], "boundary", "{kind}: boundary {bd:?} of {:?}", m.pos),
                    None => return viol("boundary", format!("{kind}: the boundary of a curve is {bd:?}")),
                }
            }
        }
        let copy = cv.clone();
        ensure!(copy.start() == cv.start() && copy.end() == cv.end() && copy.length(crs) == cv.length(crs), "copy", "{kind}: the copy differs");
        Ok(())
    }));
    out.push(dfs("long", "6 CRS kinds x 2 sets of positions x curves of 7 to 257 segments of 1 to 3 sides going round the positions, x closed or not", move |c| {
        let all = crss(c.choose(2) == 1);
        let (kind, crs, pts) = c.pick(&all);
        let crs = crs.as_ref();
        let n = *c.pick(&LONG[..9]);
        let close = c.choose(2) == 1;
        let other = all.iter().find(|o| o.1.dim() != crs.dim()).unwrap();
        let foreign = LineStringBuilder::with_line(other.1.as_ref(), &other.2[0], &other.2[1]).unwrap().build();
        let mut m = Path { pos: vec![pts[0].clone()], len: vec![] };
        let mut b: Option<CurveBuilder> = None;
        let mut at = 0;
        for k in 0..n {
            let mut ix = vec![at];
            for j in 0..=k % 3 {
                ix.push((k * k + j * 3 + k / 3 + 1) % 4);
            }
            if close && k + 1 == n {
                ix.push(0);
            }
            at = *ix.last().unwrap();
            let mut l = LineStringBuilder::with_line(crs, &pts[ix[0]], &pts[ix[1]]).unwrap();
            for p in &ix[2..] {
                l = l.line_to(&pts[*p]).unwrap();
            }
            for w in ix.windows(2) {
                m.len.push(mdist(kind, crs, &pts[w[0]], &pts[w[1]]));
                m.pos.push(pts[w[1]].clone());
            }
            b = Some(match b {
                None => CurveBuilder::with_seg(crs, l.build()).unwrap(),
                Some(b) => b.append_segment(l.build()).unwrap(),
            });
            if k < 40 || k + 3 > n {
                let astray = LineStringBuilder::with_line(crs, &pts[(at + 1) % 4], &pts[at]).unwrap().build();
                ensure!(b.clone().unwrap().append_segment(astray).is_err(), "disconnected", "{kind}: a disconnected segment is accepted after {} segments", k + 1);
                ensure!(b.clone().unwrap().append_segment(foreign.clone()).is_err(), "foreign", "{kind}: a segment of another dimension is appended after {} segments", k + 1);
            }
        }
        let cv = b.unwrap().build();
        ensure!(cv.is_cycle() == (at == 0) && cv.boundary().is_none() == (at == 0), "cycle", "{kind}: is_cycle of a curve of {n} segments = {}", cv.is_cycle());
        chk_param(c, kind, crs, &cv, &m, &FR).map_err(|v| v.short())
    }));
    out.push(history("histories", "building curves over common positions in 6 systems over 3 datums, their lengths and positions along them", if thorough { 3 } else { 2 }, || calls(true)));
    let v = [0.0, -0.0, 1.5, -2e7, f64::MIN_POSITIVE, 1e300];
    out.push(dfs("points", "points of 0..5 coordinates over 6 values per coordinate; reads, writes through the point, equality of all pairs", move |c| {
        let n = c.choose(6);
        let p: Vec<f64> = (0..n.min(3)).map(|_| c.val(&v)).chain((3..n).map(|_| 1.0)).collect();
        let bad = panics(|| {
            Point::new(&p);
        });
        ensure!(bad != (n == 2 || n == 3), "point-dim", "Point::new with {n} coordinates panics={bad}");
        if !bad {
            let q = Point::new(&p);
            ensure!(q[..] == p[..] && q.len() == n, "point-coords", "{q:?} from {p:?}");
            let r: &[f64] = q.as_ref();
            ensure!(r == &p[..], "point-coords", "as_ref {r:?} from {p:?}");
            ensure!(q.geometry_type() == GeometryType::Point(n) && q.is_cycle() && q.is_simple() && q.boundary().is_none(), "point-geometry", "{q:?}");
            for k in 0..n {
                let mut w = q;
                w[k] = 42.0;
                let mut e = p.clone();
                e[k] = 42.0;
                ensure!(w[..] == e[..] && q[..] == p[..], "point-write", "writing coordinate {k} of {q:?} gives {w:?}");
                let mu: &mut [f64] = w.as_mut();
                mu[k] = 43.0;
                e[k] = 43.0;
                ensure!(w[..] == e[..], "point-write", "writing coordinate {k} of {q:?} gives {w:?}");
                ensure!((w == q) == (e == p) && q == Point::new(&p), "point-eq", "{w:?} == {q:?}");
            }
            if n == 2 {
                let three = Point::new(&[p[0], p[1], 0.0]);
                ensure!(three != q, "point-eq", "a 2D point equals a 3D point");
            }
        }
        c.step(&[n as f64, p.iter().sum()]);
        Ok(())
    }));
    out
}
