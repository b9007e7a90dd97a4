//! C14 transformation pipeline, C25 histories of transformations.
use super::earth::{ell, gaxes, glayout, kin_datums, KINP};
use crate::dom::*;
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::{ellipsoid::consts as el, geodetic_datum::consts as dc, prime_meridian::consts as pm, GeodeticDatum};
use geokit::projections::ProjectionSpec;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::{CrsTransformation, TransformationError};
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD as URAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::{FRAC_PI_2, PI};

#[derive(Clone)]
pub enum AnyCrs {
    Xyz(GeocentricCrs),
    Geo(GeographicCrs, usize, f64, f64),
    Prj(ProjectedCrs, P, f64, f64),
}
/// Reference parameters of the projection.
#[derive(Clone, Copy)]
pub enum P {
    Merc { lon0: f64, k0: f64, fe: f64, fn_: f64, web: bool },
    Tm { lon0: f64, lat0: f64, k0: f64, fe: f64, fn_: f64 },
}
impl ToXYZProvider for AnyCrs {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        match self {
            AnyCrs::Xyz(c) => c.to_xyz_transformation(),
            AnyCrs::Geo(c, ..) => c.to_xyz_transformation(),
            AnyCrs::Prj(c, ..) => c.to_xyz_transformation(),
        }
    }
}

/// What the model says about the image of a position in a CRS.
enum Img {
    /// outside the domain the check speaks about
    Skip,
    Err,
    Ok([f64; 3]),
}

impl AnyCrs {
    fn datum(&self) -> &GeodeticDatum {
        match self {
            AnyCrs::Xyz(c) => &c.datum,
            AnyCrs::Geo(c, ..) => &c.datum,
            AnyCrs::Prj(c, ..) => &c.datum,
        }
    }
    fn dim(&self) -> usize {
        match self {
            AnyCrs::Xyz(_) => 3,
            AnyCrs::Geo(c, ..) => c.axes.dim(),
            AnyCrs::Prj(c, ..) => c.axes.dim(),
        }
    }
    fn name(&self) -> &str {
        match self {
            AnyCrs::Xyz(c) => &c.id,
            AnyCrs::Geo(c, ..) => &c.id,
            AnyCrs::Prj(c, ..) => &c.id,
        }
    }
    /// Model of the CRS: coordinates of a geocentric position of its datum.
    fn img(&self, w: [f64; 3]) -> Img {
        let r = ell(self.datum().ellipsoid());
        let pml = self.datum().prime_meridian().lon().angle().rad();
        match self {
            AnyCrs::Xyz(_) => Img::Ok(w),
            AnyCrs::Geo(_, l, per, hper) => {
                let [lo, la, h] = r.from_xyz(w);
                let (il, ip, sg, dim) = glayout(*l);
                let mut v = [0.0; 3];
                v[il] = sg * adiff(lo, pml) / per;
                v[ip] = la / per;
                if dim == 3 {
                    v[2] = h / hper;
                }
                Img::Ok(v)
            }
            AnyCrs::Prj(_, p, per, hper) => {
                let [lo, la, h] = r.from_xyz(w);
                let lo = adiff(lo, pml);
                let (e, n) = match *p {
                    P::Merc { lon0, k0, fe, fn_, web } => {
                        if w[0].hypot(w[1]) == 0.0 {
                            return Img::Err;
                        }
                        if la.abs() > 89.0 * RAD {
                            return Img::Skip;
                        }
                        let r = if web { Ell::ab(r.a, r.a) } else { r };
                        (fe + r.a * k0 * adiff(lo, lon0), fn_ + r.a * k0 * r.psi(la))
                    }
                    P::Tm { lon0, lat0, k0, fe, fn_ } => {
                        let d = adiff(lo, lon0);
                        if d.abs() > 25.0 * RAD || la.abs() > 89.99 * RAD {
                            return Img::Skip;
                        }
                        let (x, y) = tm_exact(&r, la, d);
                        (fe + k0 * x, fn_ + k0 * (y - r.merid(lat0)))
                    }
                };
                Img::Ok([e / per, n / per, if self.dim() == 3 { h / hper } else { 0.0 }])
            }
        }
    }
    /// Accuracy of a conversion to or from this system, in metres on the ground: rounding of the
    /// coordinates (60 radii of the earth excluded here) and truncation of the projection series.
    fn err(&self) -> f64 {
        match self {
            AnyCrs::Xyz(_) => 2e-8,
            AnyCrs::Geo(..) => 5e-8,
            AnyCrs::Prj(_, P::Merc { web: true, .. }, ..) => 1e-7,
            AnyCrs::Prj(_, P::Merc { .. }, ..) => 3e-5,
            AnyCrs::Prj(..) => 5e-5,
        }
    }
    /// Compare coordinates, in metres on the ground.
    fn same(&self, got: &[f64], want: &[f64; 3], tol: f64, what: &dyn Fn() -> String) -> R {
        match self {
            AnyCrs::Xyz(_) => {
                for k in 0..3 {
                    close!("coords-xyz", got[k], want[k], tol, "{} coordinate {k}", what());
                }
            }
            AnyCrs::Geo(c, l, per, hper) => {
                let a = c.datum.ellipsoid().a().m();
                let (il, ip, _, dim) = glayout(*l);
                close!("coords-geographic", got[ip] * per * a, want[ip] * per * a, tol, "{} latitude [m]", what());
                let g = got[il] * per;
                ensure!(g.abs() <= PI + 1e-12, "lon-range", "{} longitude {g}", what());
                let dl = adiff(g, want[il] * per);
                close!("coords-geographic", dl * a * (want[ip] * per).cos(), 0.0, tol, "{} longitude [m] ({} vs {})", what(), got[il], want[il]);
                if dim == 3 {
                    close!("coords-height", got[2] * hper, want[2] * hper, 5e-8 + 1e-3 * tol, "{} height [m]", what());
                }
            }
            AnyCrs::Prj(c, p, per, hper) => {
                let tag = if matches!(p, P::Merc { .. }) { "coords-mercator" } else { "coords-tm" };
                let mut ge = got[0] * per;
                let we = want[0] * per;
                if let P::Merc { k0, .. } = p {
                    // the antimeridian of the central meridian has two images
                    let turn = 2.0 * PI * c.datum.ellipsoid().a().m() * k0;
                    if (ge - we).abs() > 0.5 * turn {
                        ge -= turn * (ge - we).signum();
                    }
                }
                // Mercator scale grows with latitude (89 deg at most in the domain)
                let t = if matches!(p, P::Merc { .. }) { 60.0 * tol } else { tol };
                close!(tag, ge, we, t, "{} easting [m]", what());
                close!(tag, got[1] * per, want[1] * per, t, "{} northing [m]", what());
                if self.dim() == 3 {
                    close!("coords-height", got[2] * hper, want[2] * hper, 5e-8 + 1e-3 * tol, "{} height [m]", what());
                }
            }
        }
        Ok(())
    }
}

fn geo(id: &str, d: GeodeticDatum, l: usize, au: (AngleUnit, f64), hu: (LengthUnit, f64)) -> AnyCrs {
    AnyCrs::Geo(GeographicCrs { id: id.into(), datum: d, axes: gaxes(l, au.0, hu.0) }, l, au.1, hu.1)
}
fn prj(id: &str, d: GeodeticDatum, three: bool, u: (LengthUnit, f64), hu: (LengthUnit, f64), s: ProjectionSpec, p: P) -> AnyCrs {
    let axes = if three { ProjectedAxes::EastNorthUp { horiz_unit: u.0, height_unit: hu.0 } } else { ProjectedAxes::EastNorth { horiz_unit: u.0 } };
    AnyCrs::Prj(ProjectedCrs { id: id.into(), datum: d, axes, projection: s }, p, u.1, hu.1)
}

const MM: (LengthUnit, f64) = (M, 1.0);
const FF: (LengthUnit, f64) = (FT, 0.3048);
const UF: (LengthUnit, f64) = (US_FT, 1200.0 / 3937.0);
const D: (AngleUnit, f64) = (DEG, PI / 180.0);
const G: (AngleUnit, f64) = (GRAD, PI / 200.0);
const S: (AngleUnit, f64) = (SEC, PI / 648_000.0);
const U: (AngleUnit, f64) = (URAD, 1.0);

pub fn systems() -> Vec<AnyCrs> {
    let ntf = GeodeticDatum::new("NTF", el::CLRK80IGN, pm::PARIS);
    let airy = GeodeticDatum::new("AIRY", el::AIRY, pm::FERRO);
    let sph = GeodeticDatum::new("SPH", el::SPHERE, pm::JAKARTA);
    let rome = GeodeticDatum::new("ROME", el::GRS80, pm::ROME);
    let l = |d: f64| Lon::deg(d);
    vec![
        AnyCrs::Xyz(GeocentricCrs { id: "wgs84-xyz".into(), datum: dc::WGS84, axes: GeocentricAxes::XYZ }),
        geo("wgs84-enu", dc::WGS84, 0, D, MM),
        geo("ntf-neu", ntf.clone(), 1, G, UF),
        geo("wgs84-en", dc::WGS84, 2, S, MM),
        geo("ggrs-ne", dc::GGRS87, 3, U, MM),
        geo("airy-nw", airy.clone(), 4, D, MM),
        prj("utm31n", dc::WGS84, true, MM, MM, ProjectionSpec::UTMNorth { zone: 31 }, P::Tm { lon0: 3.0 * RAD, lat0: 0.0, k0: 0.9996, fe: 500_000.0, fn_: 0.0 }),
        prj("utm31s-ft", dc::GGRS87, false, UF, MM, ProjectionSpec::UTMSouth { zone: 31 }, P::Tm { lon0: 3.0 * RAD, lat0: 0.0, k0: 0.9996, fe: 500_000.0, fn_: 1e7 }),
        prj("merc1", ntf.clone(), true, MM, FF, ProjectionSpec::Mercator1SP { lon0: l(110.0), k0: 0.997, false_easting: 3_900_000.0 * M, false_northing: 900_000.0 * M }, P::Merc { lon0: 110.0 * RAD, k0: 0.997, fe: 3_900_000.0, fn_: 900_000.0, web: false }),
        prj("merc2", airy.clone(), false, FF, MM, ProjectionSpec::Mercator2SP { lon0: l(-179.0), lat0: Lat::deg(42.0), false_easting: 0.0 * M, false_northing: 0.0 * M }, P::Merc { lon0: -179.0 * RAD, k0: ell(&el::AIRY).to_xyz(0.0, 42.0 * RAD, 0.0)[0] / ell(&el::AIRY).a, fe: 0.0, fn_: 0.0, web: false }),
        prj("web", ntf.clone(), true, MM, MM, ProjectionSpec::WebMercator { lon0: l(-3.5), lat0: Lat::ZERO, false_easting: 250.0 * M, false_northing: -1e6 * M }, P::Merc { lon0: -3.5 * RAD, k0: 1.0, fe: 250.0, fn_: -1e6, web: true }),
        prj("tm-airy", airy, true, MM, UF, ProjectionSpec::TransverseMercator { lon0: l(15.666666666667), lat0: Lat::deg(49.0), k0: 0.9996012717, false_easting: 400_000.0 * M, false_northing: -100_000.0 * M }, P::Tm { lon0: 15.666666666667 * RAD, lat0: 49.0 * RAD, k0: 0.9996012717, fe: 400_000.0, fn_: -100_000.0 }),
        geo("sphere-enu", sph.clone(), 0, D, FF),
        AnyCrs::Xyz(GeocentricCrs { id: "ntf-xyz".into(), datum: ntf, axes: GeocentricAxes::XYZ }),
        geo("rome-enu", rome, 0, D, MM),
        prj("merc1-sphere", sph, true, MM, MM, ProjectionSpec::Mercator1SP { lon0: l(0.0), k0: 1.0, false_easting: 0.0 * M, false_northing: 0.0 * M }, P::Merc { lon0: 0.0, k0: 1.0, fe: 0.0, fn_: 0.0, web: false }),
    ]
}

/// A user-defined datum shift, exactly invertible: rotation about one axis, scale, translation.
#[derive(Clone, Copy)]
pub struct Shift {
    k: f64,
    rot: f64,
    axis: usize,
    t: [f64; 3],
}
impl Shift {
    fn fwd(&self, w: [f64; 3]) -> [f64; 3] {
        let (i, j) = ((self.axis + 1) % 3, (self.axis + 2) % 3);
        let (s, c) = self.rot.sin_cos();
        let mut v = w;
        v[i] = c * w[i] - s * w[j];
        v[j] = s * w[i] + c * w[j];
        [v[0] * self.k + self.t[0], v[1] * self.k + self.t[1], v[2] * self.k + self.t[2]]
    }
    fn inv(&self, w: [f64; 3]) -> [f64; 3] {
        let u = [(w[0] - self.t[0]) / self.k, (w[1] - self.t[1]) / self.k, (w[2] - self.t[2]) / self.k];
        let (i, j) = ((self.axis + 1) % 3, (self.axis + 2) % 3);
        let (s, c) = self.rot.sin_cos();
        let mut v = u;
        v[i] = c * u[i] + s * u[j];
        v[j] = -s * u[i] + c * u[j];
        v
    }
}
pub fn arr(x: XYZ) -> [f64; 3] {
    [x.x.m(), x.y.m(), x.z.m()]
}
pub fn xyz(w: [f64; 3]) -> XYZ {
    XYZ { x: w[0] * M, y: w[1] * M, z: w[2] * M }
}
impl XYZTransformation for Shift {
    fn to_ref(&self, s: XYZ) -> XYZ {
        xyz(self.fwd(arr(s)))
    }
    fn from_ref(&self, d: XYZ) -> XYZ {
        xyz(self.inv(arr(d)))
    }
}
const NOSHIFT: Shift = Shift { k: 1.0, rot: 0.0, axis: 0, t: [0.0; 3] };
fn shifts() -> [Shift; 4] {
    [
        NOSHIFT,
        Shift { k: 1.0, rot: 0.0, axis: 0, t: [84.87, 96.49, 116.95] },
        Shift { k: 1.0 + 1.2e-5, rot: 3e-5, axis: 2, t: [-446.448, 125.157, -542.06] },
        Shift { k: 1.0 - 3e-6, rot: -2e-4, axis: 1, t: [0.0, -500.0, 25.0] },
    ]
}

/// Position of the datum for given coordinates (model), given the geodetic position they were built from.
fn surf(c: &AnyCrs, w: [f64; 3]) -> [f64; 3] {
    if c.dim() == 3 {
        return w;
    }
    // 2D systems carry no height: the foot point
    let r = ell(c.datum().ellipsoid());
    let g = r.from_xyz(w);
    r.to_xyz(g[0], g[1], 0.0)
}

/// Both directions between two systems over a grid of positions.
fn pair(c: &mut Ctx, src: &AnyCrs, dst: &AnyCrs, (sa, sb): (Shift, Shift), lons: &[f64], lats: &[f64]) -> R {
    let hs = [0.0, 1234.5, -87.25, 20_000.0];
    let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), sa, sb);
    for (i, &lo) in lons.iter().enumerate() {
        for (j, &la) in lats.iter().enumerate() {
            at(c, src, dst, &tr, (sa, sb), [lo, la, hs[(i + j) % hs.len()]])?;
        }
    }
    Ok(())
}
/// Both directions between two systems at one position (longitude from Greenwich, latitude, height of the source datum).
fn at(c: &mut Ctx, src: &AnyCrs, dst: &AnyCrs, tr: &dyn CrsTransformation, (sa, sb): (Shift, Shift), [lo, la, h]: [f64; 3]) -> R {
    let rs = ell(src.datum().ellipsoid());
    let h = if src.dim() == 3 { h } else { 0.0 };
    let mut w = rs.to_xyz(lo * RAD, la * RAD, h);
    if la.abs() == 90.0 {
        w[0] = 0.0;
        w[1] = 0.0;
    }
    let Img::Ok(sc) = src.img(w) else { return Ok(()) };
    // through the reference frame
    let mut wd = sb.inv(sa.fwd(w));
    if wd[0].hypot(wd[1]) < 1e-3 {
        // exactly on the polar axis only when nothing moves it
        if wd[0] == 0.0 && wd[1] == 0.0 {
            wd = [0.0, 0.0, wd[2]];
        } else {
            return Ok(());
        }
    }
    let mut got = [-7777.25; 3];
    let r = tr.fwd(&sc[..src.dim()], &mut got[..dst.dim()]);
    let tag = || format!("{} -> {}: fwd({:?})", src.name(), dst.name(), &sc[..src.dim()]);
    let pole = la.abs() == 90.0;
    match dst.img(wd) {
        Img::Skip => {}
        Img::Err => {
            // the source must deliver the pole exactly for the error to be due
            if matches!(src, AnyCrs::Xyz(_)) && sa.t == sb.t {
                ensure!(matches!(r, Err(TransformationError::OutOfBounds)), "error", "{} = {r:?}", tag());
                ensure!(got == [-7777.25; 3], "dst-written", "{} failed but wrote {got:?}", tag());
                c.step(&[lo, la]);
            }
        }
        Img::Ok(want) => {
            ensure!(r.is_ok(), "fwd-err", "{} = {r:?}", tag());
            // an error of direction grows with the distance from the centre
            let tol = (src.err() + dst.err()) * (1.0 + h.abs() / rs.a);
            if !pole || !matches!(dst, AnyCrs::Prj(..)) {
                dst.same(&got, &want, tol, &tag)?;
            }
            c.step(&got);
            // whatever the destination held before
            let mut over = sc;
            let r = tr.fwd(&sc[..src.dim()], &mut over[..dst.dim()]);
            ensure!(r.is_ok() && over[..dst.dim()] == got[..dst.dim()], "dst-content", "{}: {r:?} {over:?} into a copy of the argument, {got:?} otherwise", tag());
            // and back: the mirror image
            let mut b = [-7777.25; 3];
            let back = sa.inv(sb.fwd(surf(dst, wd)));
            let dc = want;
            let r = tr.bwd(&dc[..dst.dim()], &mut b[..src.dim()]);
            let tag = || format!("{} -> {}: bwd({:?})", src.name(), dst.name(), &dc[..dst.dim()]);
            if let Img::Ok(want) = src.img(back) {
                ensure!(r.is_ok(), "bwd-err", "{} = {r:?}", tag());
                if !pole || !matches!(src, AnyCrs::Prj(..)) {
                    src.same(&b, &want, tol, &tag)?;
                }
                c.step(&b);
                let mut over = dc;
                let r = tr.bwd(&dc[..dst.dim()], &mut over[..src.dim()]);
                ensure!(r.is_ok() && over[..src.dim()] == b[..src.dim()], "dst-content", "{}: {r:?} {over:?} into a copy of the argument, {b:?} otherwise", tag());
            }
        }
    }
    Ok(())
}

pub fn c14(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let n = systems().len();
    let lons: Vec<f64> = if thorough { uniq([lons_deg(48), grid(-20.0, 28.0, 48)].concat()) } else { uniq([vec![-180.0, -179.9999, 180.0, 179.5, -170.0, -90.0, 90.0, 107.0, 140.0, 0.0, 1e-9], grid(-15.0, 21.0, 24), grid(-180.0, 180.0, 24)].concat()) };
    let lats: Vec<f64> = if thorough { lats_deg(36) } else { uniq([grid(-88.0, 88.0, 32), vec![-90.0, 90.0, 89.5, -89.99, 0.0, 1e-9, -1e-9, 48.85]].concat()) };
    let (nl, np) = (lons.len(), lats.len());
    out.push(dfs("pairs", format!("{n} x {n} source/destination systems (geocentric, geographic in all layouts, all projections, 6 datums) x 4 x 4 datum shifts x {nl} longitudes x {np} latitudes x 4 heights"), move |c| {
        let sys = systems();
        let (si, di) = (c.choose(n), c.choose(n));
        let sh = shifts();
        let (sa, sb) = (c.val(&sh), c.val(&sh));
        let (src, dst) = (&sys[si], &sys[di]);
        pair(c, src, dst, (sa, sb), &lons, &lats)
    }));
    out.push(dfs("projections", "13 projections x 5 datums x 2D and 3D x 2 units: from and to a geographic and the geocentric system of the same datum and of another one, with and without a datum shift", move |c| {
        let ds = [dc::WGS84, GeodeticDatum::new("NTF", el::CLRK80IGN, pm::PARIS), GeodeticDatum::new("SPH", el::SPHERE, pm::JAKARTA), GeodeticDatum::new("INT", el::INTL, pm::GREENWICH), GeodeticDatum::new("EV", el::EVRST30, pm::BOGOTA)];
        let d = c.pick(&ds);
        let k = c.choose(13);
        let three = c.flag();
        let u = c.val(&[MM, UF]);
        let r = ell(d.ellipsoid());
        let (lon0, lat0, k0, fe, fn_) = c.val(&[(4.5f64, 31.0f64, 0.9993, 250_000.0, -3_000_000.0), (-178.0, -44.0, 1.002, -1_000.0, 50.0)]);
        let (l0, p0, e, n) = (Lon::deg(lon0), Lat::deg(lat0), fe * M, fn_ * M);
        let z = lon0 * RAD;
        let utm = |zone: u8, f: f64| P::Tm { lon0: (6.0 * zone as f64 - 183.0) * RAD, lat0: 0.0, k0: 0.9996, fe: 500_000.0, fn_: f };
        let (s, p) = match k {
            0 => (ProjectionSpec::Mercator1SP { lon0: l0, k0, false_easting: e, false_northing: n }, P::Merc { lon0: z, k0, fe, fn_, web: false }),
            1 => (ProjectionSpec::Mercator2SP { lon0: l0, lat0: p0, false_easting: e, false_northing: n }, P::Merc { lon0: z, k0: r.to_xyz(0.0, p0.angle().rad(), 0.0)[0] / r.a, fe, fn_, web: false }),
            2 => (ProjectionSpec::WebMercator { lon0: l0, lat0: Lat::ZERO, false_easting: e, false_northing: n }, P::Merc { lon0: z, k0: 1.0, fe, fn_, web: true }),
            3 => (ProjectionSpec::TransverseMercator { lon0: l0, lat0: p0, k0, false_easting: e, false_northing: n }, P::Tm { lon0: z, lat0: p0.angle().rad(), k0, fe, fn_ }),
            4 => (ProjectionSpec::TransverseMercator { lon0: l0, lat0: Lat::ZERO, k0: 1.0, false_easting: 0.0 * M, false_northing: 0.0 * M }, P::Tm { lon0: z, lat0: 0.0, k0: 1.0, fe: 0.0, fn_: 0.0 }),
            k if k < 9 => {
                let zone = [1u8, 30, 31, 60][k - 5];
                (ProjectionSpec::UTMNorth { zone }, utm(zone, 0.0))
            }
            k => {
                let zone = [1u8, 30, 33, 60][k - 9];
                (ProjectionSpec::UTMSouth { zone }, utm(zone, 1e7))
            }
        };
        let (P::Tm { lon0, .. } | P::Merc { lon0, .. }) = p;
        let pr = prj("p", d.clone(), three, u, FF, s, p);
        let sh = shifts();
        let o = c.choose(6);
        let od = if o % 2 == 0 { d.clone() } else { GeodeticDatum::new("o", el::BESSEL, pm::OSLO) };
        let other = match o / 2 {
            0 => AnyCrs::Xyz(GeocentricCrs { id: "x".into(), datum: od, axes: GeocentricAxes::XYZ }),
            1 => geo("g", od, 1, D, MM),
            _ => geo("g", od, 4, G, MM),
        };
        // the model takes longitudes from Greenwich
        let l = lon0 / RAD + d.prime_meridian().lon().angle().rad() / RAD;
        let lons: Vec<f64> = [0.0, -20.0, -7.5, -3.0, -1e-6, 1.25, 3.0, 15.0, 24.0, 100.0, 180.0].iter().map(|x| adiff((l + x) * RAD, 0.0) / RAD).collect();
        let lats = [-88.0, -70.0, -33.3, -1e-7, 0.0, 12.0, 49.0, 61.5, 85.0];
        let s1 = c.val(&[sh[0], sh[2]]);
        pair(c, &other, &pr, (s1, sh[0]), &lons, &lats)?;
        pair(c, &pr, &other, (sh[0], s1), &lons, &lats)
    }));
    let m = if thorough { 4 } else { 1 };
    let sl = dense_deg(180.0, 720 * m);
    let sp = dense_deg(90.0, 720 * m);
    let sh: Vec<f64> = dense_len(7, 10 * m).into_iter().filter(|h| *h > -2e5).collect();
    let st = mags(-6, 4);
    let sr = mags(-9, -3);
    let (d0, d1, d2, d3, d4) = (sl.len(), sp.len(), sh.len(), st.len(), sr.len());
    out.push(dfs("sweeps", format!("{n} x {n} systems, one argument at a time from 2 positions, without and with datum shifts: {d0} longitudes, {d1} latitudes, {d2} heights, {d3} translations along each axis, {d4} rotations about each axis, {d4} scale differences"), move |c| {
        let sys = systems();
        let (si, di) = (c.choose(n), c.choose(n));
        let (src, dst) = (&sys[si], &sys[di]);
        let base = c.val(&[[2.5, 47.0, 350.0], [12.0, -31.0, -20.0]]);
        let all = shifts();
        let dim = c.choose(10);
        if dim < 3 {
            let ss = c.val(&[(all[0], all[0]), (all[2], all[3])]);
            let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), ss.0, ss.1);
            for &v in [&sl, &sp, &sh][dim] {
                let mut p = base;
                p[dim] = v;
                at(c, src, dst, &tr, ss, p)?;
            }
        } else {
            let to = c.flag();
            for &v in if dim < 6 { &st } else { &sr } {
                let mut s = all[2];
                match dim {
                    3..=5 => s.t[dim - 3] = v,
                    6..=8 => {
                        s.axis = dim - 6;
                        s.rot = v;
                    }
                    _ => s.k = 1.0 + v,
                }
                let ss = if to { (s, all[1]) } else { (all[1], s) };
                let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), ss.0, ss.1);
                at(c, src, dst, &tr, ss, base)?;
            }
        }
        Ok(())
    }));
    let (d, q): (&'static [(u32, usize)], usize) = if thorough { (&[(3, 199), (4, 53), (5, 23)], 199) } else { (&[(3, 101), (4, 31), (5, 17)], 101) };
    let idx = |n: usize| (0..n).map(|i| i as f64).collect::<Vec<f64>>();
    let small = |k: f64| joint_len(0, q).iter().map(|x| x * k).collect::<Vec<f64>>();
    let sys = systems();
    let args = vec![
        ("source systems", idx(n)),
        ("destination systems", idx(n)),
        ("longitudes", uniq([joint_deg(180.0, q / 2), grid(-20.0, 28.0, q / 2)].concat())),
        ("latitudes", joint_deg(90.0, q)),
        ("heights", joint_len(7, q).into_iter().filter(|h| *h > -2e5).collect()),
        ("source shifts along x", small(1e3)),
        ("along y", small(1e3)),
        ("along z", small(1e3)),
        ("source rotations", small(1e-3)),
        ("axes", idx(3)),
        ("source scales", small(1e-3)),
        ("destination shifts along x", small(1e3)),
        ("along y", small(1e3)),
        ("along z", small(1e3)),
        ("destination rotations", small(1e-3)),
        ("axes", idx(3)),
        ("destination scales", small(1e-3)),
    ];
    out.push(tuples("tuples", "both systems, position and both datum shifts, both directions", d, args, move |c, x| {
        let sh = |v: &[f64]| Shift { k: 1.0 + v[5], rot: v[3], axis: v[4] as usize, t: [v[0], v[1], v[2]] };
        let (src, dst) = (&sys[x[0] as usize], &sys[x[1] as usize]);
        let ss = (sh(&x[5..11]), sh(&x[11..17]));
        let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), ss.0, ss.1);
        at(c, src, dst, &tr, ss, [x[2], x[3], x[4]])
    }));
    let n2 = n;
    out.push(dfs("errors", format!("{n} source systems at and around both poles x 4 Mercator destinations, forward and backward; out of range grid coordinates of a transverse Mercator source x {n} destinations"), move |c| {
        let sys = systems();
        let si = c.choose(n2);
        let z = c.val(&[6_356_752.3, -6_356_752.3, 7e6, -6.4e6]);
        let di = c.val(&[8usize, 9, 10, 15]);
        // the polar axis has no image in any Mercator projection: an error, and nothing written
        let src = &sys[0];
        let dst = &sys[di];
        let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), XYZIdentity, XYZIdentity);
        let mut got = [-7777.25; 3];
        let r = tr.fwd(&[0.0, 0.0, z], &mut got[..dst.dim()]);
        ensure!(matches!(r, Err(TransformationError::OutOfBounds)) && got == [-7777.25; 3], "error", "{} -> {}: fwd(0,0,{z}) = {r:?} {got:?}", src.name(), dst.name());
        let tr = CrsXYZTransformation::new(dst.clone(), src.clone(), XYZIdentity, XYZIdentity);
        let r = tr.bwd(&[0.0, 0.0, z], &mut got[..dst.dim()]);
        ensure!(matches!(r, Err(TransformationError::OutOfBounds)) && got == [-7777.25; 3], "error", "{} -> {}: bwd(0,0,{z}) = {r:?} {got:?}", dst.name(), src.name());
        // grid coordinates without a preimage
        let e = c.val(&[1e9, -1e9, 1e12, 1e300]);
        let tm = &sys[6];
        let o = &sys[si];
        let tr = CrsXYZTransformation::new(tm.clone(), o.clone(), XYZIdentity, XYZIdentity);
        let r = tr.fwd(&[e, 5e6, 0.0], &mut got[..o.dim()]);
        ensure!(matches!(r, Err(TransformationError::OutOfBounds)) && got == [-7777.25; 3], "error", "{} -> {}: fwd({e},5e6,0) = {r:?} {got:?}", tm.name(), o.name());
        let tr = CrsXYZTransformation::new(o.clone(), tm.clone(), XYZIdentity, XYZIdentity);
        let r = tr.bwd(&[e, 5e6, 0.0], &mut got[..o.dim()]);
        ensure!(matches!(r, Err(TransformationError::OutOfBounds)) && got == [-7777.25; 3], "error", "{} -> {}: bwd({e},5e6,0) = {r:?} {got:?}", o.name(), tm.name());
        c.step(&[z, e, si as f64, di as f64]);
        Ok(())
    }));
    let depth = if thorough { 6 } else { 4 };
    out.push(dfs("reuse", format!("every history of up to {depth} fwd/bwd calls over 4 positions on one transformation object: each call depends on its argument only"), move |c| {
        let sys = systems();
        let (si, di) = (c.val(&[0usize, 1, 2, 6, 8, 11]), c.val(&[1usize, 2, 5, 7, 9, 12]));
        let (src, dst) = (&sys[si], &sys[di]);
        let sh = shifts();
        let tr = CrsXYZTransformation::new(src.clone(), dst.clone(), sh[2], sh[3]);
        let pts = [(1.0, 48.0, 100.0), (4.0, 30.0, 0.0), (-6.0, 55.5, -20.0), (0.0, 80.0, 7.0)];
        let fresh = |back: bool, k: usize| -> ([f64; 3], [f64; 3]) {
            let t = CrsXYZTransformation::new(src.clone(), dst.clone(), sh[2], sh[3]);
            let (f, to) = if back { (dst, src) } else { (src, dst) };
            let r = ell(f.datum().ellipsoid());
            let (lo, la, h) = pts[k];
            let Img::Ok(x) = f.img(r.to_xyz(lo * RAD, la * RAD, if f.dim() == 3 { h } else { 0.0 })) else { return ([0.0; 3], [0.0; 3]) };
            let mut o = [0.0; 3];
            let _ = if back { t.bwd(&x[..f.dim()], &mut o[..to.dim()]) } else { t.fwd(&x[..f.dim()], &mut o[..to.dim()]) };
            (x, o)
        };
        for _ in 0..depth {
            let back = c.flag();
            let k = c.choose(if depth > 4 { 2 } else { 4 });
            let (x, want) = fresh(back, k);
            let (f, to) = if back { (dst, src) } else { (src, dst) };
            let mut o = [0.0; 3];
            let r = if back { tr.bwd(&x[..f.dim()], &mut o[..to.dim()]) } else { tr.fwd(&x[..f.dim()], &mut o[..to.dim()]) };
            ensure!(r.is_ok() && o.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-12 * b.abs()), "history", "{} -> {}: result {o:?} depends on earlier calls (fresh: {want:?})", src.name(), dst.name());
            c.step(&o);
        }
        Ok(())
    }));
    out.push(history("histories", "both directions of transformations between geocentric, geographic and projected systems over 12 datums with common parameters, and through 3 datum shifts, on two positions", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        let sh = shifts();
        for (i, d) in kin_datums().into_iter().enumerate() {
            let id: std::borrow::Cow<'static, str> = "s".into();
            let x = AnyCrs::Xyz(GeocentricCrs { id: id.clone().into(), datum: d.clone(), axes: GeocentricAxes::XYZ });
            let g = AnyCrs::Geo(GeographicCrs { id: id.clone().into(), datum: d.clone(), axes: gaxes(0, DEG, M) }, 0, RAD, 1.0);
            let p = AnyCrs::Prj(ProjectedCrs { id: id.clone().into(), datum: d.clone(), axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 32 } }, P::Merc { lon0: 0.0, k0: 1.0, fe: 0.0, fn_: 0.0, web: false }, 1.0, 1.0);
            let m = AnyCrs::Prj(ProjectedCrs { id: id.clone().into(), datum: d.clone(), axes: ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }, projection: ProjectionSpec::Mercator1SP { lon0: Lon::deg(3.0), k0: 1.0, false_easting: 0.0 * M, false_northing: 0.0 * M } }, P::Merc { lon0: 0.0, k0: 1.0, fe: 0.0, fn_: 0.0, web: false }, 1.0, 1.0);
            for (k, (a, b, s)) in [(&g, &x, 0), (&g, &p, 0), (&g, &m, 0), (&p, &m, 0), (&g, &x, 1), (&g, &x, 2), (&g, &x, 3), (&g, &p, 2)].into_iter().enumerate() {
                if i > 3 && k > 3 {
                    continue;
                }
                let tr = std::rc::Rc::new(CrsXYZTransformation::new(a.clone(), b.clone(), sh[s], sh[0]));
                for q in [0, 2] {
                    for back in [false, true] {
                        let tr = tr.clone();
                        let t = if back { b } else { a };
                        let w = match t {
                            AnyCrs::Xyz(_) => ell(&el::WGS84).to_xyz(KINP[q].0 * RAD, KINP[q].1 * RAD, KINP[q].2),
                            AnyCrs::Geo(..) => [KINP[q].0, KINP[q].1, KINP[q].2],
                            AnyCrs::Prj(..) => [4e5 + 1e5 * q as f64, 5.2e6, 10.0],
                        };
                        v.push((format!("#{i} {k} {q} {back}"), Box::new(move || {
                            let mut o = [0.0; 3];
                            let r = if back { tr.bwd(&w, &mut o) } else { tr.fwd(&w, &mut o) };
                            if r.is_err() { vec![] } else { o.to_vec() }
                        })));
                    }
                }
            }
        }
        v
    }));
    let v = mags(-3, 8);
    out.push(dfs("identity", "the identity datum shift on 97^2 positions", move |c| {
        let (x, y) = (c.val(&v), c.val(&v));
        let p = xyz([x, y, x - y]);
        ensure!(XYZIdentity.to_ref(p) == p && XYZIdentity.from_ref(p) == p, "identity", "identity moves {p}");
        c.step(&[x, y]);
        Ok(())
    }));
    out
}

pub fn c25(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 5 } else { 4 };
    let n = systems().len();
    let pts: Vec<(f64, f64, f64)> = if thorough {
        vec![(2.3, 48.85, 120.0), (-1.5, 53.0, -40.0), (14.0, -33.0, 8000.0), (5.0, 88.5, 10.0), (3.0, 0.0, 0.0), (-11.0, -70.0, 2500.0), (0.0, 40.0, 55.0), (12.4523333, -20.0, 1.0)]
    } else {
        vec![(2.3, 48.85, 120.0), (14.0, -33.0, 8000.0), (3.0, 0.0, 0.0), (0.0, 40.0, 55.0)]
    };
    let np = pts.len();
    let mut out = vec![dfs("hops", format!("every path of {depth} transformations through {n} systems related by datum shifts, from {np} positions, by fwd and by bwd"), move |c| {
        let sys = systems();
        let p = c.val(&pts);
        let dirs = c.choose(3);
        let s0 = c.choose(n);
        walk(c, &sys, p, dirs, s0, depth, |c, _| c.choose(n))
    })];
    let (d, q): (&'static [(u32, usize)], usize) = if thorough { (&[(3, 199), (4, 53), (5, 23)], 199) } else { (&[(3, 101), (4, 31), (5, 17)], 101) };
    let idx = |n: usize| (0..n).map(|i| i as f64).collect::<Vec<f64>>();
    let args = vec![("longitudes", uniq([joint_deg(180.0, q / 2), grid(-20.0, 28.0, q / 2)].concat())), ("latitudes", joint_deg(90.0, q)), ("heights", joint_len(6, q).into_iter().filter(|h| *h > -2e5).collect()), ("first systems", idx(n)), ("second", idx(n)), ("third", idx(n)), ("fourth", idx(n)), ("fifth", idx(n)), ("patterns of directions", idx(3))];
    let sys = systems();
    out.push(tuples("tuples", "position and 5 systems of a path of 4 transformations", d, args, move |c, x| walk(c, &sys, (x[0], x[1], x[2]), x[8] as usize, x[3] as usize, 4, |_, k| x[4 + k] as usize)));
    out
}
/// Follow a path and compare the coordinates in each system with the model's.
fn walk(c: &mut Ctx, sys: &[AnyCrs], (lo, la, h): (f64, f64, f64), dirs: usize, start: usize, depth: usize, mut next: impl FnMut(&mut Ctx, usize) -> usize) -> R {
    let sh = shifts();
    // one shift per datum
    let of = |s: &AnyCrs| match s.datum().id() {
        "WGS84" => sh[0],
        "GGRS87" => sh[1],
        "NTF" => sh[2],
        "AIRY" => sh[3],
        _ => NOSHIFT,
    };
    let mut cur = start;
    // the state of the model: a position in the reference frame
    let s0 = of(&sys[cur]);
    let r0 = ell(sys[cur].datum().ellipsoid());
    let mut w = r0.to_xyz(lo * RAD, la * RAD, if sys[cur].dim() == 3 { h } else { 0.0 });
    // the polar axis is left to C14
    if la.abs() > 89.9999 {
        return Ok(());
    }
    let Img::Ok(x0) = sys[cur].img(w) else { return Ok(()) };
    let mut x = x0;
    let mut path = String::new();
    let mut tol = 0.0;
    w = s0.fwd(w);
    for k in 0..depth {
        let nxt = next(c, k);
        let back = match dirs {
            0 => false,
            1 => true,
            _ => k % 2 == 1,
        };
        let (a, b) = (&sys[cur], &sys[nxt]);
        let mut o = [0.0; 3];
        let r = if back {
            CrsXYZTransformation::new(b.clone(), a.clone(), of(b), of(a)).bwd(&x[..a.dim()], &mut o[..b.dim()])
        } else {
            CrsXYZTransformation::new(a.clone(), b.clone(), of(a), of(b)).fwd(&x[..a.dim()], &mut o[..b.dim()])
        };
        if c.note.is_some() {
            path.push_str(&format!("{} -> {} ", a.name(), b.name()));
        }
        let wd = of(b).inv(w);
        let Img::Ok(want) = b.img(wd) else { return Ok(()) };
        ensure!(r.is_ok(), "hop-err", "{path}: {r:?}");
        tol += (a.err() + b.err()) * (1.0 + h.abs() / r0.a);
        b.same(&o, &want, tol, &|| format!("hop {k}, {} -> {} of ({lo},{la},{h})", a.name(), b.name()))?;
        c.step(&o);
        w = of(b).fwd(surf(b, wd));
        x = o;
        cur = nxt;
    }
    c.log(|| path.clone());
    Ok(())
}
#[allow(dead_code)]
fn _unused() -> f64 {
    FRAC_PI_2
}
