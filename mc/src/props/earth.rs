//! C06 axes, C07 ellipsoids and catalogues, C08 geodetic to geocentric, C09 geocentric to geodetic,
//! C22 equality.
use crate::dom::*;
use crate::engine::*;
use crate::refm::*;
use crate::{close, ensure};
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::geodesy::{ellipsoid, geodetic_datum, prime_meridian, Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD as URAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::{FRAC_PI_2, PI};

/// The named units, a whole turn, and the nautical mile.
pub const AU: [(AngleUnit, f64); 5] = [(URAD, 1.0), (DEG, PI / 180.0), (GRAD, PI / 200.0), (SEC, PI / 648_000.0), (AngleUnit(2.0 * PI, 1.0), 2.0 * PI)];
pub const LU: [(LengthUnit, f64); 4] = [(M, 1.0), (FT, 0.3048), (US_FT, 1200.0 / 3937.0), (LengthUnit(1852.0, 1.0), 1852.0)];

/// Geodetic axes by index: layout 0..5 = ENU, NEU, EN, NE, NW.
pub fn gaxes(layout: usize, au: AngleUnit, hu: LengthUnit) -> GeodeticAxes {
    match layout {
        0 => GeodeticAxes::EastNorthUp { angle_unit: au, height_unit: hu },
        1 => GeodeticAxes::NorthEastUp { angle_unit: au, height_unit: hu },
        2 => GeodeticAxes::EastNorth { angle_unit: au },
        3 => GeodeticAxes::NorthEast { angle_unit: au },
        _ => GeodeticAxes::NorthWest { angle_unit: au },
    }
}
/// (index of longitude, index of latitude, sign of longitude, dimension)
pub fn glayout(layout: usize) -> (usize, usize, f64, usize) {
    [(0, 1, 1.0, 3), (1, 0, 1.0, 3), (0, 1, 1.0, 2), (1, 0, 1.0, 2), (1, 0, -1.0, 2)][layout]
}
pub fn ang(x: f64) -> Angle {
    Angle::new(x, URAD)
}
pub fn wrap(x: f64) -> f64 {
    x.sin().atan2(x.cos())
}

fn chk_geodetic(c: &mut Ctx, layout: usize, (au, per): (AngleUnit, f64), (hu, hper): (LengthUnit, f64), lon: f64, lat: f64, h: f64) -> R {
    let (il, ip, sg, dim) = glayout(layout);
    let ax = gaxes(layout, au, hu);
    let mut v = [0.0; 3];
    v[il] = sg * lon * RAD / per;
    v[ip] = lat * RAD / per;
    v[2] = h / hper;
    let llh = ax.normalize(&v[..dim]);
    let (gl, gp, gh) = (llh.lon.angle().rad(), llh.lat.angle().rad(), llh.height.m());
    let el = lon * RAD;
    ensure!(gl.abs() <= PI, "lon", "{ax:?}.normalize({v:?}): longitude {gl:?} out of range");
    let dl = if lon.abs() < 179.999999 { (gl - el).abs() } else { (gl.sin() - el.sin()).hypot(gl.cos() - el.cos()) };
    close!("lon", dl, 0.0, 2e-14, "{ax:?}.normalize({v:?}): longitude {gl:?} expected {el:?};");
    close!("lat", gp, (lat * RAD).clamp(-FRAC_PI_2, FRAC_PI_2), 4e-15, "{ax:?}.normalize({v:?}) latitude");
    close!("height", gh, if dim == 3 { h } else { 0.0 }, 1e-14 * (1.0 + h.abs()), "{ax:?}.normalize({v:?}) height");
    c.step(&[gl, gp, gh]);
    // back
    let mut w = [f64::NAN; 3];
    ax.denormalize(llh, &mut w[..dim]);
    close!("denormalize", w[il], sg * gl / per, 4e-15 * (1.0 + (gl / per).abs()), "{ax:?}.denormalize({llh}) longitude");
    close!("denormalize", w[ip], gp / per, 4e-15 * (1.0 + (gp / per).abs()), "{ax:?}.denormalize({llh}) latitude");
    if dim == 3 {
        close!("denormalize", w[2], gh / hper, 4e-15 * (1.0 + (gh / hper).abs()), "{ax:?}.denormalize({llh}) height");
    }
    let b = ax.normalize(&w[..dim]);
    close!("round-trip", adiff(b.lon.angle().rad(), gl), 0.0, 4e-15, "normalize(denormalize({llh})) lon");
    close!("round-trip", b.lat.angle().rad(), gp, 4e-15, "normalize(denormalize({llh})) lat");
    close!("round-trip", b.height.m(), gh, 1e-14 * (1.0 + gh.abs()), "normalize(denormalize({llh})) height");
    Ok(())
}
fn chk_cartesian(c: &mut Ctx, x: f64, y: f64, z: f64) -> R {
    let tol = |v: f64| 4e-15 * v.abs() + 1e-300;
    let g = GeocentricAxes::XYZ.normalize(&[x, y, z]);
    for (got, want) in [(g.x.m(), x), (g.y.m(), y), (g.z.m(), z)] {
        close!("xyz", got, want, tol(want), "geocentric normalize({x},{y},{z})");
    }
    let mut w = [f64::NAN; 3];
    GeocentricAxes::XYZ.denormalize(g, &mut w);
    for (got, want) in [(w[0], x), (w[1], y), (w[2], z)] {
        close!("xyz", got, want, tol(want), "geocentric denormalize({x},{y},{z})");
    }
    ensure!(GeocentricAxes::XYZ.dim() == 3, "dim", "geocentric dim");
    for (u, per) in LU {
        let a2 = ProjectedAxes::EastNorth { horiz_unit: u };
        ensure!(a2.dim() == 2, "dim", "projected 2D dim");
        let e = a2.normalize(&[x, y]);
        close!("enh", e.easting.m(), x * per, tol(x * per), "{a2:?}.normalize({x},{y}) easting");
        close!("enh", e.northing.m(), y * per, tol(y * per), "{a2:?}.normalize({x},{y}) northing");
        close!("enh", e.height.m(), 0.0, 0.0_f64.max(1e-300), "{a2:?}.normalize({x},{y}) height");
        let mut w = [f64::NAN; 2];
        a2.denormalize(ENH { height: z * M, ..e }, &mut w);
        close!("enh", w[0], x, tol(x), "{a2:?}.denormalize easting");
        close!("enh", w[1], y, tol(y), "{a2:?}.denormalize northing");
        for (hu, hper) in LU {
            let a3 = ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu };
            ensure!(a3.dim() == 3, "dim", "projected 3D dim");
            let e = a3.normalize(&[x, y, z]);
            close!("enh", e.easting.m(), x * per, tol(x * per), "{a3:?}.normalize({x},{y},{z}) easting");
            close!("enh", e.northing.m(), y * per, tol(y * per), "{a3:?}.normalize({x},{y},{z}) northing");
            close!("enh", e.height.m(), z * hper, tol(z * hper), "{a3:?}.normalize({x},{y},{z}) height");
            let mut w = [f64::NAN; 3];
            a3.denormalize(e, &mut w);
            for (got, want) in [(w[0], x), (w[1], y), (w[2], z)] {
                close!("enh", got, want, tol(want), "{a3:?}.denormalize({x},{y},{z})");
            }
            c.step(&[e.easting.m(), e.northing.m(), e.height.m()]);
        }
    }
    Ok(())
}
pub fn c06(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let k = if thorough { 16 } else { 8 };
    let lons = uniq([grid(-540.0, 540.0, 108 * k), lons_deg(36), vec![181.0, -181.0, 359.5, -359.5, 720.25, 2.5e-5]].concat());
    let lats = uniq([grid(-100.0, 100.0, 40 * k), lats_deg(18)].concat());
    let hs = [0.0, 1.0, -1.0, 123.456, -432.1, 8848.86, 1e6, 3.5e-3, -11_034.0, -1.3e5, -5e6, 4.2e7, 1e-9, 3.8e8];
    let n = (lons.len(), lats.len());
    out.push(dfs("geodetic-normalize", format!("5 axes layouts x 5 angle units x 4 height units x {} longitudes x {} latitudes x {} heights", n.0, n.1, hs.len()), move |c| {
        let layout = c.choose(5);
        let (au, per) = c.val(&AU);
        let (il, ip, sg, dim) = glayout(layout);
        let hus: &[(LengthUnit, f64)] = if dim == 3 { &LU } else { &LU[..1] };
        let (hu, hper) = c.val(hus);
        let ax = gaxes(layout, au, hu);
        ensure!(ax.dim() == dim, "dim", "dim of {ax:?} = {}", ax.dim());
        let lon = c.val(&lons);
        for (jj, &lat) in lats.iter().enumerate() {
            let h = hs[jj % hs.len()];
            chk_geodetic(c, layout, (au, per), (hu, hper), lon, lat, h)?;
        }
        Ok(())
    }));
    out.push(dfs("spare-entries", "5 geodetic, 2 projected and the geocentric layouts x 1 to 3 entries beyond the dimension, NaN, infinite, zero or ordinary", move |c| {
        let k = c.choose(8);
        let extra = 1 + c.choose(3);
        let fill = c.val(&[7.75, f64::NAN, 0.0, -1e9, f64::INFINITY, 0.25]);
        let (x, y, h) = c.val(&[(1.0, 0.5, 3.0), (-0.25, -0.75, 0.0), (0.5, 0.5, -120.0)]);
        let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
        let (dim, names): (usize, String);
        let norm: Box<dyn Fn(&[f64]) -> Vec<f64>>;
        let denorm: Box<dyn Fn(&mut [f64])>;
        match k {
            0..=4 => {
                let ax = gaxes(k, AU[1].0, LU[1].0);
                (dim, names) = (ax.dim(), format!("{ax:?}"));
                norm = Box::new(move |v| {
                    let g = ax.normalize(v);
                    vec![g.lon.angle().rad(), g.lat.angle().rad(), g.height.m()]
                });
                denorm = Box::new(move |v| ax.denormalize(LLH { lon: Lon::rad(x), lat: Lat::new(ang(y)), height: h * M }, v));
            }
            5 | 6 => {
                let ax = if k == 5 { ProjectedAxes::EastNorth { horiz_unit: LU[1].0 } } else { ProjectedAxes::EastNorthUp { horiz_unit: LU[1].0, height_unit: LU[2].0 } };
                (dim, names) = (ax.dim(), format!("{ax:?}"));
                norm = Box::new(move |v| {
                    let g = ax.normalize(v);
                    vec![g.easting.m(), g.northing.m(), g.height.m()]
                });
                denorm = Box::new(move |v| ax.denormalize(ENH { easting: x * M, northing: y * M, height: h * M }, v));
            }
            _ => {
                let ax = GeocentricAxes::XYZ;
                (dim, names) = (ax.dim(), format!("{ax:?}"));
                norm = Box::new(move |v| {
                    let g = ax.normalize(v);
                    vec![g.x.m(), g.y.m(), g.z.m()]
                });
                denorm = Box::new(move |v| ax.denormalize(XYZ { x: x * M, y: y * M, z: h * M }, v));
            }
        }
        let exact = [x, y, h][..dim].to_vec();
        let mut long = exact.clone();
        long.resize(dim + extra, fill);
        let (a, b) = (norm(&exact), norm(&long));
        ensure!(bits(&a) == bits(&b), "spare", "{names}: normalize({long:?}) = {b:?}, without the spare entries {a:?}");
        let mut w = vec![0.0; dim];
        denorm(&mut w);
        let mut v = vec![fill; dim + extra];
        denorm(&mut v);
        ensure!(bits(&v[..dim]) == bits(&w) && v[dim..].iter().all(|z| z.to_bits() == fill.to_bits()), "spare", "{names}: denormalize gives {v:?} in a buffer of {} entries {fill}, {w:?} in one of {dim}", dim + extra);
        c.step(&[k as f64, extra as f64, x]);
        Ok(())
    }));
    out.push(history("histories", "normalizing, denormalizing and tolerances in 5 layouts x 3 angle units x 2 height units, geocentric and projected axes, of coordinates with common values", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        for l in 0..5 {
            for (k, (au, _)) in AU.iter().enumerate().take(3) {
                for hu in [M, LU[1].0] {
                    if l > 1 && hu == M {
                        continue;
                    }
                    let ax = gaxes(l, *au, hu);
                    let d = ax.dim();
                    for x in [[1.0, 0.5, 3.0], [0.5, 1.0, 3.0]] {
                        v.push((format!("normalize {l} {k} {x:?}"), Box::new(move || {
                            let g = ax.normalize(&x[..d]);
                            vec![g.lon.angle().rad(), g.lat.angle().rad(), g.height.m()]
                        })));
                    }
                    v.push((format!("denormalize {l} {k}"), Box::new(move || {
                        let mut o = [0.0; 3];
                        ax.denormalize(LLH { lon: Lon::deg(12.0), lat: Lat::deg(7.0), height: 30.0 * M }, &mut o[..d]);
                        o.to_vec()
                    })));
                    v.push((format!("tolerance {l} {k}"), Box::new(move || ax.denormalize_tol(GeodeticTolerance { lon: ang(1e-6), lat: ang(2e-6), height: 0.5 * M }).to_vec())));
                }
            }
        }
        v
    }));
    let tv = uniq([mags(-13, 3)].concat());
    let nt = tv.len();
    out.push(dfs("tolerances", format!("5+2+1 axes layouts x units x {nt}^2 tolerances"), move |c| {
        let (a, b) = (c.val(&tv), c.val(&tv));
        let h = 0.37 * a + 11.0;
        // the default axes are those of the normalised form
        let ax = GeodeticAxes::default();
        let llh = ax.normalize(&[a / 1e3 * 3.1, b / 1e3 * 1.5, h]);
        ensure!(ax == gaxes(0, URAD, M) && llh.lon.angle().rad() == a / 1e3 * 3.1 && llh.lat.angle().rad() == (b / 1e3 * 1.5).clamp(-FRAC_PI_2, FRAC_PI_2) && llh.height.m() == h || a.abs() > 1e3, "default-axes", "{ax:?}: {llh}");
        for layout in 0..5 {
            let (il, ip, _, dim) = glayout(layout);
            for (au, per) in AU {
                for (hu, hper) in LU {
                    let ax = gaxes(layout, au, hu);
                    let t = ax.denormalize_tol(GeodeticTolerance { lon: ang(a), lat: ang(b), height: h * M });
                    ensure!(t.len() == dim, "tol-dim", "{ax:?} tolerance has {} components", t.len());
                    close!("tol", t[il], a / per, 4e-15 * (a / per).abs() + 1e-300, "{ax:?} longitude tolerance");
                    close!("tol", t[ip], b / per, 4e-15 * (b / per).abs() + 1e-300, "{ax:?} latitude tolerance");
                    if dim == 3 {
                        close!("tol", t[2], h / hper, 4e-15 * (h / hper).abs(), "{ax:?} height tolerance");
                    }
                }
            }
        }
        for (u, per) in LU {
            for (hu, hper) in LU {
                let t3 = ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu }.denormalize_tol(ProjectedTolerance { horiz: a * M, height: b * M });
                ensure!(t3.len() == 3, "tol-dim", "projected 3D tolerance has {} components", t3.len());
                for (g, w) in [(t3[0], a / per), (t3[1], a / per), (t3[2], b / hper)] {
                    close!("tol", g, w, 4e-15 * w.abs() + 1e-300, "projected tolerance {u:?} {hu:?}");
                }
            }
            let t2 = ProjectedAxes::EastNorth { horiz_unit: u }.denormalize_tol(ProjectedTolerance { horiz: a * M, height: b * M });
            ensure!(t2.len() == 2, "tol-dim", "projected 2D tolerance has {} components", t2.len());
            for g in t2 {
                close!("tol", g, a / per, 4e-15 * (a / per).abs() + 1e-300, "projected tolerance {u:?}");
            }
        }
        let t = GeocentricAxes::XYZ.denormalize_tol(CartesianTolerance { all: a * M });
        ensure!(t.len() == 3, "tol-dim", "geocentric tolerance has {} components", t.len());
        for g in t {
            close!("tol", g, a, 4e-15 * a.abs() + 1e-300, "geocentric tolerance");
        }
        c.step(&[a, b]);
        Ok(())
    }));
    let xs = uniq([mags(-4, 9), grid(-7e6, 7e6, if thorough { 280 } else { 140 })].concat());
    let nx = xs.len();
    out.push(dfs("cartesian", format!("{nx}^2 coordinate pairs x 4 x 4 length units, projected 2D/3D and geocentric axes"), move |c| {
        let (x, y) = (c.val(&xs), c.val(&xs));
        let z = 0.5 * x - 0.25 * y + 3.0;
        chk_cartesian(c, x, y, z)
    }));
    let (d, n) = if thorough { (DEEPER, 401) } else { (DEEP, 199) };
    let idx = |n: usize| (0..n).map(|i| i as f64).collect::<Vec<f64>>();
    let args = vec![("layouts", idx(5)), ("angle units", idx(AU.len())), ("height units", idx(LU.len())), ("longitudes", uniq([joint_deg(360.0, 3 * n / 4), grid(-1800.0, 1800.0, n / 4)].concat())), ("latitudes", uniq([joint_deg(90.0, 9 * n / 10), grid(-200.0, 200.0, n / 10)].concat())), ("heights", joint_len(8, n))];
    out.push(tuples("tuples-geodetic", "layout, units and coordinates", d, args, |c, x| chk_geodetic(c, x[0] as usize, AU[x[1] as usize], LU[x[2] as usize], x[3], x[4], x[5])));
    let args = vec![("x", joint_len(9, n)), ("y", joint_len(9, n)), ("z", joint_len(9, n))];
    out.push(tuples("tuples-cartesian", "projected 2D/3D and geocentric axes in all units", if thorough { &[(3, 199)] } else { &[(3, 101)] }, args, |c, x| chk_cartesian(c, x[0], x[1], x[2])));
    out
}

/// The published definitions: name, semi-major axis, and either the semi-minor axis or the inverse flattening.
pub enum Def {
    B(f64),
    F(f64),
}
use Def::*;
macro_rules! table {
    ($($c:ident $name:literal $a:literal $d:expr;)*) => {
        pub fn catalogue() -> Vec<(&'static str, Ellipsoid, &'static str, f64, Def)> {
            vec![$((stringify!($c), ellipsoid::consts::$c, $name, $a, $d)),*]
        }
    };
}
table! {
    AIRY "Airy 1830" 6377563.396 F(299.3249646);
    ANDRAE "Andrae 1876 (Den., Iclnd.)" 6377104.43 F(300.0);
    DANISH "Andrae 1876 (Denmark, Iceland)" 6377019.2563 F(300.0);
    APL_4_9 "Appl. Physics. 1965" 6378137.0 F(298.25);
    AUST_SA "Australian Natl & S. Amer. 1969" 6378160.0 F(298.25);
    BESSEL "Bessel 1841" 6377397.155 F(299.1528128);
    BESS_NAM "Bessel 1841 (Namibia)" 6377483.865 F(299.1528128);
    CLRK66 "Clarke 1866" 6378206.4 B(6356583.8);
    CLRK80 "Clarke 1880 mod." 6378249.145 F(293.4663);
    CLRK80IGN "Clarke 1880 (IGN)." 6378249.2 F(293.4660212936269);
    CPM "Comm. des Poids et Mesures 1799" 6375738.7 F(334.29);
    DELMBR "Delambre 1810 (Belgium)" 6376428.0 F(311.5);
    ENGELIS "Engelis 1985" 6378136.05 F(298.2566);
    EVRST30 "Everest 1830" 6377276.345 F(300.8017);
    EVRST48 "Everest 1948" 6377304.063 F(300.8017);
    EVRST56 "Everest 1956" 6377301.243 F(300.8017);
    EVRST69 "Everest 1969" 6377295.664 F(300.8017);
    EVRSTSS "Everest (Sabah & Sarawak)" 6377298.556 F(300.8017);
    FSCHR60 "Fischer (Mercury Datum) 1960" 6378166.0 F(298.3);
    FSCHR68 "Fischer 1968" 6378150.0 F(298.3);
    GSK2011 "GSK-2011" 6378136.5 F(298.2564151);
    GRS67 "GRS 1967(IUGG, 1967)" 6378160.0 F(298.2471674270);
    GRS80 "GRS 1980(IUGG, 1980)" 6378137.0 F(298.257222101);
    IAU76 "IAU 1976" 6378140.0 F(298.257);
    HELMERT "Helmert 1906" 6378200.0 F(298.3);
    HOUGH "Hough" 6378270.0 F(297.0);
    INTL "International 1924 (Hayford 1909, 1910)" 6378388.0 F(297.0);
    KAULA "Kaula 1961" 6378163.0 F(298.24);
    KRASS "Krassovsky, 1942" 6378245.0 F(298.3);
    LERCH "Lerch 1979" 6378139.0 F(298.257);
    MPRTS "Maupertuis 1738" 6397300.0 F(191.0);
    MERIT "MERIT 1983" 6378137.0 F(298.257);
    MOD_AIRY "Modified Airy" 6377340.189 B(6356034.446);
    FSCHR60M "Modified Fischer 1960" 6378155.0 F(298.3);
    NWL9D "Naval Weapons Lab., 1965" 6378145.0 F(298.25);
    NEW_INTL "New International 1967" 6378157.5 B(6356772.2);
    PLESSIS "Plessis 1817 (France)" 6376523.0 B(6355863.0);
    PZ90 "PZ-90" 6378136.0 F(298.25784);
    SEASIA "Southeast Asia" 6378155.0 B(6356773.3205);
    SGS85 "Soviet Geodetic System 85" 6378136.0 F(298.257);
    WALBECK "Walbeck" 6376896.0 B(6355834.8467);
    WGS60 "WGS 60" 6378165.0 F(298.3);
    WGS66 "WGS 66" 6378145.0 F(298.25);
    WGS72 "WGS 72" 6378135.0 F(298.26);
    WGS84 "WGS 84" 6378137.0 F(298.257223563);
    SPHERE "Normal Sphere (r=6370997)" 6370997.0 B(6370997.0);
}

pub fn meridians() -> Vec<(PrimeMeridian, &'static str, f64)> {
    use prime_meridian::consts::*;
    vec![
        (GREENWICH, "Greenwich", 0.0),
        (LISBON, "Lisbon", -9.131906111111),
        (PARIS, "Paris", 2.337229166667),
        (BOGOTA, "Bogota", -74.080916666667),
        (MADRID, "Madrid", -3.687938888889),
        (ROME, "Rome", 12.452333333333),
        (BERN, "Bern", 7.439583333333),
        (JAKARTA, "Jakarta", 106.807719444444),
        (FERRO, "Ferro", -17.666666666667),
        (BRUSSELS, "Brussels", 4.367975),
        (STOCKHOLM, "Stockholm", 18.058277777778),
        (ATHENS, "Athens", 23.7163375),
        (OSLO, "Oslo", 10.722916666667),
        (COPENHAGEN, "Copenhagen", 12.57788),
    ]
}

/// All derived parameters of `e` agree with the definition (a, b).
fn chk_ellipsoid(e: &Ellipsoid, a: f64, b: f64, lats: &[f64]) -> R {
    let r = Ell::ab(a, b);
    let f = (a - b) / a;
    close!("a", e.a().m(), a, 1e-15 * a, "a of {e}");
    close!("b", e.b().m(), b, 1e-15 * a, "b of {e}");
    close!("a2", e.a_sq(), a * a, 1e-15 * a * a, "a_sq of {e}");
    close!("b2", e.b_sq(), b * b, 2e-15 * a * a, "b_sq of {e}");
    close!("f", e.f(), f, 2e-15, "f of {e}");
    if a == b {
        ensure!(e.is_spherical() && e.invf().is_infinite() && e.invf() > 0.0 && e.f() == 0.0, "sphere", "{e} is not a sphere");
    } else {
        ensure!(!e.is_spherical(), "sphere", "{e} is a sphere");
        // invf amplifies the rounding of b
        close!("invf", e.invf() * f, 1.0, 1e-14 + 4e-16 / f, "invf of {e}");
    }
    close!("n", e.n(), (a - b) / (a + b), 2e-15, "n of {e}");
    close!("e2", e.e_sq(), r.e2, 2e-15, "e_sq of {e}");
    close!("e", e.e() * e.e(), r.e2, 2e-15, "e of {e}");
    ensure!(e.e() >= 0.0 && e.e_prime() >= 0.0, "e", "negative eccentricity of {e}");
    let ep2 = (a - b) * (a + b) / (b * b);
    close!("ep2", e.e_prime_sq(), ep2, 3e-15 * (a * a) / (b * b), "e_prime_sq of {e}");
    close!("ep", e.e_prime() * e.e_prime(), ep2, 3e-15 * (a * a) / (b * b), "e_prime of {e}");
    for &d in lats {
        let lat = Lat::deg(d);
        let p = lat.angle().rad();
        let (s, k) = p.sin_cos();
        // tan(beta) = (1-f) tan(lat), tan(psi) = (1-e2) tan(lat), via atan2
        let beta = (b / a * s).atan2(k);
        let psi = (b * b / (a * a) * s).atan2(k);
        close!("reduced", e.reduced_latitude(lat).rad(), beta, 2e-15, "reduced latitude at {d} deg of {e}");
        close!("geocentric", e.geocentric_latitude(lat).rad(), psi, 2e-15 + 1e-15 * (a / b) * (a / b), "geocentric latitude at {d} deg of {e}");
        // radii from the parametric form
        let w2 = (k * k * a * a + s * s * b * b) / (a * a);
        let nn = a / w2.sqrt();
        let mm = (b / a) * b / (w2 * w2.sqrt());
        let t = 2e-14 * (a / b) * (a / b);
        close!("N", e.prime_vertical_radius(lat).m() / nn, 1.0, t, "prime vertical radius at {d} deg of {e}");
        close!("M", e.prime_meridional_radius(lat).m() / mm, 1.0, t * 4.0, "meridional radius at {d} deg of {e}");
        close!("R", e.conformal_sphere_radius(lat).m() / (nn * mm).sqrt(), 1.0, t * 4.0, "conformal sphere radius at {d} deg of {e}");
    }
    Ok(())
}

pub fn c07(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lats = lats_deg(if thorough { 7200 } else { 3600 });
    let l2 = lats.clone();
    out.push(dfs("catalogue", "46 named ellipsoids, 14 prime meridians, 4 datums against the published definitions", move |c| {
        let cat = catalogue();
        let (id, e, name, a, def) = c.pick(&cat);
        ensure!(e.name() == *name, "name", "name of {id} is {:?}", e.name());
        let b = match def {
            B(b) => *b,
            F(f) => a * (1.0 - 1.0 / f),
        };
        close!("def-a", e.a().m(), *a, 1e-9, "semi-major axis of {id}");
        close!("def-b", e.b().m(), b, 2e-9, "semi-minor axis of {id}");
        match def {
            F(f) => close!("def-invf", e.invf(), *f, 1e-12 * f, "inverse flattening of {id}"),
            B(b) if b == a => ensure!(e.is_spherical(), "def-invf", "{id} is not spherical"),
            B(b) => close!("def-invf", e.invf(), a / (a - b), 1e-12 * e.invf(), "inverse flattening of {id}"),
        }
        chk_ellipsoid(e, *a, e.b().m(), &l2)?;
        // the same ellipsoid built at run time
        let rt = match def {
            B(b) => Ellipsoid::from_ab(name, *a * M, *b * M),
            F(f) => Ellipsoid::from_ainvf(name, *a * M, *f),
        };
        close!("rebuild", rt.a().m(), e.a().m(), 1e-9, "rebuilt {id}");
        close!("rebuild", rt.b().m(), e.b().m(), 2e-9, "rebuilt {id}");
        c.step(&[e.a().m(), e.b().m()]);
        Ok(())
    }));
    out.push(dfs("meridians", "14 named prime meridians; user prime meridians at 0.1 degree", move |c| {
        let ms = meridians();
        let k = c.choose(ms.len() + 7200);
        if k < ms.len() {
            let (m, name, deg) = &ms[k];
            ensure!(m.name() == *name, "pm-name", "name {:?}", m.name());
            close!("pm-lon", m.lon().angle().rad(), deg * RAD, 1e-15 * deg.abs().max(1.0), "longitude of {name}");
            c.step(&[m.lon().angle().rad()]);
        } else {
            let d = (k - ms.len()) as f64 * 0.1 - 360.0;
            let m = PrimeMeridian::new("x", Lon::deg(d));
            let l = m.lon().angle().rad();
            ensure!(m.name() == "x" && l > -PI && l <= PI, "pm-lon", "PrimeMeridian::new({d}) = {m}");
            let e = d * RAD;
            close!("pm-lon", (l.sin() - e.sin()).hypot(l.cos() - e.cos()), 0.0, 1e-14, "PrimeMeridian::new({d}) = {m}");
            let m = PrimeMeridian::new("y", Lon::MIN);
            ensure!(m.lon() == Lon::MAX, "pm-lon", "PrimeMeridian::new(-180 deg) = {m}");
            c.step(&[l]);
        }
        Ok(())
    }));
    out.push(dfs("datums", "4 named datums", |c| {
        use geodetic_datum::consts::*;
        let t = [(WGS84, "WGS84", 6378137.0, 298.257223563), (GGRS87, "GGRS87", 6378137.0, 298.257222101), (NAD83, "NAD83", 6378137.0, 298.257222101), (RNB72, "RNB72", 6378388.0, 297.0)];
        let (d, id, a, invf) = c.pick(&t);
        ensure!(d.id() == *id, "datum", "id {:?}", d.id());
        close!("datum", d.ellipsoid().a().m(), *a, 1e-9, "a of {id}");
        close!("datum", d.ellipsoid().invf(), *invf, 1e-9, "invf of {id}");
        close!("datum", d.prime_meridian().lon().angle().rad(), 0.0, 1e-18, "prime meridian of {id}");
        c.step(&[*a, *invf]);
        let d2 = GeodeticDatum::new(id, d.ellipsoid().clone(), d.prime_meridian().clone());
        ensure!(&d2 == d && d2.id() == *id, "datum", "rebuilt {id}");
        Ok(())
    }));
    let axes = uniq([1.0, 2.5, 1e-3, 1737400.0, 3396190.0, 6356752.3, 6378137.0, 6378388.0, 7e7, 1e9].to_vec());
    let ratios: Vec<f64> = {
        let mut v = vec![];
        for k in 1..=if thorough { 4000 } else { 2000 } {
            v.push(1.0 - 1.0 / (1.5 + 1.7 * k as f64));
        }
        for e in -15..=-1 {
            for m in [1.0, 2.2, 4.6] {
                v.push(1.0 - m * 10f64.powi(e));
            }
        }
        v.push(1.0);
        v
    };
    let (na, nr) = (axes.len(), ratios.len());
    let lats2 = lats_deg(36);
    out.push(dfs("from_ab", format!("{na} semi-major axes x {nr} axis ratios x {} latitudes", lats2.len()), move |c| {
        let a = c.val(&axes);
        let q = c.val(&ratios);
        let b = a * q;
        let e = Ellipsoid::from_ab("t", a * M, b * M);
        ensure!(e.name() == "t", "name", "name of {e}");
        chk_ellipsoid(&e, a, b, &lats2)?;
        c.step(&[e.invf(), e.e_sq()]);
        // through another unit
        let e2 = Ellipsoid::from_ab("t", Length::new(a / 0.3048, FT), Length::new(b / 0.3048, FT));
        close!("ft", e2.a().m(), a, 1e-15 * a, "a in feet");
        Ok(())
    }));
    let axes = [1.0, 6378137.0, 6378388.0, 3396190.0, 1e9];
    let lats3 = lats_deg(36);
    out.push(dfs("from_ainvf", "5 semi-major axes x 2000+ inverse flattenings", move |c| {
        let a = c.val(&axes);
        let k = c.choose(2100);
        let invf = if k < 1000 { 1.01 + 0.5 * k as f64 } else if k < 2000 { 250.0 + 0.1 * (k - 1000) as f64 } else if k == 2099 { f64::INFINITY } else { 10f64.powf(2.0 + 0.1 * (k - 2000) as f64) };
        let e = Ellipsoid::from_ainvf("u", a * M, invf);
        close!("invf-kept", if invf.is_finite() { e.invf() / invf } else if e.invf() == invf { 1.0 } else { 0.0 }, 1.0, 1e-15, "from_ainvf({a},{invf}) invf");
        let b = a * (1.0 - 1.0 / invf);
        close!("b", e.b().m(), b, 1e-15 * a, "from_ainvf({a},{invf}) b");
        close!("f", e.f(), 1.0 / invf, 1e-15, "from_ainvf({a},{invf}) f");
        if invf < 1e12 || invf.is_infinite() {
            chk_ellipsoid(&e, a, e.b().m(), &lats3)?;
        }
        c.step(&[e.b().m()]);
        Ok(())
    }));
    out.push(dfs("rejects", "invalid axes and flattenings are rejected", |c| {
        let vals = [-6378137.0, -1.0, -0.0, 0.0, 1.0, 6356752.0, 6378137.0];
        let (a, b) = (c.val(&vals), c.val(&vals));
        let bad = !(b > 0.0) || a < b;
        let p = panics(|| {
            Ellipsoid::from_ab("r", a * M, b * M);
        });
        ensure!(p == bad, "reject-ab", "from_ab({a},{b}) panics={p}");
        for f in [-300.0, -1.0, 0.0, 0.5, 1.0, 1.0000001, 2.0, 298.0, f64::INFINITY] {
            let bad = !(a > 0.0) || !(f > 1.0);
            let p = panics(|| {
                Ellipsoid::from_ainvf("r", a * M, f);
            });
            ensure!(p == bad, "reject-ainvf", "from_ainvf({a},{f}) panics={p}");
        }
        c.step(&[a, b, p as u8 as f64]);
        Ok(())
    }));
    out.push(history("histories", "radii and auxiliary latitudes of 6 ellipsoids with common parameters at 5 latitudes, their parameters", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        for (i, e) in kin().into_iter().enumerate() {
            let e = std::rc::Rc::new(e);
            for d in [47.5, -47.5, 0.0, 90.0, 12.0] {
                for op in 0..5 {
                    let e = e.clone();
                    v.push((format!("#{i} op{op} at {d}"), Box::new(move || {
                        let l = Lat::deg(d);
                        vec![match op {
                            0 => e.prime_vertical_radius(l).m(),
                            1 => e.prime_meridional_radius(l).m(),
                            2 => e.conformal_sphere_radius(l).m(),
                            3 => e.reduced_latitude(l).rad(),
                            _ => e.geocentric_latitude(l).rad(),
                        }]
                    })));
                }
            }
            v.push((format!("#{i} parameters"), Box::new(move || vec![e.a().m(), e.b().m(), e.f(), e.n(), e.e_sq(), e.e(), e.e_prime_sq(), e.e_prime(), e.is_spherical() as u8 as f64])));
        }
        v
    }));
    out
}

/// Datums over the kindred ellipsoids and two prime meridians.
pub fn kin_datums() -> Vec<GeodeticDatum> {
    let mut v = vec![];
    for e in kin() {
        for l in [0.0, 2.5] {
            v.push(GeodeticDatum::new("d", e.clone(), PrimeMeridian::new("m", Lon::deg(l))));
        }
    }
    v
}
fn kin_calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    for (i, d) in kin_datums().into_iter().enumerate() {
        let d = std::rc::Rc::new(d);
        let xyz = |g: XYZ| vec![g.x.m(), g.y.m(), g.z.m()];
        for (k, p) in KINP.into_iter().enumerate() {
            let x = LLH { lon: Lon::deg(p.0), lat: Lat::deg(p.1), height: p.2 * M };
            let d1 = d.clone();
            v.push((format!("#{i} to_xyz {k}"), Box::new(move || xyz(d1.llh_to_xyz(x)))));
            // the same geocentric position for every datum
            let w = Ell::ab(6_378_137.0, 6_356_752.0).to_xyz(p.0 * RAD, p.1 * RAD, p.2);
            let w = XYZ { x: w[0] * M, y: w[1] * M, z: w[2] * M };
            let d1 = d.clone();
            v.push((format!("#{i} to_llh {k}"), Box::new(move || {
                let g = d1.xyz_to_llh(w);
                vec![g.lon.angle().rad(), g.lat.angle().rad(), g.height.m()]
            })));
        }
    }
    v
}

/// Ellipsoids used for coordinate conversions: catalogue and extreme shapes.
pub fn shapes() -> Vec<Ellipsoid> {
    let mut v: Vec<Ellipsoid> = catalogue().into_iter().map(|t| t.1).collect();
    v.push(Ellipsoid::from_ab("unit sphere", 1.0 * M, 1.0 * M));
    v.push(Ellipsoid::from_ab("moon", 1_737_400.0 * M, 1_737_400.0 * M));
    v.push(Ellipsoid::from_ainvf("mars", 3_396_190.0 * M, 169.894));
    v.push(Ellipsoid::from_ainvf("saturn", 60_268_000.0 * M, 10.2));
    v.push(Ellipsoid::from_ainvf("near sphere", 6_371_000.0 * M, 1e7));
    v.push(Ellipsoid::from_ainvf("nearer sphere", 6_371_000.0 * M, 3e9));
    v.push(Ellipsoid::from_ainvf("jupiter", 71_492_000.0 * M, 15.4));
    v
}
/// Ellipsoids that agree in some of their parameters only (axis, flattening, name).
pub fn kin() -> Vec<Ellipsoid> {
    vec![
        ellipsoid::consts::WGS84,
        ellipsoid::consts::GRS80,
        Ellipsoid::from_ainvf("WGS 84", 6_378_137.0 * M, 150.0),
        // twice as large, the same flattening and eccentricity to the last bit
        Ellipsoid::from_ainvf("WGS 84", 12_756_274.0 * M, 298.257223563),
        Ellipsoid::from_ab("WGS 84", 6_378_137.0 * M, 6_378_137.0 * M),
        Ellipsoid::from_ab("WGS 84", 6_000_000.0 * M, 6_000_000.0 * M),
    ]
}
/// Positions that agree in some of their coordinates only: degrees, degrees, metres.
pub const KINP: [(f64, f64, f64); 6] = [(12.25, 47.5, 310.0), (12.25, -47.5, 310.0), (-33.0, 47.5, 310.0), (12.25, 47.5, 0.0), (12.25, 0.0, 0.0), (12.25, 90.0, 310.0)];

pub fn ell(e: &Ellipsoid) -> Ell {
    Ell::ab(e.a().m(), e.b().m())
}
fn pms() -> Vec<PrimeMeridian> {
    let mut v: Vec<PrimeMeridian> = meridians().into_iter().map(|m| m.0).collect();
    v.push(PrimeMeridian::new("anti", Lon::MAX));
    v.push(PrimeMeridian::new("west", Lon::deg(-179.5)));
    v.push(PrimeMeridian::new("q", Lon::deg(90.0)));
    v.push(PrimeMeridian::new("close", Lon::deg(0.003)));
    v.push(PrimeMeridian::new("closer", Lon::deg(-2e-7)));
    v
}

/// The forward conversion at one position.
fn chk_fwd(c: &mut Ctx, e: &Ellipsoid, d: &GeodeticDatum, pm: &PrimeMeridian, r: &Ell, lon: f64, lat: f64, h: f64) -> R {
    let (lo, la) = (Lon::deg(lon), Lat::deg(lat));
    let g = d.llh_to_xyz(LLH { lon: lo, lat: la, height: h * M });
    let w = r.to_xyz(lo.angle().rad() + pm.lon().angle().rad(), la.angle().rad(), h);
    let tol = 4e-15 * (r.a + h.abs());
    close!("x", g.x.m(), w[0], tol, "{} pm {} ({lon},{lat},{h}) x", e.name(), pm.name());
    close!("y", g.y.m(), w[1], tol, "{} pm {} ({lon},{lat},{h}) y", e.name(), pm.name());
    close!("z", g.z.m(), w[2], tol, "{} pm {} ({lon},{lat},{h}) z", e.name(), pm.name());
    c.step(&[g.x.m(), g.y.m(), g.z.m()]);
    Ok(())
}
/// The inverse conversion of the position at (lon, lat) and height `q` semi-minor axes.
fn chk_inv(c: &mut Ctx, e: &Ellipsoid, d: &GeodeticDatum, pm: &PrimeMeridian, r: &Ell, lon: f64, latd: f64, q: f64) -> R {
    let (gwl, lat) = (lon * RAD, Lat::deg(latd).angle().rad());
    let h = q * r.b;
    let w = r.to_xyz(gwl, lat, h);
    let g = d.xyz_to_llh(XYZ { x: w[0] * M, y: w[1] * M, z: w[2] * M });
    let (gl, gp, gh) = (g.lon.angle().rad(), g.lat.angle().rad(), g.height.m());
    ensure!(gl.abs() <= PI && gp.abs() <= FRAC_PI_2 && gh.is_finite(), "range", "{} xyz {w:?} -> {g}", e.name());
    let size = r.a + h.abs();
    // condition number of the inverse problem near the evolute
    let cond = if q < 0.0 { 1.0 / (1.0 + q - 2.0 * r.e2).max(0.05) } else { 1.0 };
    close!("height", gh, h, 2e-14 * size * cond, "{} ({lon},{latd},{h}) height", e.name());
    let pt = (r.b + h).max(0.05 * r.b);
    close!("lat", (gp - lat).abs() * pt, 0.0, 1e-14 * size * cond * 4.0, "{} ({lon},{latd},{h}) -> {g}: latitude error [m]", e.name());
    let p = w[0].hypot(w[1]);
    if p > 0.0 {
        let dl = adiff(gl, gwl - pm.lon().angle().rad());
        close!("lon", dl.abs() * p, 0.0, 1e-14 * size, "{} pm {} ({lon},{latd},{h}) -> {g}: longitude error [m]", e.name(), pm.name());
    }
    // and back through the library
    let b = d.llh_to_xyz(g);
    close!("back", dist3([b.x.m(), b.y.m(), b.z.m()], w), 0.0, 4e-14 * size * cond, "{} pm {} ({lon},{latd},{h}) -> {g} and back: position error [m]", e.name(), pm.name());
    c.step(&[gl, gp, gh]);
    Ok(())
}
/// One argument at a time over a dense set of values, the others at a few base values.
fn sweep_earth(name: &'static str, thorough: bool, chk: impl Fn(&mut Ctx, &Ellipsoid, &GeodeticDatum, &PrimeMeridian, &Ell, f64, f64, f64) -> R + Send + Sync + 'static) -> Scenario {
    let k = if thorough { 8 } else { 1 };
    let lons = dense_deg(180.0, 14_400 * k);
    let lats = dense_deg(90.0, 14_400 * k);
    let hs = dense_len(8, 60 * k);
    let inv = uniq([log_grid(1, 10, 60 * k), grid(280.0, 320.0, 400 * k)].concat());
    let ax = log_grid(-3, 9, 60 * k);
    let n = (lons.len(), lats.len(), hs.len(), inv.len(), ax.len());
    dfs(name, format!("one argument at a time, from 12 base positions on 3 ellipsoids and 2 prime meridians: {} longitudes, {} latitudes, {} heights, {} longitudes of the prime meridian, {} flattenings, {} semi-major axes", n.0, n.1, n.2, n.0, n.3, n.4), move |c| {
        let base = c.val(&[(2.3, 44.0, 100.0), (-2.3, 44.0, -30.0), (2.3, -44.0, 0.0), (-122.4, -33.9, 2500.0), (151.2, 0.0, 0.0), (0.0, 89.99, 1.0), (180.0, 12.5, -4000.0), (-179.999, 65.0, 400_000.0), (90.0, -89.0, 10.0), (-90.0, 1e-7, 20_200_000.0), (45.0, 45.0, 1e-4), (-135.0, -60.1, 7.5)]);
        let e = c.val(&[0, 1, 2]);
        let mut e = [ellipsoid::consts::WGS84, ellipsoid::consts::SPHERE, Ellipsoid::from_ainvf("flat", 6_400_000.0 * M, 40.0)][e].clone();
        let mut pm = PrimeMeridian::new("p", Lon::deg(c.val(&[0.0, 2.337_229_166_67])));
        let dim = c.choose(6);
        let vs = [&lons, &lats, &hs, &lons, &inv, &ax][dim];
        for &v in c.part(vs, 16) {
            let (mut lon, mut lat, mut h) = base;
            match dim {
                0 => lon = v,
                1 => lat = v,
                2 => h = v,
                3 => pm = PrimeMeridian::new("p", Lon::deg(v)),
                4 => e = Ellipsoid::from_ainvf("swept", e.a(), v),
                _ => {
                    e = if e.is_spherical() { Ellipsoid::from_ab("swept", v * M, v * M) } else { Ellipsoid::from_ainvf("swept", v * M, e.invf()) };
                    h *= v / 6_400_000.0;
                }
            }
            let r = ell(&e);
            if h < -0.3 * r.b {
                continue;
            }
            let d = GeodeticDatum::new("t", e.clone(), pm.clone());
            chk(c, &e, &d, &pm, &r, lon, lat, h)?;
        }
        Ok(())
    })
}

/// Joint values of all arguments.
fn tuples_earth(thorough: bool, inv: bool, chk: impl Fn(&mut Ctx, &Ellipsoid, &GeodeticDatum, &PrimeMeridian, &Ell, f64, f64, f64) -> R + Send + Sync + 'static) -> Scenario {
    let (d, n) = if thorough { (DEEPER, 401) } else { (DEEP, 199) };
    // heights in metres, or (inverse) in semi-minor axes
    let hs = if inv { uniq([joint_len(0, n / 2).iter().map(|x| x * 0.3).collect(), joint_log(-5.0, 1.77, n / 2), vec![-0.5, -0.8]].concat()) } else { joint_len(8, n) };
    let args = vec![("longitudes", joint_deg(180.0, n)), ("latitudes", joint_deg(90.0, n)), ("heights", hs), ("longitudes of the prime meridian", joint_deg(180.0, n)), ("inverse flattenings", [joint_invf(1.0, n), vec![f64::INFINITY]].concat()), ("semi-major axes", joint_log(-3.0, 9.0, n))];
    tuples("tuples", "position, prime meridian and ellipsoid", d, args, move |c, x| {
        let e = if x[4].is_infinite() { Ellipsoid::from_ab("sphere", x[5] * M, x[5] * M) } else { Ellipsoid::from_ainvf("joint", x[5] * M, x[4]) };
        let pm = PrimeMeridian::new("p", Lon::deg(x[3]));
        let r = ell(&e);
        let h = if inv { x[2] } else { x[2] * x[5] / 6.4e6 };
        // outside the range of the property (for the inverse, away from the evolute)
        if h < if inv { -0.8 + 2.0 * r.e2 } else { -0.8 * r.b } {
            return Ok(());
        }
        let d = GeodeticDatum::new("t", e.clone(), pm.clone());
        chk(c, &e, &d, &pm, &r, x[0], x[1], h)
    })
}

pub fn c08(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lons = lons_deg(if thorough { 144 } else { 72 });
    let lats = lats_deg(if thorough { 180 } else { 90 });
    let hs = [0.0, 1.0, -1.0, 1234.5, -4321.0, 8848.86, -10994.0, 35_786_000.0, -3e6, 4e8, 1e-3];
    let n = (lons.len(), lats.len(), hs.len());
    let sh = shapes();
    let ns = sh.len();
    out.push(dfs("forward", format!("{ns} ellipsoids x {} prime meridians x {} longitudes x {} latitudes x {} heights", pms().len(), n.0, n.1, n.2), move |c| {
        let si = c.choose(sh.len());
        let pmi = c.choose(pms().len());
        let e = &sh[si];
        // every prime meridian on WGS84, the sphere and Clarke; every ellipsoid on four of them
        let few = !(e.name() == "WGS 84" || e.is_spherical() || e.name().starts_with("Clarke 1880 (IGN)"));
        if few && pmi >= 2 && pmi < 14 {
            return Ok(());
        }
        let pm = &pms()[pmi];
        let d = GeodeticDatum::new("t", e.clone(), pm.clone());
        let r = ell(e);
        let lon = c.val(&lons);
        for &lat in &lats {
            for &h in &hs {
                chk_fwd(c, e, &d, pm, &r, lon, lat, h)?;
            }
        }
        Ok(())
    }));
    out.push(sweep_earth("sweeps", thorough, |c, e, d, pm, r, lon, lat, h| chk_fwd(c, e, d, pm, r, lon, lat, h)));
    out.push(tuples_earth(thorough, false, |c, e, d, pm, r, lon, lat, h| chk_fwd(c, e, d, pm, r, lon, lat, h)));
    out.push(history("histories", "both conversions of 12 datums with common parameters at 6 positions", if thorough { 3 } else { 2 }, kin_calls));
    out
}

pub fn c09(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let lons = lons_deg(if thorough { 144 } else { 72 });
    let lats = lats_deg(if thorough { 360 } else { 90 });
    // heights as multiples of the semi-minor axis, from deep inside to far outside
    let hr = [0.0, 1e-7, -1e-7, 1e-3, -1e-3, 1.4e-3, -1.7e-3, 0.05, -0.05, -0.3, -0.6, -0.8, 1.0, 5.6, 60.0, 1e-10];
    let n = (lons.len(), lats.len(), hr.len());
    let sh = shapes();
    let ns = sh.len();
    out.push(dfs("inverse", format!("{ns} ellipsoids x {} prime meridians x {} longitudes x {} latitudes x {} heights from -0.8 to 60 radii", pms().len(), n.0, n.1, n.2), move |c| {
        let si = c.choose(sh.len());
        let pmi = c.choose(pms().len());
        let e = &sh[si];
        let few = !(e.name() == "WGS 84" || e.is_spherical() || e.name().starts_with("Clarke 1880 (IGN)"));
        if few && pmi >= 2 && pmi < 14 {
            return Ok(());
        }
        let pm = &pms()[pmi];
        let d = GeodeticDatum::new("t", e.clone(), pm.clone());
        let r = ell(e);
        let lon = c.val(&lons);
        let deep = if r.f > 0.02 { -0.3 } else { -0.8 };
        for &latd in &lats {
            for &q in &hr {
                if q < deep {
                    continue;
                }
                chk_inv(c, e, &d, pm, &r, lon, latd, q)?;
            }
        }
        Ok(())
    }));
    out.push(sweep_earth("sweeps", thorough, |c, e, d, pm, r, lon, lat, h| chk_inv(c, e, d, pm, r, lon, lat, h / r.b)));
    out.push(tuples_earth(thorough, true, chk_inv));
    // raw geocentric coordinates, including points on the axes and coordinate planes
    let sh = shapes();
    let fr = uniq([vec![0.0, -0.0, 1e-20, -1e-20, 1e-9, -1e-9, 1e-3, -1e-3], grid(-2.0, 2.0, if thorough { 80 } else { 32 }), vec![10.0, -10.0]].concat());
    let nf = fr.len();
    out.push(dfs("raw-xyz", format!("{ns} ellipsoids x {nf}^3 geocentric coordinates (in units of the semi-major axis), axes and coordinate planes included, outside 0.3 radii from the centre"), move |c| {
        let e = c.pick(&sh);
        let r = ell(e);
        let pm = PrimeMeridian::new("p", Lon::deg(*c.pick(&[0.0, 2.337229166667, -74.0])));
        let d = GeodeticDatum::new("t", e.clone(), pm.clone());
        let x = c.val(&fr) * r.a;
        for &fy in &fr {
            for &fz in &fr {
                let w = [x, fy * r.a, fz * r.a];
                let rad = dist3(w, [0.0; 3]);
                if rad < 0.35 * r.a {
                    continue;
                }
                let g = d.xyz_to_llh(XYZ { x: w[0] * M, y: w[1] * M, z: w[2] * M });
                let (gl, gp, gh) = (g.lon.angle().rad(), g.lat.angle().rad(), g.height.m());
                ensure!(gl.abs() <= PI && gp.abs() <= FRAC_PI_2 && gh.is_finite(), "range", "{} xyz {w:?} -> {g}", e.name());
                let b = r.to_xyz(gl + pm.lon().angle().rad(), gp, gh);
                close!("position", dist3(b, w), 0.0, 1e-13 * (r.a + rad), "{} xyz {w:?} -> {g}: position error [m]", e.name());
                // the foot point is the nearest: same hemisphere, height within bounds
                ensure!(w[2] == 0.0 || gp == 0.0 || (gp > 0.0) == (w[2] > 0.0), "hemisphere", "{} xyz {w:?} -> {g}", e.name());
                ensure!(gh >= -r.a && gh <= rad - r.b + 1e-6 * r.a.min(1.0), "foot", "{} xyz {w:?} -> {g}", e.name());
                c.step(&[gl, gp, gh]);
            }
        }
        Ok(())
    }));
    out.push(history("histories", "both conversions of 12 datums with common parameters at 6 positions", if thorough { 3 } else { 2 }, kin_calls));
    // a short way off the equatorial plane and the axis of rotation
    let sh = shapes();
    let small = uniq(mags(-9, 3));
    out.push(dfs("near-planes", format!("{} ellipsoids x {} small distances [m] from the equatorial plane, from the meridian plane of the prime meridian and of the antimeridian, from the axis of rotation x 4 distances from the centre", sh.len(), small.len()), move |c| {
        let e = c.pick(&sh);
        let r = ell(e);
        let pm = PrimeMeridian::new("p", Lon::deg(*c.pick(&[0.0, 2.337229166667, 180.0])));
        let d = GeodeticDatum::new("t", e.clone(), pm.clone());
        let s = c.val(&small);
        for k in [0.8, 1.0, 1.3, 7.0] {
            let q = k * r.a;
            for w in [[q, 0.0, s], [0.6 * q, -0.8 * q, s], [-q, s, 0.0], [q, s, 0.0], [-0.6 * q, s, 0.8 * q], [0.6 * q, s, -0.8 * q], [s, 0.0, q], [s, -s, -q], [0.0, s, q], [s, 0.5 * s, -q], [s, q, 0.0], [s, -0.6 * q, 0.8 * q], [-q, s, s]] {
                let rad = dist3(w, [0.0; 3]);
                let g = d.xyz_to_llh(XYZ { x: w[0] * M, y: w[1] * M, z: w[2] * M });
                let (gl, gp, gh) = (g.lon.angle().rad(), g.lat.angle().rad(), g.height.m());
                ensure!(gl.abs() <= PI && gp.abs() <= FRAC_PI_2 && gh.is_finite(), "range", "{} xyz {w:?} -> {g}", e.name());
                let b = r.to_xyz(gl + pm.lon().angle().rad(), gp, gh);
                close!("position", dist3(b, w), 0.0, 4e-15 * (r.a + rad), "{} xyz {w:?} -> {g}: position error [m]", e.name());
                c.step(&[gl, gp, gh]);
            }
        }
        Ok(())
    }));
    out
}

pub fn c22(_thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // ellipsoids: same figure, whatever the name
    let a = [6378137.0, 6378388.0, 6378137.0000001, 6378137.000000001];
    let f = [298.257223563, 298.257222101, 297.0, f64::INFINITY, 298.2572235630003];
    let names = ["A", "B"];
    let mut els: Vec<(Ellipsoid, usize)> = vec![];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in f.iter().enumerate() {
            for n in names {
                els.push((Ellipsoid::from_ainvf(n, *x * M, *y), i * 10 + j));
            }
        }
    }
    let e2 = els.clone();
    out.push(dfs("ellipsoids", format!("all pairs of {} ellipsoids differing in name, axis, flattening; all pairs of the catalogue", els.len()), move |c| {
        let cat = catalogue();
        let i = c.choose(els.len() + cat.len());
        let j = c.choose(els.len() + cat.len());
        let get = |k: usize| if k < els.len() { els[k].0.clone() } else { cat[k - els.len()].1.clone() };
        let (x, y) = (get(i), get(j));
        let want = x.a() == y.a() && x.b() == y.b() && x.invf() == y.invf();
        ensure!((x == y) == want && (y == x) == want && (x != y) != want, "ellipsoid-eq", "{x} == {y} is {}", x == y);
        if i < els.len() && j < els.len() {
            ensure!((x == y) == (els[i].1 == els[j].1), "ellipsoid-eq", "{x} == {y} is {}", x == y);
        }
        ensure!(x == x.clone(), "reflexive", "{x} != itself");
        c.step(&[i as f64, j as f64, want as u8 as f64]);
        Ok(())
    }));
    // mirrored, nearly equal (a few 1e-13 rad, one unit in the last place) and equal longitudes
    let pl = [0.0, 2.337229166667, 180.0, -180.0, 12.0, -12.0, -2.337229166667, 12.00000000003, 12.000000000000002, 1e-13, -1e-13, 179.9999999999];
    let mut pmv: Vec<(PrimeMeridian, usize)> = vec![];
    for (k, l) in pl.iter().enumerate() {
        for n in names {
            pmv.push((PrimeMeridian::new(n, Lon::deg(*l)), if k == 3 { 2 } else { k }));
        }
    }
    let ids = ["WGS84", "wgs84", ""];
    let pmv2 = pmv.clone();
    out.push(dfs("meridians", "all pairs of 24 prime meridians differing in name and longitude", move |c| {
        let (i, j) = (c.choose(pmv.len()), c.choose(pmv.len()));
        let want = pmv[i].1 == pmv[j].1;
        ensure!((pmv[i].0 == pmv[j].0) == want, "pm-eq", "{} == {}", pmv[i].0, pmv[j].0);
        c.step(&[i as f64, j as f64, want as u8 as f64]);
        Ok(())
    }));
    out.push(dfs("zones", "projected systems in all pairs of UTM zones, north and south", move |c| {
        let (i, j) = (c.choose(120), c.choose(120));
        let spec = |k: usize| {
            let zone = (k % 60 + 1) as u8;
            if k < 60 { geokit::projections::ProjectionSpec::UTMNorth { zone } } else { geokit::projections::ProjectionSpec::UTMSouth { zone } }
        };
        let crs = |k: usize| geokit::crs::projected::ProjectedCrs { id: "p".into(), datum: geodetic_datum::consts::WGS84, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: spec(k) };
        ensure!((spec(i) == spec(j)) == (i == j) && (crs(i) == crs(j)) == (i == j) && (crs(i) != crs(j)) == (i != j), "crs-eq", "{:?} and {:?}: equal is {}", spec(i), spec(j), crs(i) == crs(j));
        c.step(&[i as f64, j as f64]);
        Ok(())
    }));
    out.push(dfs("datums", "all pairs of datums over 3 ids x 40 ellipsoids x 24 prime meridians", move |c| {
        let mk = |i: usize, e: usize, p: usize| GeodeticDatum::new(ids[i], e2[e].0.clone(), pmv2[p].0.clone());
        let (i, e, p) = (c.choose(3), c.choose(e2.len()), c.choose(pmv2.len()));
        let x = mk(i, e, p);
        for i2 in 0..3 {
            for ee in 0..e2.len() {
                for pp in 0..pmv2.len() {
                    let y = mk(i2, ee, pp);
                    let want = i == i2 && e2[e].1 == e2[ee].1 && pmv2[p].1 == pmv2[pp].1;
                    ensure!((x == y) == want && (y == x) == want, "datum-eq", "{x} == {y} is {}", x == y);
                    c.step(&[i as f64, e as f64, p as f64, i2 as f64, ee as f64, pp as f64]);
                }
            }
        }
        Ok(())
    }));
    // CRS: equal iff id, datum, axes (and projection) are
    use geokit::crs::{geocentric::GeocentricCrs, geographic::GeographicCrs, projected::ProjectedCrs};
    use geokit::crs::Crs;
    use geokit::projections::ProjectionSpec;
    out.push(dfs("crs", "all pairs of CRS definitions over 2 ids x 5 datums x all axes layouts and units x 58 projections (every parameter changed, mirrored, changed a little)", move |c| {
        let ids = ["a", "b"];
        let datums = [geodetic_datum::consts::WGS84, geodetic_datum::consts::GGRS87, GeodeticDatum::new("WGS84", ellipsoid::consts::GRS80, prime_meridian::consts::GREENWICH), GeodeticDatum::new("WGS84", ellipsoid::consts::WGS84, PrimeMeridian::new("Greenwich", Lon::deg(3.0))), GeodeticDatum::new("WGS84", ellipsoid::consts::WGS84, PrimeMeridian::new("Greenwich", Lon::deg(-3.0)))];
        let (i, d) = (c.choose(2), c.choose(5));
        let (i2, d2) = (c.choose(2), c.choose(5));
        let base = i == i2 && d == d2;
        let g1 = GeocentricCrs { id: ids[i].into(), datum: datums[d].clone(), axes: GeocentricAxes::XYZ };
        let g2 = GeocentricCrs { id: ids[i2].into(), datum: datums[d2].clone(), axes: GeocentricAxes::XYZ };
        ensure!((g1 == g2) == base && (g2 == g1) == base && g1.id() == ids[i] && g1.dim() == 3, "geocentric-eq", "{g1:?} == {g2:?}");
        let mut gax = vec![];
        for l in 0..5 {
            for au in AU[..4].iter().map(|u| u.0).chain([AngleUnit(PI, 180.0000001)]) {
                if l < 2 {
                    for hu in LU[..3].iter().map(|u| u.0).chain([LengthUnit(0.304_800_000_1, 1.0)]) {
                        gax.push(gaxes(l, au, hu));
                    }
                } else {
                    gax.push(gaxes(l, au, M));
                }
            }
        }
        for (k, a1) in gax.iter().enumerate() {
            let x = GeographicCrs { id: ids[i].into(), datum: datums[d].clone(), axes: *a1 };
            ensure!(x.id() == ids[i] && x.dim() == a1.dim(), "crs-id", "{x:?}");
            for (m, a2) in gax.iter().enumerate() {
                let y = GeographicCrs { id: ids[i2].into(), datum: datums[d2].clone(), axes: *a2 };
                ensure!((x == y) == (base && k == m) && (y == x) == (base && k == m), "geographic-eq", "{x:?} == {y:?}");
                c.step(&[i as f64, d as f64, i2 as f64, d2 as f64, k as f64, m as f64]);
            }
        }
        let z = Length::ZERO;
        let sp = [
            ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 1.0, false_easting: z, false_northing: z },
            ProjectionSpec::Mercator1SP { lon0: Lon::ZERO, k0: 0.9996, false_easting: z, false_northing: z },
            ProjectionSpec::Mercator2SP { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: z, false_northing: z },
            ProjectionSpec::UTMNorth { zone: 31 },
            ProjectionSpec::UTMNorth { zone: 32 },
            ProjectionSpec::UTMSouth { zone: 31 },
            ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, k0: 1.0, false_easting: z, false_northing: z },
            ProjectionSpec::WebMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, false_easting: z, false_northing: z },
        ];
        // every projection with every single parameter changed
        let sp: Vec<ProjectionSpec> = {
            let mut v = sp.to_vec();
            let (l, p, m) = (Lon::deg(1.0), Lat::deg(1.0), 1.0 * M);
            for (lon0, k0, e, n) in [(l, 1.0, z, z), (Lon::ZERO, 1.0, m, z), (Lon::ZERO, 1.0, z, m)] {
                v.push(ProjectionSpec::Mercator1SP { lon0, k0, false_easting: e, false_northing: n });
            }
            for (lon0, lat0, e, n) in [(l, Lat::ZERO, z, z), (Lon::ZERO, p, z, z), (Lon::ZERO, Lat::ZERO, m, z), (Lon::ZERO, Lat::ZERO, z, m)] {
                v.push(ProjectionSpec::Mercator2SP { lon0, lat0, false_easting: e, false_northing: n });
                v.push(ProjectionSpec::WebMercator { lon0, lat0, false_easting: e, false_northing: n });
                v.push(ProjectionSpec::TransverseMercator { lon0, lat0, k0: 1.0, false_easting: e, false_northing: n });
            }
            v.push(ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0: Lat::ZERO, k0: 0.9996, false_easting: z, false_northing: z });
            // mirrored and nearly equal parameters
            let (l, p, m) = (Lon::deg(1e-11), Lat::deg(1e-11), 1e-5 * M);
            let (ln, pn, mn) = (Lon::deg(-1.0), Lat::deg(-1.0), -1.0 * M);
            for (lon0, lat0, k0, e, n) in [
                (l, Lat::ZERO, 1.0, z, z),
                (Lon::ZERO, p, 1.0, z, z),
                (Lon::ZERO, Lat::ZERO, 1.0 + 1e-13, z, z),
                (Lon::ZERO, Lat::ZERO, 1.0, m, z),
                (Lon::ZERO, Lat::ZERO, 1.0, z, m),
                (ln, Lat::ZERO, 1.0, z, z),
                (Lon::ZERO, pn, 1.0, z, z),
                (Lon::ZERO, Lat::ZERO, 1.0, mn, z),
                (Lon::ZERO, Lat::ZERO, 1.0, z, mn),
            ] {
                if lat0 == Lat::ZERO {
                    v.push(ProjectionSpec::Mercator1SP { lon0, k0, false_easting: e, false_northing: n });
                }
                if k0 == 1.0 {
                    v.push(ProjectionSpec::Mercator2SP { lon0, lat0, false_easting: e, false_northing: n });
                    v.push(ProjectionSpec::WebMercator { lon0, lat0, false_easting: e, false_northing: n });
                }
                v.push(ProjectionSpec::TransverseMercator { lon0, lat0, k0, false_easting: e, false_northing: n });
            }
            v.push(ProjectionSpec::UTMSouth { zone: 32 });
            v.push(ProjectionSpec::UTMNorth { zone: 30 });
            v
        };
        let mut pax = vec![];
        for (u, _) in LU.into_iter().take(3) {
            pax.push(ProjectedAxes::EastNorth { horiz_unit: u });
            for (h, _) in LU.into_iter().take(3) {
                pax.push(ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: h });
            }
        }
        for (k, s1) in sp.iter().enumerate() {
            for (q, p1) in pax.iter().enumerate() {
                let x = ProjectedCrs { id: ids[i].into(), datum: datums[d].clone(), axes: *p1, projection: *s1 };
                ensure!(x.id() == ids[i] && x.dim() == p1.dim(), "crs-id", "{x:?}");
                for (m, s2) in sp.iter().enumerate() {
                    for (w, p2) in pax.iter().enumerate() {
                        let y = ProjectedCrs { id: ids[i2].into(), datum: datums[d2].clone(), axes: *p2, projection: *s2 };
                        let want = base && k == m && q == w;
                        ensure!((x == y) == want && (y == x) == want, "projected-eq", "{x:?} == {y:?}");
                        c.step(&[k as f64, q as f64, m as f64, w as f64, base as u8 as f64]);
                    }
                }
            }
        }
        Ok(())
    }));
    out
}
