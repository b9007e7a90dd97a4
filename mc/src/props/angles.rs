//! C01 wrapping, C02 clamping, C03 quantities and units, C04 sexagesimal, C05 circle intervals.
use crate::dom::*;
use crate::engine::*;
use crate::{close, ensure};
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::cs::s1::Interval;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::{ArcLength, Length};
use geokit::quantities::scale::PPM;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD as URAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn ang(x: f64) -> Angle {
    Angle::new(x, URAD)
}

/// Distance on the circle between two angles, through sin/cos (argument reduction of libm).
fn circ(a: f64, b: f64) -> f64 {
    (a.sin() - b.sin()).hypot(a.cos() - b.cos())
}
fn wrap_tol(mag: f64) -> f64 {
    3e-15 + 8e-16 * mag
}

/// `got` must be a wrapped image of `exact` (mag = the largest operand involved).
fn chk_wrapped(what: &str, got: f64, exact: f64, mag: f64, closed: bool) -> R {
    ensure!(got <= PI && (if closed { got >= -PI } else { got > -PI }), "range", "{what}: {got:?} out of range (exact value {exact:?})");
    if mag <= 1e12 {
        close!("congruent", circ(got, exact), 0.0, wrap_tol(mag), "{what}: {got:?} is not congruent to {exact:?};");
    }
    if exact.abs() < PI - wrap_tol(mag) || (mag == exact.abs() && exact.abs() <= PI && (closed || exact > -PI)) {
        close!("identity", got, exact, wrap_tol(mag), "{what}: in-range value moved");
    }
    Ok(())
}

fn reals_rad(thorough: bool) -> Vec<f64> {
    let mut v = octants(if thorough { 96 } else { 80 }, -16, -1);
    v.extend(mags(-20, 18));
    v.extend(mags(300, 307));
    v.push(f64::MAX);
    v.push(f64::MIN);
    v.push(f64::MIN_POSITIVE);
    v.push(-f64::MIN_POSITIVE);
    v.push(-0.0);
    v.extend(grid(-20.0, 20.0, if thorough { 8_000_000 } else { 2_000_000 }));
    v.extend(grid(-2000.0, 2000.0, if thorough { 800_000 } else { 400_000 }));
    uniq(v)
}

pub fn c01(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let xs = reals_rad(thorough);
    out.push(dfs("construct", format!("{} angles in radians (all multiples of pi/4 up to 10 turns with their floating point neighbours and log-spaced offsets, magnitudes 1e-20..1.8e308, dense grid), every wrapping constructor/normalizer", xs.len()), move |c| {
        let x = c.val(&xs);
        c.log(|| format!("x={x:?}"));
        let m = x.abs();
        chk_wrapped("Angle::normalized", ang(x).normalized().rad(), x, m, false)?;
        let mut a = ang(x);
        a.normalize();
        chk_wrapped("Angle::normalize", a.rad(), x, m, false)?;
        chk_wrapped("Lon::new", Lon::new(ang(x)).angle().rad(), x, m, true)?;
        chk_wrapped("Lon::rad", Lon::rad(x).angle().rad(), x, m, true)?;
        let n = Lon::rad(x).normalized().angle().rad();
        chk_wrapped("Lon::normalized", n, x, m, false)?;
        chk_wrapped("Azimuth::new", Azimuth::new(ang(x)).angle().rad(), x, m, false)?;
        let z = Azimuth::rad(x).angle().rad();
        chk_wrapped("Azimuth::rad", z, x, m, false)?;
        c.step(&[n, z, Lon::rad(x).angle().rad()]);
        // trigonometry of the wrapped value agrees with the value
        if m < 1e3 {
            let l = Lon::rad(x);
            close!("trig", l.sin(), x.sin(), wrap_tol(m), "Lon::sin");
            close!("trig", l.cos(), x.cos(), wrap_tol(m), "Lon::cos");
            let (s, k) = l.sin_cos();
            close!("trig", s, x.sin(), wrap_tol(m), "Lon::sin_cos.0");
            close!("trig", k, x.cos(), wrap_tol(m), "Lon::sin_cos.1");
            let w = Azimuth::rad(x);
            close!("trig", w.sin(), x.sin(), wrap_tol(m), "Azimuth::sin");
            close!("trig", w.cos(), x.cos(), wrap_tol(m), "Azimuth::cos");
            let (s, k) = w.sin_cos();
            close!("trig", s, x.sin(), wrap_tol(m), "Azimuth::sin_cos.0");
            close!("trig", k, x.cos(), wrap_tol(m), "Azimuth::sin_cos.1");
            if x.cos().abs() > 0.1 {
                close!("trig", l.tan(), x.tan(), 300.0 * wrap_tol(m), "Lon::tan");
                close!("trig", w.tan(), x.tan(), 300.0 * wrap_tol(m), "Azimuth::tan");
            }
            ensure!(l.signum() == l.angle().rad().signum(), "trig", "Lon::signum of {l:?}");
        }
        Ok(())
    }));
    // degrees and other units
    let mut ds = vec![];
    for k in -48..=48 {
        ds.extend(near(k as f64 * 15.0, &[1e-13, 1e-10, 1e-7, 1e-3]));
        ds.extend(near(k as f64 * 90.0, &[1e-14, 1e-12, 1e-9, 1e-5, 0.3]));
    }
    ds.extend(mags(-3, 9));
    ds.extend(grid(-1080.0, 1080.0, if thorough { 4_320_000 } else { 1_080_000 }));
    let ds = uniq(ds);
    out.push(dfs("construct-units", format!("{} angles in degrees/gradians/seconds", ds.len()), move |c| {
        let x = c.val(&ds);
        let e = x * RAD;
        let m = e.abs() * 1.5;
        chk_wrapped("Lon::deg", Lon::deg(x).angle().rad(), e, m, true)?;
        let z = Azimuth::deg(x).angle().rad();
        chk_wrapped("Azimuth::deg", z, e, m, false)?;
        c.step(&[z, x]);
        for (u, per) in [(DEG, RAD), (GRAD, PI / 200.0), (SEC, RAD / 3600.0), (URAD, 1.0)] {
            let e = x * per;
            chk_wrapped("Lon::new(unit)", Lon::new(x * u).angle().rad(), e, e.abs() * 1.5, true)?;
            chk_wrapped("normalized(unit)", (x * u).normalized().rad(), e, e.abs() * 1.5, false)?;
        }
        Ok(())
    }));
    // pairs
    let mut av = octants(if thorough { 16 } else { 12 }, -15, -15);
    av.extend(grid(-7.0, 7.0, if thorough { 2800 } else { 1400 }));
    av.extend([1e-300, -1e-300, 1e-9, -1e-9, 1e-5, -1e-5, -0.0]);
    let av = uniq(av);
    let mut bv = octants(if thorough { 32 } else { 24 }, -15, -15);
    bv.extend(grid(-30.0, 30.0, if thorough { 3000 } else { 1800 }));
    bv.extend([1e3, -1e3, 1e6, -1e6, 1e9, -1e9, 1e-12, -1e-12, 1e15, -1e300]);
    let bv = uniq(bv);
    let nb = (av.len(), bv.len());
    out.push(dfs("binary", format!("{} x {} operand pairs, every additive operator on longitudes and azimuths", nb.0, nb.1), move |c| {
        let a = c.val(&av);
        for &b in &bv {
            let (la, lb) = (Lon::rad(a), Lon::rad(b));
            let (va, vb) = (la.angle().rad(), lb.angle().rad());
            let m = va.abs().max(b.abs());
            let s = (la + ang(b)).angle().rad();
            chk_wrapped(&format!("Lon {va:?} + {b:?}"), s, va + b, m, true)?;
            chk_wrapped(&format!("{b:?} + Lon {va:?}"), (ang(b) + la).angle().rad(), va + b, m, true)?;
            let d = (la - ang(b)).angle().rad();
            chk_wrapped(&format!("Lon {va:?} - {b:?}"), d, va - b, m, true)?;
            let mut t = la;
            t += ang(b);
            chk_wrapped(&format!("Lon {va:?} += {b:?}"), t.angle().rad(), va + b, m, true)?;
            let mut t = la;
            t -= ang(b);
            chk_wrapped(&format!("Lon {va:?} -= {b:?}"), t.angle().rad(), va - b, m, true)?;
            let dd = (la - lb).rad();
            chk_wrapped(&format!("Lon {va:?} - Lon {vb:?}"), dd, va - vb, va.abs().max(vb.abs()), false)?;
            chk_wrapped(&format!("{a:?} diff_to {b:?}"), ang(a).diff_to(ang(b)).rad(), b - a, a.abs().max(b.abs()), false)?;
            let (za, zb) = (Azimuth::rad(a), Azimuth::rad(b));
            let (wa, wb) = (za.angle().rad(), zb.angle().rad());
            chk_wrapped(&format!("Azimuth {wa:?} + {b:?}"), (za + ang(b)).angle().rad(), wa + b, wa.abs().max(b.abs()), false)?;
            chk_wrapped(&format!("{b:?} + Azimuth {wa:?}"), (ang(b) + za).angle().rad(), wa + b, wa.abs().max(b.abs()), false)?;
            chk_wrapped(&format!("Azimuth {wa:?} - Azimuth {wb:?}"), (za - zb).rad(), wa - wb, wa.abs().max(wb.abs()), false)?;
            c.step(&[s, d, dd]);
        }
        Ok(())
    }));
    let mut av = octants(4, -15, -13);
    av.extend(grid(-PI, PI, if thorough { 28800 } else { 7200 }));
    let av = uniq(av);
    let mut kv = grid(-9.0, 9.0, 360);
    kv.extend(mags(-6, 9));
    let kv = uniq(kv);
    out.push(dfs("scale", format!("{} longitudes x {} factors", av.len(), kv.len()), move |c| {
        let a = c.val(&av);
        for &k in &kv {
            let l = Lon::rad(a);
            let v = l.angle().rad();
            let m = (v * k).abs().max(v.abs());
            let p = (l * k).angle().rad();
            chk_wrapped(&format!("Lon {v:?} * {k:?}"), p, v * k, m, true)?;
            chk_wrapped(&format!("{k:?} * Lon {v:?}"), (k * l).angle().rad(), v * k, m, true)?;
            let mut t = l;
            t *= k;
            chk_wrapped(&format!("Lon {v:?} *= {k:?}"), t.angle().rad(), v * k, m, true)?;
            if k != 0.0 {
                let m = (v / k).abs().max(v.abs());
                chk_wrapped(&format!("Lon {v:?} / {k:?}"), (l / k).angle().rad(), v / k, m, true)?;
                let mut t = l;
                t /= k;
                chk_wrapped(&format!("Lon {v:?} /= {k:?}"), t.angle().rad(), v / k, m, true)?;
            }
            chk_wrapped(&format!("-Lon {v:?}"), (-l).angle().rad(), -v, v.abs(), true)?;
            c.step(&[p]);
        }
        Ok(())
    }));
    // chains of operations
    let addends = [PI, -PI, TAU, -TAU, FRAC_PI_2, -FRAC_PI_2, 1e-15, -1e-15, 0.7, -2.9, 3.0 * PI, 100.0];
    let factors = [-1.0, 2.0, 0.5, 3.0, -1.5, 7.0];
    let nops = addends.len() * 4 + factors.len() * 4 + 2;
    let apply = move |v: &f64, op: usize| -> Result<Option<f64>, Viol> {
        let l = Lon::rad(*v);
        ensure!(l.angle().rad() == *v, "identity", "Lon::rad({v:?}) = {l:?}");
        let mut t = l;
        let (na, nf) = (addends.len() * 4, factors.len() * 4);
        let (got, exact) = if op < na {
            let a = addends[op / 4];
            match op % 4 {
                0 => (l + ang(a), v + a),
                1 => (l - ang(a), v - a),
                2 => {
                    t += ang(a);
                    (t, v + a)
                }
                _ => {
                    t -= ang(a);
                    (t, v - a)
                }
            }
        } else if op < na + nf {
            let k = factors[(op - na) / 4];
            match op % 4 {
                0 => (l * k, v * k),
                1 => (l / k, v / k),
                2 => {
                    t *= k;
                    (t, v * k)
                }
                _ => {
                    t /= k;
                    (t, v / k)
                }
            }
        } else if op == na + nf {
            (-l, -v)
        } else {
            (l.normalized(), *v)
        };
        let norm = op == nops - 1;
        chk_wrapped(&format!("op {op} on {v:?}"), got.angle().rad(), exact, exact.abs().max(v.abs()).max(100.0), !norm)?;
        Ok(Some(got.angle().rad()))
    };
    out.push(Scenario {
        name: "chains",
        bounds: format!("all sequences of up to {} operations out of {} on longitudes, from 7 starting longitudes", if thorough { 5 } else { 4 }, nops),
        kind: Kind::Bfs(Box::new(Bfs {
            inits: vec![0.0, PI, -PI, FRAC_PI_2, 1e-15, -3.1, 2.0],
            nops,
            depth: if thorough { 5 } else { 4 },
            apply: Box::new(apply),
            invariant: Box::new(|v| {
                ensure!(*v >= -PI && *v <= PI, "range", "longitude {v:?} out of [-pi, pi]");
                Ok(())
            }),
            key: |v| v.to_bits(),
            show: |v| format!("Lon {v:?}"),
            op_name: Box::new(move |o| format!("#{o}")),
        })),
    });
    // chains on azimuths: turns, and the angle from another azimuth used as an azimuth
    let azs = [0.0, FRAC_PI_2, PI, -FRAC_PI_2, 2.9, -3.1, 1e-15];
    let naz = addends.len() * 2 + azs.len() * 2;
    let apply_az = move |v: &f64, op: usize| -> Result<Option<f64>, Viol> {
        let z = Azimuth::rad(*v);
        ensure!(z.angle().rad() == *v, "identity", "Azimuth::rad({v:?}) = {z:?}");
        let na = addends.len() * 2;
        let (got, exact) = if op < na {
            let a = addends[op / 2];
            if op % 2 == 0 {
                (z + ang(a), v + a)
            } else {
                (ang(a) + z, v + a)
            }
        } else {
            let b = azs[(op - na) / 2];
            let (d, exact) = if op % 2 == 0 { (z - Azimuth::rad(b), v - b) } else { (Azimuth::rad(b) - z, b - v) };
            chk_wrapped(&format!("op {op} on {v:?}"), d.rad(), exact, 100.0, false)?;
            (Azimuth::new(d), exact)
        };
        chk_wrapped(&format!("op {op} on azimuth {v:?}"), got.angle().rad(), exact, exact.abs().max(100.0), false)?;
        Ok(Some(got.angle().rad()))
    };
    out.push(Scenario {
        name: "azimuth-chains",
        bounds: format!("all sequences of up to {} operations out of {} on azimuths, from 6 starting azimuths", if thorough { 6 } else { 4 }, naz),
        kind: Kind::Bfs(Box::new(Bfs {
            inits: vec![0.0, PI, FRAC_PI_2, 1e-15, -3.1, 2.0],
            nops: naz,
            depth: if thorough { 6 } else { 4 },
            apply: Box::new(apply_az),
            invariant: Box::new(|v| {
                ensure!(*v > -PI && *v <= PI, "range", "azimuth {v:?} out of (-pi, pi]");
                Ok(())
            }),
            key: |v| v.to_bits(),
            show: |v| format!("Azimuth {v:?}"),
            op_name: Box::new(move |o| format!("#{o}")),
        })),
    });
    if thorough {
        // every single-precision value in (-64, 64), split by exponent
        out.push(dfs("all-f32", "every f32 with 2^-30 <= |x| < 2^7 radians, as f64", |c| {
            let e = c.choose(37) as u32 + 97;
            let hi = c.choose(256) as u32;
            let neg = c.flag();
            let mut h = 0.0;
            for lo in 0..(1u32 << 15) {
                let bits = (e << 23) | (hi << 15) | lo | if neg { 1 << 31 } else { 0 };
                let x = f32::from_bits(bits) as f64;
                let a = Lon::rad(x).angle().rad();
                let b = Azimuth::rad(x).angle().rad();
                let d = x - (x / TAU).round() * TAU;
                let t = wrap_tol(x.abs());
                let ok = |v: f64| (v - d).abs() <= t || ((v - d).abs() - TAU).abs() <= t;
                ensure!((-PI..=PI).contains(&a) && b > -PI && b <= PI, "range", "x={x:?} lon={a:?} az={b:?}");
                ensure!(ok(a) && ok(b), "congruent", "x={x:?} lon={a:?} az={b:?}");
                h += a;
            }
            c.transitions += 2 << 15;
            c.step(&[h]);
            Ok(())
        }));
    }
    out
}

fn clampl(x: f64) -> f64 {
    if x > FRAC_PI_2 {
        FRAC_PI_2
    } else if x < -FRAC_PI_2 {
        -FRAC_PI_2
    } else {
        x
    }
}
fn chk_lat(what: &str, got: f64, exact: f64, mag: f64) -> R {
    ensure!((-FRAC_PI_2..=FRAC_PI_2).contains(&got), "range", "{what}: {got:?} out of [-pi/2, pi/2]");
    close!("saturate", got, clampl(exact), 4e-16 + 4e-16 * mag.min(4.0), "{what} (exact {exact:?})");
    Ok(())
}

pub fn c02(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let xs = reals_rad(thorough);
    out.push(dfs("construct", format!("{} angles", xs.len()), move |c| {
        let x = c.val(&xs);
        let l = Lat::new(ang(x));
        chk_lat("Lat::new", l.angle().rad(), x, x.abs())?;
        let v = l.angle().rad();
        c.step(&[v]);
        close!("abs", l.abs().angle().rad(), v.abs(), 0.0_f64.max(1e-18), "Lat::abs");
        close!("neg", (-l).angle().rad(), -v, 1e-18, "-Lat");
        ensure!(l.signum() == v.signum(), "signum", "signum of {v:?}");
        close!("trig", l.sin(), v.sin(), 2e-16, "sin {v:?}");
        close!("trig", l.cos(), v.cos(), 2e-16, "cos {v:?}");
        let (s, k) = l.sin_cos();
        close!("trig", s, v.sin(), 2e-16, "sin_cos.0 {v:?}");
        close!("trig", k, v.cos(), 2e-16, "sin_cos.1 {v:?}");
        close!("trig", l.tan(), v.tan(), 1e-15 * (1.0 + v.tan().abs()), "tan {v:?}");
        Ok(())
    }));
    let mut ds = grid(-400.0, 400.0, if thorough { 3_200_000 } else { 1_600_000 });
    for k in -8..=8 {
        ds.extend(near(k as f64 * 45.0, &[1e-13, 1e-10, 1e-6, 1e-3]));
    }
    ds.extend(mags(-9, 12));
    let ds = uniq(ds);
    out.push(dfs("construct-units", format!("{} angles in degrees, gradians, seconds", ds.len()), move |c| {
        let x = c.val(&ds);
        let v = Lat::deg(x).angle().rad();
        chk_lat("Lat::deg", v, x * RAD, 4.0)?;
        c.step(&[v, x]);
        for (u, per) in [(DEG, RAD), (GRAD, PI / 200.0), (SEC, RAD / 3600.0)] {
            chk_lat("Lat::new(unit)", Lat::new(x * u).angle().rad(), x * per, 4.0)?;
        }
        Ok(())
    }));
    let mut av = octants(2, -15, -13);
    av.extend(grid(-1.6, 1.6, if thorough { 6400 } else { 3200 }));
    av.push(-0.0);
    let av = uniq(av);
    let mut bv = octants(8, -15, -13);
    bv.extend(grid(-7.0, 7.0, if thorough { 2800 } else { 1400 }));
    bv.extend(mags(-18, 12));
    bv.extend([1e300, -1e300]);
    let bv = uniq(bv);
    let kv = uniq([grid(-5.0, 5.0, 80), mags(-8, 8), vec![5e-324, -5e-324, 1e-309, -1e-309, 1e-300, -1e-300, 1e300, -1e300, -0.0]].concat());
    out.push(dfs("binary", format!("{} latitudes x ({} angles + {} factors), every operator", av.len(), bv.len(), kv.len()), move |c| {
        let a = c.val(&av);
        let l = Lat::new(ang(a));
        let v = l.angle().rad();
        for &b in &bv {
            let m = b.abs();
            let s = (l + ang(b)).angle().rad();
            chk_lat(&format!("Lat {v:?} + {b:?}"), s, v + b, m)?;
            chk_lat(&format!("{b:?} + Lat {v:?}"), (ang(b) + l).angle().rad(), v + b, m)?;
            let d = (l - ang(b)).angle().rad();
            chk_lat(&format!("Lat {v:?} - {b:?}"), d, v - b, m)?;
            let mut t = l;
            t += ang(b);
            chk_lat(&format!("Lat {v:?} += {b:?}"), t.angle().rad(), v + b, m)?;
            let mut t = l;
            t -= ang(b);
            chk_lat(&format!("Lat {v:?} -= {b:?}"), t.angle().rad(), v - b, m)?;
            let o = Lat::new(ang(b));
            close!("difference", (l - o).rad(), v - o.angle().rad(), 5e-16, "Lat {v:?} - Lat {:?}", o.angle().rad());
            c.step(&[s, d]);
        }
        for &k in &kv {
            let m = (v * k).abs();
            let p = (l * k).angle().rad();
            chk_lat(&format!("Lat {v:?} * {k:?}"), p, v * k, m)?;
            chk_lat(&format!("{k:?} * Lat {v:?}"), (k * l).angle().rad(), v * k, m)?;
            let mut t = l;
            t *= k;
            chk_lat(&format!("Lat {v:?} *= {k:?}"), t.angle().rad(), v * k, m)?;
            if k != 0.0 {
                let m = (v / k).abs();
                chk_lat(&format!("Lat {v:?} / {k:?}"), (l / k).angle().rad(), v / k, m)?;
                let mut t = l;
                t /= k;
                chk_lat(&format!("Lat {v:?} /= {k:?}"), t.angle().rad(), v / k, m)?;
            }
            c.step(&[p]);
        }
        Ok(())
    }));
    let addends = [PI, -PI, FRAC_PI_2, -FRAC_PI_2, 1e-15, -1e-15, 0.7, -0.9, 3.0, -20.0];
    let factors = [-1.0, 2.0, 0.5, 3.0, -1.5, 0.0];
    let nops = addends.len() * 4 + factors.len() * 4 + 2;
    let apply = move |v: &f64, op: usize| -> Result<Option<f64>, Viol> {
        let l = Lat::new(ang(*v));
        let mut t = l;
        let (na, nf) = (addends.len() * 4, factors.len() * 4);
        let (got, exact) = if op < na {
            let a = addends[op / 4];
            match op % 4 {
                0 => (l + ang(a), v + a),
                1 => (l - ang(a), v - a),
                2 => {
                    t += ang(a);
                    (t, v + a)
                }
                _ => {
                    t -= ang(a);
                    (t, v - a)
                }
            }
        } else if op < na + nf {
            let k = factors[(op - na) / 4];
            if k == 0.0 && op % 2 == 1 {
                return Ok(None);
            }
            match op % 4 {
                0 => (l * k, v * k),
                1 => (l / k, v / k),
                2 => {
                    t *= k;
                    (t, v * k)
                }
                _ => {
                    t /= k;
                    (t, v / k)
                }
            }
        } else if op == na + nf {
            (-l, -v)
        } else {
            (l.abs(), v.abs())
        };
        chk_lat(&format!("op {op} on {v:?}"), got.angle().rad(), exact, exact.abs().max(v.abs()))?;
        Ok(Some(got.angle().rad()))
    };
    out.push(Scenario {
        name: "chains",
        bounds: format!("all sequences of up to {} operations out of {} on latitudes, from 7 starting latitudes", if thorough { 5 } else { 4 }, nops),
        kind: Kind::Bfs(Box::new(Bfs {
            inits: vec![0.0, FRAC_PI_2, -FRAC_PI_2, 1e-15, -1.5, 0.8, -0.0],
            nops,
            depth: if thorough { 5 } else { 4 },
            apply: Box::new(apply),
            invariant: Box::new(|v| {
                ensure!(*v >= -FRAC_PI_2 && *v <= FRAC_PI_2, "range", "latitude {v:?} out of [-pi/2, pi/2]");
                Ok(())
            }),
            key: |v| v.to_bits(),
            show: |v| format!("Lat {v:?}"),
            op_name: Box::new(move |o| format!("#{o}")),
        })),
    });
    out
}

const AUNITS: [(AngleUnit, f64); 7] = [(AngleUnit(1.0, 57.3), 1.0 / 57.3), (AngleUnit(0.75, 0.3125), 2.4), (URAD, 1.0), (DEG, PI / 180.0), (GRAD, PI / 200.0), (SEC, PI / 648_000.0), (AngleUnit(PI, 3200.0), PI / 3200.0)];
const LUNITS: [(LengthUnit, f64); 7] = [(LengthUnit(1.0, 3.2808399), 1.0 / 3.2808399), (LengthUnit(0.9, 0.6), 1.5), (M, 1.0), (FT, 0.3048), (US_FT, 1200.0 / 3937.0), (LengthUnit(1852.0, 1.0), 1852.0), (LengthUnit(1.0, 1000.0), 0.001)];

fn rtol(x: f64) -> f64 {
    8.0 * 2.3e-16 * x.abs() + 1e-300
}

pub fn c03(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let qs = uniq([mags(-12, 12), grid(-400.0, 400.0, if thorough { 1600_000 } else { 400_000 }), grid(-7.0, 7.0, if thorough { 700_000 } else { 350_000 }), octants(8, -15, -14), vec![-0.0]].concat());
    let q2 = qs.clone();
    out.push(dfs("angle-units", format!("{} quantities x 7 x 7 angle units", qs.len()), move |c| {
        let q = c.val(&qs);
        for (u, per) in AUNITS {
            let a = q * u;
            close!("to-rad", a.rad(), q * per, rtol(q * per), "{q:?} {u:?}");
            close!("to-rad", (u * q).rad(), q * per, rtol(q * per), "unit * qty {q:?} {u:?}");
            close!("to-rad", Angle::new(q, u).rad(), q * per, rtol(q * per), "Angle::new {q:?} {u:?}");
            close!("to-rad", u.rad_per_unit(), per, rtol(per), "rad_per_unit {u:?}");
            for (w, perw) in AUNITS {
                let r = a.val(w);
                close!("convert", r, q * per / perw, rtol(q * per / perw), "{q:?} {u:?} in {w:?}");
                c.step(&[r]);
            }
            close!("convert", a.abs().rad(), (q * per).abs(), rtol(q * per), "abs");
            ensure!(a.signum() == (q * per).signum(), "signum", "signum {q:?}");
        }
        let a = ang(q);
        close!("trig", a.sin(), q.sin(), 4e-16, "sin {q:?}");
        close!("trig", a.cos(), q.cos(), 4e-16, "cos {q:?}");
        close!("trig", a.tan(), q.tan(), 1e-14 * (1.0 + q.tan().powi(2)) , "tan {q:?}");
        let (s, k) = a.sin_cos();
        close!("trig", s, q.sin(), 4e-16, "sin_cos {q:?}");
        close!("trig", k, q.cos(), 4e-16, "sin_cos {q:?}");
        Ok(())
    }));
    out.push(dfs("length-units", format!("{} quantities x 7 x 7 length units", q2.len()), move |c| {
        let q = c.val(&q2);
        for (u, per) in LUNITS {
            let a = q * u;
            close!("to-m", a.m(), q * per, rtol(q * per), "{q:?} {u:?}");
            close!("to-m", (u * q).m(), q * per, rtol(q * per), "unit * qty {q:?} {u:?}");
            close!("to-m", Length::new(q, u).m(), q * per, rtol(q * per), "Length::new {q:?} {u:?}");
            close!("to-m", u.m_per_unit(), per, rtol(per), "m_per_unit {u:?}");
            for (w, perw) in LUNITS {
                let r = a.val(w);
                close!("convert", r, q * per / perw, rtol(q * per / perw), "{q:?} {u:?} in {w:?}");
                c.step(&[r]);
            }
            close!("convert", a.abs().m(), (q * per).abs(), rtol(q * per), "abs");
        }
        Ok(())
    }));
    let v = uniq([mags(-8, 8), grid(-10.0, 10.0, if thorough { 4000 } else { 2400 })].concat());
    let nv = v.len();
    out.push(dfs("arithmetic", format!("{nv} x {nv} operand pairs, every operator on angles, lengths and arc lengths, assignment forms included"), move |c| {
        let a = c.val(&v);
        for &b in &v {
            let (x, y) = (ang(a), ang(b));
            let (l, k) = (a * M, b * M);
            let t = |e: f64| 4.0 * 2.3e-16 * e.abs().max(0.0) + 1e-290;
            close!("angle-arith", (x + y).rad(), a + b, t(a + b), "{a} + {b}");
            close!("angle-arith", (x - y).rad(), a - b, t(a - b), "{a} - {b}");
            close!("angle-arith", (-x).rad(), -a, t(a), "-{a}");
            close!("angle-arith", (x * b).rad(), a * b, t(a * b), "{a} * {b}");
            close!("angle-arith", (b * x).rad(), a * b, t(a * b), "{b} * {a}");
            let mut z = x;
            z += y;
            close!("angle-arith", z.rad(), a + b, t(a + b), "{a} += {b}");
            z = x;
            z -= y;
            close!("angle-arith", z.rad(), a - b, t(a - b), "{a} -= {b}");
            z = x;
            z *= b;
            close!("angle-arith", z.rad(), a * b, t(a * b), "{a} *= {b}");
            close!("length-arith", (l + k).m(), a + b, t(a + b), "{a} + {b}");
            close!("length-arith", (l - k).m(), a - b, t(a - b), "{a} - {b}");
            close!("length-arith", (l * b).m(), a * b, t(a * b), "{a} * {b}");
            close!("length-arith", (b * l).m(), a * b, t(a * b), "{b} * {a}");
            let mut z = l;
            z += k;
            close!("length-arith", z.m(), a + b, t(a + b), "{a} += {b}");
            z = l;
            z -= k;
            close!("length-arith", z.m(), a - b, t(a - b), "{a} -= {b}");
            z = l;
            z *= b;
            close!("length-arith", z.m(), a * b, t(a * b), "{a} *= {b}");
            if b != 0.0 {
                close!("angle-arith", (x / b).rad(), a / b, t(a / b), "{a} / {b}");
                let mut z = x;
                z /= b;
                close!("angle-arith", z.rad(), a / b, t(a / b), "{a} /= {b}");
                close!("length-arith", (l / b).m(), a / b, t(a / b), "{a} / {b}");
                close!("length-arith", l / k, a / b, t(a / b), "length ratio {a} / {b}");
                let mut z = l;
                z /= b;
                close!("length-arith", z.m(), a / b, t(a / b), "{a} /= {b}");
                close!("arc", (ArcLength(l) / k).rad(), a / b, t(a / b), "arc {a} / radius {b}");
            }
            close!("arc", (l * y).length().m(), a * b, t(a * b), "radius {a} * angle {b}");
            close!("arc", (y * l).length().m(), a * b, t(a * b), "angle {b} * radius {a}");
            close!("hypot", l.hypot(k).m(), a.hypot(b), t(a.hypot(b)), "hypot({a},{b})");
            if a != 0.0 || b != 0.0 {
                close!("atan2", l.atan2(k).rad(), a.atan2(b), 1e-15, "atan2({a},{b})");
            }
            // the sign of a zero tells the sides of the axes apart
            for (a, b) in [(0.0, a), (-0.0, a), (a, -0.0), (-0.0, -0.0), (0.0, -0.0), (-0.0, 0.0)] {
                close!("atan2", ((a * M).atan2(b * M)).rad(), a.atan2(b), 1e-15, "atan2({a:?},{b:?})");
            }
            ensure!((x < y) == (a < b) && (x == y) == (a == b) && (x > y) == (a > b), "order", "angle order {a} {b}");
            ensure!((l < k) == (a < b) && (l == k) == (a == b) && (l > k) == (a > b), "order", "length order {a} {b}");
            c.step(&[(x + y).rad(), (l * b).m()]);
        }
        Ok(())
    }));
    out.push(history("histories", "units, trigonometry, wrapping and decomposition of 8 angles and lengths in 4 and 3 units", if thorough { 3 } else { 2 }, || {
        let mut v: Vec<Call> = vec![];
        for x in [0.0, 1.0, -1.0, 200.0, 0.25, 3.5, 1e-9, -400.0] {
            for (k, u) in [URAD, DEG, GRAD, SEC].into_iter().enumerate() {
                v.push((format!("angle {x} {k}"), Box::new(move || {
                    let a = Angle::new(x, u);
                    let (s, c) = a.sin_cos();
                    vec![a.rad(), s, c, a.sin(), a.cos(), a.tan(), a.normalized().rad(), a.val(DEG), a.val(SEC), Lon::new(a).angle().rad(), Lat::new(a).angle().rad(), Azimuth::new(a).angle().rad(), (Lon::deg(1.0) + a).angle().rad()]
                })));
            }
            for (k, u) in [M, FT, US_FT].into_iter().enumerate() {
                v.push((format!("length {x} {k}"), Box::new(move || {
                    let l = Length::new(x, u);
                    vec![l.m(), l.val(FT), l.val(US_FT), l.hypot(2.0 * M).m(), l.atan2(2.0 * M).rad(), l.abs().m()]
                })));
            }
        }
        v
    }));
    let e: Vec<f64> = (-300..=300).step_by(10).collect::<Vec<i32>>().iter().flat_map(|&p| [3.0, -4.0].map(|m| m * 10f64.powi(p))).collect();
    out.push(dfs("extreme-magnitudes", format!("{0} x {0} operand pairs from 1e-300 to 1e300: sums, hypotenuse, direction", e.len()), move |c| {
        let a = c.val(&e);
        for &b in &e {
            let (l, k) = (a * M, b * M);
            close!("hypot", l.hypot(k).m(), a.hypot(b), 4.0 * 2.3e-16 * a.hypot(b), "hypot({a:e},{b:e})");
            close!("atan2", l.atan2(k).rad(), a.atan2(b), 1e-15, "atan2({a:e},{b:e})");
            close!("length-arith", (l + k).m(), a + b, 0.0, "{a:e} + {b:e}");
            close!("length-arith", (l - k).m(), a - b, 0.0, "{a:e} - {b:e}");
            c.step(&[l.hypot(k).m()]);
        }
        Ok(())
    }));
    let p = uniq([mags(-9, 5), grid(-20.0, 20.0, 40_000)].concat());
    out.push(dfs("scale-and-constants", format!("{} ppm values; named constants", p.len()), move |c| {
        let p = c.val(&p);
        close!("ppm", PPM(p).factor(), 1.0 + p * 1e-6, 4e-16 * (1.0 + (p * 1e-6).abs()), "factor {p}");
        close!("ppm", PPM(p).inv_factor(), 1.0 - p * 1e-6, 4e-16 * (1.0 + (p * 1e-6).abs()), "inv_factor {p}");
        c.step(&[PPM(p).factor()]);
        for (n, got, want) in [
            ("PI", Angle::PI.rad(), PI),
            ("M_PI", Angle::M_PI.rad(), -PI),
            ("PI_2", Angle::PI_2.rad(), FRAC_PI_2),
            ("M_PI_2", Angle::M_PI_2.rad(), -FRAC_PI_2),
            ("TWO_PI", Angle::TWO_PI.rad(), TAU),
            ("ZERO", Angle::ZERO.rad(), 0.0),
            ("TINY", Angle::TINY.rad(), 1e-12),
            ("SMALL", Angle::SMALL.rad(), 1e-9),
            ("Length::ZERO", Length::ZERO.m(), 0.0),
            ("Length::TINY", Length::TINY.m(), 1e-4),
            ("Length::SMALL", Length::SMALL.m(), 1e-3),
            ("Lon::MIN", Lon::MIN.angle().rad(), -PI),
            ("Lon::MAX", Lon::MAX.angle().rad(), PI),
            ("Lon::ZERO", Lon::ZERO.angle().rad(), 0.0),
            ("Lat::MIN", Lat::MIN.angle().rad(), -FRAC_PI_2),
            ("Lat::MAX", Lat::MAX.angle().rad(), FRAC_PI_2),
            ("Lat::ZERO", Lat::ZERO.angle().rad(), 0.0),
            ("NORTH", Azimuth::NORTH.angle().rad(), 0.0),
            ("EAST", Azimuth::EAST.angle().rad(), FRAC_PI_2),
            ("SOUTH", Azimuth::SOUTH.angle().rad(), PI),
            ("WEST", Azimuth::WEST.angle().rad(), -FRAC_PI_2),
        ] {
            close!("const", got, want, want.abs() * 3e-16 + 1e-300, "{n}");
        }
        Ok(())
    }));
    out
}

pub fn c04(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let secs: Vec<f64> = {
        let mut v: Vec<f64> = (0..60).map(|s| s as f64).collect();
        v.extend([0.5, 59.5, 59.999999, 59.9999999, 1e-9, 1e-6, 14.025, ulp(60.0, -1)]);
        if thorough {
            v.extend((0..600).map(|s| s as f64 / 10.0 + 0.05));
        }
        v
    };
    let ns = secs.len();
    out.push(dfs("construct", format!("every whole degree in (-180, 180] with a negative zero, every whole minute, {ns} seconds values: longitudes, latitudes, azimuths"), move |c| {
        let d = c.choose(361) as f64 - 179.0;
        let d = if d == 181.0 { -0.0 } else { d };
        let m = c.choose(60) as f64;
        for &s in &secs {
            let sign = if d.is_sign_negative() { -1.0 } else { 1.0 };
            let deg = sign * (d.abs() + m / 60.0 + s / 3600.0);
            let e = deg * RAD;
            let lon = Lon::dms(d, m, s).angle().rad();
            let az = Azimuth::dms(d, m, s).angle().rad();
            // 180 deg and some minutes wraps
            ensure!((-PI..=PI).contains(&lon) && az > -PI && az <= PI, "range", "dms({d},{m},{s}) lon={lon:?} az={az:?}");
            let fold = |got: f64| if deg.abs() > 180.0 - 1e-12 { circ(got, e) } else { (got - e).abs() };
            close!("lon", fold(lon), 0.0, 3e-15, "Lon::dms({d},{m},{s}) = {lon:?} expected {e:?};");
            close!("az", fold(az), 0.0, 3e-15, "Azimuth::dms({d},{m},{s}) = {az:?} expected {e:?};");
            c.step(&[lon]);
            if d.abs() <= 90.0 {
                let lat = Lat::dms(d, m, s).angle().rad();
                close!("lat", lat, clampl(e), 1e-15, "Lat::dms({d},{m},{s})");
            }
        }
        Ok(())
    }));
    // decomposition
    let chk = |x: f64| -> R {
        let t = ang(x).dms();
        let (d, m, s) = (t.deg(), t.min(), t.sec());
        ensure!(d.fract() == 0.0 && m.fract() == 0.0, "integral", "dms of {x:?} rad = {d:?} {m:?} {s:?}");
        ensure!((0.0..=59.0).contains(&m) && (0.0..60.0).contains(&s), "fields", "dms of {x:?} rad = {d:?} {m:?} {s:?}");
        let back = (d.abs() + m / 60.0 + s / 3600.0) * RAD;
        // the decomposition snaps to a whole minute within 1e-8 minute
        let tol = 1.05e-8 / 60.0 * RAD + 1e-15 * (1.0 + x.abs());
        close!("recompose", back, x.abs(), tol, "dms of {x:?} rad = {d:?} {m:?} {s:?}:");
        if x != 0.0 {
            ensure!(d.is_sign_negative() == (x < 0.0), "sign", "dms of {x:?} rad = {d:?} {m:?} {s:?}");
        }
        Ok(())
    };
    out.push(dfs("decompose-whole", "every whole arc second of (-180, 180] degrees", move |c| {
        let d = c.choose(360) as f64 - 179.0;
        let m = c.choose(60) as f64;
        for s in 0..60 {
            let x = (d + m / 60.0 + s as f64 / 3600.0) * RAD;
            chk(x)?;
            chk(ulp(x, 1))?;
            chk(ulp(x, -1))?;
            c.step(&[x]);
        }
        Ok(())
    }));
    let mut xs = octants(20, -16, -1);
    for k in -720..=720 {
        // around whole and half degrees
        let x = k as f64 * 0.5;
        for o in [1e-15, 1e-13, 1e-12, 1e-11, 1e-10, 1.5e-10, 1.7e-10, 1.8e-10, 2e-10, 2.3e-10, 3e-10, 5e-10, 1e-9, 2.5e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4] {
            xs.push((x + o) * RAD);
            xs.push((x - o) * RAD);
        }
    }
    xs.extend(grid(-7.0, 7.0, if thorough { 14_000_000 } else { 3_500_000 }));
    xs.extend(mags(-12, 5));
    let xs = uniq(xs);
    let n = xs.len();
    out.push(dfs("decompose-fraction", format!("{n} angles around whole minutes and degrees and on a dense grid"), move |c| {
        let k = c.choose(xs.len().div_ceil(64));
        for &x in &xs[k * 64..((k + 1) * 64).min(xs.len())] {
            chk(x)?;
            c.step(&[x, 1.0]);
        }
        Ok(())
    }));
    out
}

pub fn c05(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let mut v = octants(4, -14, -2);
    v.extend(grid(-PI, PI, if thorough { 7200 } else { 4320 }));
    v.extend([1e-300, -0.0]);
    v.retain(|x| x.abs() <= PI);
    let v = uniq(v);
    let n = v.len();
    out.push(dfs("intervals", format!("all {n} x {n} pairs of bounds in [-pi, pi], plus the same bounds a turn away"), move |c| {
        let lo = c.val(&v);
        for &hi in &v {
            let i = Interval::new(ang(lo), ang(hi));
            let (want_empty, want_full) = (lo == PI && hi == -PI, lo == -PI && hi == PI);
            ensure!(i.is_empty() == want_empty, "empty", "new({lo:?},{hi:?}).is_empty() = {}", i.is_empty());
            ensure!(i.is_full() == want_full, "full", "new({lo:?},{hi:?}).is_full() = {}", i.is_full());
            let len = i.length().rad();
            c.step(&[len, lo, hi]);
            // bounds identified at the antimeridian
            let same = lo == hi || (lo.abs() == PI && hi.abs() == PI);
            let want = if want_full {
                TAU
            } else if same {
                0.0
            } else if hi > lo {
                hi - lo
            } else {
                hi - lo + TAU
            };
            ensure!((0.0..=TAU).contains(&len), "length-range", "length of new({lo:?},{hi:?}) = {len:?}");
            let d = (len - want).abs();
            // lo == -pi is the same point as pi
            let d = if !want_full && !same && (lo.abs() == PI || hi.abs() == PI) { d.min((d - TAU).abs()) } else { d };
            close!("length", d, 0.0, 2e-15, "length of new({lo:?},{hi:?}) = {len:?} expected {want:?};");
            // -pi and pi denote the same bound
            if !want_empty && !want_full {
                let alt = |x: f64| if x.abs() == PI { -x } else { x };
                let (l2, h2) = (alt(lo), alt(hi));
                for (a, b) in [(l2, hi), (lo, h2)] {
                    if (a == PI && b == -PI) || (a == -PI && b == PI) {
                        continue;
                    }
                    ensure!(Interval::new(ang(a), ang(b)) == i, "bound-identity", "new({lo:?},{hi:?}) = {i:?} differs from new({a:?},{b:?}) = {:?}", Interval::new(ang(a), ang(b)));
                }
            }
            // distinct sets are distinct values
            if !same && !want_empty && !want_full {
                ensure!(i != Interval::empty() && i != Interval::full(), "distinct", "new({lo:?},{hi:?}) equals the empty or the full interval");
                if (hi - lo).abs() > 1e-9 && ((hi - lo).abs() - TAU).abs() > 1e-9 {
                    ensure!(i != Interval::new(ang(hi), ang(lo)), "distinct", "new({lo:?},{hi:?}) equals its complement");
                }
            }
            if same && !want_full && !want_empty {
                ensure!(i == Interval::singleton(ang(lo)), "singleton", "new({lo:?},{hi:?}) = {i:?} is not the singleton {:?}", Interval::singleton(ang(lo)));
            }
            // a turn away
            let far = |x: f64, y: f64| x.abs() < PI - 1e-6 && (y.abs() < PI - 1e-6 || y.abs() == PI);
            if (far(lo, hi) || far(hi, lo)) && (lo - hi).abs() > 1e-6 {
                for t in [-TAU, TAU, 2.0 * TAU, -3.0 * TAU] {
                    let j = Interval::new(ang(lo + t), ang(hi));
                    let k = Interval::new(ang(lo), ang(hi + t));
                    close!("turn", j.length().rad(), len, 1e-14, "length of new({lo:?}+{t:?},{hi:?})");
                    close!("turn", k.length().rad(), len, 1e-14, "length of new({lo:?},{hi:?}+{t:?})");
                }
            }
        }
        let s = Interval::singleton(ang(lo));
        ensure!(!s.is_empty() && !s.is_full() && s.length().rad() == 0.0, "singleton", "singleton({lo:?}) = {s:?}");
        ensure!(s == s && s == s.clone(), "eq", "singleton({lo:?}) != itself");
        for k in [-2.0, -1.0, 1.0, 2.0, 3.0] {
            let t = Interval::singleton(ang(lo + k * TAU));
            ensure!(!t.is_empty() && !t.is_full() && t.length().rad() == 0.0, "singleton", "singleton({lo:?} + {k} turns) = {t:?}");
        }
        let (e, f) = (Interval::empty(), Interval::full());
        ensure!(e.is_empty() && !e.is_full() && f.is_full() && !f.is_empty() && e != f, "empty-full", "{e:?} {f:?}");
        ensure!(e.length().rad() == 0.0, "empty-full", "length of empty {:?}", e.length());
        close!("empty-full", f.length().rad(), TAU, 1e-15, "length of full");
        ensure!(Interval::new(Angle::PI, Angle::M_PI) == e && Interval::new(Angle::M_PI, Angle::PI) == f, "empty-full", "new(pi,-pi), new(-pi,pi)");
        ensure!(s != e && s != f, "empty-full", "singleton({lo:?}) equals empty or full");
        Ok(())
    }));
    let _ = <Angle as AbsDiffEq>::default_epsilon();
    out
}
