//! C23 numerical kernels, C24 text rendering.
use super::earth::{ang, shapes};
use super::pipe::xyz;
use super::projs::{enh, llh};
use crate::dom::*;
use crate::engine::*;
use crate::refm::adiff;
use crate::{close, ensure};
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::Geodesic;
use geokit::geodesy::{GeodeticDatum, PrimeMeridian};
use geokit::math::complex::Complex;
use geokit::math::fp::{clenshaw_sin_sum, remainder, sq, sum, PI_2, PI_4, TAU};
use geokit::math::polynomial::Polynomial;
use geokit::math::utils::iter_fn;
use geokit::units::length::M;
use num::Zero;
use std::cell::Cell;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI};

fn poly<const D: usize>(co: [f64; D], c: &mut Ctx, zs: &[(f64, f64)], xs: &[f64]) -> R {
    let p = Polynomial::new(co);
    for &x in xs {
        let (mut w, mut m) = (0.0, 0.0);
        for (k, a) in co.iter().enumerate() {
            w += a * x.powi(k as i32);
            m += (a * x.powi(k as i32)).abs();
        }
        let t = 2e-15 * (1.0 + D as f64) * m + 1e-300;
        close!("poly", p.eval_at(x), w, t, "polynomial {co:?} at {x:?}");
        close!("poly-fast", p.fast_eval_at(x), w, t, "polynomial {co:?} at {x:?} (fast)");
        c.step(&[w]);
    }
    for &(re, im) in zs {
        // power sum in polar form
        let (r, th) = (re.hypot(im), im.atan2(re));
        let (mut u, mut v, mut m) = (0.0, 0.0, 0.0);
        for (k, a) in co.iter().enumerate() {
            let q = a * r.powi(k as i32);
            u += q * (k as f64 * th).cos();
            v += q * (k as f64 * th).sin();
            m += q.abs();
        }
        let g = p.eval_at(Complex::new(re, im));
        let t = 6e-15 * (1.0 + D as f64) * m + 1e-300;
        close!("poly-complex", g.re, u, t, "polynomial {co:?} at {re}+{im}i (real part)");
        close!("poly-complex", g.im, v, t, "polynomial {co:?} at {re}+{im}i (imaginary part)");
        c.step(&[u, v]);
    }
    Ok(())
}

pub fn c23(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // complex numbers
    let v = uniq([mags(-6, 6).into_iter().step_by(if thorough { 1 } else { 2 }).collect(), vec![-0.0, 0.0, 1.0, -1.0, 0.5, -3.0, 1e-80, -1e80, 7.0]].concat());
    let nv = v.len();
    out.push(dfs("complex", format!("all pairs of complex numbers with components among {nv} values"), move |c| {
        let (a, b) = (c.val(&v), c.val(&v));
        let z = Complex::new(a, b);
        let t = |x: f64| 1e-15 * x.abs() + 1e-300;
        ensure!(z.is_zero() == (a == 0.0 && b == 0.0), "is-zero", "is_zero({z:?})");
        close!("abs", z.abs(), a.hypot(b), t(a.hypot(b)), "|{z:?}|");
        if a.abs().max(b.abs()) < 1e70 {
            close!("abs", z.abs_sq(), a * a + b * b, 2.0 * t(a * a + b * b), "|{z:?}|^2");
        }
        let o = z + Complex::zero();
        ensure!(o.re == a && o.im == b, "zero", "{z:?} + 0 = {o:?}");
        let k = z.conj();
        ensure!(k.re == a && k.im == -b, "conj", "conj({z:?})");
        if !z.is_zero() {
            let g = z.arg().rad();
            ensure!((-PI..=PI).contains(&g), "arg-range", "arg({z:?}) = {g:?}");
            let w = if b == 0.0 { if a < 0.0 { PI } else { 0.0 } } else { b.atan2(a) };
            close!("arg", g, w, 1e-15, "arg({z:?})");
        }
        for &x in &v {
            let (p, m, q) = (z + x, z - x, z * x);
            ensure!(p.re == a + x && p.im == b && m.re == a - x && m.im == b, "scalar-add", "{z:?} +- {x}: {p:?} {m:?}");
            close!("scalar-mul", q.re, a * x, t(a * x), "{z:?} * {x}");
            close!("scalar-mul", q.im, b * x, t(b * x), "{z:?} * {x}");
            if x != 0.0 {
                let d = z / x;
                close!("scalar-mul", d.re, a / x, t(a / x), "{z:?} / {x}");
                close!("scalar-mul", d.im, b / x, t(b / x), "{z:?} / {x}");
            }
            for &y in &v {
                let w = Complex::new(x, y);
                let (s, d) = (z + w, z - w);
                close!("add", s.re, a + x, t(a + x), "{z:?} + {w:?}");
                close!("add", s.im, b + y, t(b + y), "{z:?} + {w:?}");
                close!("add", d.re, a - x, t(a - x), "{z:?} - {w:?}");
                close!("add", d.im, b - y, t(b - y), "{z:?} - {w:?}");
                let (sz, sw) = (z.abs(), w.abs());
                let p = z * w;
                close!("mul", p.re, a * x - b * y, 2e-15 * sz * sw + 1e-300, "{z:?} * {w:?}");
                close!("mul", p.im, a * y + b * x, 2e-15 * sz * sw + 1e-300, "{z:?} * {w:?}");
                ensure!((z == w) == (a == x && b == y), "eq", "{z:?} == {w:?}");
                if w.is_zero() {
                    ensure!((z / w).is_err() && w.inv().is_err(), "div-zero", "division of {z:?} by zero");
                } else {
                    let n = x * x + y * y;
                    let (Ok(q), Ok(i)) = (z / w, w.inv()) else { return viol("div", format!("{z:?} / {w:?} fails")) };
                    close!("div", q.re, (a * x + b * y) / n, 6e-15 * sz / sw + 1e-300, "{z:?} / {w:?}");
                    close!("div", q.im, (b * x - a * y) / n, 6e-15 * sz / sw + 1e-300, "{z:?} / {w:?}");
                    close!("inv", i.re, x / n, 4e-15 / sw + 1e-300, "1 / {w:?}");
                    close!("inv", i.im, -y / n, 4e-15 / sw + 1e-300, "1 / {w:?}");
                }
                c.step(&[p.re, p.im]);
            }
        }
        Ok(())
    }));
    out.push(dfs("complex-extremes", "modulus and argument of numbers whose squares leave the range of a double: all pairs out of 29 components", move |c| {
        let v: Vec<f64> = [1e-300, 3e-200, 1e-165, 7e-150, 1e-80, 1.0, 1e80, 5e153, 2e160, 1e200, 3e299, 1e305, 0.75, 1e-310].iter().flat_map(|&x| [x, -x]).chain([0.0]).collect();
        let (a, b) = (c.val(&v), c.val(&v));
        let z = Complex::new(a, b);
        let w = a.hypot(b);
        close!("abs", z.abs(), w, 1e-15 * w + 1e-323, "|{z:?}|");
        if !z.is_zero() {
            let w = if b == 0.0 { if a < 0.0 { PI } else { 0.0 } } else { b.atan2(a) };
            close!("arg", z.arg().rad(), w, 1e-15, "arg({z:?})");
        }
        ensure!(z.is_zero() == (a == 0.0 && b == 0.0), "is-zero", "is_zero({z:?})");
        c.step(&[z.abs(), a, b]);
        Ok(())
    }));
    // polynomials, degree < 1..8
    let xs: Vec<f64> = uniq([grid(-3.0, 3.0, 60), vec![1e-9, -1e-6, 10.0, -25.0, 1e3]].concat());
    let zs: Vec<(f64, f64)> = vec![(0.0, 1.0), (0.0, 0.0), (1.0, -1.0), (-0.5, 2.0), (0.3, 1e-6), (2.0, 0.0), (-1.5, -1.25), (1e-4, -3.0)];
    let co = if thorough { vec![0.0, 1.0, -1.0, 0.37, -2.5, 1e4, -1e-7] } else { vec![0.0, 1.0, -2.5, 1e4] };
    let nc = co.len();
    let maxd = if thorough { 7 } else { 6 };
    out.push(dfs("polynomial", format!("every polynomial with up to {maxd} coefficients among {nc} values, at {} real and {} complex points", xs.len(), zs.len()), move |c| {
        let d = 1 + c.choose(maxd);
        let mut a = [0.0; 7];
        for q in a.iter_mut().take(d) {
            *q = c.val(&co);
        }
        match d {
            1 => poly::<1>([a[0]], c, &zs, &xs),
            2 => poly::<2>([a[0], a[1]], c, &zs, &xs),
            3 => poly::<3>([a[0], a[1], a[2]], c, &zs, &xs),
            4 => poly::<4>([a[0], a[1], a[2], a[3]], c, &zs, &xs),
            5 => poly::<5>([a[0], a[1], a[2], a[3], a[4]], c, &zs, &xs),
            6 => poly::<6>([a[0], a[1], a[2], a[3], a[4], a[5]], c, &zs, &xs),
            _ => poly::<7>(a, c, &zs, &xs),
        }
    }));
    // Clenshaw sine sums
    let xs: Vec<f64> = uniq([grid(-7.0, 7.0, if thorough { 5600 } else { 1400 }), vec![0.0, PI, -PI, PI / 2.0, 2.0 * PI, 1e-9, PI - 1e-9, -1e-5]].concat());
    let xs2: Vec<f64> = xs.iter().copied().step_by(if thorough { 1 } else { 4 }).chain([PI / 2.0, PI - 1e-9]).collect();
    let co = [0.0, 1.0, -2.5, 1e-3];
    let maxn = 7;
    out.push(dfs("clenshaw", format!("every coefficient vector of length up to {maxn} over 4 values, {} angles", xs.len()), move |c| {
        let n = 1 + c.choose(maxn);
        let a: Vec<f64> = (0..n).map(|_| c.val(&co)).collect();
        for &x in &xs {
            let (mut w, mut m) = (0.0, 0.0);
            for (k, q) in a.iter().enumerate() {
                w += q * (k as f64 * x).sin();
                m += q.abs() * (1.0 + k as f64);
            }
            let g = clenshaw_sin_sum(&a, x);
            close!("clenshaw", g, w, 1e-14 * m * (n as f64) + 1e-300, "sum of {a:?}[k] sin(k {x:?})");
            c.step(&[g]);
        }
        Ok(())
    }));
    let x2 = xs2;
    out.push(dfs("clenshaw-long", format!("coefficient vectors of 8 to 16 values: every choice of 1 to 3 coefficients among them, 2 values each, {} angles", x2.len()), move |c| {
        let n = 8 + c.choose(9);
        let (i, j, k) = (c.choose(n), c.choose(n), c.choose(n));
        let mut a = vec![0.0; n];
        a[i] = c.val(&[1.0, -2.5]);
        a[j] = c.val(&[0.125, -1.0]);
        a[k] = 0.75;
        for &x in &x2 {
            let (mut w, mut m) = (0.0, 0.0);
            for (k, q) in a.iter().enumerate() {
                w += q * (k as f64 * x).sin();
                m += q.abs() * (1.0 + k as f64);
            }
            let g = clenshaw_sin_sum(&a, x);
            close!("clenshaw", g, w, 1e-14 * m * (n as f64) + 1e-300, "sum of {a:?}[k] sin(k {x:?})");
            c.step(&[g]);
        }
        Ok(())
    }));
    // two-sum, exact in 128-bit integers
    let mut ms = vec![0i64, 1, 2, 3, 0x1f_ffff_ffff_ffff, 0x10_0000_0000_0001, 0x15_5555_5555_5555, 12345, 0x1a_bcde_f012_3457, 1 << 52];
    if thorough {
        ms.extend([7, 0x18_0000_0000_0001, 0x1c71_c71c_71c7_1c, 999_999_937, (1 << 53) - 3, (1 << 30) + 1]);
    }
    out.push(dfs("two-sum", format!("all pairs of +- m 2^e, {} mantissas, e = 0..60, both orders", ms.len()), move |c| {
        let a = c.val(&ms);
        let sa = c.choose(2);
        let e = c.choose(61);
        let a = if sa == 1 { -a } else { a } as f64 * (2f64).powi(e as i32);
        for &b in &ms {
            for s in [1.0, -1.0] {
                for k in 0..61 {
                    let b = s * b as f64 * (2f64).powi(k);
                    let (x, y) = sum(a, b);
                    ensure!(x == a + b, "two-sum", "sum({a:?},{b:?}) = ({x:?},{y:?})");
                    ensure!(x as i128 + y as i128 == a as i128 + b as i128 && y.fract() == 0.0, "two-sum", "sum({a:?},{b:?}) = ({x:?},{y:?}) is not error free");
                    c.step(&[x, y]);
                }
            }
        }
        Ok(())
    }));
    let qs = uniq([mags(-6, 6), grid(-2000.0, 2000.0, if thorough { 800_000 } else { 400_000 }), (-60..=60).flat_map(|k| [k as f64 * PI, k as f64 * 180.0]).flat_map(|x| [x, ulp(x, 1), ulp(x, -1)]).collect()].concat());
    out.push(dfs("remainder", format!("{} values x 7 periods (two of them negative); squares", qs.len()), move |c| {
        let x = c.val(&qs);
        for r in [360.0, 2.0 * PI, 1.0, 3.0, 400.0, -360.0, -2.0 * PI] {
            let m = remainder(x, r);
            ensure!(m.abs() <= r.abs() / 2.0, "remainder-range", "remainder({x:?},{r:?}) = {m:?}");
            let k = (x - m) / r;
            close!("remainder", (k - k.round()).abs(), 0.0, 1e-15 * (1.0 + (x / r).abs()), "remainder({x:?},{r:?}) = {m:?}: turns");
            c.step(&[m]);
        }
        close!("sq", sq(x), x * x, 1e-15 * x * x, "sq({x:?})");
        ensure!(geokit::math::fp::PI == PI && PI_2 == FRAC_PI_2 && PI_4 == FRAC_PI_4 && TAU == 2.0 * PI, "const", "math constants");
        Ok(())
    }));
    let (d, n) = if thorough { (DEEP, 199) } else { (QUICK, 101) };
    let co: Vec<f64> = joint_len(4, n);
    let mut args: Vec<(&'static str, Vec<f64>)> = ["constant", "linear", "square", "cubic", "fourth", "fifth", "sixth"].into_iter().map(|k| (k, co.clone())).collect();
    args.extend([("real arguments", uniq([grid(-7.0, 7.0, n / 2), joint_len(3, n / 2)].concat())), ("imaginary parts", uniq([grid(-3.0, 3.0, n / 2), joint_len(1, n / 2)].concat())), ("lengths", vec![7.0, 6.0, 5.0, 4.0, 3.0])]);
    out.push(tuples("tuples", "coefficients and argument of polynomials and sine sums of 3 to 7 terms", d, args, |c, v| {
        let a: [f64; 7] = v[..7].try_into().unwrap();
        let (x, z) = ([v[7]], [(v[7], v[8])]);
        let k = v[9] as usize;
        match k {
            3 => poly::<3>([a[0], a[1], a[2]], c, &z, &x)?,
            4 => poly::<4>([a[0], a[1], a[2], a[3]], c, &z, &x)?,
            5 => poly::<5>([a[0], a[1], a[2], a[3], a[4]], c, &z, &x)?,
            6 => poly::<6>([a[0], a[1], a[2], a[3], a[4], a[5]], c, &z, &x)?,
            _ => poly::<7>(a, c, &z, &x)?,
        }
        let x = v[7] % 7.0;
        let (mut w, mut m) = (0.0, 0.0);
        for (k, q) in a[..k].iter().enumerate() {
            w += q * (k as f64 * x).sin();
            m += q.abs() * (1.0 + k as f64);
        }
        let g = clenshaw_sin_sum(&a[..k], x);
        close!("clenshaw", g, w, 1e-14 * m * (k as f64) + 1e-300, "sum of {:?}[k] sin(k {x:?})", &a[..k]);
        c.step(&[g]);
        Ok(())
    }));
    // fixed point iterations: geometric convergence of each component
    let rates = [0.0, 0.5, -0.5, 0.9, -0.8, 0.1];
    let eps = [1e-3, 1e-6, 1e-9, 1e-12];
    out.push(dfs("iteration", "2-dimensional iterations: 6 x 6 convergence rates, 4 x 4 tolerances, 5 x 5 starting errors", move |c| {
        let q = [c.val(&rates), c.val(&rates)];
        let e = [c.val(&eps), c.val(&eps)];
        let x0s = [0.0, 1.0, -3.0, 1e-5, 40.0];
        let x0 = [c.val(&x0s), c.val(&x0s)];
        let root = [0.25, -0.125];
        let calls = Cell::new(0usize);
        let f = |x: [f64; 2]| {
            calls.set(calls.get() + 1);
            assert!(calls.get() < 100_000, "the iteration does not stop");
            [(x[0] - root[0]) * (q[0] - 1.0), (x[1] - root[1]) * (q[1] - 1.0)]
        };
        let g = iter_fn([x0[0] + root[0], x0[1] + root[1]], &f, e);
        // error after n steps: x0 q^n, increment of step n: x0 q^(n-1) (q-1)
        let need = |i: usize| {
            let mut n = 1;
            while x0[i].abs() * q[i].abs().powi(n - 1) * (1.0 - q[i]).abs() >= e[i] {
                n += 1;
            }
            n
        };
        let n = need(0).max(need(1));
        for i in 0..2 {
            // the remaining error is at most |q|/|1-q| times the tolerance
            let tol = e[i] * (q[i].abs() / (1.0 - q[i]).abs()) * 1.001 + 1e-14;
            close!("iteration", g[i], root[i], tol, "rates {q:?} tolerances {e:?} start {x0:?}: component {i}");
        }
        let k = calls.get() as i64;
        ensure!((k - n as i64).abs() <= 1, "iteration-count", "rates {q:?} tolerances {e:?} start {x0:?}: {k} steps, expected {n}");
        c.step(&[g[0], g[1]]);
        Ok(())
    }));
    // scripted iterations: every sequence of increments, on, below and above the tolerances
    let mult = [0.0, 0.5, -0.5, 1.0, -1.0, 4.0, -4.0];
    let depth = if thorough { 5 } else { 4 };
    out.push(dfs("iteration-scripts", format!("all scripts of {depth} increments out of 7 x 7 (zero, half, exactly, four times each tolerance, both signs), two components with different tolerances, 3 pairs of tolerances from 1e-300 to 1e20"), move |c| {
        // the increments are exact whatever the tolerances: the values stay multiples of the smaller one
        let (e, x0) = c.val(&[([0.25, 2f64.powi(-20)], [1.0, -1.0]), ([2f64.powi(-60), 1e-300], [2f64.powi(-50), 0.0]), ([1e20, 2f64.powi(-50)], [0.0, 0.125])]);
        let script: Vec<[f64; 2]> = (0..depth).map(|_| [c.val(&mult) * e[0], c.val(&mult) * e[1]]).collect();
        let calls = Cell::new(0usize);
        let f = |_: [f64; 2]| {
            let k = calls.get();
            calls.set(k + 1);
            assert!(k < 100, "the iteration does not stop");
            script.get(k).copied().unwrap_or([0.0, 0.0])
        };
        let g = iter_fn(x0, &f, e);
        let mut w = x0;
        let mut n = 0;
        loop {
            let d = script.get(n).copied().unwrap_or([0.0, 0.0]);
            n += 1;
            w = [w[0] + d[0], w[1] + d[1]];
            if d[0].abs() < e[0] && d[1].abs() < e[1] {
                break;
            }
        }
        ensure!(g == w && calls.get() == n, "iteration-script", "increments {script:?} tolerances {e:?}: stopped after {} steps at {g:?}, expected {n} steps and {w:?}", calls.get());
        c.step(&[g[0], g[1]]);
        Ok(())
    }));
    out
}

/// Replaces the numbers of a text by `#` and returns them.
fn split(s: &str) -> (String, Vec<f64>) {
    let b: Vec<char> = s.chars().collect();
    let (mut sk, mut nums, mut i) = (String::new(), vec![], 0);
    let word = |i: usize, w: &str| b[i..].iter().take(w.len()).collect::<String>() == w;
    while i < b.len() {
        let st = i;
        let mut j = i;
        if b[j] == '-' {
            j += 1;
        }
        if j < b.len() && (b[j].is_ascii_digit() || word(j, "inf")) {
            if word(j, "inf") {
                j += 3;
            } else {
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == '.') {
                    j += 1;
                }
                if j + 1 < b.len() && b[j] == 'e' && (b[j + 1].is_ascii_digit() || b[j + 1] == '-') {
                    j += 2;
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                }
            }
            let t: String = b[st..j].iter().collect();
            if let Ok(v) = t.parse::<f64>() {
                nums.push(v);
                sk.push('#');
                i = j;
                continue;
            }
        }
        sk.push(b[i]);
        i += 1;
    }
    (sk, nums)
}

/// `got` has the wording of `want`, and the same numbers to `tol` relative to 1 + |x|.
fn same(key: &'static str, got: &str, want: &str, tol: f64) -> R {
    let ((sg, ng), (sw, nw)) = (split(got), split(want));
    ensure!(sg == sw && ng.len() == nw.len(), key, "text {got:?}, expected {want:?}");
    for (g, w) in ng.iter().zip(&nw) {
        ensure!(g == w || (g - w).abs() <= tol * (1e-3 + w.abs()), key, "text {got:?}, expected {want:?} ({g} instead of {w})");
    }
    Ok(())
}

/// Reads back degrees, minutes, seconds.
fn read_dms(key: &'static str, got: &str) -> Result<f64, Viol> {
    let (sk, n) = split(got);
    ensure!(sk.trim_start() == "#° #′ #″" && n.len() == 3, key, "text {got:?} is not in degrees, minutes, seconds");
    let (d, rest) = got.split_once('°').unwrap();
    ensure!(d.chars().count() >= 4, key, "text {got:?}: degrees padded to 4 characters");
    let m = rest.trim_start().split('′').next().unwrap();
    ensure!(m.len() == 2, key, "text {got:?}: two digit minutes");
    let s = rest.split('′').nth(1).unwrap().trim_start().trim_end_matches('″');
    ensure!(s.len() == 11 && s.as_bytes()[2] == b'.', key, "text {got:?}: seconds with 8 decimals");
    ensure!(n[1] <= 59.0 && n[2] < 60.0 && n[1] >= 0.0 && n[2] >= 0.0, key, "text {got:?}: minutes and seconds");
    let v = n[0].abs() + n[1] / 60.0 + n[2] / 3600.0;
    Ok(if d.contains('-') { -v } else { v })
}

/// The text of an angle in degrees, minutes, seconds (away from the rounding of seconds up to 60).
fn dms_text(deg: f64) -> String {
    let t = (deg.abs() * 3600.0 * 1e8).round() / 1e8;
    let d = (t / 3600.0 + 1e-13).floor();
    let m = ((t - d * 3600.0) / 60.0 + 1e-11).floor();
    let s = (t - d * 3600.0 - m * 60.0).max(0.0);
    format!("{:>4}° {m:02}′ {s:011.8}″", format!("{}{d}", if deg < 0.0 { "-" } else { "" }))
}

pub fn c24(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let vs = uniq([mags(-12, 12), grid(-200.0, 200.0, if thorough { 800_000 } else { 200_000 }), vec![-0.0, 1e-300, 0.1, 1.0 / 3.0]].concat());
    let n = vs.len();
    out.push(dfs("numbers", format!("{n} values: lengths and angles in radians and degrees, plain and scientific, with and without precision"), move |c| {
        let x = c.val(&vs);
        let rd = |key: &'static str, s: String, unit: &str| -> Result<f64, Viol> {
            match s.strip_suffix(unit).map(|n| n.parse::<f64>()) {
                Some(Ok(v)) => Ok(v),
                _ => viol(key, format!("text {s:?} of {x:?} is not a number followed by {unit:?}")),
            }
        };
        let a = ang(x);
        ensure!(rd("angle", format!("{a}"), " rad")? == x, "angle", "text of the angle {x:?}: {a}");
        ensure!(rd("angle", format!("{a:e}"), " rad")? == x && format!("{a:e}").contains('e'), "angle", "text of the angle {x:?}: {a:e}");
        close!("angle-precision", rd("angle", format!("{a:.3e}"), " rad")?, x, 5.001e-4 * x.abs() * 1.0 + 1e-300, "text {a:.3e}");
        close!("length", rd("length", format!("{}", x * M), " m")?, x, 1e-15 * x.abs(), "text {}", x * M);
        let d = a.deg();
        let w = x / RAD;
        close!("deg", rd("deg", format!("{d}"), " deg")?, w, 1e-15 * w.abs(), "text {d} of {x:?} rad");
        close!("deg", rd("deg", format!("{d:e}"), " deg")?, w, 1e-15 * w.abs(), "text {d:e} of {x:?} rad");
        close!("deg-precision", rd("deg", format!("{d:.4e}"), " deg")?, w, 5.001e-5 * w.abs() + 1e-300, "text {d:.4e} of {x:?} rad");
        c.step_s(&format!("{a} {d}"));
        Ok(())
    }));
    // sexagesimal
    let mut ds: Vec<f64> = vec![];
    for k in -10_800..=10_800 {
        let b = k as f64 / 60.0;
        for o in [0.0, 1e-14, 1e-10, 1.3e-9, 1e-7, 1.0 / 3600.0, 0.99999999 / 60.0, 1.0 / 120.0] {
            ds.extend([b + o, b - o]);
        }
    }
    ds.extend(grid(-180.0, 180.0, if thorough { 7_200_000 } else { 1_440_000 }));
    ds.retain(|d| d.abs() <= 180.0);
    let ds = uniq(ds);
    let n = ds.len();
    out.push(dfs("sexagesimal", format!("{n} angles between -180 and 180 degrees: angle, longitude, latitude, azimuth, prime meridian"), move |c| {
        let k = c.choose(ds.len().div_ceil(64));
        for &d in ds[k * 64..].iter().take(64) {
            let x = d * RAD;
            let t = 1.2e-6 / 3600.0;
            let s = format!("{}", ang(x).dms());
            close!("dms", read_dms("dms", &s)?, d, t, "{d} degrees rendered as {s:?}");
            let s = format!("{}", Azimuth::new(ang(x)));
            let w = if d <= -180.0 { 180.0 } else { d };
            close!("azimuth", read_dms("azimuth", &s)?, w, t, "azimuth of {d} degrees rendered as {s:?}");
            let s = format!("{}", Lon::new(ang(x)));
            same("lon", &s, &format!("{d} deg"), 1e-12)?;
            if d.abs() <= 90.0 {
                let s = format!("{}", Lat::new(ang(x)));
                same("lat", &s, &format!("{d} deg"), 1e-12)?;
            }
            let s = format!("{}", PrimeMeridian::new("P M", Lon::new(ang(x))));
            let Some(i) = s.strip_prefix("(name = P M, lon = ").and_then(|s| s.strip_suffix(")")) else { return viol("pm", format!("prime meridian rendered as {s:?}")) };
            close!("pm", read_dms("pm", i)?, if d <= -180.0 { 180.0 } else { d }, t, "prime meridian at {d} degrees rendered as {s:?}");
            c.step_s(&s);
        }
        Ok(())
    }));
    let g = [0.0, 12.25, -2.337229166666667, 90.0, -45.5];
    let h = [0.0, 100.125, -6_378_137.0, 1e-5, 0.3048];
    out.push(dfs("records", "geodetic, geocentric and projected coordinates, intervals: all triples of 5 distinct values per component", move |c| {
        let (i, j, k) = (c.choose(5), c.choose(5), c.choose(5));
        let (lo, la, z) = (g[i], g[j] / 1.5, h[k]);
        let p = llh(lo * RAD, la * RAD, z);
        same("llh", &format!("{p}"), &format!("(lon = {lo} deg, lat = {la} deg, h = {z} m)"), 1e-13)?;
        let (x, y) = (h[i], h[j]);
        same("xyz", &format!("{}", xyz([x, y, z])), &format!("({x} m, {y} m, {z} m)"), 1e-15)?;
        same("enh", &format!("{}", enh(x, y, z)), &format!("(e = {x} m, n = {y} m, h = {z} m)"), 1e-15)?;
        let (a, b) = (g[i] * RAD, g[j] * RAD);
        same("interval", &format!("{}", Interval::new(ang(a), ang(b))), &format!("lo = {a} rad, hi = {b} rad"), 1e-15)?;
        c.step_s(&format!("{p}"));
        Ok(())
    }));
    out.push(dfs("bodies", "datums of every shape of ellipsoid x 5 prime meridians x 3 names", move |c| {
        // the inverse flattening of a body that is all but a sphere is not known to many digits
        let es: Vec<_> = shapes().into_iter().filter(|e| e.f() == 0.0 || e.f() > 1e-8).collect();
        let e = c.pick(&es);
        let m = c.val(&g);
        let id = c.val(&["D", "Some datum 72", "été"]);
        let inv = if e.a() == e.b() { "inf".to_string() } else { format!("{}", e.a().m() / (e.a().m() - e.b().m())) };
        let we = format!("(name = {}, a = {} m, b = {} m, inv_f = {inv})", e.name(), e.a().m(), e.b().m());
        same("ellipsoid", &format!("{e}"), &we, 2e-9)?;
        let pm = PrimeMeridian::new(id, Lon::new(ang(m * RAD)));
        let wp = format!("(name = {id}, lon = {})", dms_text(m));
        same("pm", &format!("{pm}"), &wp, 1e-8)?;
        let d = GeodeticDatum::new(id, e.clone(), pm);
        same("datum", &format!("{d}"), &format!("(id = {id}, ellps = {we}, pm = {wp})"), 1e-8)?;
        c.step_s(&format!("{d}"));
        Ok(())
    }));
    out.push(dfs("geodesic", "geodesics: all combinations of 5 distinct values for each of the 6 angles (5^6), 2 lengths", move |c| {
        let gl = [0.0, 12.25, -2.337229166666667, 170.5, -135.75];
        let v: Vec<f64> = (0..6).map(|i| c.val(if i % 3 == 0 { &gl } else { &g })).collect();
        for s in [0.0, 1234.5] {
            let o = Geodesic { p1: (Lon::new(ang(v[0] * RAD)), Lat::new(ang(v[1] / 1.5 * RAD))), alpha1: Azimuth::new(ang(v[2] * RAD)), p2: (Lon::new(ang(v[3] * RAD)), Lat::new(ang(v[4] / 1.5 * RAD))), alpha2: Azimuth::new(ang(v[5] * RAD)), s: s * M };
            let t = format!("{o}");
            let l: Vec<&str> = t.lines().collect();
            ensure!(l.len() == 4, "geodesic", "geodesic rendered as {t:?}");
            same("geodesic", l[0], &format!("From: (lon: {} deg, lat: {} deg, az: {})", v[0], v[1] / 1.5, dms_text(v[2])), 1e-8)?;
            same("geodesic", l[1], &format!("To:   (lon: {} deg, lat: {} deg, az: {})", v[3], v[4] / 1.5, dms_text(v[5])), 1e-8)?;
            let (sk, n) = split(l[2]);
            // across the antimeridian
            let diff = adiff(v[3] * RAD, v[0] * RAD) / RAD;
            let unit = if sk.ends_with("rad") { RAD } else { 1.0 };
            ensure!(sk.starts_with("L:   #") && n.len() == 1 && (n[0] - diff * unit).abs() < 1e-10, "geodesic", "geodesic rendered as {t:?}: longitude difference {diff}");
            same("geodesic", l[3], &format!("s:   {s} m"), 1e-12)?;
            c.step_s(&t);
        }
        Ok(())
    }));
    out
}
