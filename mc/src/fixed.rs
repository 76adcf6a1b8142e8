//! Fixed income: bonds, floating-rate notes, rate curves; money market yields.
use crate::base::grow;
use crate::engine::*;
use crate::ensure;
use financelib::fixedincomes::bonds::rates::RateCurve::{self, *};
use financelib::fixedincomes::bonds::rates::Rates::{self, *};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets::*;
use std::sync::Arc;

pub const FREQS: [f64; 17] = [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0, 360.0, 365.0, 0.5, 0.25, 1.5, 5.0, 8.0, 13.0];
const COUPONS: [f64; 13] = [0.05, 0.0, 0.1, 0.01, 0.03, 0.0375, 0.0625, 0.08, 0.12, 0.15, 0.2, 0.001, 0.5];
const YIELDS: [f64; 24] = [
    0.0, 0.05, 0.03, 0.1, -0.01, 0.01, 0.02, 0.04, 0.06, 0.08, 0.12, 0.15, 0.2, 0.25, 0.35, 0.5, 1.0, -0.005, -0.02, -0.04, -0.1, 0.001, 1e-5, 0.0001,
];
const PARS: [f64; 6] = [100.0, 1.0, 1000.0, 0.01, 1e6, 37.5];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Conv {
    Nom,
    Eff,
    Exp,
}
pub const CONVS: [Conv; 3] = [Conv::Nom, Conv::Eff, Conv::Exp];
pub fn curve(c: Conv, rate: Vec<f64>, freq: f64) -> RateCurve {
    match c {
        Conv::Nom => NominalRateCurve { rate, freq },
        Conv::Eff => EffectiveRateCurve { rate, freq },
        Conv::Exp => ExponentialRateCurve { rate, freq },
    }
}
pub fn parts(c: &RateCurve) -> (Conv, &Vec<f64>, f64) {
    match c {
        NominalRateCurve { rate, freq } => (Conv::Nom, rate, *freq),
        EffectiveRateCurve { rate, freq } => (Conv::Eff, rate, *freq),
        ExponentialRateCurve { rate, freq } => (Conv::Exp, rate, *freq),
    }
}
/// Growth of 1 over time t at rate r of a convention.
pub fn growth(c: Conv, r: f64, f: f64, t: f64) -> f64 {
    match c {
        Conv::Nom => grow(r / f, t * f),
        Conv::Eff => grow(r, t),
        Conv::Exp => (r * t).exp(),
    }
}
/// Linear interpolation at time y, in units of curve points (model).
pub fn interp(rates: &[f64], x: f64) -> f64 {
    let near = x.round();
    if (x - near).abs() < 1e-7 {
        return rates[near as usize - 1];
    }
    let lo = x.floor();
    let (a, b) = (rates[lo as usize - 1], rates[lo as usize]);
    a + (b - a) * (x - lo)
}
pub const NSHAPES: usize = 12;
/// Rate curve shapes; every value distinct within a curve except for the flat ones.
pub fn shape(s: usize, n: usize) -> Vec<f64> {
    (0..n)
        .map(|k| {
            let x = k as f64;
            match s {
                0 => 0.02 + 0.004 * x / (1.0 + 0.1 * x),
                1 => 0.05,
                2 => 0.12 - 0.003 * x / (1.0 + 0.05 * x),
                3 => 0.04 + if k % 2 == 0 { 0.01 } else { -0.008 } + 1e-4 * x,
                4 => -0.02 + 0.0013 * x / (1.0 + 0.02 * x),
                5 => 0.0,
                6 => 0.3 + 0.05 * (x * 0.7).sin(),
                7 => (0.02 + 0.05 * x).min(0.6),
                8 => 0.03 + 0.01 * (k / 3 % 5) as f64,
                9 => if k == n / 2 { 0.09 } else { 0.04 },
                10 => -0.15 + 0.001 * x / (1.0 + 0.01 * x),
                _ => 0.001 + 0.0001 * x,
            }
        })
        .collect()
}

pub fn f01(thorough: bool) -> Prop {
    let years = if thorough { 60.0 } else { 40.0 };
    let kmax = move |f: f64| (f * years) as usize;
    // generated cash flows
    let mut lens: Vec<(f64, usize)> = vec![];
    for &f in &FREQS {
        for k in 1..=kmax(f) {
            lens.push((f, k));
        }
    }
    let lens = Arc::new(lens);
    let l2 = lens.clone();
    let f1 = fam(
        "cashflows",
        &format!("17 frequencies x every whole number of coupon periods up to {years} years (life as k/freq and as k*(1/freq)) x 5 coupon rates x 3 pars"),
        lens.len(),
        move |i, cx| {
            let (f, k) = l2[i as usize];
            let lives = [k as f64 / f, k as f64 * (1.0 / f)];
            for (q, &c) in [0.05, 0.0, 0.12, 0.0375, 0.2].iter().enumerate() {
                for &par in &[100.0, 1.0, 250_000.0] {
                    if k > 2000 && (q > 0 || par != 100.0) {
                        continue;
                    }
                    for t_life in lives {
                        let b = CouponBond { par, c, freq: f, t_life };
                        let v = b.generate_cashflow();
                        cx.state();
                        cx.step();
                        cx.trace();
                        ensure!(v.len() == k, "{b:?} has {} cash flows, expected {k}", v.len());
                        let cp = par * c / f;
                        for (j, &x) in v.iter().enumerate() {
                            let w = if j + 1 == k { cp + par } else { cp };
                            ensure!(close(x, w, par, 1e-13), "{b:?}: cash flow {} of {k} is {x}, expected {w}", j + 1);
                        }
                    }
                }
            }
            cx.outf(k as f64 + f * 1e5);
            cx.sample(|| format!("{k} periods at {f} per year"));
            Ok(())
        },
    );
    // price by backward recursion, one more period at a time
    let f2 = fam(
        "price",
        &format!("17 frequencies x 13 coupons x 24 yields x 6 pars, every whole number of periods up to {years} years: price against the backward recursion over its flows, and par when yield = coupon"),
        FREQS.len() * COUPONS.len() * YIELDS.len() * PARS.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&f, &c, &y, &par) = (d.of(&FREQS), d.of(&COUPONS), d.of(&YIELDS), d.of(&PARS));
            let it = y / f;
            let mut p = par;
            for k in 1..=kmax(f) {
                p = (p + par * c / f) / (1.0 + it);
                if p > par * 1e9 {
                    break;
                }
                let b = CouponBond { par, c, freq: f, t_life: k as f64 / f };
                let g = b.price(y);
                cx.state();
                cx.step();
                let tol = 1e-13 * (10.0 + k as f64) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k as f64 * c / f).min(1e3);
                ensure!(close(g, p, par, tol), "{b:?}.price({y}) = {g}, its {k} discounted flows are worth {p}");
                if y == 0.0 {
                    let g = b.price(c);
                    cx.step();
                    let it = (c / f).max(0.9e-6);
                    ensure!(close(g, par, par, 1e-13 * (10.0 + k as f64) + 4e-16 / it), "{b:?} priced at its coupon rate is worth {g}");
                }
                cx.outf(g / par);
            }
            cx.trace();
            cx.sample(|| format!("coupon {c} frequency {f} yield {y} par {par}"));
            Ok(())
        },
    );
    let (ystep, yn) = if thorough { (1e-4, 15_000) } else { (5e-4, 3_000) };
    let f5 = fam("dense-yields", &format!("{yn} yields from -20% by {ystep} x 17 frequencies x 24 lives x 6 coupons: price against the closed form and par at the coupon"), yn, move |i, cx| {
        let y = -0.2 + (i as f64 + 0.5) * ystep;
        for &f in &FREQS {
            for t in [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 15.0, 16.0, 18.0, 20.0, 24.0, 25.0, 30.0, 32.0, 35.0, 40.0, 50.0] {
                let k: f64 = t * f;
                if k.fract() != 0.0 {
                    continue;
                }
                let it = y / f;
                let l = -k * it.ln_1p();
                let (v, ann) = (l.exp(), -l.exp_m1() / it);
                if v > 1e9 {
                    continue;
                }
                for c in [0.0, 0.01, 0.05, 0.08, 0.15, y.max(0.0)] {
                    let b = CouponBond { par: 100.0, c, freq: f, t_life: t };
                    let (g, p) = (b.price(y), 100.0 * (c / f * ann + v));
                    cx.state();
                    cx.step();
                    cx.outf(g);
                    let tol = 1e-13 * (10.0 + k) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k * c / f).min(1e3);
                    ensure!(close(g, p, 100.0, tol), "{b:?}.price({y}) = {g}, its flows are worth {p}");
                    ensure!(c != y || close(g, 100.0, 100.0, tol), "{b:?} priced at its coupon rate {y} is worth {g}");
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("yield {y}"));
        Ok(())
    });
    // on curves
    let cf = [1.0, 2.0, 4.0, 12.0, 3.0, 6.0, 26.0, 52.0, 365.0, 0.5, 0.25, 1.5, 24.0];
    let nmax = if thorough { 480 } else { 120 };
    let f3 = fam(
        "curves",
        &format!("13 bond frequencies x 1..={nmax} periods x 3 conventions x 12 curve shapes x 3 coupons on a curve of the bond's frequency, and a flat curve against the flat rate"),
        cf.len() * nmax,
        move |i, cx| {
            let mut d = Dec(i);
            let (k, &f) = (d.n(nmax) + 1, d.of(&cf));
            for s in 0..NSHAPES {
                let rates = shape(s, k);
                for conv in CONVS {
                    for (c, par) in [(0.05, 100.0), (0.0, 1.0), (0.12, 1000.0)] {
                        let b = CouponBond { par, c, freq: f, t_life: k as f64 / f };
                        let rc = curve(conv, rates.clone(), f);
                        let g = b.price_ratecurve(&rc);
                        let w: f64 = (1..=k).map(|j| (par * c / f + if j == k { par } else { 0.0 }) / growth(conv, rates[j - 1], f, j as f64 / f)).sum();
                        cx.state();
                        cx.step();
                        cx.trace();
                        cx.outf(g / par);
                        ensure!(close(g, w, par, 1e-12 * (10.0 + k as f64)), "{b:?} on {rc:?} = {g}, flow by flow {w}");
                        if s == 1 && conv == Conv::Nom {
                            let p = b.price(0.05);
                            cx.step();
                            ensure!(close(g, p, par, 1e-11 * (10.0 + k as f64)), "{b:?} on a flat 5% curve = {g}, at the flat rate {p}");
                        }
                    }
                }
            }
            cx.sample(|| format!("{k} periods at {f}"));
            Ok(())
        },
    );
    // bond and curve of different frequencies (flows at and between the curve's points)
    let mixed = [(1.0, 2.0), (1.0, 4.0), (1.0, 12.0), (2.0, 4.0), (2.0, 12.0), (4.0, 12.0), (1.0, 3.0), (2.0, 3.0), (2.0, 5.0), (4.0, 6.0), (1.0, 52.0), (3.0, 4.0), (1.0, 1.5), (2.0, 26.0), (0.5, 1.0), (0.5, 2.0), (0.25, 0.5), (0.25, 1.0), (0.5, 12.0)];
    let f4 = fam("mixed", "19 pairs of bond and finer curve frequencies x 1..=40 periods x 3 conventions x 12 shapes, flows between points interpolated", mixed.len() * 40, move |i, cx| {
        let mut d = Dec(i);
        let (&(bf, cfq), k) = (d.of(&mixed), d.n(40) + 1);
        let n = (k as f64 / bf * cfq).ceil() as usize + 1;
        for s in 0..NSHAPES {
            let rates = shape(s, n);
            for conv in CONVS {
                let b = CouponBond { par: 100.0, c: 0.06, freq: bf, t_life: k as f64 / bf };
                let g = b.price_ratecurve(&curve(conv, rates.clone(), cfq));
                let w: f64 = (1..=k)
                    .map(|j| {
                        let t = j as f64 / bf;
                        (6.0 / bf + if j == k { 100.0 } else { 0.0 }) / growth(conv, interp(&rates, t * cfq), cfq, t)
                    })
                    .sum();
                cx.state();
                cx.step();
                cx.trace();
                cx.outf(g);
                ensure!(close(g, w, 100.0, 1e-11 * (10.0 + k as f64)), "{b:?} on a {conv:?} curve of frequency {cfq} (shape {s}) = {g}, flow by flow {w}");
            }
        }
        cx.sample(|| format!("bond {bf} curve {cfq} periods {k}"));
        Ok(())
    });
    Prop { id: "F01", assumptions: vec!["life is a whole number of coupon periods (k/freq or k*(1/freq) in floating point)"], tasks: vec![f1, f2, f5, f3, f4] }
}

pub fn f02(thorough: bool) -> Prop {
    let (cs, ys, lives): (Vec<f64>, Vec<f64>, Vec<f64>) = if thorough {
        ((0..=80).map(|k| k as f64 * 0.0025).collect(), (0..=540).map(|k| -0.04 + k as f64 * 0.001).collect(), (1..=480).map(|k| k as f64 / 12.0).collect())
    } else {
        ((0..=20).map(|k| k as f64 * 0.01).collect(), (0..=108).map(|k| -0.04 + k as f64 * 0.005).collect(), (1..=160).map(|k| k as f64 / 4.0).collect())
    };
    let what = format!("{} coupons 0..20% x {} lives up to 40 years x {} yields -4%..50% x 6 frequencies (whole numbers of periods) x 3 pars", cs.len(), lives.len(), ys.len());
    let (nc, nl) = (cs.len(), lives.len());
    let f1 = fam("grid", &what, nc * nl * 6, move |i, cx| {
        let mut d = Dec(i);
        let (&c, &t, &f) = (d.of(&cs), d.of(&lives), d.of(&FREQS[..6]));
        if ((t * f) - (t * f).round()).abs() > 1e-9 {
            return Ok(());
        }
        let it = (t * f).round();
        for &y in &ys {
            for par in [100.0, 1.0, 1e6] {
                let b = CouponBond { par, c, freq: f, t_life: t };
                // price by the model, so that a wrong price function does not hide
                let v = grow(y / f, -it);
                let ann = if y.abs() < 1e-12 { it } else { -(-it * (y / f).ln_1p()).exp_m1() / (y / f) };
                let p = par * (c / f * ann + v);
                let r = guarded(|| b.ytm(p)).map_err(|e| format!("{b:?}.ytm({p}) {e}, expected {y}"))?;
                cx.state();
                cx.step();
                cx.trace();
                ensure!((r - y).abs() < 1e-6, "{b:?}.ytm({p}) = {r}, expected {y}");
            }
        }
        cx.outf(c + t * 7.0 + f * 1e3);
        cx.sample(|| format!("coupon {c} life {t} frequency {f}: all yields"));
        Ok(())
    });
    Prop { id: "F02", assumptions: vec!["prices are computed by the model in floating point"], tasks: vec![f1] }
}

pub fn f03(thorough: bool) -> Prop {
    let kmax = if thorough { 480 } else { 160 };
    let f1 = fam(
        "into-period",
        &format!("17 frequencies x 13 coupons x 24 yields x every number of periods up to {kmax} (30 for daily) x 13 points in the coupon period x 3 pars"),
        FREQS.len() * COUPONS.len() * YIELDS.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&f, &c, &y) = (d.of(&FREQS), d.of(&COUPONS), d.of(&YIELDS));
            let it = y / f;
            for par in [100.0, 1.0, 1e6] {
                let mut p = par;
                for k in 1..=kmax {
                    let prev = p;
                    p = (p + par * c / f) / (1.0 + it);
                    if p > par * 1e9 {
                        break;
                    }
                    let b = CouponBond { par, c, freq: f, t_life: k as f64 / f };
                    let tol = 1e-13 * (10.0 + k as f64) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k as f64 * c / f).min(1e3);
                    for j in 0..=12 {
                        let t = j as f64 / 12.0 / f;
                        let (full, flat, acc) = (b.pv_full(y, t), b.pv_flat(y, t), b.accrued_interest(t));
                        let w = p * grow(it, t * f);
                        cx.state();
                        cx.steps(3);
                        ensure!(close(full, w, par, tol), "{b:?}.pv_full({y},{t}) = {full}, expected {w}");
                        let a = par * c * t;
                        ensure!(close(acc, a, par, 1e-13), "{b:?}.accrued_interest({t}) = {acc}, expected {a}");
                        ensure!(close(flat, w - a, par.max(w), tol), "{b:?}.pv_flat({y},{t}) = {flat}, expected {}", w - a);
                        ensure!(close(full - flat, acc, par.max(w), 1e-12), "{b:?} at {y},{t}: full {full} - flat {flat} differs from accrued {acc}");
                        if j == 0 {
                            let q = b.price(y);
                            cx.step();
                            ensure!(close(full, q, par, 1e-12) && close(flat, q, par, 1e-12), "{b:?} at {y}, time 0: price {q}, full {full}, flat {flat}");
                        }
                        if j == 12 {
                            // one whole period in: worth the next coupon plus the remaining bond
                            ensure!(close(full, prev + par * c / f, par, tol), "{b:?}.pv_full({y},{t}) = {full}, coupon plus rest {}", prev + par * c / f);
                        }
                        cx.outf(full / par);
                    }
                }
            }
            cx.trace();
            cx.sample(|| format!("coupon {c} frequency {f} yield {y}"));
            Ok(())
        },
    );
    let (ystep, yn) = if thorough { (1e-4, 15_000) } else { (5e-4, 3_000) };
    let f2 = fam("dense", &format!("{yn} yields from -20% by {ystep} x 17 frequencies x 4 coupons x 6 lives x 15 times"), yn, move |i, cx| {
        let y = -0.2 + (i as f64 + 0.5) * ystep;
        for &f in &FREQS {
            for t in [4.0, 8.0, 12.0, 16.0, 20.0, 40.0] {
                let it = y / f;
                let l = -(t * f) * it.ln_1p();
                let (v, ann) = (l.exp(), -l.exp_m1() / it);
                if v > 1e9 {
                    continue;
                }
                for c in [0.0, 0.02, 0.07, 0.13] {
                    let b = CouponBond { par: 100.0, c, freq: f, t_life: t };
                    let p = 100.0 * (c / f * ann + v);
                    for j in 0..15 {
                        let s = j as f64 / 14.0 / f;
                        let (full, flat, acc) = (b.pv_full(y, s), b.pv_flat(y, s), b.accrued_interest(s));
                        let (w, a) = (p * grow(it, s * f), 100.0 * c * s);
                        cx.state();
                        cx.steps(3);
                        let tol = 1e-13 * (10.0 + t * f) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + t * c).min(1e3);
                        ensure!(close(full, w, 100.0, tol), "{b:?}.pv_full({y},{s}) = {full}, expected {w}");
                        ensure!(close(acc, a, 100.0, 1e-13), "{b:?}.accrued_interest({s}) = {acc}, expected {a}");
                        ensure!(close(flat, w - a, w.max(100.0), tol), "{b:?}.pv_flat({y},{s}) = {flat}, expected {}", w - a);
                    }
                    cx.outf(p);
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("yield {y}"));
        Ok(())
    });
    Prop { id: "F03", assumptions: vec![], tasks: vec![f1, f2] }
}

pub fn f04(thorough: bool) -> Prop {
    let st = if thorough { 0.0025 } else { 0.01 };
    let idx: Vec<f64> = (0..=(0.15 / st) as usize).map(|k| k as f64 * st).collect();
    let dms: Vec<f64> = (0..=(0.22 / (st / 2.0)).round() as usize).map(|k| -0.02 + k as f64 * st / 2.0).collect();
    let qms = [0.005, 0.0, -0.01, 0.0075, 0.01, 0.02, 0.05, 0.1];
    let what = format!("{} index rates 0..15% x {} margins -2..20% x 8 quoted margins x 6 frequencies x every whole number of periods up to 30 years (every quarter, above) x 3 pars: price by recursion, par when margins agree, margin recovered from the model's price", idx.len(), dms.len());
    let (ni, nd) = (idx.len(), dms.len());
    let f1 = fam("grid", &what, ni * nd * 8 * 6, move |i, cx| {
        let mut d = Dec(i);
        let (&ir, &dm, &q, &f) = (d.of(&idx), d.of(&dms), d.of(&qms), d.of(&FREQS[..6]));
        let it = (ir + dm) / f;
        let negative_coupon = ir + q < 0.0;
        for par in [100.0, 1.0, 1e6] {
            let mut p = par;
            for k in 1..=(30.0 * f) as usize {
                p = (p + par * (ir + q) / f) / (1.0 + it);
                let b = FloatingRateNotes { par, quoted_margin: q, freq: f, t_life: k as f64 / f };
                let g = b.price(ir, dm);
                cx.state();
                cx.step();
                let tol = 1e-13 * (10.0 + k as f64) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k as f64 / f);
                ensure!(close(g, p, par, tol), "{b:?}.price({ir},{dm}) = {g}, its discounted flows are worth {p}");
                if dm == dms[0] {
                    let g = b.price(ir, q);
                    cx.step();
                    let it = ((ir + q) / f).abs().max(0.9e-6);
                    ensure!(close(g, par, par, 1e-13 * (10.0 + k as f64) + 4e-16 / it), "{b:?}.price({ir},{q}) = {g} although both margins agree");
                }
                if !negative_coupon && (k <= 4 || (k as f64 * 4.0 / f).fract() == 0.0) {
                    let r = guarded(|| b.discount_margin(p, ir)).map_err(|e| format!("{b:?}.discount_margin({p},{ir}) {e}, expected {dm}"))?;
                    cx.step();
                    ensure!((r - dm).abs() < 1e-6, "{b:?}.discount_margin({p},{ir}) = {r}, expected {dm}");
                }
            }
            cx.outf(p / par);
        }
        cx.trace();
        cx.sample(|| format!("index {ir} margin {dm} quoted {q} frequency {f}"));
        Ok(())
    });
    Prop { id: "F04", assumptions: vec![], tasks: vec![f1] }
}

pub fn f05(thorough: bool) -> Prop {
    let nmax = if thorough { 400 } else { 120 };
    let fr: Vec<f64> = (1..=366).map(|k| k as f64).chain([0.5, 0.25, 1.5, 2.5, 0.2, 0.1]).collect();
    let fr = Arc::new(fr);
    let fr2 = fr.clone();
    let f1 = fam(
        "interpolation",
        &format!("372 frequencies (1..366 and fractional) x curve lengths 1..={nmax} (all for the usual frequencies; 1..=16, 40 and 365+ otherwise) x 3 conventions x 12 shapes: every point and 7 fractions between neighbours, and the present value of a flow there"),
        fr.len() * nmax,
        move |i, cx| {
            let mut d = Dec(i);
            let (&f, n) = (d.of(&fr2), d.n(nmax) + 1);
            let usual = FREQS.contains(&f);
            if !usual && n > 16 && n != 40 {
                return Ok(());
            }
            for s in 0..NSHAPES {
                let rates = shape(s, n);
                let cs = CONVS.map(|c| curve(c, rates.clone(), f));
                for k in 1..=n {
                    for (j, fr) in [0.0, 0.5, 0.25, 1e-3, 0.999, 1.0 / 3.0, 0.8, 0.0625].into_iter().enumerate() {
                        if k == n && j > 0 {
                            break;
                        }
                        let x = k as f64 + fr;
                        let y = x / f;
                        let w = if j == 0 { rates[k - 1] } else { rates[k - 1] + (rates[k] - rates[k - 1]) * fr };
                        for (c, conv) in cs.iter().zip(CONVS) {
                            if conv == Conv::Nom && w / f < -0.95 {
                                continue;
                            }
                            let g = c.rate_estim(y);
                            cx.state();
                            cx.step();
                            cx.outf(g);
                            ensure!((g - w).abs() < 1e-10, "{conv:?} curve {rates:?} frequency {f}: rate at {y} = {g}, expected {w}");
                            if k <= 6 || k == n || usual {
                                let v = c.pv(1000.0, y);
                                let want = 1000.0 / growth(conv, w, f, y);
                                cx.step();
                                ensure!(close(v, want, 0.0, 1e-9), "{conv:?} curve {rates:?} frequency {f}: pv(1000,{y}) = {v}, expected {want}");
                            }
                        }
                    }
                }
                cx.trace();
                if n <= 12 {
                    for (kind, r) in [Rates::SpotRates { rate: cs[0].clone() }, ParRates { rate: cs[1].clone() }, ForwardRates { rate: cs[2].clone() }].iter().enumerate() {
                        for k in 1..=n {
                            for fr in [0.0, 0.5] {
                                if k == n && fr > 0.0 {
                                    continue;
                                }
                                let g = r.rate_estim((k as f64 + fr) / f);
                                let w = if fr == 0.0 { rates[k - 1] } else { (rates[k - 1] + rates[k]) / 2.0 };
                                cx.step();
                                ensure!((g - w).abs() < 1e-10, "rates of kind {kind}, {rates:?}, frequency {f}: at point {k}+{fr} = {g}, expected {w}");
                            }
                        }
                    }
                }
            }
            cx.sample(|| format!("frequency {f} length {n}"));
            Ok(())
        },
    );
    let fq = [1.0, 2.0, 4.0, 12.0, 0.5, 365.0, 49.0];
    let f2 = fam("outside", "7 frequencies x lengths 1..=40 x 3 conventions: times before the first point (negative and zero included) and beyond the last are refused, for the rate and the present value", 7 * 40, move |i, cx| {
        let mut d = Dec(i);
        let (&f, n) = (d.of(&fq), d.n(40) + 1);
        for conv in CONVS {
            let c = curve(conv, shape(0, n), f);
            let nn = n as f64;
            for x in [0.0, 0.5, 0.999, 0.99999, 1e-6, -0.5, -1.0, -7.0, nn + 0.001, nn + 0.5, nn + 1.0, nn + 1.5, nn + 100.0, nn + 1e-5] {
                let y = x / f;
                cx.state();
                cx.steps(2);
                cx.trace();
                let r = guarded(|| c.rate_estim(y));
                ensure!(r.is_err(), "{c:?}: rate at {y}, outside the curve's span, = {}", r.unwrap());
                let r = guarded(|| c.pv(1.0, y));
                ensure!(r.is_err(), "{c:?}: pv at {y}, outside the curve's span, = {}", r.unwrap());
            }
            let r = guarded(|| c.rate_estim(nn / f));
            ensure!(r.is_ok(), "{c:?}: rate at its last point refused");
        }
        cx.out(i);
        cx.sample(|| format!("frequency {f} length {n}"));
        Ok(())
    });
    Prop { id: "F05", assumptions: vec!["times within 1e-9 of a point count as that point"], tasks: vec![f1, f2] }
}

pub fn f06(thorough: bool) -> Prop {
    let nmax = if thorough { 120 } else { 40 };
    let depth = if thorough { 7 } else { 5 };
    let chains = 3usize.pow(depth as u32);
    let f1 = fam(
        "chains",
        &format!("every chain of {depth} conversions (and so every shorter one as a prefix) from each convention x 17 frequencies x lengths 1..={nmax} x 12 shapes: length, frequency, present values at every point, rates when back at the first convention"),
        3 * FREQS.len() * nmax * NSHAPES,
        move |i, cx| {
            let mut d = Dec(i);
            let (conv, &f, n, s) = (*d.of(&CONVS), d.of(&FREQS), d.n(nmax) + 1, d.n(NSHAPES));
            let rates = shape(s, n);
            let c0 = curve(conv, rates.clone(), f);
            let grows: Vec<f64> = rates.iter().enumerate().map(|(k, &r)| growth(conv, r, f, (k + 1) as f64 / f)).collect();
            // depth-first over the conversion tree
            fn go(c: &RateCurve, left: usize, conv0: Conv, rates: &[f64], grows: &[f64], f: f64, path: &mut Vec<usize>, cx: &mut Cx) -> R {
                if left == 0 {
                    cx.trace();
                    return Ok(());
                }
                for op in 0..3 {
                    path.push(op);
                    let n = match op {
                        0 => c.to_nominal(),
                        1 => c.to_effective(),
                        _ => c.to_exponential(),
                    };
                    cx.state();
                    cx.step();
                    let (was, rt0, _) = parts(c);
                    let (now, rt, fq) = parts(&n);
                    ensure!(now == CONVS[op], "conversion {op} gave {now:?}");
                    ensure!(fq == f, "conversions {path:?} of a {conv0:?} curve of frequency {f} changed it to {fq}");
                    ensure!(rt.len() == rates.len(), "conversions {path:?} changed the length {} to {}", rates.len(), rt.len());
                    for k in 0..rt.len() {
                        let t = (k + 1) as f64 / f;
                        let g = growth(now, rt[k], f, t);
                        ensure!(close(g, grows[k], 0.0, 1e-11 * (1.0 + t)), "conversions {path:?} of the {conv0:?} curve {rates:?} frequency {f}: growth to point {k} is {g}, was {}", grows[k]);
                        if k < 3 || k + 1 == rt.len() {
                            let v = n.pv(100.0, t);
                            cx.step();
                            ensure!(close(v, 100.0 / grows[k], 0.0, 1e-11 * (1.0 + t)), "conversions {path:?} of the {conv0:?} curve {rates:?} frequency {f}: pv at point {k} is {v}, was {}", 100.0 / grows[k]);
                        }
                        if now == conv0 {
                            ensure!((rt[k] - rates[k]).abs() < 1e-11 * (1.0 + f), "conversions {path:?} of the {conv0:?} curve {rates:?} frequency {f}: rate {k} came back as {}", rt[k]);
                        }
                        if now == was {
                            ensure!(rt[k] == rt0[k], "converting a {was:?} curve to {now:?} changed rate {k}");
                        }
                    }
                    go(&n, left - 1, conv0, rates, grows, f, path, cx)?;
                    path.pop();
                }
                Ok(())
            }
            go(&c0, depth, conv, &rates, &grows, f, &mut vec![], cx)?;
            cx.out(i);
            cx.sample(|| format!("{conv:?} curve, frequency {f}, length {n}, shape {s}: {chains} chains"));
            Ok(())
        },
    );
    let (rstep, rn) = if thorough { (1e-4, 22_000) } else { (1e-3, 2_200) };
    let f2 = fam("dense-rates", &format!("one curve of {rn} rates from -20% by {rstep} (then the same reversed, so that every rate is met early and late) x 3 conventions x 17 frequencies x both other conventions and back"), 3 * FREQS.len() * 2, move |i, cx| {
        let mut d = Dec(i);
        let (conv, &f, rev) = (*d.of(&CONVS), d.of(&FREQS), d.n(2));
        let mut rates: Vec<f64> = (0..rn).map(|k| -0.2 + k as f64 * rstep).collect();
        if rev == 1 {
            rates.reverse();
        }
        let c = curve(conv, rates.clone(), f);
        for to in CONVS {
            let conv_to = |c: &RateCurve, t: Conv| match t {
                Conv::Nom => c.to_nominal(),
                Conv::Eff => c.to_effective(),
                Conv::Exp => c.to_exponential(),
            };
            let n = conv_to(&c, to);
            let b = conv_to(&n, conv);
            cx.state();
            cx.steps(2);
            cx.trace();
            let ((pc, rt, fq), (bc, back, bf)) = (parts(&n), parts(&b));
            ensure!(pc == to && bc == conv && fq == f && bf == f && rt.len() == rn && back.len() == rn, "{conv:?} curve of {rn} rates at {f} to {to:?} and back: {pc:?}, {bc:?}, frequencies {fq}, {bf}, lengths {}, {}", rt.len(), back.len());
            for k in 0..rn {
                let (g, w) = (growth(to, rt[k], f, 1.0), growth(conv, rates[k], f, 1.0));
                ensure!(close(g, w, 0.0, 1e-12 * (10.0 + f)), "{conv:?} rate {} at frequency {f} became the {to:?} rate {}: growth {g}, was {w}", rates[k], rt[k]);
                ensure!((back[k] - rates[k]).abs() < 1e-12 * (10.0 + f), "{conv:?} rate {} at frequency {f} to {to:?} and back became {}", rates[k], back[k]);
                cx.outf(rt[k]);
            }
        }
        cx.sample(|| format!("{conv:?} frequency {f}"));
        Ok(())
    });
    Prop { id: "F06", assumptions: vec![], tasks: vec![f1, f2] }
}

fn spot_dfs(spot: &[f64], f: f64) -> Vec<f64> {
    spot.iter().enumerate().map(|(k, &r)| grow(r / f, -((k + 1) as f64))).collect()
}
pub fn judge_curve(rates: &Vec<f64>, f: f64, cx: &mut Cx) -> R {
    let n = rates.len();
    // a par curve can be bootstrapped while every remaining discount factor stays positive
    let mut dfs = vec![];
    let mut ann = 0.0;
    for k in 0..n {
        let x = rates[k] / f;
        let df = (1.0 - x * ann) / (1.0 + x);
        dfs.push(df);
        ann += df;
    }
    if dfs.iter().all(|d| *d > 1e-3) {
        let par = ParRates { rate: curve(Conv::Nom, rates.clone(), f) };
        let sp = par.to_spot();
        cx.state();
        cx.step();
        cx.trace();
        let SpotRates { rate } = &sp else { return Err(format!("to_spot of par {rates:?} did not give spot rates")) };
        let (cv, rt, fq) = parts(rate);
        ensure!(cv == Conv::Nom && fq == f && rt.len() == n, "to_spot of par {rates:?} frequency {f} gave {rate:?}");
        let got = spot_dfs(rt, f);
        let mut a = 0.0;
        for k in 0..n {
            a += got[k];
            let v = 100.0 * rates[k] / f * a + 100.0 * got[k];
            ensure!((v - 100.0).abs() < 1e-7 + 1e-10 * 100.0 * (rates[k] / f * a).abs(), "par curve {rates:?} frequency {f}: the spot curve prices its {}-period par bond at {v}", k + 1);
            ensure!(close(got[k], dfs[k], 0.0, 1e-8), "par curve {rates:?} frequency {f}: discount factor {k} is {}, expected {}", got[k], dfs[k]);
        }
        cx.outf(rt[n - 1]);
        let back = sp.to_par();
        cx.step();
        let ParRates { rate } = &back else { return Err("to_par did not give par rates".into()) };
        let (cv, rt, fq) = parts(rate);
        ensure!(cv == Conv::Nom && fq == f && rt.len() == n, "par {rates:?} to spot to par gave {rate:?}");
        for k in 0..n {
            ensure!((rt[k] - rates[k]).abs() < 1e-9 * f.max(1.0), "par curve {rates:?} frequency {f} to spot and back: rate {k} = {}", rt[k]);
        }
    }
    let dfs = spot_dfs(rates, f);
    let spot = SpotRates { rate: curve(Conv::Nom, rates.clone(), f) };
    let pr = spot.to_par();
    cx.state();
    cx.step();
    cx.trace();
    let ParRates { rate } = &pr else { return Err(format!("to_par of spot {rates:?} did not give par rates")) };
    let (cv, rt, fq) = parts(rate);
    ensure!(cv == Conv::Nom && fq == f && rt.len() == n, "to_par of spot {rates:?} frequency {f} gave {rate:?}");
    let mut a = 0.0;
    for k in 0..n {
        a += dfs[k];
        let want = f * (1.0 - dfs[k]) / a;
        ensure!((rt[k] - want).abs() < 1e-10 * f.max(1.0), "spot curve {rates:?} frequency {f}: par rate {k} = {}, expected {want}", rt[k]);
    }
    cx.outf(rt[n - 1]);
    if dfs.iter().all(|d| *d > 1e-3) {
        let back = pr.to_spot();
        cx.step();
        let SpotRates { rate } = &back else { return Err("to_spot did not give spot rates".into()) };
        let (cv, rt, fq) = parts(rate);
        ensure!(cv == Conv::Nom && fq == f && rt.len() == n, "spot {rates:?} to par to spot gave {rate:?}");
        for k in 0..n {
            ensure!((rt[k] - rates[k]).abs() < 1e-8 * f.max(1.0), "spot curve {rates:?} frequency {f} to par and back: rate {k} = {}", rt[k]);
        }
    }
    Ok(())
}
pub fn f07(thorough: bool) -> Prop {
    let nmax = if thorough { 480 } else { 200 };
    let n_small = 6;
    let vals = [0.03, 0.01, 0.05, -0.01, 0.0, 0.12, 0.031];
    // A: all small curves over an alphabet; B: long shapes
    let mut total = 0;
    for n in 1..=n_small {
        total += vals.len().pow(n);
    }
    let f1 = fam("small", &format!("all curves of length 1..={n_small} over 7 rates x 17 frequencies"), total, move |i, cx| {
        let mut i = i as usize;
        let mut n = 1;
        while i >= vals.len().pow(n) {
            i -= vals.len().pow(n);
            n += 1;
        }
        let mut d = Dec(i as u64);
        let rates: Vec<f64> = (0..n).map(|_| *d.of(&vals)).collect();
        for &f in &FREQS {
            judge_curve(&rates, f, cx)?;
        }
        cx.sample(|| format!("{rates:?}, all frequencies"));
        Ok(())
    });
    let f2 = fam("long", &format!("lengths 1..={nmax} x 12 shapes x 17 frequencies"), nmax * NSHAPES * FREQS.len(), move |i, cx| {
        let mut d = Dec(i);
        let (n, s, &f) = (d.n(nmax) + 1, d.n(NSHAPES), d.of(&FREQS));
        judge_curve(&shape(s, n), f, cx)?;
        cx.sample(|| format!("length {n} shape {s} frequency {f}"));
        Ok(())
    });
    Prop { id: "F07", assumptions: vec!["par curves whose bootstrapped discount factors stay above 0.001; nominal convention (the others are unimplemented)"], tasks: vec![f1, f2] }
}

pub fn f08(thorough: bool) -> Prop {
    let nmax = if thorough { 64 } else { 40 };
    let sub = if thorough { 12 } else { 6 };
    let f1 = fam(
        "pairs",
        &format!("17 frequencies x lengths 2..={nmax} x 12 shapes: every start and end on a {sub}-per-period grid (points and interpolated times)"),
        FREQS.len() * (nmax - 1) * NSHAPES,
        move |i, cx| {
            let mut d = Dec(i);
            let (&f, n, s) = (d.of(&FREQS), d.n(nmax - 1) + 2, d.n(NSHAPES));
            let rates = shape(s, n);
            let sp = SpotRates { rate: curve(Conv::Nom, rates.clone(), f) };
            let last = n * sub;
            // log growth to each grid time, by the model
            let lg: Vec<f64> = (0..=last).map(|q| if q < sub { 0.0 } else { q as f64 / sub as f64 * (interp(&rates, q as f64 / sub as f64) / f).ln_1p() }).collect();
            for a in sub..last {
                for b in a + 1..=last {
                    let (ta, tb) = (a as f64 / sub as f64 / f, b as f64 / sub as f64 / f);
                    let fw = sp.forward_rate(ta, tb - ta);
                    cx.state();
                    cx.step();
                    let got = (tb - ta) * f * (fw / f).ln_1p();
                    let want = lg[b] - lg[a];
                    ensure!((got - want).abs() < 1e-9 + 4e-16 * (-want).exp(), "spot {rates:?} frequency {f}: forward_rate({ta},{}) = {fw}: growth over the period is e^{got}, the spot rates give e^{want}", tb - ta);
                    if s == 1 {
                        ensure!((fw - 0.05).abs() < 1e-9, "flat curve: forward_rate({ta},{}) = {fw}", tb - ta);
                    }
                    cx.outf(fw);
                }
            }
            // chained one-period forwards compound to the long rate
            let mut g = lg[sub];
            for k in 1..n {
                g += (sp.forward_rate(k as f64 / f, 1.0 / f) / f).ln_1p();
                cx.step();
            }
            ensure!((g - lg[last]).abs() < 1e-9, "spot {rates:?} frequency {f}: chained forwards give e^{g}, the long rate e^{}", lg[last]);
            cx.trace();
            cx.sample(|| format!("frequency {f} length {n} shape {s}"));
            Ok(())
        },
    );
    Prop { id: "F08", assumptions: vec!["nominal convention (the others are unimplemented)"], tasks: vec![f1] }
}

pub fn f09(thorough: bool) -> Prop {
    let prices = [98.0, 1.0, 95.0, 100.0, 0.01, 50.0, 99.99, 102.5, 97_500.0, 1e6, 1e-6, 250.0, 3.0, 1e9];
    let incomes = [0.0, 5.0, 0.01, 1.0, 40.0, 1e5, 2.5, -3.0];
    let tmax = if thorough { 4000 } else { 1500 };
    let f1 = fam("grid", &format!("every term of 1..={tmax} days and 0.5, 90.5 x 14 x 14 prices or face values x 8 incomes"), tmax + 2, move |i, cx| {
        let t = match i as usize {
            k if k == tmax => 0.5,
            k if k > tmax => 90.5,
            k => k as f64 + 1.0,
        };
        for &p0 in &prices {
            for &f in &prices {
                let r = t_bill_r(t, p0, f);
                cx.state();
                cx.steps(2);
                let d = t_bill_d(r, t, f);
                let w = (f - p0) / f * 360.0 / t;
                ensure!((r - w).abs() <= 1e-11 * (w.abs() + 360.0 / t), "t_bill_r({t},{p0},{f}) = {r}, expected {w}");
                ensure!((d - (f - p0)).abs() <= 1e-11 * (f + p0), "the discount of a bill bought at {p0}, face {f}, term {t} comes back as {d}");
                for rr in [0.048, 0.0, 0.01, -0.02, 0.2, 1.0] {
                    let d = t_bill_d(rr, t, f);
                    let w = f * rr / 360.0 * t;
                    cx.steps(2);
                    ensure!(close(d, w, 0.0, 1e-12), "t_bill_d({rr},{t},{f}) = {d}, expected {w}");
                    let back = t_bill_r(t, f - d, f);
                    ensure!((back - rr).abs() <= 1e-11 * (rr.abs() + 360.0 / t), "discount yield {rr} came back as {back} (term {t}, face {f})");
                }
                for &inc in &incomes {
                    let p1 = f;
                    let ratio = (p1 + inc) / p0;
                    if ratio <= 1e-6 {
                        continue;
                    }
                    let (h, m) = (holding_per_yield(p0, p1, inc), money_mkt_yield(t, p0, p1, inc));
                    cx.state();
                    cx.steps(3);
                    ensure!((h + 1.0 - ratio).abs() <= 1e-12 * (1.0 + ratio), "holding_per_yield({p0},{p1},{inc}) = {h}, ratio {ratio}");
                    let w = (ratio - 1.0) * 360.0 / t;
                    ensure!((m - w).abs() <= 1e-12 * (1.0 + ratio) * 360.0 / t, "money_mkt_yield({t},{p0},{p1},{inc}) = {m}, expected {w}");
                    let lg = 365.0 / t * ratio.ln();
                    let e = eff_ann_yield(t, p0, p1, inc);
                    if lg.abs() < 300.0 {
                        let w = lg.exp_m1();
                        ensure!((e - w).abs() <= 1e-12 * (1.0 + w.abs()) * (10.0 + lg.abs() + 365.0 / t), "eff_ann_yield({t},{p0},{p1},{inc}) = {e}, expected {w}");
                    }
                    cx.outf(h + e);
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("term {t}"));
        Ok(())
    });
    Prop { id: "F09", assumptions: vec![], tasks: vec![f1] }
}

pub fn f10(thorough: bool) -> Prop {
    let vals = [4.0, 6.0, 5.5, 1.0, 100.0];
    // a portfolio may start from nothing: all of its first value is then an inflow
    let starts = [4.0, 6.0, 5.5, 1.0, 100.0, 0.0, 0.3];
    let flows = [0.0, 1.0, -0.5, 20.0, 0.225];
    let depth = if thorough { 4 } else { 3 };
    let per = vals.len() * flows.len();
    let mut total = 0usize;
    for n in 1..=depth {
        total += starts.len() * per.pow(n);
    }
    let judge = |bv: &Vec<f64>, fl: &Vec<f64>, cx: &mut Cx| -> R {
        let n = fl.len();
        let mut lg = 0.0f64;
        for k in 0..n {
            lg += (bv[k + 1] / (bv[k] + fl[k])).ln();
        }
        let r = twrr(bv, fl);
        let w = (lg / n as f64).exp_m1();
        let tol = 1e-12 * (1.0 + w.abs()) * (10.0 + lg.abs() + n as f64);
        cx.state();
        cx.step();
        cx.trace();
        cx.outf(r);
        ensure!((r - w).abs() <= tol, "twrr({bv:?},{fl:?}) = {r}, expected {w}");
        for k in [1.0, 0.5, 2.0, 3.0, 12.0, n as f64, n as f64 + 0.25] {
            let r = twrr_n(k, bv, fl);
            let w = (lg / k).exp_m1();
            cx.step();
            ensure!((r - w).abs() <= 1e-12 * (1.0 + w.abs()) * (10.0 + lg.abs() * 4.0 + n as f64), "twrr_n({k},{bv:?},{fl:?}) = {r}, expected {w}");
        }
        for u in [1e-6, 1e3, 1e9] {
            let r = twrr(&bv.iter().map(|x| x * u).collect(), &fl.iter().map(|x| x * u).collect());
            cx.step();
            ensure!((r - w).abs() <= 2.0 * tol, "twrr of {bv:?},{fl:?} in units of {u} = {r}, expected {w}");
        }
        Ok(())
    };
    let f1 = fam("small", &format!("every sequence of 1..={depth} sub-periods over 7 opening valuations (0 included), 5 valuations and 5 flows that leaves positive values, 7 period counts, 3 currency units"), total, move |i, cx| {
        let mut i = i as usize;
        let mut n = 1;
        while i >= starts.len() * per.pow(n) {
            i -= starts.len() * per.pow(n);
            n += 1;
        }
        let mut d = Dec(i as u64);
        let mut bv = vec![*d.of(&starts)];
        let mut fl = vec![];
        for k in 0..n as usize {
            fl.push(*d.of(&flows));
            if bv[k] + fl[k] <= 0.0 {
                return Ok(());
            }
            bv.push(*d.of(&vals));
        }
        judge(&bv, &fl, cx)?;
        // an inflow valued fairly between sub-periods leaves the return unchanged: split the first sub-period's end
        // value v, add a flow c at v: the next start becomes v + c, and values scale accordingly
        let mut lg = 0.0;
        for k in 0..n as usize {
            lg += (bv[k + 1] / (bv[k] + fl[k])).ln();
        }
        for c in [0.0, 3.0, -0.5, 50.0] {
            for at in 0..n as usize {
                let base = bv[at] + fl[at];
                if base + c <= 0.0 {
                    continue;
                }
                let scale = (base + c) / base;
                let (mut b2, mut f2) = (bv.clone(), fl.clone());
                f2[at] += c;
                for k in at + 1..=n as usize {
                    b2[k] *= scale;
                    if k < n as usize {
                        f2[k] *= scale;
                    }
                }
                let r = twrr_n(1.0, &b2, &f2);
                cx.state();
                cx.step();
                let w = lg.exp_m1();
                ensure!((r - w).abs() <= 1e-11 * (1.0 + w.abs()) * (10.0 + lg.abs()), "adding a fairly valued inflow {c} at {at} to {bv:?},{fl:?} changes the return to {r}, was {w}");
            }
        }
        cx.sample(|| format!("{bv:?} {fl:?}"));
        Ok(())
    });
    let nmax = if thorough { 4000 } else { 1000 };
    let f2 = fam("long", &format!("1..={nmax} sub-periods x 4 growth patterns x 3 flow patterns"), nmax * 12, move |i, cx| {
        let mut d = Dec(i);
        let (n, g, s) = (d.n(nmax) + 1, d.n(4), d.n(3));
        let (mut bv, mut fl) = (vec![100.0], vec![]);
        for k in 0..n {
            let v: f64 = *bv.last().unwrap();
            let c = match s {
                0 => 0.0,
                1 => if k % 3 == 0 { v * 0.1 } else { 0.0 },
                _ => if k % 2 == 0 { v * 0.2 } else { -v * 0.15 },
            };
            fl.push(c);
            bv.push((v + c) * match g {
                0 => 1.01,
                1 => 0.99,
                2 => if k % 2 == 0 { 1.3 } else { 0.8 },
                _ => 1.0,
            });
        }
        judge(&bv, &fl, cx)?;
        cx.sample(|| format!("{n} sub-periods, pattern {g}/{s}"));
        Ok(())
    });
    Prop { id: "F10", assumptions: vec![], tasks: vec![f1, f2] }
}
