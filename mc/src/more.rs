//! Further families of the base and fixed-income properties: dense amounts, spans, times, frequencies and long lists.
use crate::base::*;
use crate::engine::*;
use crate::ensure;
use crate::fixed::*;
use crate::stmts::sizes;
use chrono::NaiveDate as D;
use financelib::fixedincomes::bonds::rates::Rates::*;
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets::*;
use financelib::*;
use std::sync::Arc;

/// The families of a property that live here.
pub fn extra(id: &str, t: bool) -> Vec<Task> {
    match id {
        "B01" => b01(t),
        "B03" => b03(t),
        "B04" => b04(t),
        "B05" => b05(t),
        "B06" => b06(t),
        "B07" => b07(t),
        "B08" => b08(t),
        "B09" => b09(t),
        "B11" => b11(t),
        "F01" => f01(t),
        "F02" => f02(t),
        "F03" => f03(t),
        "F04" => f04(t),
        "F05" => f05(t),
        "F06" => f06(t),
        "F07" => f07(t),
        "F08" => f08(t),
        "F09" => f09(t),
        "F10" => f10(t),
        _ => vec![],
    }
}
fn fits(g: f64) -> bool {
    g > 1e-250 && g < 1e250
}
/// Rounding of (1+r)^n computed by powers: relative.
fn cond(r: f64, n: f64) -> f64 {
    1e-13 * (10.0 + (n * r.ln_1p()).abs() + n.abs() / (1.0 + r).min(1.0))
}
fn single(r: f64, n: f64, m: f64, a: f64, cx: &mut Cx) -> R {
    let g = grow(r, n);
    if fits(g) {
        let tol = cond(r, n);
        let (f, p, q) = (fv(r, n, a), pv(r, n, a), dis_fact(r, n));
        cx.steps(3);
        cx.outf(f);
        ensure!(close(f, a * g, 0.0, tol), "fv({r},{n},{a}) = {f}, expected {}", a * g);
        ensure!(close(p, a / g, 0.0, tol), "pv({r},{n},{a}) = {p}, expected {}", a / g);
        ensure!(close(q, 1.0 / g, 0.0, tol), "dis_fact({r},{n}) = {q}, expected {}", 1.0 / g);
    }
    let e = (r * n).exp();
    if fits(e) {
        let tol = 1e-13 * (10.0 + (r * n).abs());
        let (f, p) = (fvc(r, n, a), pvc(r, n, a));
        cx.steps(2);
        ensure!(close(f, a * e, 0.0, tol), "fvc({r},{n},{a}) = {f}, expected {}", a * e);
        ensure!(close(p, a / e, 0.0, tol), "pvc({r},{n},{a}) = {p}, expected {}", a / e);
    }
    let (rm, nm) = (r / m, n * m);
    if rm > -0.95 {
        let g = grow(rm, nm);
        if fits(g) {
            let tol = cond(rm, nm);
            let (f, p) = (fvm(r, n, m, a), pvm(r, n, m, a));
            cx.steps(2);
            ensure!(close(f, a * g, 0.0, tol), "fvm({r},{n},{m},{a}) = {f}, expected {}", a * g);
            ensure!(close(p, a / g, 0.0, tol), "pvm({r},{n},{m},{a}) = {p}, expected {}", a / g);
        }
    }
    cx.state();
    Ok(())
}
fn b01(t: bool) -> Vec<Task> {
    let n = if t { 20_000 } else { 1_000 };
    let mut ds = vec![];
    for y in (1896..=1904).chain([1970, 1999, 2000, 2001]).chain(2019..=2024).chain([2100]) {
        let mut d = ymd(y, 1, 1);
        while chrono::Datelike::year(&d) == y {
            ds.push(d);
            d = d.succ_opt().unwrap();
        }
    }
    let k = ds.len();
    let f1 = fam("within-days", &format!("every day of the years 1896-1904, 1970, 1999-2001, 2019-2024 and 2100 x {n} moments up to half a day before and after its own value: the nearest date"), k, move |i, cx| {
        let d = ds[i as usize];
        let (v, prev, next) = (date_to_float(d), date_to_float(d.pred_opt().unwrap()), date_to_float(d.succ_opt().unwrap()));
        for j in 0..=n {
            let e = j as f64 / n as f64 - 0.5;
            let u = if e < 0.0 { v + e * (v - prev) } else { v + e * (next - v) };
            let b = date_from_float(u);
            cx.step();
            // exactly half way either date will do
            ensure!(b == d || j == 0 || j == n, "date_from_float({u}) = {b}, expected {d} (day offset {e})");
        }
        cx.state();
        cx.trace();
        cx.outf(v);
        cx.sample(|| format!("{d}: {v}"));
        Ok(())
    });
    vec![f1]
}
fn b03(t: bool) -> Vec<Task> {
    let rs = [0.07, -0.03, 0.0, 0.4, 0.001];
    let ns = [1.0, 0.25, 7.5, -2.0, 0.0, 30.0];
    let sz = Arc::new(sizes());
    let s2 = sz.clone();
    let f1 = fam("amounts", &format!("{} amounts of 1e-12 to 1e18 in size, both signs x 5 rates x 6 spans x 22 frequencies: all single-amount and dated functions, and the inverses", sz.len()), sz.len(), move |i, cx| {
        let a = s2[i as usize];
        for r in rs {
            for n in ns {
                for m in MS {
                    single(r, n, m, a, cx)?;
                }
                let g = grow(r, n);
                let b = pv(r, n, fv(r, n, a));
                let c = fv(r, n, pv(r, n, a));
                cx.steps(4);
                ensure!(close(b, a, 0.0, cond(r, n)) && close(c, a, 0.0, cond(r, n)), "{a} at {r}, {n}: pv(fv) = {b}, fv(pv) = {c} (growth {g})");
            }
            for (d0, d1) in [(ymd(2020, 2, 29), ymd(2023, 8, 31)), (ymd(2031, 1, 1), ymd(2011, 5, 17))] {
                let n = us360(d0, d1);
                let (f, p) = (xfv(r, (d0, d1), a), xpv(r, (d0, d1), a));
                cx.steps(2);
                ensure!(close(f, a * grow(r, n), 0.0, 1e-12 * (10.0 + n.abs())), "xfv({r},({d0},{d1}),{a}) = {f}, expected {}", a * grow(r, n));
                ensure!(close(p, a / grow(r, n), 0.0, 1e-12 * (10.0 + n.abs())), "xpv({r},({d0},{d1}),{a}) = {p}, expected {}", a / grow(r, n));
            }
        }
        cx.trace();
        cx.sample(|| format!("amount {a}"));
        Ok(())
    });
    let step = if t { 0.001 } else { 0.005 };
    let k = (140.0 / step) as usize;
    let f2 = fam("dense-spans", &format!("{k} spans from -40 to 100 by {step} and as many multiples of 1/360, 1/365 and 1/12 x 9 rates x 22 frequencies"), k, move |i, cx| {
        let j = i as f64;
        for n in [-40.0 + j * step, j / 360.0, -j / 360.0, j / 365.0, j / 12.0] {
            if n > 400.0 {
                continue;
            }
            for r in [0.05, 0.0, 0.12, -0.02, 0.3, 0.0075, 1.0, -0.4, 1e-5] {
                for m in if n == j / 12.0 { &MS[..] } else { &MS[..7] } {
                    single(r, n, *m, 100.0, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("span number {i}"));
        Ok(())
    });
    let f3 = fam("frequencies", "every compounding frequency 1..=1000 and their quarters, and 1/1..1/20 x 9 rates x 12 spans", 1000 * 9, |i, cx| {
        let mut d = Dec(i);
        let (k, &r) = (d.n(1000) + 1, d.of(&[0.05, 0.0, 0.12, -0.02, 0.3, 0.0075, 1.0, -0.4, 1e-5]));
        for m in [k as f64, k as f64 * 0.25, if k <= 20 { 1.0 / k as f64 } else { k as f64 + 0.5 }] {
            for n in [1.0, 0.0, 0.5, 2.0, 3.0, 5.0, 10.0, 30.0, -1.0, -7.0, 1.0 / 3.0, 0.125] {
                single(r, n, m, 100.0, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k} rate {r}"));
        Ok(())
    });
    let tmax = if t { 2000 } else { 600 };
    let f4 = fam("dense-forward", &format!("forward discount factors: {tmax} x {tmax} pairs of times by 0.05 years x 12 pairs of rates"), tmax, move |i, cx| {
        let t0 = i as f64 * 0.05;
        for j in 0..tmax {
            let t1 = j as f64 * 0.05;
            for (r0, r1) in [(0.05, 0.05), (0.03, 0.06), (0.06, 0.03), (0.0, 0.04), (0.04, 0.0), (-0.01, 0.02), (0.02, -0.01), (0.2, 0.21), (0.0, 0.0), (-0.02, -0.02), (0.001, 0.5), (1.0, 0.9)] {
                let g = fwd_dis_fact((r0, t0), (r1, t1));
                let l = t0 * r0.ln_1p() - t1 * r1.ln_1p();
                cx.step();
                ensure!(close(g, l.exp(), 0.0, 1e-13 * (20.0 + l.abs() + t0 + t1)), "fwd_dis_fact(({r0},{t0}),({r1},{t1})) = {g}, expected {}", l.exp());
            }
            cx.state();
        }
        cx.outf(t0);
        cx.trace();
        cx.sample(|| format!("first time {t0}"));
        Ok(())
    });
    // dated: every day count up to a long horizon, forwards and backwards
    let hmax = if t { 40_000 } else { 8_000 };
    let f5 = fam("dated-dense", &format!("7 first dates x every second date up to {hmax} days later and earlier x 4 rates: xfv, xpv, xdis_fact"), hmax, move |i, cx| {
        for d0 in [ymd(2020, 2, 29), ymd(2021, 1, 31), ymd(1999, 12, 31), ymd(2023, 6, 15), ymd(2024, 2, 28), ymd(1970, 1, 1), ymd(2010, 10, 30)] {
            for s in [1i64, -1] {
                let d1: D = d0 + chrono::Duration::days(s * i as i64);
                let n = us360(d0, d1);
                for r in [0.06, -0.01, 0.0, 0.15] {
                    let g = grow(r, n);
                    let tol = 1e-12 * (10.0 + n.abs());
                    let (f, p, q) = (xfv(r, (d0, d1), 250.0), xpv(r, (d0, d1), 250.0), xdis_fact(r, (d0, d1)));
                    cx.steps(3);
                    ensure!(close(f, 250.0 * g, 0.0, tol), "xfv({r},({d0},{d1}),250) = {f}, expected {}", 250.0 * g);
                    ensure!(close(p, 250.0 / g, 0.0, tol), "xpv({r},({d0},{d1}),250) = {p}, expected {}", 250.0 / g);
                    ensure!(close(q, 1.0 / g, 0.0, tol), "xdis_fact({r},({d0},{d1})) = {q}, expected {}", 1.0 / g);
                }
                cx.state();
            }
        }
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{i} days apart"));
        Ok(())
    });
    vec![f1, f2, f3, f4, f5]
}
fn b04(t: bool) -> Vec<Task> {
    let (step, n) = if t { (1e-4, 40_000) } else { (5e-4, 8_000) };
    let f1 = fam("dense-rates", &format!("{n} rates from -95% by {step} x 22 frequencies: six conversions against the growth-factor model, and each followed by its reverse"), n, move |i, cx| {
        let r = -0.95 + (i as f64 + 0.5) * step;
        for m in MS {
            judge_conv(r, m, cx)?;
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    let f2 = fam("frequencies", "every compounding frequency 1..=1000 and its quarter, tenth and half-offset x 60 rates", 1000, |i, cx| {
        let k = i as f64 + 1.0;
        for m in [k, k * 0.25, k * 0.1, k + 0.5] {
            for j in 0..30 {
                judge_conv(j as f64 * 0.01 - 0.1, m, cx)?;
                judge_conv(j as f64 * 0.11 + 0.013, m, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k}"));
        Ok(())
    });
    let f3 = fam("tiny-rates", "rates of 1e-10 to 1e-2 in size (8 mantissas per decade, both signs) x 1000 frequencies", 8 * 8 * 2, |i, cx| {
        let mut d = Dec(i);
        let r = [1.0, -1.0][d.n(2)] * [1.0, 1.25, 1.6, 2.0, 3.33, 5.0, 7.77, 9.9][d.n(8)] * 10f64.powi(d.n(8) as i32 - 10);
        for k in 1..=1000 {
            judge_conv(r, k as f64, cx)?;
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn judge_conv(r: f64, m: f64, cx: &mut Cx) -> R {
    let eps = |g: f64| 1e-14 * (1.0 + g.abs()) * (10.0 + m);
    cx.state();
    if r / m > -0.95 {
        let lg = m * (r / m).ln_1p();
        if lg.abs() < 25.0 {
            let g = lg.exp();
            let (e, x) = (nom_eff_rate(r, m), nom_exp_rate(r, m));
            cx.steps(4);
            cx.outf(e);
            let c = 1.0 / (1.0 + r / m).min(1.0);
            ensure!((e - lg.exp_m1()).abs() <= eps(g) * c, "nom_eff_rate({r},{m}) = {e}, expected {}", lg.exp_m1());
            ensure!((x - lg).abs() <= eps(lg) * c, "nom_exp_rate({r},{m}) = {x}, expected {lg}");
            let tol = eps(r) * c * (1.0 + 1.0 / g) * (1.0 + (1.0 + r / m).abs());
            let (b, d) = (eff_nom_rate(e, m), exp_nom_rate(x, m));
            ensure!((b - r).abs() <= tol && (d - r).abs() <= tol, "nominal {r} at {m}: back from effective {b}, from exponential {d}");
        }
    }
    if r > -0.95 {
        let w = m * (r.ln_1p() / m).exp_m1();
        let (v, x) = (eff_nom_rate(r, m), eff_exp_rate(r));
        cx.steps(2);
        let c = 1.0 / (1.0 + r).min(1.0);
        ensure!((v - w).abs() <= eps(w) * c, "eff_nom_rate({r},{m}) = {v}, expected {w}");
        ensure!((x - r.ln_1p()).abs() <= 1e-14 * c * (1.0 + r.ln_1p().abs()), "eff_exp_rate({r}) = {x}, expected {}", r.ln_1p());
    }
    let e = exp_eff_rate(r);
    ensure!((e - r.exp_m1()).abs() <= 1e-14 * (1.0 + r.exp()), "exp_eff_rate({r}) = {e}, expected {}", r.exp_m1());
    let v = exp_nom_rate(r, m);
    let w = m * (r / m).exp_m1();
    cx.steps(2);
    ensure!((v - w).abs() <= eps(w), "exp_nom_rate({r},{m}) = {v}, expected {w}");
    Ok(())
}
/// Annuity factor and discount factor of k payments at a rate per interval.
fn annuity(it: f64, k: f64) -> (f64, f64) {
    let l = -k * it.ln_1p();
    (if it == 0.0 { k } else { -l.exp_m1() / it }, l.exp())
}
fn judge_ann(r: f64, n: f64, m: f64, p: f64, f: f64, cx: &mut Cx) -> R {
    let it = r / m;
    if it <= -0.9 {
        return Ok(());
    }
    let k = n * m;
    let (ann, df) = annuity(it, k);
    if !(df > 1e-12 && df < 1e12) {
        return Ok(());
    }
    let cancel = 4e-16 / it.abs().max(0.9e-6) / k.min(1.0);
    let tol = 1e-13 * (20.0 + k * 0.1 + k.abs() / (1.0 + it).min(1.0)) + cancel;
    let want = -(p * ann) - f * df;
    let got = pv_annuity(r, n, m, p, f);
    cx.state();
    cx.steps(2);
    let sc = p.abs() * ann.max(1.0) * df.max(1.0) + (f * df).abs();
    ensure!(close(got, want, sc, tol), "pv_annuity({r},{n},{m},{p},{f}) = {got}, expected {want}");
    let q = pmt(r, n, m, want, f);
    let qs = (want.abs() + (f * df).abs()) / ann;
    ensure!(close(q, p, qs, tol * 3.0), "pmt({r},{n},{m},{want},{f}) = {q}, expected {p}");
    cx.outf(ann);
    Ok(())
}
fn b05(t: bool) -> Vec<Task> {
    let sz = Arc::new(sizes());
    let s2 = sz.clone();
    let f1 = fam("amounts", &format!("{} payments or terminal amounts of 1e-12 to 1e18 in size x 6 rates x 5 lives x 4 frequencies: alone, together, and against an ordinary other amount", sz.len()), sz.len(), move |i, cx| {
        let a = s2[i as usize];
        for r in [0.06, 0.0, -0.01, 0.25, 1e-3, 1.0] {
            for n in [1.0, 0.5, 5.0, 12.0, 30.0] {
                for m in [1.0, 12.0, 2.0, 4.0] {
                    for (p, f) in [(a, 0.0), (0.0, a), (a, a), (a, 100.0), (100.0, a), (a, -a)] {
                        judge_ann(r, n, m, p, f, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("amount {a}"));
        Ok(())
    });
    let kmax = if t { 60_000 } else { 12_000 };
    let f2 = fam("many-payments", &format!("every number of payments 1..={kmax} x 7 frequencies x 7 rates per year x 2 payments and terminal amounts"), kmax, |i, cx| {
        let k = i as f64 + 1.0;
        for m in [1.0, 2.0, 4.0, 12.0, 52.0, 360.0, 365.0] {
            for r in [0.04, 0.0, 0.11, -0.003, 0.24, 0.001, 0.0765] {
                judge_ann(r, k / m, m, 10.0, 0.0, cx)?;
                judge_ann(r, k / m, m, -3.0, 40.0, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("{k} payments"));
        Ok(())
    });
    let f3 = fam("frequencies", "every payment frequency 1..=400 and its half-offset and quarter x 9 rates x 14 lives", 400, |i, cx| {
        let k = i as f64 + 1.0;
        for m in [k, k + 0.5, k * 0.25] {
            for r in [0.04, 0.0, 0.11, -0.003, 0.24, 0.001, 0.0765, 0.9, -0.05] {
                for n in [1.0, 0.25, 0.5, 2.0, 3.0, 4.0, 5.0, 7.0, 8.0, 10.0, 15.0, 20.0, 25.0, 30.0] {
                    judge_ann(r, n, m, 10.0, 0.0, cx)?;
                    judge_ann(r, n, m, -3.0, 40.0, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k}"));
        Ok(())
    });
    let f4 = fam("tiny-rates", "rates of 1e-10 to 1e-2 in size (8 mantissas per decade, both signs) x 12 frequencies x 24 lives", 8 * 8 * 2, |i, cx| {
        let mut d = Dec(i);
        let r = [1.0, -1.0][d.n(2)] * [1.0, 1.25, 1.6, 2.0, 3.33, 5.0, 7.77, 9.9][d.n(8)] * 10f64.powi(d.n(8) as i32 - 10);
        for m in [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0, 360.0, 365.0, 0.5] {
            for j in 1..=24 {
                judge_ann(r, j as f64 * 1.5, m, 10.0, 0.0, cx)?;
                judge_ann(r, j as f64, m, -3.0, 40.0, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
/// npv by an independent route, with the rounding bound of its terms.
fn npv_terms(r: f64, t: &[f64], c: &[f64], t0: f64) -> (f64, f64) {
    let (mut s, mut e, mut k) = (0.0, 0.0, 0.0);
    for i in 0..t.len() {
        let n = t0 - t[i];
        let v = c[i] * grow(r, n);
        s += v;
        k += v.abs();
        e += v.abs() * cond(r, n) * 0.1;
    }
    (s, e + 1.2e-16 * k * (t.len() as f64 + 10.0) + 1e-300)
}
fn judge_npv(r: f64, t: &Vec<f64>, c: &Vec<f64>, t0: f64, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    let (w, e) = npv_terms(r, t, c, 0.0);
    if e < 1e200 {
        let g = npv_t0(r, t, c);
        cx.step();
        cx.outf(g);
        ensure!((g - w).abs() <= e, "npv_t0({r}) of {} = {g}, expected {w} within {e:e}", what());
    }
    let (w, e) = npv_terms(r, t, c, t0);
    if e < 1e200 {
        let g = npv(r, t, t0, c);
        cx.step();
        ensure!((g - w).abs() <= e, "npv({r}, t0={t0}) of {} = {g}, expected {w} within {e:e}", what());
    }
    cx.state();
    Ok(())
}
fn b06(t: bool) -> Vec<Task> {
    let sz = Arc::new(sizes());
    let s2 = sz.clone();
    let f1 = fam("amounts", &format!("{} flows of 1e-12 to 1e18 in size: alone, repeated, cancelling and next to ordinary flows, x 6 rates x 3 valuation times, and dated", sz.len()), sz.len(), move |i, cx| {
        let a = s2[i as usize];
        for (t, c) in [
            (vec![2.5], vec![a]),
            (vec![0.0, 1.0, 2.0], vec![a, a, a]),
            (vec![0.0, 1.0, 2.0], vec![-100.0, 50.0, a]),
            (vec![3.0, 0.0, 1.0], vec![a, 7.0, -a]),
            (vec![1.0, 1.0], vec![a, -a]),
            (vec![-1.0, 0.5, 40.0], vec![a, -2.0 * a, 3.0 * a]),
        ] {
            for r in [0.08, 0.0, -0.05, 0.5, 1e-4, 2.0] {
                for t0 in [0.0, 1.0, -2.25] {
                    judge_npv(r, &t, &c, t0, &|| format!("{c:?} at {t:?}"), cx)?;
                }
                let d0 = ymd(2020, 2, 29);
                let dt: Vec<D> = (0..c.len()).map(|k| d0 + chrono::Duration::days(200 * k as i64 + 31)).collect();
                let tt: Vec<f64> = dt.iter().map(|&x| us360(d0, x)).collect();
                let (w, e) = npv_terms(r, &tt, &c, 0.0);
                let g = xnpv(r, &dt, d0, &c);
                cx.step();
                ensure!((g - w).abs() <= e * 4.0, "xnpv({r},{dt:?},{d0},{c:?}) = {g}, expected {w}");
            }
        }
        cx.trace();
        cx.sample(|| format!("flow {a}"));
        Ok(())
    });
    let mut lens: Vec<usize> = (0..1200).step_by(7).collect();
    for k in 7..=15 {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    lens.extend([500, 1000, 1001, 2000, 3650, 5000, 10_000, 10_001, 50_000]);
    if t {
        lens.extend((1200..8000).step_by(13));
    }
    let lens = Arc::new(lens);
    let f2 = fam("very-long", &format!("{} lengths up to 50000 x 4 patterns x 4 rates: undated and dated, every flow counts (one flow differs from the rest: first, middle or last)", lens.len()), lens.len() * 4, move |i, cx| {
        let mut d = Dec(i);
        let (pat, &len) = (d.n(4), d.of(&lens));
        let t: Vec<f64> = (0..len).map(|k| k as f64 / [12.0, 365.0, 365.0, 4.0][pat]).collect();
        for odd in [None, Some(0), Some(len / 2), Some(len.saturating_sub(1))] {
            let c: Vec<f64> = (0..len)
                .map(|k| match pat {
                    _ if odd == Some(k) => 5000.0,
                    0 => 10.0,
                    1 => if k % 2 == 0 { 5.0 } else { -4.0 },
                    2 => 1.0 + (k % 97) as f64,
                    _ => if k % 30 == 0 { -250.0 } else { 8.0 },
                })
                .collect();
            for r in [0.05, 0.0, -0.01, 0.2] {
                judge_npv(r, &t, &c, 1.25, &|| format!("{len} flows (pattern {pat}, odd one {odd:?})"), cx)?;
            }
            if len <= 20_000 && odd.is_none_or(|k| k > 0) {
                let d0 = ymd(2000, 1, 31);
                let dt: Vec<D> = (0..len).map(|k| d0 + chrono::Duration::days(k as i64)).collect();
                let tt: Vec<f64> = dt.iter().map(|&x| us360(d0, x)).collect();
                let (w, e) = npv_terms(0.05, &tt, &c, 0.0);
                let g = xnpv(0.05, &dt, d0, &c);
                cx.step();
                ensure!((g - w).abs() <= e * 4.0, "xnpv of {len} daily flows (pattern {pat}) = {g}, expected {w}");
            }
        }
        cx.trace();
        cx.sample(|| format!("{len} flows, pattern {pat}"));
        Ok(())
    });
    let n = if t { 30_000 } else { 6_000 };
    let f3 = fam("dense-rates", &format!("{n} rates from -95% by 0.0005 x 8 flow lists x 2 valuation times"), n, |i, cx| {
        let r = -0.95 + (i as f64 + 0.5) * 5e-4;
        for (t, c) in [
            (vec![0.0, 1.0, 2.0, 3.0], vec![-100.0, 40.0, 40.0, 40.0]),
            (vec![0.5, 0.25, 7.0], vec![3.0, -4.0, 5.0]),
            (vec![0.0], vec![10.0]),
            (vec![-3.0, 3.0], vec![10.0, -10.0]),
            (vec![10.0, 20.0, 30.0, 50.0], vec![1.0, 2.0, 3.0, 4.0]),
            (vec![1.0, 1.0, 1.0], vec![5.0, 5.0, 5.0]),
            (vec![0.0, 0.0027, 0.0054], vec![-1e6, 5e5, 5.1e5]),
            (vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0], vec![1.0; 10]),
        ] {
            judge_npv(r, &t, &c, 0.0, &|| format!("{c:?} at {t:?}"), cx)?;
            judge_npv(r, &t, &c, 2.75, &|| format!("{c:?} at {t:?}"), cx)?;
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    let n = if t { 20_000 } else { 5_000 };
    let f4 = fam("dense-times", &format!("{n} times by 0.01 and by 1/360, before and after the valuation, each as a single flow, a pair with a flow at zero, and as the valuation time x 4 rates"), n, |i, cx| {
        for x in [i as f64 * 0.01, i as f64 / 360.0, -(i as f64) * 0.01] {
            for r in [0.07, -0.02, 0.0, 0.6] {
                judge_npv(r, &vec![x], &vec![100.0], 1.0, &|| format!("100 at {x}"), cx)?;
                judge_npv(r, &vec![0.0, x], &vec![-60.0, 100.0], -0.5, &|| format!("-60 at 0, 100 at {x}"), cx)?;
                judge_npv(r, &vec![1.0, 4.0], &vec![-60.0, 100.0], x, &|| "-60 at 1, 100 at 4".into(), cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("time number {i}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
/// Soundness of a reported rate.
fn b07(t: bool) -> Vec<Task> {
    let sz: Vec<f64> = sizes().into_iter().filter(|a| *a > 0.0).collect();
    let sz = Arc::new(sz);
    let s2 = sz.clone();
    let f1 = fam("amounts", &format!("{} sizes from 1e-12 to 1e18 x 14 flow patterns (one sign, one change, several changes) in that size, and one flow of that size among ordinary ones", sz.len()), sz.len(), move |i, cx| {
        let a = s2[i as usize];
        let pats: [&[f64]; 14] = [&[-1.0, 1.1], &[1.0, -1.1], &[-1.0, 0.4, 0.4, 0.4], &[-1.0, 2.3, -1.32], &[1.0, 1.0, 1.0], &[-1.0, -2.0], &[-1.0, 0.0, 0.2], &[1.0, -3.0, 2.5], &[-1.0, 0.5], &[0.0, 0.0, -1.0], &[-1.0, 3.0, -4.0, 3.0], &[1.0, 0.0, 0.0, 0.0], &[-5.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], &[1.0]];
        for p in pats {
            let t: Vec<f64> = (0..p.len()).map(|k| k as f64).collect();
            let c: Vec<f64> = p.iter().map(|x| x * a).collect();
            judge_irr(&t, &c, cx)?;
            let mut c: Vec<f64> = p.iter().map(|x| x * 100.0).collect();
            for k in 0..c.len() {
                let was = c[k];
                for s in [a, -a] {
                    c[k] = s;
                    judge_irr(&t, &c, cx)?;
                }
                c[k] = was;
            }
        }
        cx.trace();
        cx.sample(|| format!("size {a}"));
        Ok(())
    });
    let lens: Vec<usize> = (1..=40).chain((41..600).step_by(if t { 3 } else { 37 })).chain([255, 256, 257, 365, 366, 1000]).collect();
    let f2 = fam("one-sign-long", &format!("{} list lengths up to 1000, flows of one sign (equal, growing, with zeros; daily, monthly, yearly) in both signs", lens.len()), lens.len(), move |i, cx| {
        let len = lens[i as usize];
        for sp in [1.0, 1.0 / 12.0, 1.0 / 365.0] {
            let t: Vec<f64> = (0..len).map(|k| k as f64 * sp).collect();
            for s in [1.0, -1.0] {
                for pat in 0..3 {
                    let c: Vec<f64> = (0..len).map(|k| s * match pat { 0 => 10.0, 1 => 1.0 + k as f64, _ => if k % 3 == 0 { 5.0 } else { 0.0 } }).collect();
                    judge_irr(&t, &c, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("{len} flows of one sign"));
        Ok(())
    });
    let n = if t { 20_000 } else { 4_000 };
    let f3 = fam("dense-payback", &format!("{n} second flows from -10 to 10 times the outlay x 12 times x third flow of -1, 0, 0.5 or 3 times the outlay"), n, move |i, cx| {
        let x = -1000.0 + (i as f64 + 0.5) * 2000.0 / n as f64;
        for tm in [1.0, 0.5, 2.0, 3.0, 0.1, 5.0, 10.0, 0.0027, 20.0, 30.0, -1.0, -0.5] {
            for z in [0.0, -100.0, 50.0, 300.0] {
                judge_irr(&vec![0.0, tm, tm * 2.0], &vec![-100.0, x, z], cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("second flow {x}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn judge_irr(t: &Vec<f64>, c: &Vec<f64>, cx: &mut Cx) -> R {
    let r = irr(t, c);
    cx.state();
    cx.step();
    match r {
        Some(r) => {
            cx.outf(r);
            sound(r, t, c)?
        }
        None => cx.out(0),
    }
    if c.iter().all(|&x| x >= 0.0) || c.iter().all(|&x| x <= 0.0) {
        ensure!(r.is_none(), "irr of flows of one sign {:?} = {r:?}", &c[..c.len().min(6)]);
    }
    Ok(())
}
fn b08(t: bool) -> Vec<Task> {
    let units: Vec<f64> = (-3..=9).flat_map(|e| [1.0, 1.37, 2.0, 3.33, 5.0, 7.77, 9.99].map(|m| m * 10f64.powi(e))).filter(|u| *u <= 1.1e9).collect();
    let nu = units.len();
    let st = if t { 0.01 } else { 0.05 };
    let nr = (1.5 / st) as usize + 1;
    let f1 = fam("units", &format!("{nu} currency units from thousandths to billions x {nr} rates -50%..100% x 4 lists (single flow, level, rising, lumpy) x investment/loan"), nu * nr, move |i, cx| {
        let mut d = Dec(i);
        let (&u, y) = (d.of(&units), -0.5 + d.n(nr) as f64 * st);
        let lists: [&[(f64, f64)]; 4] = [&[(3.0, 1.0)], &[(1.0, 1.0), (2.0, 1.0), (3.0, 1.0), (4.0, 1.0)], &[(0.5, 1.0), (1.0, 2.0), (1.5, 3.0), (4.0, 4.0)], &[(2.0, 5.0), (1.0, 0.25), (7.0, 0.25), (10.0, 9.0)]];
        for l in lists {
            let v: f64 = l.iter().map(|(t, w)| w * grow(y, -t)).sum();
            for s in [-1.0, 1.0] {
                let mut t = vec![0.0];
                let mut c = vec![s * 100.0 * u];
                for (tt, w) in l {
                    t.push(*tt);
                    c.push(-s * 100.0 * u * w / v);
                }
                let r = irr(&t, &c);
                cx.state();
                cx.step();
                cx.trace();
                ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "irr({t:?},{c:?}) = {r:?}, built at {y}");
            }
        }
        cx.outf(y * u);
        cx.sample(|| format!("unit {u} rate {y}"));
        Ok(())
    });
    let n = if t { 3000 } else { 500 };
    let f2 = fam("dense-times", &format!("one inflow at each of {n} times up to 30 periods, and two (that time and half of it) x 31 rates"), n, move |i, cx| {
        let tm = (i as f64 + 1.0) * 30.0 / n as f64;
        for k in 0..31 {
            let y = -0.5 + k as f64 * 0.05;
            for split in [1.0, 0.4] {
                let c = vec![-1000.0, 1000.0 * split * grow(y, tm), 1000.0 * (1.0 - split) * grow(y, tm / 2.0)];
                let (t, c) = if split == 1.0 { (vec![0.0, tm], c[..2].to_vec()) } else { (vec![0.0, tm, tm / 2.0], c) };
                let r = irr(&t, &c);
                cx.state();
                cx.step();
                ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "irr({t:?},{c:?}) = {r:?}, built at {y}");
            }
        }
        cx.outf(tm);
        cx.trace();
        cx.sample(|| format!("time {tm}"));
        Ok(())
    });
    let lens: Vec<usize> = (31..=400).step_by(if t { 1 } else { 3 }).chain([365, 512, 720, 1000, 1024, 2000, 3650, 5000]).collect();
    let nl = lens.len();
    let f3 = fam("many-flows", &format!("{nl} numbers of inflows from 31 to 5000 within 30 periods x 9 rates x level, rising and sparse amounts"), nl * 9, move |i, cx| {
        let mut d = Dec(i);
        let (y, &n) = (d.of(&[-0.5, -0.2, -0.05, 0.0, 0.02, 0.08, 0.25, 0.6, 1.0]).to_owned(), d.of(&lens));
        let sp = (30.0 / n as f64).min(1.0 / 12.0);
        for pat in 0..3 {
            let mut t = vec![0.0];
            let mut w = vec![];
            for k in 1..=n {
                t.push(k as f64 * sp);
                w.push(match pat { 0 => 1.0, 1 => k as f64, _ => if k % 12 == 0 || k == n { 3.0 } else { 0.0 } });
            }
            let v: f64 = (0..n).map(|k| w[k] * grow(y, -t[k + 1])).sum();
            let mut c = vec![-1e4];
            c.extend(w.iter().map(|x| 1e4 * x / v));
            let r = irr(&t, &c);
            cx.state();
            cx.step();
            ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "irr of {n} inflows every {sp} periods (pattern {pat}) at rate {y} = {r:?}");
        }
        cx.outf(y + n as f64);
        cx.trace();
        cx.sample(|| format!("{n} inflows at {y}"));
        Ok(())
    });
    let hs = if t { 0.01 } else { 0.1 };
    let nh = (19.0 / hs) as usize + 1;
    let f4 = fam("high-rates", &format!("{nh} rates +100%..+2000% x 5 lists up to 10 periods x 4 currency units x investment/loan"), nh, move |i, cx| {
        let y = 1.0 + i as f64 * hs;
        let lists: [&[(f64, f64)]; 5] = [&[(1.0, 1.0)], &[(0.25, 1.0), (0.5, 2.0)], &[(1.0, 1.0), (2.0, 1.0), (3.0, 1.0), (4.0, 1.0)], &[(10.0, 1.0)], &[(2.0, 5.0), (1.0, 0.25), (7.0, 0.25), (10.0, 9.0)]];
        for l in lists {
            let v: f64 = l.iter().map(|(t, w)| w * grow(y, -t)).sum();
            for u in [0.01, 1.0, 1e3, 1e7] {
                for s in [-1.0, 1.0] {
                    let mut t = vec![0.0];
                    let mut c = vec![s * 100.0 * u];
                    for (tt, w) in l {
                        t.push(*tt);
                        c.push(-s * 100.0 * u * w / v);
                    }
                    let r = irr(&t, &c);
                    cx.state();
                    cx.step();
                    ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6 * (1.0 + y)), "irr({t:?},{c:?}) = {r:?}, built at {y}");
                }
            }
        }
        cx.outf(y);
        cx.trace();
        cx.sample(|| format!("rate {y}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
fn b09(t: bool) -> Vec<Task> {
    let starts = [2.0, 0.0, 0.1, -1.0, 0.5, -3.0, 10.0, -20.0, 5.5, 100.0, -400.0, 0.05, 0.005];
    let step = if t { 0.25 } else { 1.0 };
    let n = (60.0 / step) as usize + 1;
    let scales = [1.0, -1.0, 1e-3, -0.02, 37.5, 1e3, -1e6, 1e9];
    let f1 = fam("quadratics", &format!("quadratics with roots p < q on a {n}-point grid of -30..30 x 8 scales x 13 starting points x 3 tolerances: the nearer root from outside, a root or nothing from between"), n * n, move |i, cx| {
        let mut d = Dec(i);
        let (p, q) = (-30.0 + d.n(n) as f64 * step, -30.0 + d.n(n) as f64 * step);
        if p >= q {
            return Ok(());
        }
        for s in scales {
            for x0 in starts {
                for tol in [1e-6, 1e-4, 1e-8] {
                    let r = newt_raph(|x| s * (x - p) * (x - q), x0, tol);
                    cx.state();
                    cx.step();
                    if x0 < p || x0 > q {
                        let z = if x0 < p { p } else { q };
                        ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5), "newt_raph of {s}*(x-{p})*(x-{q}) from {x0}, tol {tol} = {r:?}, nearer root {z}");
                    } else if let Some(x) = r {
                        ensure!((x - p).abs() < 1e-5 || (x - q).abs() < 1e-5, "newt_raph of {s}*(x-{p})*(x-{q}) from {x0}, tol {tol} = {x}, not a root");
                    }
                    if let Some(x) = r { cx.outf(x) } else { cx.out(0) }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("roots {p}, {q}"));
        Ok(())
    });
    let g: Vec<f64> = if t { (-12..=12).map(|k| k as f64 * 0.75).collect() } else { vec![-7.0, -3.5, -2.0, -1.0, -0.25, 0.0, 0.5, 1.0, 2.5, 4.0, 9.0] };
    let k = g.len();
    let f2 = fam("products", &format!("products of 3, 4, 5 and 6 linear factors with roots on a {k}-point grid x 4 scales x 13 starting points: only roots are returned"), k * k * k, move |i, cx| {
        let mut d = Dec(i);
        let (a, b, c) = (*d.of(&g), *d.of(&g), *d.of(&g));
        if a > b || b > c {
            return Ok(());
        }
        for more in 0..4 {
            let mut roots = vec![a, b, c];
            roots.extend([6.0, -5.0, 1.5].into_iter().take(more));
            for s in [1.0, -0.01, 50.0, 1e6] {
                for x0 in starts {
                    let f = |x: f64| roots.iter().fold(s, |v, r| v * (x - r));
                    let r = newt_raph(f, x0, 1e-6);
                    cx.state();
                    cx.step();
                    if let Some(x) = r {
                        cx.outf(x);
                        // a root of multiplicity k is only found to the k-th root of the resolution
                        let near = roots.iter().fold(f64::INFINITY, |m, r| m.min((x - r).abs()));
                        let mag = roots.iter().fold(s.abs(), |v, r| v * (1.0 + x.abs() + r.abs()));
                        ensure!(near < 1e-5 || f(x).abs() <= 1e-9 * mag, "newt_raph of {s} times the factors with roots {roots:?} from {x0} = {x}, value {}", f(x));
                    } else {
                        cx.out(0);
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("roots {a}, {b}, {c} and more"));
        Ok(())
    });
    let f3 = fam("far-lines", "lines with slopes 1e-7..1e12 in size (4 per decade, both signs) and roots of 1e-6..1e7 in size (4 per decade, both signs) x 13 starting points", 80 * 2 * 53 * 2, move |i, cx| {
        let mut d = Dec(i);
        let m = [1.0, -1.0][d.n(2)] * 10f64.powf(-7.0 + d.n(80) as f64 * 0.24);
        let z = [1.0, -1.0][d.n(2)] * 10f64.powf(-6.0 + d.n(53) as f64 * 0.25);
        for x0 in starts {
            let r = newt_raph(|x| m * (x - z), x0, 1e-6);
            cx.state();
            cx.step();
            ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5 + 1e-9 * z.abs()), "newt_raph of {m}*(x-{z}) from {x0} = {r:?}");
        }
        cx.outf(m * z);
        cx.trace();
        cx.sample(|| format!("slope {m} root {z}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn b11(t: bool) -> Vec<Task> {
    let mut v: Vec<f64> = vec![];
    for e in (-30..=30).chain([-300, -200, -100, -50, 50, 100, 200, 300]) {
        for m in [1.0, 1.0000005, 1.0000009, 1.0000011, 1.0000019, 0.9999989, 2.0, 3.33, 7.77] {
            v.push(m * 10f64.powi(e));
            v.push(-m * 10f64.powi(e));
        }
    }
    let v = Arc::new(v);
    let v2 = v.clone();
    let f1 = fam("far-pairs", &format!("all ordered pairs of {} numbers of 1e-300 to 1e300, both signs", v.len()), v.len(), move |i, cx| {
        let x = v2[i as usize];
        for &y in v2.iter() {
            judge_approx(x, y, cx)?;
        }
        let z = is_zero(x);
        ensure!((x.abs() - 1e-8).abs() < 1e-20 || z == (x.abs() < 1e-8), "is_zero({x:e}) = {z}");
        cx.trace();
        cx.sample(|| format!("{x:e} against all"));
        Ok(())
    });
    let n = if t { 200_000 } else { 40_000 };
    let f2 = fam("dense-differences", &format!("{n} relative differences up to 3 millionths x 60 sizes of 1e-9 to 1e12, both signs, and small differences around zero"), n, move |i, cx| {
        let q = i as f64 * 3e-6 / n as f64;
        for k in 0..60 {
            let x = 10f64.powf(-9.0 + k as f64 * 0.35);
            judge_approx(x, x * (1.0 + q), cx)?;
            judge_approx(-x * (1.0 - q), -x, cx)?;
        }
        let y = i as f64 * 4e-8 / n as f64;
        judge_approx(y, 0.0, cx)?;
        judge_approx(y, -y, cx)?;
        let z = is_zero(y);
        ensure!((y - 1e-8).abs() < 1e-20 || z == (y < 1e-8), "is_zero({y:e}) = {z}");
        ensure!(is_zero(-y) == z, "is_zero(-{y:e}) differs from is_zero({y:e})");
        cx.trace();
        cx.sample(|| format!("relative difference {q:e}"));
        Ok(())
    });
    vec![f1, f2]
}
fn judge_approx(x: f64, y: f64, cx: &mut Cx) -> R {
    let g = approx(x, y);
    cx.state();
    cx.step();
    cx.out(g as u64);
    let big = x.abs().max(y.abs());
    let (lhs, rhs) = ((x - y).abs(), big * 1e-6);
    let near_edge = (lhs - rhs).abs() <= 1e-9 * rhs || (big - 1e-8).abs() < 1e-20;
    if !near_edge {
        ensure!(g == (big < 1e-8 || lhs < rhs), "approx({x:e},{y:e}) = {g}");
    }
    ensure!(g == approx(y, x) && g == approx(-x, -y), "approx({x:e},{y:e}) = {g} is not symmetric or depends on the sign");
    Ok(())
}
fn bond_tol(it: f64, k: f64, cpn: f64) -> f64 {
    1e-13 * (10.0 + k) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k * cpn).min(1e3)
}
fn judge_bond(par: f64, c: f64, f: f64, k: f64, y: f64, cx: &mut Cx) -> R {
    let it = y / f;
    let (ann, v) = annuity(it, k);
    if v > 1e9 {
        return Ok(());
    }
    let b = CouponBond { par, c, freq: f, t_life: k / f };
    let (g, p) = (b.price(y), par * (c / f * ann + v));
    cx.state();
    cx.step();
    cx.outf(g / par);
    ensure!(close(g, p, par, bond_tol(it, k, c / f)), "{b:?}.price({y}) = {g}, its flows are worth {p}");
    Ok(())
}
fn pars() -> Vec<f64> {
    sizes().into_iter().filter(|x| *x > 0.0).collect()
}
fn f01(t: bool) -> Vec<Task> {
    let ps = Arc::new(pars());
    let p2 = ps.clone();
    let f1 = fam("pars", &format!("{} pars from 1e-12 to 1e18 x 17 frequencies x 4 coupons x 5 yields x 4 lives: price, flows, and price on a curve", ps.len()), ps.len(), move |i, cx| {
        let par = p2[i as usize];
        for f in FREQS {
            for c in [0.05, 0.0, 0.12, 0.0025] {
                for life in [4.0, 8.0, 20.0, 40.0] {
                    let k = life * f;
                    for y in [0.04, 0.0, -0.005, 0.12, 0.3] {
                        judge_bond(par, c, f, k, y, cx)?;
                    }
                    if k <= 480.0 {
                        let b = CouponBond { par, c, freq: f, t_life: life };
                        let v = b.generate_cashflow();
                        cx.step();
                        ensure!(v.len() == k as usize, "{b:?} has {} cash flows, expected {k}", v.len());
                        for (j, &x) in v.iter().enumerate() {
                            let w = par * c / f + if j + 1 == v.len() { par } else { 0.0 };
                            ensure!(close(x, w, 0.0, 1e-14), "{b:?}: cash flow {} of {k} is {x}, expected {w}", j + 1);
                        }
                        if k <= 60.0 {
                            let rates = shape(0, k as usize);
                            let g = b.price_ratecurve(&curve(Conv::Nom, rates.clone(), f));
                            let w: f64 = v.iter().enumerate().map(|(j, x)| x / growth(Conv::Nom, rates[j], f, (j + 1) as f64 / f)).sum();
                            cx.step();
                            ensure!(close(g, w, par, 1e-12 * (10.0 + k)), "{b:?} on a rising curve = {g}, flow by flow {w}");
                        }
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("par {par}"));
        Ok(())
    });
    let (cs, cn) = if t { (1e-4, 6_000) } else { (5e-4, 1_200) };
    let f2 = fam("dense-coupons", &format!("{cn} coupons by {cs} x 17 frequencies x 6 lives x 7 yields, the coupon rate itself among them"), cn, move |i, cx| {
        let c = i as f64 * cs;
        for f in FREQS {
            for life in [4.0, 8.0, 12.0, 20.0, 32.0, 40.0] {
                for y in [0.05, 0.0, -0.01, c, 0.02, 0.11, 0.4] {
                    judge_bond(100.0, c, f, life * f, y, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("coupon {c}"));
        Ok(())
    });
    let lm = if t { 1000 } else { 300 };
    let f3 = fam("long-lives", &format!("every life of 41..={lm} years x 17 frequencies x 3 coupons x 5 yields, and the number of flows"), lm - 40, |i, cx| {
        let life = i as f64 + 41.0;
        for f in FREQS {
            let k = life * f;
            if k.fract() != 0.0 {
                continue;
            }
            for c in [0.06, 0.0, 0.02] {
                for y in [0.05, 0.0, 0.01, 0.11, 0.06] {
                    judge_bond(100.0, c, f, k, y, cx)?;
                }
            }
            let b = CouponBond { par: 100.0, c: 0.06, freq: f, t_life: life };
            let v = b.generate_cashflow();
            cx.step();
            ensure!(v.len() == k as usize, "{b:?} has {} cash flows, expected {k}", v.len());
            ensure!(v.iter().enumerate().all(|(j, &x)| close(x, 6.0 / f + if j + 1 == v.len() { 100.0 } else { 0.0 }, 0.0, 1e-13)), "{b:?} has a wrong cash flow");
        }
        cx.trace();
        cx.sample(|| format!("life {life}"));
        Ok(())
    });
    let lens: Vec<usize> = (121..=720).step_by(if t { 1 } else { 13 }).chain([365, 512, 1000, 1024, 1460, 3650]).collect();
    let nl = lens.len();
    let f4 = fam("long-curves", &format!("bonds of {nl} numbers of periods from 121 to 3650 on curves of their own frequency (monthly, weekly, daily, yearly) x 3 conventions x 12 shapes"), nl * 4, move |i, cx| {
        let mut d = Dec(i);
        let (&f, &k) = (d.of(&[12.0, 52.0, 365.0, 1.0]), d.of(&lens));
        for s in 0..NSHAPES {
            let rates = shape(s, k);
            for conv in CONVS {
                let b = CouponBond { par: 100.0, c: 0.06, freq: f, t_life: k as f64 / f };
                let w: f64 = (1..=k).map(|j| (6.0 / f + if j == k { 100.0 } else { 0.0 }) / growth(conv, rates[j - 1], f, j as f64 / f)).sum();
                if !(w < 1e12) {
                    continue;
                }
                let g = b.price_ratecurve(&curve(conv, rates.clone(), f));
                cx.state();
                cx.step();
                cx.outf(g);
                ensure!(close(g, w, 100.0, 1e-12 * (10.0 + k as f64)), "{b:?} on a {conv:?} curve (shape {s}) = {g}, flow by flow {w}");
            }
        }
        cx.trace();
        cx.sample(|| format!("{k} periods at {f}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
fn judge_ytm(par: f64, c: f64, f: f64, t: f64, y: f64, cx: &mut Cx) -> R {
    let (ann, v) = annuity(y / f, (t * f).round());
    let p = par * (c / f * ann + v);
    let b = CouponBond { par, c, freq: f, t_life: t };
    let r = guarded(|| b.ytm(p)).map_err(|e| format!("{b:?}.ytm({p}) {e}, expected {y}"))?;
    cx.state();
    cx.step();
    ensure!((r - y).abs() < 1e-6, "{b:?}.ytm({p}) = {r}, expected {y}");
    Ok(())
}
fn f02(t: bool) -> Vec<Task> {
    let ps: Vec<f64> = pars().into_iter().filter(|p| *p >= 1.0 && *p <= 1e12).collect();
    let n = ps.len();
    let f1 = fam("pars", &format!("{n} pars from 1 to 1e12 x 5 coupons x 8 lives x 9 yields x 6 frequencies"), n, move |i, cx| {
        let par = ps[i as usize];
        for c in [0.05, 0.0, 0.08, 0.2, 0.0125] {
            for t in [1.0, 2.0, 3.0, 5.0, 10.0, 20.0, 30.0, 40.0] {
                for y in [0.05, 0.0, -0.04, -0.01, 0.02, 0.08, 0.15, 0.3, 0.5] {
                    for f in &FREQS[..6] {
                        judge_ytm(par, c, *f, t, y, cx)?;
                    }
                }
            }
        }
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("par {par}"));
        Ok(())
    });
    let st = if t { 1e-4 } else { 5e-4 };
    let n = (0.54 / st) as usize;
    let f2 = fam("dense-yields", &format!("{n} yields -4%..50% by {st} x 8 coupons x 10 lives x 6 frequencies"), n, move |i, cx| {
        let y = -0.04 + (i as f64 + 0.5) * st;
        for c in [0.05, 0.0, 0.01, 0.0325, 0.07, 0.1, 0.15, 0.2] {
            for t in [1.0, 2.0, 3.0, 4.0, 7.0, 10.0, 15.0, 20.0, 30.0, 40.0] {
                for f in &FREQS[..6] {
                    judge_ytm(100.0, c, *f, t, y, cx)?;
                }
            }
        }
        cx.outf(y);
        cx.trace();
        cx.sample(|| format!("yield {y}"));
        Ok(())
    });
    let st = if t { 1e-4 } else { 5e-4 };
    let n = (0.2 / st) as usize + 1;
    let f3 = fam("dense-coupons", &format!("{n} coupons 0..20% by {st} x 12 yields (the coupon itself among them) x 10 lives x 6 frequencies"), n, move |i, cx| {
        let c = i as f64 * st;
        for y in [0.05, 0.0, -0.04, c, 0.01, 0.03, 0.08, 0.12, 0.2, 0.3, 0.45, 0.5] {
            for t in [1.0, 2.0, 3.0, 4.0, 7.0, 10.0, 15.0, 20.0, 30.0, 40.0] {
                for f in &FREQS[..6] {
                    judge_ytm(100.0, c, *f, t, y, cx)?;
                }
            }
        }
        cx.outf(c);
        cx.trace();
        cx.sample(|| format!("coupon {c}"));
        Ok(())
    });
    let f4 = fam("all-lives", "every whole number of coupon periods up to 40 years x 6 frequencies x 6 coupons x 14 yields", 480 * 6, |i, cx| {
        let mut d = Dec(i);
        let (&f, k) = (d.of(&FREQS[..6]), d.n(480) + 1);
        if k as f64 / f > 40.0 {
            return Ok(());
        }
        for c in [0.05, 0.0, 0.02, 0.09, 0.14, 0.2] {
            for y in [0.05, 0.0, -0.04, -0.02, 0.01, 0.02, 0.03, 0.07, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5] {
                judge_ytm(100.0, c, f, k as f64 / f, y, cx)?;
                judge_ytm(1000.0, c, f, k as f64 * (1.0 / f), y, cx)?;
            }
        }
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{k} periods at {f}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
fn judge_into(par: f64, c: f64, f: f64, life: f64, y: f64, s: f64, cx: &mut Cx) -> R {
    let it = y / f;
    let (ann, v) = annuity(it, life * f);
    if v > 1e9 {
        return Ok(());
    }
    let b = CouponBond { par, c, freq: f, t_life: life };
    let p = par * (c / f * ann + v);
    let (full, flat, acc) = (b.pv_full(y, s), b.pv_flat(y, s), b.accrued_interest(s));
    let (w, a) = (p * grow(it, s * f), par * c * s);
    cx.state();
    cx.steps(3);
    let tol = bond_tol(it, life * f, c / f);
    ensure!(close(full, w, par, tol), "{b:?}.pv_full({y},{s}) = {full}, expected {w}");
    ensure!(close(acc, a, 0.0, 1e-14), "{b:?}.accrued_interest({s}) = {acc}, expected {a}");
    ensure!(close(flat, w - a, w.max(par), tol), "{b:?}.pv_flat({y},{s}) = {flat}, expected {}", w - a);
    ensure!(close(full - flat, acc, full.abs() + flat.abs(), 1e-13), "{b:?} at {y},{s}: full {full} - flat {flat} differs from accrued {acc}");
    cx.outf(full / par);
    Ok(())
}
fn f03(t: bool) -> Vec<Task> {
    let n = if t { 20_000 } else { 3_000 };
    let f1 = fam("dense-times", &format!("{n} times within the coupon period (equal parts), days of 360, 365, 366 and times of 1e-12 to 1e-2 of the period x 17 frequencies x 4 coupons x 4 yields"), n, move |i, cx| {
        let j = i as f64;
        let tiny = [1.0, 3.3, 7.7][i as usize % 3] * 10f64.powi(-12 + (i as i32 / 3) % 11);
        for f in FREQS {
            for s in [j / n as f64, j / 360.0, j / 365.0, j / 366.0, tiny] {
                if s > 1.0 {
                    continue;
                }
                for c in [0.05, 0.0, 0.11, 0.003] {
                    for y in [0.04, 0.0, -0.01, 0.15] {
                        judge_into(100.0, c, f, 12.0, y, s / f, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("time number {i}"));
        Ok(())
    });
    let ps = Arc::new(pars());
    let p2 = ps.clone();
    let f2 = fam("pars", &format!("{} pars from 1e-12 to 1e18 x 17 frequencies x 3 coupons x 3 yields x 5 times", ps.len()), ps.len(), move |i, cx| {
        let par = p2[i as usize];
        for f in FREQS {
            for c in [0.05, 0.0, 0.11] {
                for y in [0.04, 0.0, -0.01] {
                    for s in [0.0, 0.01, 0.3, 0.75, 1.0] {
                        judge_into(par, c, f, 8.0, y, s / f, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("par {par}"));
        Ok(())
    });
    let (cs, cn) = if t { (1e-4, 6_000) } else { (5e-4, 1_200) };
    let f3 = fam("dense-coupons", &format!("{cn} coupons by {cs} x 17 frequencies x 4 yields x 6 times x 3 lives"), cn, move |i, cx| {
        let c = i as f64 * cs;
        for f in FREQS {
            for y in [0.04, 0.0, c, 0.15] {
                for s in [0.0, 0.05, 0.3, 0.5, 0.9, 1.0] {
                    for life in [4.0, 20.0, 60.0] {
                        judge_into(100.0, c, f, life, y, s / f, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("coupon {c}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn judge_frn(par: f64, q: f64, f: f64, k: f64, ir: f64, dm: f64, cx: &mut Cx) -> R {
    let it = (ir + dm) / f;
    let (ann, v) = annuity(it, k);
    let b = FloatingRateNotes { par, quoted_margin: q, freq: f, t_life: k / f };
    let p = par * ((ir + q) / f * ann + v);
    let g = b.price(ir, dm);
    cx.state();
    cx.step();
    cx.outf(g / par);
    let tol = 1e-13 * (10.0 + k) + 4e-16 / it.abs().max(0.9e-6) * (1.0 + k * (ir + q).abs() / f);
    ensure!(close(g, p, par, tol), "{b:?}.price({ir},{dm}) = {g}, its discounted flows are worth {p}");
    if ir + q >= 0.0 && k <= 30.0 * f {
        let r = guarded(|| b.discount_margin(p, ir)).map_err(|e| format!("{b:?}.discount_margin({p},{ir}) {e}, expected {dm}"))?;
        cx.step();
        ensure!((r - dm).abs() < 1e-6, "{b:?}.discount_margin({p},{ir}) = {r}, expected {dm}");
    }
    Ok(())
}
fn f04(t: bool) -> Vec<Task> {
    let ps: Vec<f64> = pars().into_iter().filter(|p| *p >= 0.01 && *p <= 1e12).collect();
    let n = ps.len();
    let f1 = fam("pars", &format!("{n} pars from a hundredth to 1e12 x 5 index rates x 5 margins x 4 quoted margins x 6 frequencies x 5 lives"), n, move |i, cx| {
        let par = ps[i as usize];
        for ir in [0.03, 0.0, 0.01, 0.08, 0.15] {
            for dm in [0.01, 0.0, -0.02, 0.05, 0.2] {
                for q in [0.005, 0.0, 0.02, 0.1] {
                    for f in &FREQS[..6] {
                        for life in [1.0, 2.0, 5.0, 10.0, 30.0] {
                            judge_frn(par, q, *f, life * f, ir, dm, cx)?;
                        }
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("par {par}"));
        Ok(())
    });
    let st = if t { 1e-4 } else { 5e-4 };
    let n = (0.22 / st) as usize;
    let f2 = fam("dense-margins", &format!("{n} margins -2..20% by {st}, as the discount margin and as the quoted margin x 7 index rates x 6 frequencies x 6 lives"), n, move |i, cx| {
        let x = -0.02 + (i as f64 + 0.5) * st;
        for ir in [0.03, 0.0, 0.01, 0.02, 0.05, 0.1, 0.15] {
            for f in &FREQS[..6] {
                for life in [1.0, 2.0, 4.0, 10.0, 20.0, 30.0] {
                    judge_frn(100.0, 0.0075, *f, life * f, ir, x, cx)?;
                    judge_frn(100.0, x, *f, life * f, ir, 0.01, cx)?;
                    judge_frn(100.0, x, *f, life * f, ir, x, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("margin {x}"));
        Ok(())
    });
    let n = (0.15 / st) as usize + 1;
    let f3 = fam("dense-index", &format!("{n} index rates 0..15% by {st} x 6 margins x 4 quoted margins x 6 frequencies x 5 lives"), n, move |i, cx| {
        let ir = i as f64 * st;
        for dm in [0.01, 0.0, -0.02, 0.005, 0.06, 0.2] {
            for q in [0.005, 0.0, 0.02, 0.08] {
                for f in &FREQS[..6] {
                    for life in [1.0, 3.0, 7.0, 15.0, 30.0] {
                        judge_frn(100.0, q, *f, life * f, ir, dm, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("index {ir}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn f05(t: bool) -> Vec<Task> {
    let n = if t { 20_000 } else { 4_000 };
    let f1 = fam("dense-times", &format!("{n} fractions between neighbouring points (equal parts, and 1e-8 to 1e-2 of the way from either end) x 17 frequencies x 6 positions x 3 conventions on steep curves, and the present value there"), n, move |i, cx| {
        let j = i as f64;
        let tiny = [1.0, 2.0, 3.3, 7.7][i as usize % 4] * 10f64.powi(-8 + (i as i32 / 4) % 7);
        let rates: Vec<f64> = vec![0.02, 0.09, 0.01, 0.3, 0.05, -0.05, 0.11, 0.6];
        for f in FREQS {
            for conv in CONVS {
                let c = curve(conv, rates.clone(), f);
                for k in 1..rates.len() {
                    for fr in [j / n as f64, tiny, 1.0 - tiny] {
                        let x = k as f64 + fr;
                        let w = rates[k - 1] + (rates[k] - rates[k - 1]) * fr;
                        let y = x / f;
                        let g = c.rate_estim(y);
                        cx.state();
                        cx.step();
                        ensure!((g - w).abs() < 1e-9 * (rates[k] - rates[k - 1]).abs() * 1.01 + 1e-13, "{conv:?} curve {rates:?} frequency {f}: rate at point {k} + {fr} = {g}, expected {w}");
                        if i % 4 == 0 {
                            let v = c.pv(1000.0, y);
                            let want = 1000.0 / growth(conv, w, f, y);
                            cx.step();
                            ensure!(close(v, want, 0.0, 1e-9 * (1.0 + y)), "{conv:?} curve {rates:?} frequency {f}: pv(1000,{y}) = {v}, expected {want}");
                        }
                    }
                }
            }
        }
        cx.outf(tiny);
        cx.trace();
        cx.sample(|| format!("fraction {} and {tiny}", j / n as f64));
        Ok(())
    });
    let lens: Vec<usize> = (121..=600).step_by(if t { 1 } else { 17 }).chain([365, 512, 1000, 1024, 3650, 10_000, 36_500]).collect();
    let nl = lens.len();
    let f2 = fam("long-curves", &format!("{nl} curve lengths from 121 to 36500 x 7 frequencies x 3 conventions x 3 shapes: every point and midpoint, and beyond the end"), nl * 7, move |i, cx| {
        let mut d = Dec(i);
        let (&f, &n) = (d.of(&[1.0, 2.0, 12.0, 52.0, 365.0, 0.5, 7.0]), d.of(&lens));
        for s in [0, 3, 8] {
            let rates = shape(s, n);
            for conv in CONVS {
                let c = curve(conv, rates.clone(), f);
                for k in 1..=n {
                    let g = c.rate_estim(k as f64 / f);
                    cx.step();
                    ensure!((g - rates[k - 1]).abs() < 1e-10, "{conv:?} curve of {n} points, frequency {f}, shape {s}: point {k} = {g}, expected {}", rates[k - 1]);
                    if k < n {
                        let g = c.rate_estim((k as f64 + 0.5) / f);
                        cx.step();
                        ensure!((g - (rates[k - 1] + rates[k]) / 2.0).abs() < 1e-10, "{conv:?} curve of {n} points, frequency {f}, shape {s}: midpoint {k} = {g}");
                    }
                }
                let r = guarded(|| c.rate_estim((n as f64 + 0.5) / f));
                ensure!(r.is_err(), "{conv:?} curve of {n} points, frequency {f}: half an interval beyond the end = {}", r.unwrap());
                cx.state();
            }
        }
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{n} points at {f}"));
        Ok(())
    });
    let ps = Arc::new(sizes());
    let p2 = ps.clone();
    let f3 = fam("amounts", &format!("present values of {} flows of 1e-12 to 1e18 in size, both signs x 17 frequencies x 3 conventions x 6 times", ps.len()), ps.len(), move |i, cx| {
        let a = p2[i as usize];
        let rates: Vec<f64> = vec![0.02, 0.05, 0.03, 0.0, -0.01];
        for f in FREQS {
            for conv in CONVS {
                let c = curve(conv, rates.clone(), f);
                for x in [1.0, 1.5, 2.0, 3.25, 4.0, 5.0] {
                    let (v, w) = (c.pv(a, x / f), a / growth(conv, interp(&rates, x), f, x / f));
                    cx.state();
                    cx.step();
                    cx.outf(v);
                    ensure!(close(v, w, 0.0, 1e-12 * (10.0 + x / f)), "{c:?}: pv({a},{}) = {v}, expected {w}", x / f);
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("flow {a}"));
        Ok(())
    });
    let (st, n) = if t { (1e-4, 14_000) } else { (5e-4, 2_800) };
    let f4 = fam("dense-rates", &format!("{n} rates from -40% by {st}, as first, middle and last point x 17 frequencies x 3 conventions: rate and present value at the point and halfway"), n, move |i, cx| {
        let r = -0.4 + (i as f64 + 0.5) * st;
        for f in FREQS {
            for conv in CONVS {
                if conv == Conv::Nom && r / f < -0.95 {
                    continue;
                }
                for at in 0..3 {
                    let mut rates = vec![0.04, 0.05, 0.045];
                    rates[at] = r;
                    let c = curve(conv, rates.clone(), f);
                    for x in [1.0, 1.5, 2.0, 2.5, 3.0] {
                        let (y, w) = (x / f, interp(&rates, x));
                        let (g, v) = (c.rate_estim(y), c.pv(1000.0, y));
                        cx.state();
                        cx.steps(2);
                        ensure!((g - w).abs() < 1e-10, "{c:?}: rate at {y} = {g}, expected {w}");
                        let want = 1000.0 / growth(conv, w, f, y);
                        ensure!(close(v, want, 0.0, 1e-11 * (10.0 + y)), "{c:?}: pv(1000,{y}) = {v}, expected {want}");
                    }
                }
            }
        }
        cx.outf(r);
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
fn conv_to(c: &financelib::fixedincomes::bonds::rates::RateCurve, to: Conv) -> financelib::fixedincomes::bonds::rates::RateCurve {
    match to {
        Conv::Nom => c.to_nominal(),
        Conv::Eff => c.to_effective(),
        Conv::Exp => c.to_exponential(),
    }
}
fn f06(t: bool) -> Vec<Task> {
    let nf = if t { 4000 } else { 1000 };
    let f1 = fam("frequencies", &format!("every frequency 1..={nf}, and its quarter and half-offset x 3 conventions x 12 shapes of 9 points x each other convention and back"), nf, |i, cx| {
        let k = i as f64 + 1.0;
        for f in [k, k * 0.25, k + 0.5] {
            for s in 0..NSHAPES {
                for conv in CONVS {
                    let rates = shape(s, 9);
                    let c = curve(conv, rates.clone(), f);
                    for to in CONVS {
                        judge_conv_curve(&c, conv, &rates, f, to, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k}"));
        Ok(())
    });
    let lens: Vec<usize> = (0..=2).chain((41..=600).step_by(if t { 1 } else { 7 })).chain([365, 512, 1000, 1024, 3650, 10_000, 36_500]).collect();
    let nl = lens.len();
    let f2 = fam("long-curves", &format!("{nl} lengths (0, 1, 2, 41 to 36500) x 7 frequencies x 3 conventions x 3 shapes x each other convention and back"), nl * 7, move |i, cx| {
        let mut d = Dec(i);
        let (&f, &n) = (d.of(&[1.0, 2.0, 12.0, 52.0, 365.0, 0.5, 7.0]), d.of(&lens));
        for s in [0, 3, 8] {
            for conv in CONVS {
                let rates = shape(s, n);
                let c = curve(conv, rates.clone(), f);
                for to in CONVS {
                    judge_conv_curve(&c, conv, &rates, f, to, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("{n} points at {f}"));
        Ok(())
    });
    let f3 = fam("tiny-rates", "rates of 1e-10 to 1e-2 in size (8 mantissas per decade, both signs) among ordinary ones x 17 frequencies x 3 conventions x each other convention and back", 8 * 8 * 2, |i, cx| {
        let mut d = Dec(i);
        let r = [1.0, -1.0][d.n(2)] * [1.0, 1.25, 1.6, 2.0, 3.33, 5.0, 7.77, 9.9][d.n(8)] * 10f64.powi(d.n(8) as i32 - 10);
        for f in FREQS {
            for conv in CONVS {
                for rates in [vec![r], vec![0.03, r, 0.04], vec![r, r]] {
                    let c = curve(conv, rates.clone(), f);
                    for to in CONVS {
                        judge_conv_curve(&c, conv, &rates, f, to, cx)?;
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn judge_conv_curve(c: &financelib::fixedincomes::bonds::rates::RateCurve, conv: Conv, rates: &[f64], f: f64, to: Conv, cx: &mut Cx) -> R {
    let n = conv_to(c, to);
    let b = conv_to(&n, conv);
    cx.state();
    cx.steps(2);
    let ((pc, rt, fq), (bc, back, bf)) = (parts(&n), parts(&b));
    ensure!(pc == to && bc == conv && fq == f && bf == f && rt.len() == rates.len() && back.len() == rates.len(), "{conv:?} curve of {} rates at {f} to {to:?} and back: {pc:?}, {bc:?}, frequencies {fq}, {bf}, lengths {}, {}", rates.len(), rt.len(), back.len());
    for k in 0..rates.len() {
        // the present value of a flow is unchanged: one-period growth factors agree
        let (g, w) = (growth(to, rt[k], f, 1.0), growth(conv, rates[k], f, 1.0));
        ensure!(close(g, w, 0.0, 2e-14 * (10.0 + f)), "{conv:?} rate {} at frequency {f} became the {to:?} rate {}: growth {g}, was {w}", rates[k], rt[k]);
        ensure!((back[k] - rates[k]).abs() < 4e-14 * (10.0 + f), "{conv:?} rate {} at frequency {f} to {to:?} and back became {}", rates[k], back[k]);
        cx.outf(rt[k]);
    }
    Ok(())
}
fn f07(t: bool) -> Vec<Task> {
    let (st, n) = if t { (5e-5, 8_000) } else { (2e-4, 2_000) };
    let f1 = fam("dense-rates", &format!("{n} rates from -5% by {st}, as a flat curve and as the first, third or last of five points x 17 frequencies"), n, move |i, cx| {
        let r = -0.05 + (i as f64 + 0.5) * st;
        for f in FREQS {
            judge_curve(&vec![r; 6], f, cx)?;
            for at in [0, 2, 4] {
                let mut v = vec![0.03, 0.035, 0.04, 0.042, 0.043];
                v[at] = r;
                judge_curve(&v, f, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    let nf = if t { 2000 } else { 400 };
    let f2 = fam("frequencies", &format!("every frequency 1..={nf}, and its quarter and half-offset x 12 shapes x lengths 1, 2, 3, 7, 20"), nf, |i, cx| {
        let k = i as f64 + 1.0;
        for f in [k, k * 0.25, k + 0.5] {
            for s in 0..NSHAPES {
                for n in [1, 2, 3, 7, 20] {
                    judge_curve(&shape(s, n), f, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k}"));
        Ok(())
    });
    vec![f1, f2]
}
fn f08(t: bool) -> Vec<Task> {
    let (st, n) = if t { (1e-4, 14_000) } else { (5e-4, 2_800) };
    let f1 = fam("dense-rates", &format!("{n} rates from -40% by {st}, as first, middle and last of four points and as a flat curve x 17 frequencies: every start and end on a 2-per-period grid"), n, move |i, cx| {
        let r = -0.4 + (i as f64 + 0.5) * st;
        for f in FREQS {
            if r / f < -0.95 {
                continue;
            }
            for at in 0..4 {
                let mut v = vec![0.03, 0.035, 0.04, 0.042];
                if at < 3 { v[[0, 2, 3][at]] = r } else { v = vec![r; 4] }
                judge_fwd(&v, f, 2, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    let nf = if t { 2000 } else { 400 };
    let f2 = fam("frequencies", &format!("every frequency 1..={nf}, and its quarter and half-offset x 12 shapes x lengths 2, 3 and 7: every start and end on a 3-per-period grid"), nf, |i, cx| {
        let k = i as f64 + 1.0;
        for f in [k, k * 0.25, k + 0.5] {
            for s in 0..NSHAPES {
                for n in [2, 3, 7] {
                    judge_fwd(&shape(s, n), f, 3, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("frequency {k}"));
        Ok(())
    });
    let f3 = fam("dense-tenors", "starts and tenors by a 48th of a period on 4-point curves x 5 shapes x 17 frequencies", 5 * 17, |i, cx| {
        let mut d = Dec(i);
        let (&s, &f) = (d.of(&[0, 2, 3, 6, 4]), d.of(&FREQS));
        judge_fwd(&shape(s, 4), f, 48, cx)?;
        cx.trace();
        cx.sample(|| format!("shape {s} frequency {f}"));
        Ok(())
    });
    let lens: Vec<usize> = (41..=400).step_by(if t { 1 } else { 19 }).chain([365, 512, 1000, 1024, 3650]).collect();
    let nl = lens.len();
    let f4 = fam("long-curves", &format!("{nl} lengths from 41 to 3650 x 5 frequencies x 5 shapes: one-interval forwards all along, and long ones"), nl * 25, move |i, cx| {
        let mut d = Dec(i);
        let (&f, &s, &n) = (d.of(&[1.0, 2.0, 12.0, 52.0, 365.0]), d.of(&[0, 2, 3, 8, 11]), d.of(&lens));
        let rates = shape(s, n);
        let sp = SpotRates { rate: curve(Conv::Nom, rates.clone(), f) };
        let lg = |k: usize| k as f64 * (rates[k - 1] / f).ln_1p();
        for k in 1..n {
            for j in [k + 1, n] {
                // a forward within 0.1% of -100% per interval keeps no digits
                if lg(j) > 200.0 || lg(j) - lg(k) < -7.0 * (j - k) as f64 || lg(j) - lg(k) < -20.0 {
                    continue;
                }
                let fw = sp.forward_rate(k as f64 / f, (j - k) as f64 / f);
                cx.step();
                let (got, want) = ((j - k) as f64 * (fw / f).ln_1p(), lg(j) - lg(k));
                ensure!((got - want).abs() < fwd_tol((j - k) as f64, fw / f, want), "curve of {n} points, shape {s}, frequency {f}: forward from {k} to {j} = {fw}, growth e^{got}, the spot rates give e^{want}");
            }
        }
        cx.state();
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{n} points at {f}, shape {s}"));
        Ok(())
    });
    vec![f1, f2, f3, f4]
}
/// A forward close to -100% per interval keeps few digits of its growth, and so does a growth close to nothing that was a
/// rate over the whole period in between.
fn fwd_tol(intervals: f64, per: f64, growth: f64) -> f64 {
    1e-9 + 1e-14 * intervals / (1.0 + per).min(1.0) + 1e-15 * (-growth).exp().min(1e9)
}
fn judge_fwd(rates: &Vec<f64>, f: f64, sub: usize, cx: &mut Cx) -> R {
    let sp = SpotRates { rate: curve(Conv::Nom, rates.clone(), f) };
    let last = rates.len() * sub;
    let lg: Vec<f64> = (0..=last).map(|q| if q < sub { 0.0 } else { q as f64 / sub as f64 * (interp(rates, q as f64 / sub as f64) / f).ln_1p() }).collect();
    for a in sub..last {
        for b in a + 1..=last {
            let (ta, tb) = (a as f64 / sub as f64 / f, b as f64 / sub as f64 / f);
            let fw = sp.forward_rate(ta, tb - ta);
            cx.state();
            cx.step();
            let (got, want) = ((tb - ta) * f * (fw / f).ln_1p(), lg[b] - lg[a]);
            let tol = fwd_tol((tb - ta) * f, fw / f, want);
            ensure!((got - want).abs() < tol, "spot {rates:?} frequency {f}: forward_rate({ta},{}) = {fw}: growth over the period is e^{got}, the spot rates give e^{want}", tb - ta);
            cx.outf(fw);
        }
    }
    Ok(())
}
fn judge_bill(t: f64, p0: f64, f: f64, cx: &mut Cx) -> R {
    let r = t_bill_r(t, p0, f);
    let d = t_bill_d(r, t, f);
    let w = (f - p0) / f * 360.0 / t;
    cx.state();
    cx.steps(2);
    cx.outf(r);
    ensure!((r - w).abs() <= 1e-14 * (w.abs() + 360.0 / t), "t_bill_r({t},{p0},{f}) = {r}, expected {w}");
    ensure!((d - (f - p0)).abs() <= 1e-14 * (f + p0), "the discount of a bill bought at {p0}, face {f}, term {t} comes back as {d}");
    Ok(())
}
fn judge_hold(t: f64, p0: f64, p1: f64, inc: f64, cx: &mut Cx) -> R {
    let ratio = (p1 + inc) / p0;
    if ratio <= 1e-6 {
        return Ok(());
    }
    let (h, m) = (holding_per_yield(p0, p1, inc), money_mkt_yield(t, p0, p1, inc));
    cx.state();
    cx.steps(3);
    let e0 = (p1.abs() + inc.abs()) / p0;
    ensure!((h + 1.0 - ratio).abs() <= 1e-14 * (1.0 + e0), "holding_per_yield({p0},{p1},{inc}) = {h}, ratio {ratio}");
    let w = (ratio - 1.0) * 360.0 / t;
    ensure!((m - w).abs() <= 1e-14 * (1.0 + e0) * 360.0 / t, "money_mkt_yield({t},{p0},{p1},{inc}) = {m}, expected {w}");
    let lg = 365.0 / t * ratio.ln();
    let e = eff_ann_yield(t, p0, p1, inc);
    if lg.abs() < 300.0 {
        let w = lg.exp_m1();
        ensure!((e - w).abs() <= 1e-14 * (1.0 + w.abs()) * (10.0 + lg.abs() + 365.0 / t * (1.0 + e0 / ratio)), "eff_ann_yield({t},{p0},{p1},{inc}) = {e}, expected {w}");
    }
    Ok(())
}
fn f09(t: bool) -> Vec<Task> {
    let ps = Arc::new(pars());
    let p2 = ps.clone();
    let f1 = fam("prices", &format!("{} prices from 1e-12 to 1e18 x 16 ratios of face value or end value to price x 5 incomes x 9 terms", ps.len()), ps.len(), move |i, cx| {
        let p0 = p2[i as usize];
        for t in [90.0, 1.0, 7.0, 30.0, 150.0, 180.0, 360.0, 365.0, 730.0] {
            for q in [1.02, 1.0, 0.95, 1.5, 0.5, 3.0, 0.1, 1.0001, 0.9999, 1.005, 10.0, 1.000001, 0.7, 1.1, 2.0, 100.0] {
                judge_bill(t, p0, p0 * q, cx)?;
                for inc in [0.0, 0.05 * p0, 1.0, 0.001 * p0, -0.01 * p0] {
                    judge_hold(t, p0, p0 * q, inc, cx)?;
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("price {p0}"));
        Ok(())
    });
    let n = if t { 40_000 } else { 8_000 };
    let f2 = fam("dense-ratios", &format!("{n} price ratios from 0.001 to 4 x 30 terms x 4 incomes"), n, move |i, cx| {
        let q = 0.001 + i as f64 * 4.0 / n as f64;
        for t in [1.0, 2.0, 7.0, 14.0, 28.0, 30.0, 60.0, 84.0, 90.0, 91.0, 120.0, 150.0, 180.0, 182.0, 270.0, 300.0, 359.0, 360.0, 361.0, 364.0, 365.0, 366.0, 400.0, 500.0, 720.0, 730.0, 1000.0, 3650.0, 10_000.0, 0.25] {
            judge_bill(t, 100.0 * q, 100.0, cx)?;
            for inc in [0.0, 5.0, 0.01, -0.05] {
                judge_hold(t, 100.0, 100.0 * q, inc, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("ratio {q}"));
        Ok(())
    });
    let f3 = fam("terms", "every quarter day up to 400 days and every 10th day up to 40000 x 6 prices x 3 incomes", 1600 + 4000, |i, cx| {
        let t = if i < 1600 { (i + 1) as f64 * 0.25 } else { (i - 1599) as f64 * 10.0 };
        for p in [98.0, 100.0, 50.0, 99.9, 103.0, 1.0] {
            judge_bill(t, p, 100.0, cx)?;
            for inc in [0.0, 4.0, 0.1] {
                judge_hold(t, p, 100.0, inc, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("term {t}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
fn judge_twrr(bv: &Vec<f64>, fl: &Vec<f64>, cx: &mut Cx) -> R {
    let n = fl.len();
    let mut lg = 0.0f64;
    let mut e = 0.0;
    for k in 0..n {
        let start = bv[k] + fl[k];
        if !(start > 0.0) || start < 1e-6 * bv[k].abs() {
            return Ok(());
        }
        lg += (bv[k + 1] / start).ln();
        e += 1.0 + (bv[k].abs() + fl[k].abs()) / start;
    }
    if lg.abs() > 600.0 {
        return Ok(());
    }
    cx.state();
    for k in [n as f64, 1.0, 2.0, 0.5, 12.0] {
        let w = (lg / k).exp_m1();
        if lg / k > 600.0 {
            continue;
        }
        let r = if k == n as f64 { twrr(bv, fl) } else { twrr_n(k, bv, fl) };
        cx.step();
        cx.outf(r);
        ensure!((r - w).abs() <= 1e-15 * (1.0 + w.abs()) * (20.0 + (lg.abs() * 4.0 + e) * (1.0 + 1.0 / k)), "time-weighted return over {k} of {:?} inflows {:?} ({n} sub-periods) = {r}, expected {w}", &bv[..bv.len().min(8)], &fl[..n.min(8)]);
    }
    Ok(())
}
fn f10(t: bool) -> Vec<Task> {
    let ps = Arc::new(pars());
    let p2 = ps.clone();
    let f1 = fam("amounts", &format!("{} sizes from 1e-12 to 1e18 x 12 valuation and flow patterns in that size, and one such flow or valuation among ordinary ones", ps.len()), ps.len(), move |i, cx| {
        let a = p2[i as usize];
        for (bv, fl) in [
            (vec![1.0, 1.2], vec![0.0]),
            (vec![1.0, 1.2], vec![0.5]),
            (vec![1.0, 0.7, 0.9], vec![0.0, -0.2]),
            (vec![0.0, 1.0, 2.0], vec![0.9, 0.8]),
            (vec![1.0, 3.0, 2.0, 5.0], vec![1.0, -0.5, 2.5]),
            (vec![1.0, 1.0, 1.0], vec![0.0, 0.0]),
        ] {
            judge_twrr(&bv.iter().map(|x| x * a).collect(), &fl.iter().map(|x| x * a).collect(), cx)?;
            for at in 0..fl.len() {
                let (mut b2, mut f2): (Vec<f64>, Vec<f64>) = (bv.iter().map(|x| x * 100.0).collect(), fl.iter().map(|x| x * 100.0).collect());
                for s in [a, -a] {
                    f2[at] = s;
                    judge_twrr(&b2, &f2, cx)?;
                }
                f2[at] = 0.5;
                b2[at] = a;
                judge_twrr(&b2, &f2, cx)?;
                b2[at] = 100.0;
                b2[at + 1] = a;
                judge_twrr(&b2, &f2, cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("size {a}"));
        Ok(())
    });
    let n = if t { 20_000 } else { 4_000 };
    let f2 = fam("dense-flows", &format!("{n} inflows from -100% to 300% of the value and as many growth factors up to 4, alone and in the first, middle and last of five sub-periods"), n, move |i, cx| {
        let x = (i as f64 + 0.5) * 400.0 / n as f64;
        judge_twrr(&vec![100.0, 110.0], &vec![x - 100.0], cx)?;
        judge_twrr(&vec![100.0, x], &vec![0.0], cx)?;
        for at in [0, 2, 4] {
            let (mut bv, mut fl) = (vec![100.0, 105.0, 102.0, 110.0, 108.0, 115.0], vec![0.0, 5.0, -3.0, 0.0, 1.0]);
            let (b0, f0) = (bv.clone(), fl.clone());
            fl[at] = x - 100.0;
            judge_twrr(&bv, &fl, cx)?;
            fl = f0;
            bv[at + 1] = x;
            judge_twrr(&bv, &fl, cx)?;
            let _ = b0;
        }
        cx.trace();
        cx.sample(|| format!("flow or value {x}"));
        Ok(())
    });
    let lens: Vec<usize> = (1001..4000).step_by(if t { 7 } else { 101 }).chain([1023, 1024, 1025, 4096, 5000, 10_000, 10_001, 36_500]).collect();
    let nl = lens.len();
    let f3 = fam("very-long", &format!("{nl} numbers of sub-periods from 1001 to 36500 x 3 patterns; one sub-period differs (first, middle, last)"), nl * 3, move |i, cx| {
        let mut d = Dec(i);
        let (pat, &n) = (d.n(3), d.of(&lens));
        for odd in [0, n / 2, n - 1] {
            let (mut bv, mut fl) = (vec![100.0f64], vec![]);
            for k in 0..n {
                let v = bv[k];
                let c = if pat == 1 && k % 5 == 0 { 10.0 } else if pat == 2 && k % 2 == 0 { 3.0 } else { 0.0 };
                fl.push(c);
                // valuations stay in a band so that the product neither overflows nor vanishes
                let g = if k == odd { 2.0 } else if v > 150.0 { 0.97 } else { 1.003 };
                bv.push((v + c) * g);
            }
            judge_twrr(&bv, &fl, cx)?;
        }
        cx.trace();
        cx.sample(|| format!("{n} sub-periods, pattern {pat}"));
        Ok(())
    });
    vec![f1, f2, f3]
}
