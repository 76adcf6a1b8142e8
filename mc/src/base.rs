//! Properties of the base module: calendar, day counts, time value, rates, annuities, NPV/IRR, root finder.
use crate::engine::*;
use crate::ensure;
use chrono::{Datelike, NaiveDate as D};
use financelib::DayCountConvention::*;
use financelib::*;
use std::sync::Arc;

pub fn ymd(y: i32, m: u32, d: u32) -> D {
    D::from_ymd_opt(y, m, d).unwrap()
}
/// (1+r)^n by an independent route.
pub fn grow(r: f64, n: f64) -> f64 {
    (n * r.ln_1p()).exp()
}
fn dates_of(ranges: &[(i32, i32)]) -> Vec<D> {
    let mut v = vec![];
    for &(a, b) in ranges {
        let mut d = ymd(a, 1, 1);
        while d.year() <= b {
            v.push(d);
            d = d.succ_opt().unwrap();
        }
    }
    v
}
/// Reference Gregorian rule, written from the definition.
fn leap(y: i32) -> bool {
    if y.rem_euclid(400) == 0 {
        true
    } else if y.rem_euclid(100) == 0 {
        false
    } else {
        y.rem_euclid(4) == 0
    }
}

pub fn b01(thorough: bool) -> Prop {
    let mut tasks = vec![];
    tasks.push(fam("years", "every year from -262000 to 262000: leapness and length against the Gregorian rule and the calendar of chrono", 524_001, |i, cx| {
        let y = i as i32 - 262_000;
        let l = is_leap_year(y);
        cx.state();
        cx.steps(2);
        ensure!(l == leap(y), "is_leap_year({y}) = {l}");
        ensure!(l == D::from_ymd_opt(y, 2, 29).is_some(), "is_leap_year({y}) = {l} but the calendar disagrees");
        let n = days_in_year(y);
        ensure!(n == if leap(y) { 366 } else { 365 }, "days_in_year({y}) = {n}");
        ensure!(n == (ymd(y + 1, 1, 1) - ymd(y, 1, 1)).num_days(), "days_in_year({y}) = {n} disagrees with the calendar");
        cx.out(l as u64);
        cx.trace();
        cx.sample(|| format!("year {y}: leap={l} days={n}"));
        Ok(())
    }));
    let (ya, yb) = if thorough { (-60_000, 60_000) } else { (-1, 10_000) };
    tasks.push(fam(
        "walk",
        &format!("calendar walker: every day of every year {ya}..={yb}, each day's value compared with the previous day's, converted back, and with 4 offsets of less than half a day"),
        (yb - ya + 1) as usize,
        move |i, cx| {
            let y = ya + i as i32;
            let len = if leap(y) { 366 } else { 365 };
            let mut d = ymd(y, 1, 1);
            let mut prev = date_to_float(ymd(y - 1, 12, 31));
            cx.step();
            for k in 1..=len {
                let v = date_to_float(d);
                cx.state();
                cx.step();
                let tol = 1e-9 + 4e-16 * (y as f64).abs();
                ensure!(v > prev, "date_to_float({d}) = {v} not above the previous day's {prev}");
                ensure!(v > y as f64 && v <= y as f64 + 1.0, "date_to_float({d}) = {v} leaves its year");
                ensure!((v - (y as f64 + k as f64 / len as f64)).abs() < tol, "date_to_float({d}) = {v} is not {k}/{len} into the year");
                for e in [0.0, -0.49, 0.49, -0.25, 0.25] {
                    let u = v + e / len as f64;
                    let b = date_from_float(u);
                    cx.step();
                    ensure!(b == d, "date_from_float({u}) = {b}, expected {d} (day offset {e})");
                }
                cx.trace();
                cx.outf(v);
                prev = v;
                if k < len {
                    d = d.succ_opt().unwrap();
                }
            }
            ensure!(d == ymd(y, 12, 31), "year {y} has {len} days by the reference");
            cx.sample(|| format!("year {y}: {len} days walked, last {d} -> {prev}"));
            Ok(())
        },
    ));
    Prop { id: "B01", assumptions: vec!["chrono's proleptic Gregorian calendar is right (cross-checked by an independent leap rule)"], tasks }
}

pub fn ref_30_360(us: bool, a: D, b: D) -> f64 {
    let feb_end = |d: D| d.month() == 2 && d.succ_opt().unwrap().month() == 3;
    let (mut d0, mut d1) = (a.day() as i32, b.day() as i32);
    if us {
        if feb_end(a) && feb_end(b) {
            d1 = 30;
        }
        if feb_end(a) {
            d0 = 30;
        }
        if d1 == 31 && (d0 == 30 || d0 == 31) {
            d1 = 30;
        }
        if d0 == 31 {
            d0 = 30;
        }
    } else {
        d0 = d0.min(30);
        d1 = d1.min(30);
    }
    let months = (b.year() * 12 + b.month() as i32) - (a.year() * 12 + a.month() as i32);
    (months * 30 + d1 - d0) as f64 / 360.0
}
struct DayInfo {
    d: D,
    num: i64,
    acc: f64, // elapsed years by summing 1/len per day since the first listed year (integer years + days/len)
    yr: i32,
    ord: i32,
    len: i32,
}
fn info(d: D) -> DayInfo {
    let len = if leap(d.year()) { 366 } else { 365 };
    DayInfo { d, num: d.num_days_from_ce() as i64, acc: 0.0, yr: d.year(), ord: (d - ymd(d.year(), 1, 1)).num_days() as i32 + 1, len }
}
fn check_pair(a: &DayInfo, b: &DayInfo, cx: &mut Cx) -> R {
    let days = b.num - a.num;
    let act = (b.yr - a.yr) as f64 + b.ord as f64 / b.len as f64 - a.ord as f64 / a.len as f64;
    let us = ref_30_360(true, a.d, b.d);
    let eu = ref_30_360(false, a.d, b.d);
    cx.state();
    let g = yearfrac(a.d, b.d, US30360);
    ensure!((g - us).abs() < 1e-11, "yearfrac({},{},US30360) = {g}, expected {us}", a.d, b.d);
    let g = yearfrac(a.d, b.d, EU30360);
    ensure!((g - eu).abs() < 1e-11, "yearfrac({},{},EU30360) = {g}, expected {eu}", a.d, b.d);
    let g = yearfrac(a.d, b.d, ACT360);
    let w = days as f64 / 360.0;
    ensure!((g - w).abs() < 1e-11 * (1.0 + w.abs()), "yearfrac({},{},ACT360) = {g}, expected {w}", a.d, b.d);
    let g = yearfrac(a.d, b.d, ACT365);
    let w = days as f64 / 365.0;
    ensure!((g - w).abs() < 1e-11 * (1.0 + w.abs()), "yearfrac({},{},ACT365) = {g}, expected {w}", a.d, b.d);
    let g = yearfrac(a.d, b.d, ACTACT);
    ensure!((g - act).abs() < 1e-9, "yearfrac({},{},ACTACT) = {g}, expected {act}", a.d, b.d);
    let g = yrfrac((a.d, b.d));
    ensure!((g - us).abs() < 1e-11, "yrfrac({},{}) = {g}, expected {us}", a.d, b.d);
    Ok(())
}
/// The last and the first days there are, far eras between: round trips.
pub fn eras_round_trip(t: bool) -> Task {
    let (step, lim) = if t { (97, 262_142) } else { (997, 262_130) };
    let mut ys: Vec<i32> = (-lim..lim).step_by(step).chain(-lim..4 - lim).chain(lim - 4..lim).collect();
    ys.sort();
    ys.dedup();
    let n = ys.len();
    fam("eras", &format!("every day of {n} years from -{lim} to {} (every {step}th and both ends), in the thorough tier also of the incomplete first and last years there are: value, round trip, with 2 offsets of less than half a day", lim - 1), n + if t { 2 } else { 0 }, move |i, cx| {
        let i = i as usize;
        let (first, last) = if i < n { (ymd(ys[i], 1, 1), ymd(ys[i], 12, 31)) } else if i == n { (D::MIN, ymd(D::MIN.year(), 12, 31)) } else { (ymd(D::MAX.year(), 1, 1), D::MAX) };
        let y = first.year();
        let len = if leap(y) { 366 } else { 365 } as f64;
        let mut d = first;
        loop {
            let v = date_to_float(d);
            let k = (d.month0() as i32, d.day());
            let ord = d.num_days_from_ce() - ymd(y, 12, 31).num_days_from_ce() + len as i32;
            cx.state();
            cx.steps(4);
            ensure!((v - (y as f64 + ord as f64 / len)).abs() < 1e-9 + 4e-16 * (y as f64).abs(), "date_to_float({d}) = {v} is not {ord}/{len} into the year");
            for e in [0.0, 0.4, -0.4] {
                let b = date_from_float(v + e / len);
                ensure!(b == d, "date_from_float({}) = {b}, expected {d} (day offset {e})", v + e / len);
            }
            cx.out(h64((y, k)));
            if d == last {
                break;
            }
            d = d.succ_opt().unwrap();
        }
        cx.trace();
        cx.sample(|| format!("year {y}"));
        Ok(())
    })
}
/// Day counts with the last and the first days there are.
pub fn eras_pairs(t: bool) -> Task {
    let n = if t { 800 } else { 400 };
    let mut v: Vec<D> = vec![];
    let (mut a, mut b) = if t { (ymd(-262_142, 1, 1), D::MAX.pred_opt().unwrap()) } else { (ymd(-262_130, 1, 1), ymd(262_130, 12, 31)) };
    for _ in 0..n {
        v.push(a);
        v.push(b);
        a = a.succ_opt().unwrap();
        b = b.pred_opt().unwrap();
    }
    v.extend([ymd(0, 1, 1), ymd(0, 2, 29), ymd(-1, 12, 31), ymd(1, 1, 1), ymd(2020, 2, 29), ymd(2019, 8, 31), ymd(1900, 2, 28)]);
    let v: Vec<DayInfo> = v.into_iter().map(info).collect();
    let v = Arc::new(v);
    fam("calendar-ends", &format!("all ordered pairs of {} dates: the first and last {n} days of the calendar and seven ordinary ones, five conventions", v.len()), v.len(), move |i, cx| {
        let a = &v[i as usize];
        for b in v.iter() {
            // floats of half a million years resolve a day to 1e-9
            let days = b.num - a.num;
            let act = (b.yr - a.yr) as f64 + b.ord as f64 / b.len as f64 - a.ord as f64 / a.len as f64;
            for (name, c, w) in [("US30360", US30360, ref_30_360(true, a.d, b.d)), ("EU30360", EU30360, ref_30_360(false, a.d, b.d)), ("ACT360", ACT360, days as f64 / 360.0), ("ACT365", ACT365, days as f64 / 365.0), ("ACTACT", ACTACT, act)] {
                let g = yearfrac(a.d, b.d, c);
                ensure!((g - w).abs() < 1e-9 + 1e-15 * w.abs(), "yearfrac({},{},{name}) = {g}, expected {w}", a.d, b.d);
            }
            cx.state();
            cx.steps(5);
        }
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{}", a.d));
        Ok(())
    })
}
pub fn b02(thorough: bool) -> Prop {
    let mut tasks = vec![];
    // 1. the accumulating walker: ACT/ACT by summing every elapsed day
    let starts = Arc::new(dates_of(&[(1896, 1896), (1999, 2001), (2019, 2020)]));
    let s2 = starts.clone();
    tasks.push(fam(
        "actact-walk",
        "from every start date in 1896, 1999-2001, 2019-2020 walk 2000 days forward; the model adds 1/length of the year of each elapsed day",
        starts.len(),
        move |i, cx| {
            let a = s2[i as usize];
            let mut b = a;
            let (mut whole, mut num_l, mut num_n) = (0.0f64, 0i64, 0i64);
            for _ in 0..2000 {
                b = b.succ_opt().unwrap();
                if leap(b.year()) { num_l += 1 } else { num_n += 1 }
                whole = num_l as f64 / 366.0 + num_n as f64 / 365.0;
                let g = yearfrac(a, b, ACTACT);
                cx.state();
                cx.steps(2);
                cx.outf(g);
                ensure!((g - whole).abs() < 1e-9, "yearfrac({a},{b},ACTACT) = {g}, day-by-day sum {whole}");
                let g = yearfrac(b, a, ACTACT);
                ensure!((g + whole).abs() < 1e-9, "yearfrac({b},{a},ACTACT) = {g}, day-by-day sum {}", -whole);
            }
            cx.trace();
            cx.sample(|| format!("{a} .. {b}: {whole}"));
            Ok(())
        },
    ));
    let ranges: Vec<(i32, i32)> = if thorough { vec![(1800, 2199)] } else { vec![(1898, 1901), (1999, 2016), (2019, 2026), (2098, 2101)] };
    let all = Arc::new(dates_of(&ranges).into_iter().map(info).collect::<Vec<_>>());
    let a2 = all.clone();
    tasks.push(fam("all-pairs", &format!("all ordered pairs of dates of the years {ranges:?}, five conventions and the period form"), all.len(), move |i, cx| {
        let a = &a2[i as usize];
        for b in a2.iter() {
            check_pair(a, b, cx)?;
        }
        cx.steps(6 * a2.len() as u64);
        cx.out(i);
        cx.trace();
        cx.sample(|| format!("{} against all {} dates, both orders over the whole family", a.d, a2.len()));
        let _ = a.acc;
        Ok(())
    }));
    // every date of the 400-year cycle and of far centuries against rule-relevant dates of far apart years
    let mut probes = vec![];
    for y in [1, 4, 99, 100, 400, 1000, 1582, 1600, 1700, 1752, 1900, 1969, 1970, 1972, 2000, 2001, 2004, 2100, 2400, 9996, 9999] {
        for m in 1..=12 {
            let last = (28..=31).rev().find(|&d| D::from_ymd_opt(y, m, d).is_some()).unwrap();
            for d in [1, 15, 27, 28, 29, 30, 31] {
                if d <= last {
                    probes.push(info(ymd(y, m, d)));
                }
            }
        }
    }
    let probes = Arc::new(probes);
    let cyc = Arc::new(dates_of(&[(1600, 1999)]).into_iter().map(info).collect::<Vec<_>>());
    let (p2, c2) = (probes.clone(), cyc.clone());
    let stride = if thorough { 1 } else { 3 };
    tasks.push(fam(
        "far-pairs",
        &format!("{} dates of the 400-year cycle 1600-1999 (every {stride}th plus all month ends) x {} month-boundary dates of years 1..9999, both orders", cyc.len(), probes.len()),
        cyc.len(),
        move |i, cx| {
            let a = &c2[i as usize];
            let month_end = a.d.succ_opt().unwrap().day() == 1;
            if i % stride != 0 && !month_end {
                return Ok(());
            }
            for b in p2.iter() {
                check_pair(a, b, cx)?;
                check_pair(b, a, cx)?;
            }
            cx.steps(12 * p2.len() as u64);
            cx.out(i);
            cx.trace();
            Ok(())
        },
    ));
    Prop { id: "B02", assumptions: vec!["day numbers come from chrono; conventions are restated independently in the model"], tasks }
}

pub const RATES: [f64; 44] = [
    0.0, 0.05, 0.1, 0.01, -0.01, -0.05, 0.001, 0.0025, 0.005, 0.0075, 0.0125, 0.015, 0.02, 0.025, 0.03, 0.04, 0.06, 0.07, 0.08, 0.09, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.4, 0.5,
    0.75, 1.0, 1.5, 2.0, 5.0, 10.0, 1e-4, 1e-6, -1e-4, -0.001, -0.1, -0.2, -0.3, -0.5, -0.75, -0.9,
];
pub const MS: [f64; 22] = [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0, 360.0, 365.0, 0.5, 366.0, 0.25, 1.5, 5.0, 7.0, 8.0, 10.0, 13.0, 100.0, 252.0];
const AMOUNTS: [f64; 14] = [100.0, 0.0, 1.0, -1.0, -100.0, 1e-6, 0.01, -2.5, 12345.678, 1e12, -1e9, 1e-12, -0.5, 3e15];

fn spans() -> Vec<f64> {
    let mut v: Vec<f64> = (0..=240).map(|k| k as f64 * 0.25).collect();
    v.extend((1..=80).map(|k| -(k as f64) * 0.25));
    v.extend([1.0 / 3.0, 26.0 / 360.0, 88.0 / 362.0, 0.1, 0.01, 1e-6, 7.77, 61.0, 75.0, 80.0, 99.0, 100.0, 120.0, 180.0, 240.0, 360.0, -0.1, -1.0 / 3.0, -30.0]);
    v
}
pub fn date_samples() -> Vec<D> {
    let mut v = vec![];
    for y in [1999, 2000, 2019, 2020, 2023, 2024, 2025] {
        for (m, d) in [(1, 1), (1, 30), (1, 31), (2, 15), (2, 28), (2, 29), (3, 1), (3, 31), (4, 30), (6, 15), (8, 31), (9, 30), (12, 31)] {
            if let Some(x) = D::from_ymd_opt(y, m, d) {
                v.push(x);
            }
        }
    }
    for (y, m, d) in [(1604, 2, 29), (1899, 12, 31), (1900, 2, 28), (1900, 3, 1), (1969, 12, 31), (1970, 1, 1), (2000, 7, 4), (2010, 10, 10), (2100, 2, 28), (2100, 3, 1), (2104, 2, 29)] {
        v.push(ymd(y, m, d));
    }
    v.push(ymd(1950, 5, 17));
    v.push(ymd(2050, 11, 29));
    v
}

pub fn b03(thorough: bool) -> Prop {
    let mut tasks = vec![];
    // period-by-period stepping model
    let kmax = if thorough { 2000 } else { 600 };
    tasks.push(fam(
        "stepping",
        &format!("balance walker: 44 rates x 14 amounts, value accrued one period at a time for {kmax} periods forwards and 100 backwards, every prefix compared with fv, pv, dis_fact"),
        RATES.len() * AMOUNTS.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&r, &a) = (d.of(&RATES), d.of(&AMOUNTS));
            let (mut up, mut down) = (a, a);
            let mut df = 1.0;
            for k in 0..=kmax {
                let n = k as f64;
                let tol = 1e-13 * (n + 10.0);
                if up.abs() < 1e280 && down.abs() < 1e280 && df < 1e280 && df > 1e-280 {
                    let (f, p, q) = (fv(r, n, a), pv(r, n, a), dis_fact(r, n));
                    cx.state();
                    cx.steps(3);
                    cx.outf(f);
                    ensure!(close(f, up, 0.0, tol), "fv({r},{n},{a}) = {f}, accrued step by step {up}");
                    ensure!(close(p, down, 0.0, tol), "pv({r},{n},{a}) = {p}, discounted step by step {down}");
                    ensure!(close(q, df, 0.0, tol), "dis_fact({r},{n}) = {q}, step by step {df}");
                    if k <= 100 {
                        let (f, p) = (fv(r, -n, a), pv(r, -n, a));
                        cx.steps(2);
                        ensure!(close(f, down, 0.0, tol), "fv({r},-{n},{a}) = {f}, expected {down}");
                        ensure!(close(p, up, 0.0, tol), "pv({r},-{n},{a}) = {p}, expected {up}");
                    }
                }
                up *= 1.0 + r;
                down /= 1.0 + r;
                df /= 1.0 + r;
            }
            let q = dis_fact_annual(r);
            cx.step();
            ensure!(close(q, 1.0 / (1.0 + r), 0.0, 1e-13), "dis_fact_annual({r}) = {q}");
            cx.trace();
            cx.sample(|| format!("rate {r} amount {a}: {kmax} periods"));
            Ok(())
        },
    ));
    let sp = Arc::new(spans());
    let s2 = sp.clone();
    tasks.push(fam(
        "grid",
        &format!("44 rates x {} spans (quarters -20..60, odd and long ones) x 22 frequencies x 14 amounts: fv, pv, fvm, pvm, fvc, pvc and their inverses", sp.len()),
        RATES.len() * sp.len() * MS.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&r, &n, &m) = (d.of(&RATES), d.of(&s2), d.of(&MS));
            let g = grow(r, n);
            let fits = |g: f64| g > 1e-250 && g < 1e250;
            let cond = |r: f64, n: f64| 1e-13 * (10.0 + (n * r.ln_1p()).abs() + n.abs() / (1.0 + r).min(1.0));
            for &a in &AMOUNTS {
                cx.state();
                if m == 1.0 && fits(g) {
                    let tol = cond(r, n);
                    let (f, p) = (fv(r, n, a), pv(r, n, a));
                    cx.steps(4);
                    cx.outf(f);
                    ensure!(close(f, a * g, 0.0, tol), "fv({r},{n},{a}) = {f}, expected {}", a * g);
                    ensure!(close(p, a / g, 0.0, tol), "pv({r},{n},{a}) = {p}, expected {}", a / g);
                    let q = dis_fact(r, n);
                    ensure!(close(q, 1.0 / g, 0.0, tol), "dis_fact({r},{n}) = {q}, expected {}", 1.0 / g);
                    let b = pv(r, n, f);
                    ensure!(close(b, a, 0.0, tol), "pv(fv({a})) = {b} at {r},{n}");
                    let e = (r * n).exp();
                    if fits(e) {
                        let (f, p) = (fvc(r, n, a), pvc(r, n, a));
                        cx.steps(3);
                        let tol = 1e-13 * (10.0 + (r * n).abs());
                        ensure!(close(f, a * e, 0.0, tol), "fvc({r},{n},{a}) = {f}, expected {}", a * e);
                        ensure!(close(p, a / e, 0.0, tol), "pvc({r},{n},{a}) = {p}, expected {}", a / e);
                        let b = pvc(r, n, f);
                        ensure!(close(b, a, 0.0, tol), "pvc(fvc({a})) = {b} at {r},{n}");
                    }
                }
                let (rm, nm) = (r / m, n * m);
                if rm > -0.95 {
                    let g = grow(rm, nm);
                    if fits(g) {
                        let tol = cond(rm, nm);
                        let (f, p) = (fvm(r, n, m, a), pvm(r, n, m, a));
                        cx.steps(3);
                        cx.outf(p);
                        ensure!(close(f, a * g, 0.0, tol), "fvm({r},{n},{m},{a}) = {f}, expected {}", a * g);
                        ensure!(close(p, a / g, 0.0, tol), "pvm({r},{n},{m},{a}) = {p}, expected {}", a / g);
                        let b = pvm(r, n, m, f);
                        ensure!(close(b, a, 0.0, tol), "pvm(fvm({a})) = {b} at {r},{n},{m}");
                    }
                }
            }
            cx.trace();
            cx.sample(|| format!("rate {r} span {n} frequency {m}"));
            Ok(())
        },
    ));
    let ts = [0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0, 0.1];
    tasks.push(fam("forward-factor", "44 x 11 x 44 x 11 pairs of (rate, time)", RATES.len() * ts.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&r0, &t0) = (d.of(&RATES), d.of(&ts));
        for &r1 in &RATES {
            for &t1 in &ts {
                let g = fwd_dis_fact((r0, t0), (r1, t1));
                let w = grow(r0, t0) / grow(r1, t1);
                cx.state();
                cx.step();
                cx.outf(g);
                ensure!(close(g, w, 0.0, 1e-11), "fwd_dis_fact(({r0},{t0}),({r1},{t1})) = {g}, expected {w}");
            }
        }
        cx.trace();
        cx.sample(|| format!("first leg ({r0},{t0})"));
        Ok(())
    }));
    let (rstep, rn) = if thorough { (1e-4, 39_500) } else { (5e-4, 7_900) };
    let dsp: Vec<f64> = vec![0.0, 1.0, 0.5, 2.0, 3.0, 5.0, 7.0, 8.0, 10.0, 12.0, 15.0, 16.0, 20.0, 25.0, 30.0, 32.0, 40.0, 50.0, 0.25, 1.0 / 12.0, 1.0 / 3.0, 1.75, 4.1, 33.3, -1.0, -0.5, -3.0, -10.0, -2.2];
    tasks.push(fam("dense-rates", &format!("{rn} rates from -95% by {rstep} x {} spans x 22 frequencies: fv, pv, dis_fact, fvm, pvm, fvc, pvc", dsp.len()), rn, move |i, cx| {
        let r = -0.95 + i as f64 * rstep;
        for &n in &dsp {
            let g = grow(r, n);
            let tol = 1e-13 * (10.0 + (n * r.ln_1p()).abs() + n.abs() / (1.0 + r).min(1.0));
            let (f, p, q) = (fv(r, n, 50.0), pv(r, n, 50.0), dis_fact(r, n));
            ensure!(close(f, 50.0 * g, 0.0, tol), "fv({r},{n},50) = {f}, expected {}", 50.0 * g);
            ensure!(close(p, 50.0 / g, 0.0, tol), "pv({r},{n},50) = {p}, expected {}", 50.0 / g);
            ensure!(close(q, 1.0 / g, 0.0, tol), "dis_fact({r},{n}) = {q}, expected {}", 1.0 / g);
            let e = (r * n).exp();
            let (f, p) = (fvc(r, n, 50.0), pvc(r, n, 50.0));
            let tol = 1e-13 * (10.0 + (r * n).abs());
            ensure!(close(f, 50.0 * e, 0.0, tol), "fvc({r},{n},50) = {f}, expected {}", 50.0 * e);
            ensure!(close(p, 50.0 / e, 0.0, tol), "pvc({r},{n},50) = {p}, expected {}", 50.0 / e);
            cx.state();
            cx.steps(5 + 2 * MS.len() as u64);
            cx.outf(f);
            for &m in &MS {
                let (rm, nm) = (r / m, n * m);
                if rm <= -0.95 {
                    continue;
                }
                let l = nm * rm.ln_1p();
                let g = l.exp();
                let tol = 1e-13 * (10.0 + l.abs() + nm.abs() / (1.0 + rm).min(1.0));
                let (f, p) = (fvm(r, n, m, 50.0), pvm(r, n, m, 50.0));
                ensure!(close(f, 50.0 * g, 0.0, tol), "fvm({r},{n},{m},50) = {f}, expected {}", 50.0 * g);
                ensure!(close(p, 50.0 / g, 0.0, tol), "pvm({r},{n},{m},50) = {p}, expected {}", 50.0 / g);
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    }));
    let ds = Arc::new(date_samples());
    let d2 = ds.clone();
    tasks.push(fam("dated", &format!("all ordered pairs of {} dates x 44 rates x 14 amounts: xfv, xpv, xdis_fact against the 30/360 model", ds.len()), ds.len() * ds.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&a, &b) = (d.of(&d2), d.of(&d2));
        let n = ref_30_360(true, a, b);
        for &r in &RATES {
            let g = grow(r, n);
            if !(g > 1e-250 && g < 1e250) {
                continue;
            }
            let tol = 1e-12 * (10.0 + n.abs() + (n * r.ln_1p()).abs());
            let q = xdis_fact(r, (a, b));
            cx.step();
            ensure!(close(q, 1.0 / g, 0.0, tol), "xdis_fact({r},{a},{b}) = {q}, expected {}", 1.0 / g);
            for &v in &AMOUNTS {
                let (f, p) = (xfv(r, (a, b), v), xpv(r, (a, b), v));
                cx.state();
                cx.steps(2);
                cx.outf(f);
                ensure!(close(f, v * g, 0.0, tol), "xfv({r},({a},{b}),{v}) = {f}, expected {}", v * g);
                ensure!(close(p, v / g, 0.0, tol), "xpv({r},({a},{b}),{v}) = {p}, expected {}", v / g);
            }
        }
        cx.trace();
        cx.sample(|| format!("{a} to {b}: {n} years"));
        Ok(())
    }));
    Prop { id: "B03", assumptions: vec!["rounding tolerance about 1e-13 per period; values beyond 1e250 are not compared"], tasks }
}

pub fn b04(_t: bool) -> Prop {
    let mut ms: Vec<f64> = (1..=12).map(|k| k as f64).collect();
    ms.extend([24.0, 26.0, 52.0, 100.0, 252.0, 360.0, 365.0, 366.0, 1000.0, 8760.0, 0.5, 1.5, 2.5]);
    let mut rs: Vec<f64> = (-90..=1000).map(|k| k as f64 * 0.01).collect();
    rs.extend((-99..100).map(|k| k as f64 * 0.0005));
    rs.extend([1e-6, -1e-6, 1e-4, 0.12345, 20.0, 50.0]);
    let (ms, rs) = (Arc::new(ms), Arc::new(rs));
    let (m2, r2) = (ms.clone(), rs.clone());
    let f1 = fam(
        "conversions",
        &format!("{} rates from -0.9 to 50 x {} compounding frequencies: six conversions against the growth-factor model and every two- and three-step cycle", rs.len(), ms.len()),
        rs.len() * ms.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&r, &m) = (d.of(&r2), d.of(&m2));
            // absolute rounding: a growth factor 1 + x carries an error of 1e-16, multiplied by m on the way back
            let scale = |g: f64| 1e-13 * (1.0 + g.abs()) * (10.0 + m);
            cx.state();
            // r as nominal
            if r / m > -0.95 {
                let g = grow(r / m, m);
                if g < 1e12 && g > 1e-9 {
                    let lg = m * (r / m).ln_1p();
                    let (e, x) = (nom_eff_rate(r, m), nom_exp_rate(r, m));
                    cx.steps(2);
                    cx.outf(e);
                    ensure!((e - (g - 1.0)).abs() <= scale(g), "nom_eff_rate({r},{m}) = {e}, expected {}", g - 1.0);
                    ensure!((x - lg).abs() <= scale(lg) + scale(g) / g * 0.1, "nom_exp_rate({r},{m}) = {x}, expected {lg}");
                    let (b, c) = (eff_nom_rate(e, m), exp_nom_rate(x, m));
                    let c2 = exp_nom_rate(eff_exp_rate(e), m);
                    let b2 = eff_nom_rate(exp_eff_rate(x), m);
                    cx.steps(6);
                    let t = scale(r) * (1.0 + 1.0 / g) * (1.0 + (1.0 + r / m).abs());
                    for (v, what) in [(b, "eff_nom(nom_eff)"), (c, "exp_nom(nom_exp)"), (c2, "nom>eff>exp>nom"), (b2, "nom>exp>eff>nom")] {
                        ensure!((v - r).abs() <= t, "{what}({r}, m={m}) = {v} does not return the rate");
                    }
                    cx.trace();
                }
            }
            // r as effective
            if r > -0.95 {
                let w = m * ((1.0 / m) * r.ln_1p()).exp_m1();
                let v = eff_nom_rate(r, m);
                let x = eff_exp_rate(r);
                cx.steps(4);
                ensure!((v - w).abs() <= scale(w), "eff_nom_rate({r},{m}) = {v}, expected {w}");
                ensure!((x - r.ln_1p()).abs() <= 1e-13, "eff_exp_rate({r}) = {x}, expected {}", r.ln_1p());
                let b = exp_eff_rate(x);
                ensure!((b - r).abs() <= 1e-13 * (2.0 + r.abs()), "exp_eff(eff_exp({r})) = {b}");
                let b = nom_eff_rate(v, m);
                ensure!((b - r).abs() <= 1e-12 * (2.0 + r.abs()) * (1.0 + m.sqrt()), "nom_eff(eff_nom({r}, {m})) = {b}");
                cx.trace();
            }
            // r as exponential
            if r < 20.0 {
                let e = exp_eff_rate(r);
                let w = r.exp_m1();
                ensure!((e - w).abs() <= 1e-13 * (1.0 + w.abs()), "exp_eff_rate({r}) = {e}, expected {w}");
                let v = exp_nom_rate(r, m);
                let w = m * (r / m).exp_m1();
                cx.steps(4);
                ensure!((v - w).abs() <= scale(w), "exp_nom_rate({r},{m}) = {v}, expected {w}");
                let b = eff_exp_rate(e);
                ensure!((b - r).abs() <= 1e-12 * (1.0 + 1.0 / r.exp()), "eff_exp(exp_eff({r})) = {b}");
                let b = nom_exp_rate(v, m);
                ensure!((b - r).abs() <= 1e-12 * (1.0 + m.sqrt()) * (1.0 + 1.0 / r.exp()), "nom_exp(exp_nom({r},{m})) = {b}");
                cx.trace();
            }
            cx.sample(|| format!("rate {r} m {m}"));
            Ok(())
        },
    );
    // growth factors as seen through the money functions
    let f2 = fam("growth", "44 rates x 22 frequencies x spans 0.5, 1, 2, 7: fvm at nominal, fv at effective, fvc at exponential agree", RATES.len() * MS.len() * 4, |i, cx| {
        let mut d = Dec(i);
        let (&r, &m, &n) = (d.of(&RATES), d.of(&MS), d.of(&[0.5, 1.0, 2.0, 7.0]));
        if r / m <= -0.9 {
            return Ok(());
        }
        let a = fvm(r, n, m, 1.0);
        let b = fv(nom_eff_rate(r, m), n, 1.0);
        let c = fvc(nom_exp_rate(r, m), n, 1.0);
        cx.state();
        cx.steps(5);
        cx.outf(a);
        ensure!(close(b, a, 0.0, 1e-10), "fv at the effective rate {b}, fvm at the nominal {a} (r={r}, m={m}, n={n})");
        ensure!(close(c, a, 0.0, 1e-10), "fvc at the exponential rate {c}, fvm at the nominal {a} (r={r}, m={m}, n={n})");
        cx.trace();
        cx.sample(|| format!("nominal {r} m {m} over {n}: {a}"));
        Ok(())
    });
    Prop { id: "B04", assumptions: vec!["rounding tolerance scales with the compounding frequency (cancellation in 1 + r/m)"], tasks: vec![f1, f2] }
}

pub fn b05(thorough: bool) -> Prop {
    let pay = [100.0, 0.0, 1.0, -1.0, -250.0, 0.01, 7.304096785187425, 1e9];
    let fvs = [0.0, 100.0, -100.0, 50.0, 1e6, 0.5, -1e9];
    let nmax = if thorough { 2000 } else { 730 };
    let ms = [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0, 360.0, 365.0, 0.5, 0.25, 1.5, 5.0, 8.0, 10.0, 13.0];
    let mut rates: Vec<f64> = RATES.to_vec();
    rates.extend([0.0365, 0.115, 0.06125, -0.005, -0.002, -0.02, 1e-5, -1e-6, 1e-8, -1e-8, 3e-10, -1e-12, 1e-14, 1e-16, -1e-17, 1e-20]);
    let rates = Arc::new(rates);
    let r2 = rates.clone();
    let f1 = fam(
        "amortisation",
        &format!("loan walker: {} rates x 18 payment frequencies; for every number of payments 1..={nmax} x 8 payments x 7 terminal amounts the discounted sum built one payment at a time, and the loan balance run", rates.len()),
        rates.len() * ms.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&r, &m) = (d.of(&r2), d.of(&ms));
            let it = r / m;
            if it <= -0.9 {
                return Ok(());
            }
            // cancellation of 1 - 1/rn and of 1 + r/m
            let cancel = 4e-16 / it.abs().max(0.9e-6);
            let (mut df, mut ann) = (1.0f64, 0.0f64);
            for k in 1..=nmax {
                df /= 1.0 + it;
                ann += df;
                if !(df > 1e-12 && df < 1e12) {
                    break;
                }
                let n = k as f64 / m;
                let tol = 1e-12 * (10.0 + k as f64 * 0.1) + cancel;
                for &p in &pay {
                    for &f in &fvs {
                        let want = -(p * ann) - f * df;
                        let got = pv_annuity(r, n, m, p, f);
                        cx.state();
                        cx.step();
                        let sc = p.abs() * ann.max(1.0) * df.max(1.0) + (f * df).abs();
                        ensure!(close(got, want, sc, tol), "pv_annuity({r},{n},{m},{p},{f}) = {got}, sum of {k} discounted payments {want}");
                        let q = pmt(r, n, m, want, f);
                        cx.step();
                        let qs = (want.abs() + (f * df).abs()) / ann;
                        ensure!(close(q, p, qs, tol * 3.0), "pmt({r},{n},{m},{want},{f}) = {q}, expected {p}");
                    }
                }
                cx.outf(ann);
                // the balance run: start at the present value, grow, receive the payment: ends at minus the terminal amount
                if k <= 60 || k % 60 == 0 {
                    for (v, f) in [(-1000.0, 0.0), (-1000.0, 50.0), (250_000.0, -1000.0), (0.0, 100.0)] {
                        let q = pmt(r, n, m, v, f);
                        let mut bal = v;
                        let mut peak: f64 = 1.0;
                        for _ in 0..k {
                            bal = bal * (1.0 + it) + q;
                            peak = peak.max(bal.abs());
                        }
                        cx.state();
                        cx.step();
                        cx.trace();
                        let sc = peak.max(v.abs() / df).max(f.abs());
                        ensure!((bal + f).abs() <= sc * tol * 10.0, "paying pmt({r},{n},{m},{v},{f}) = {q} for {k} periods leaves {bal}, expected {}", -f);
                    }
                }
            }
            cx.trace();
            cx.sample(|| format!("rate {r}, {m} payments per period"));
            Ok(())
        },
    );
    let sp = Arc::new(spans().into_iter().filter(|x| *x > 0.0).collect::<Vec<_>>());
    let s2 = sp.clone();
    let r3 = rates.clone();
    let f2 = fam(
        "fractional",
        &format!("{} rates x 18 frequencies x {} positive spans including fractional numbers of payments: closed form and pmt inverse", rates.len(), sp.len()),
        rates.len() * ms.len() * sp.len(),
        move |i, cx| {
            let mut d = Dec(i);
            let (&r, &m, &n) = (d.of(&r3), d.of(&ms), d.of(&s2));
            let it = r / m;
            if it <= -0.9 {
                return Ok(());
            }
            let k = n * m;
            let df = grow(it, -k);
            if !(df > 1e-12 && df < 1e12) {
                return Ok(());
            }
            let ann = if it == 0.0 { k } else { -(-k * it.ln_1p()).exp_m1() / it };
            let cancel = 4e-16 / it.abs().max(0.9e-6) / k.min(1.0);
            let tol = 1e-12 * (10.0 + k * 0.1) + cancel;
            for &p in &pay {
                for &f in &fvs {
                    let want = -(p * ann) - f * df;
                    let got = pv_annuity(r, n, m, p, f);
                    cx.state();
                    cx.steps(2);
                    let sc = p.abs() * ann.max(1.0) * df.max(1.0) + (f * df).abs();
                    ensure!(close(got, want, sc, tol), "pv_annuity({r},{n},{m},{p},{f}) = {got}, expected {want}");
                    let q = pmt(r, n, m, want, f);
                    let qs = (want.abs() + (f * df).abs()) / ann;
                    ensure!(close(q, p, qs, tol * 3.0), "pmt({r},{n},{m},{want},{f}) = {q}, expected {p}");
                }
            }
            cx.outf(ann);
            cx.trace();
            cx.sample(|| format!("rate {r} frequency {m} span {n}"));
            Ok(())
        },
    );
    let (rstep, rn) = if thorough { (1e-4, 29_000) } else { (5e-4, 5_800) };
    let f3 = fam("dense-rates", &format!("{rn} rates from -90% by {rstep} x 18 frequencies x 19 lives to 50 periods x 3 payments x 3 terminal amounts: closed form and pmt inverse"), rn, move |i, cx| {
        let r = -0.9 + (i as f64 + 0.5) * rstep;
        for m in ms {
            let it = r / m;
            if it <= -0.9 {
                continue;
            }
            for n in [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 12.0, 15.0, 16.0, 20.0, 25.0, 30.0, 40.0, 50.0, 0.5, 7.25] {
                let k: f64 = n * m;
                let l = -k * it.ln_1p();
                let df = l.exp();
                if !(df > 1e-12 && df < 1e12) {
                    continue;
                }
                let ann = -l.exp_m1() / it;
                let cancel = 4e-16 / it.abs().max(0.9e-6) / k.min(1.0);
                let tol = 1e-12 * (10.0 + k * 0.1) + cancel;
                for p in [10.0, 0.0, -3.0] {
                    for f in [0.0, 100.0, -40.0] {
                        let want = -(p * ann) - f * df;
                        let got = pv_annuity(r, n, m, p, f);
                        cx.state();
                        cx.steps(2);
                        let sc = p.abs() * ann.max(1.0) * df.max(1.0) + (f * df).abs();
                        ensure!(close(got, want, sc, tol), "pv_annuity({r},{n},{m},{p},{f}) = {got}, expected {want}");
                        let q = pmt(r, n, m, want, f);
                        let qs = (want.abs() + (f * df).abs()) / ann;
                        ensure!(close(q, p, qs, tol * 3.0), "pmt({r},{n},{m},{want},{f}) = {q}, expected {p}");
                    }
                }
                cx.outf(ann);
            }
        }
        cx.trace();
        cx.sample(|| format!("rate {r}"));
        Ok(())
    });
    Prop { id: "B05", assumptions: vec!["rates of magnitude below 1e-4 other than zero are only compared within the cancellation error of 1 - (1+r/m)^-nm"], tasks: vec![f1, f2, f3] }
}

fn npv_ref(r: f64, t: &[f64], c: &[f64], t0: f64) -> (f64, f64) {
    let (mut s, mut a) = (0.0, 0.0);
    for i in 0..t.len() {
        let v = c[i] * grow(r, t0 - t[i]);
        s += v;
        a += v.abs();
    }
    (s, a)
}
pub fn b06(thorough: bool) -> Prop {
    let mut tasks = vec![];
    let cfv = [0.0, 1.0, -1.0, 100.0, -250.5, 1e9];
    let tv = [0.0, 1.0, 0.5, 2.0, -1.0, 7.25, 30.0];
    let rs = [0.08, 0.0, 0.1, -0.05, 0.5, 1.5, -0.5, 0.001];
    let t0s = [0.0, 1.0, -0.45, 3.5];
    let depth = if thorough { 4 } else { 3 };
    let mut n = 0usize;
    let mut offs = vec![];
    for k in 0..=depth {
        offs.push(n);
        n += (cfv.len() * tv.len()).pow(k as u32);
    }
    let offs2 = offs.clone();
    tasks.push(fam(
        "lists",
        &format!("every list of up to {depth} (time, flow) pairs from 7 times x 6 flows (unsorted, repeated, negative times included) x 8 rates x 4 valuation times"),
        n,
        move |i, cx| {
            let k = (0..=depth).rev().find(|&k| offs2[k] as u64 <= i).unwrap();
            let mut d = Dec(i - offs2[k] as u64);
            let (mut t, mut c) = (vec![], vec![]);
            for _ in 0..k {
                c.push(*d.of(&cfv));
                t.push(*d.of(&tv));
            }
            for &r in &rs {
                let (w, a) = npv_ref(r, &t, &c, 0.0);
                let g = npv_t0(r, &t, &c);
                cx.state();
                cx.step();
                cx.outf(g);
                ensure!((g - w).abs() <= 1e-11 * a, "npv_t0({r},{t:?},{c:?}) = {g}, expected {w}");
                for &t0 in &t0s {
                    let (w, a) = npv_ref(r, &t, &c, t0);
                    let g = npv(r, &t, t0, &c);
                    cx.step();
                    ensure!((g - w).abs() <= 1e-11 * a, "npv({r},{t:?},{t0},{c:?}) = {g}, expected {w}");
                }
            }
            cx.trace();
            cx.sample(|| format!("times {t:?} flows {c:?}"));
            Ok(())
        },
    ));
    tasks.push(fam("long", "lists of 0..=400 flows in 6 patterns (equal, alternating, growing, sparse, reversed order, repeated times) x 44 rates", 401 * 6, |i, cx| {
        let mut d = Dec(i);
        let (pat, len) = (d.n(6), d.n(401));
        let mut t: Vec<f64> = (0..len).map(|k| k as f64 * [1.0, 0.25, 1.0 / 12.0, 3.0, 0.5, 0.0][pat]).collect();
        let c: Vec<f64> = (0..len).map(|k| match pat { 0 => 10.0, 1 => if k % 2 == 0 { 5.0 } else { -4.0 }, 2 => k as f64, 3 => if k % 7 == 0 { 100.0 } else { 0.0 }, 4 => 1.0 + (k % 3) as f64, _ => -(k as f64) - 0.5 }).collect();
        if pat == 4 {
            t.reverse();
        }
        for &r in &RATES {
            let (w, a) = npv_ref(r, &t, &c, 0.0);
            if !(a < 1e250) {
                continue;
            }
            let g = npv_t0(r, &t, &c);
            cx.state();
            cx.step();
            cx.outf(g);
            ensure!((g - w).abs() <= 1e-9 * a, "npv_t0({r}) of {len} flows (pattern {pat}) = {g}, expected {w}");
            let (w, a) = npv_ref(r, &t, &c, 2.5);
            let g = npv(r, &t, 2.5, &c);
            cx.step();
            ensure!((g - w).abs() <= 1e-9 * a, "npv({r}, t0=2.5) of {len} flows (pattern {pat}) = {g}, expected {w}");
        }
        cx.trace();
        cx.sample(|| format!("pattern {pat} length {len}"));
        Ok(())
    }));
    let ds = Arc::new(date_samples());
    let d2 = ds.clone();
    tasks.push(fam("dated", &format!("all (valuation date, first date, second date) of {} sample dates x 4 flow pairs x 8 rates", ds.len()), ds.len() * ds.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&d0, &a) = (d.of(&d2), d.of(&d2));
        for &b in d2.iter() {
            let dt = vec![a, b];
            let t = [ref_30_360(true, d0, a), ref_30_360(true, d0, b)];
            for c in [[-100.0, 110.0], [1.0, 0.0], [0.0, -7.5], [1e9, -2.0]] {
                for &r in &rs {
                    let (w, s) = npv_ref(r, &t, &c, 0.0);
                    let g = xnpv(r, &dt, d0, &c.to_vec());
                    cx.state();
                    cx.step();
                    cx.outf(g);
                    ensure!((g - w).abs() <= 1e-11 * s, "xnpv({r},{dt:?},{d0},{c:?}) = {g}, expected {w}");
                }
            }
        }
        let e = xnpv(0.1, &vec![], d0, &vec![]);
        ensure!(e == 0.0, "xnpv of no flows = {e}");
        cx.trace();
        cx.sample(|| format!("valuation {d0}, first flow {a}"));
        Ok(())
    }));
    let d3 = ds.clone();
    tasks.push(fam("dated-long", "date lists of length 0..=60 starting at each sample date, stepping 17, 31, 91 or 365 days forwards or backwards", ds.len() * 61 * 8, move |i, cx| {
        let mut d = Dec(i);
        let (&a, len, st) = (d.of(&d3), d.n(61), *d.of(&[31i64, 91, 365, 17, -31, -91, -365, -17]));
        let dt: Vec<D> = (0..len).map(|k| a + chrono::Duration::days(st * k as i64)).collect();
        let c: Vec<f64> = (0..len).map(|k| if k == 0 { -1000.0 } else { 40.0 + k as f64 }).collect();
        let v = ymd(2021, 2, 28);
        let t: Vec<f64> = dt.iter().map(|&x| ref_30_360(true, v, x)).collect();
        for &r in &rs {
            let (w, s) = npv_ref(r, &t, &c, 0.0);
            if !(s < 1e200) {
                continue;
            }
            let g = xnpv(r, &dt, v, &c);
            cx.state();
            cx.step();
            cx.outf(g);
            ensure!((g - w).abs() <= 1e-10 * s, "xnpv({r}) of {len} flows from {a} step {st} = {g}, expected {w}");
        }
        cx.trace();
        Ok(())
    }));
    Prop { id: "B06", assumptions: vec!["relative tolerance 1e-9 to 1e-11 of the sum of absolute discounted flows"], tasks }
}

pub fn sound(r: f64, t: &[f64], c: &[f64]) -> R {
    ensure!(r.is_finite() && r > -1.0, "reported rate {r} is not above -100% (times {t:?} flows {c:?})");
    // scaled so that the largest discounted flow is 1: far-off times overflow otherwise
    let lg: Vec<f64> = (0..t.len()).map(|i| c[i].abs().ln() - t[i] * r.ln_1p()).collect();
    let top = lg.iter().fold(f64::NEG_INFINITY, |m, &x| m.max(x));
    let (mut s, mut a) = (0.0, 0.0);
    for i in (0..t.len()).filter(|&i| c[i] != 0.0) {
        let v = (lg[i] - top).exp();
        s += v * c[i].signum();
        a += v;
    }
    ensure!(s.abs() <= 1e-5 * a, "npv at the reported rate {r} is {s}, flows' absolute present value {a} (times {t:?} flows {c:?})");
    Ok(())
}
pub fn b07(thorough: bool) -> Prop {
    let vals = [-100.0, 100.0, 60.0, -10.0, 10.0, 1.0, 0.0, 110.0, -230.0, 132.0];
    let maxlen = if thorough { 6 } else { 5 };
    let grids: [&[f64]; 6] =
        [&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0], &[0.0, 2.0, 4.0, 6.0, 8.0, 10.0], &[0.0, 0.5, 1.0, 1.5, 2.0, 2.5], &[0.0, 1.0, 3.0, 5.0, 10.0, 20.0], &[0.125, 0.29760274, 0.49760274, 0.55239726, 0.812671233, 1.5], &[3.0, 1.0, 0.0, 2.0, 7.0, 4.0]];
    let mut offs = vec![0usize];
    for k in 1..=maxlen {
        offs.push(offs[k - 1] + vals.len().pow(k as u32));
    }
    let total = offs[maxlen];
    let o2 = offs.clone();
    let f1 = fam("lists", &format!("every flow list of 1..={maxlen} values from {vals:?} x 6 time grids (unit, even, half, irregular, offset, unsorted)"), total * grids.len(), move |i, cx| {
        let mut d = Dec(i);
        let g = grids[d.n(grids.len())];
        let ix = d.0 as usize;
        let k = (1..=maxlen).find(|&k| ix < o2[k]).unwrap();
        let mut d = Dec((ix - o2[k - 1]) as u64);
        let c: Vec<f64> = (0..k).map(|_| *d.of(&vals)).collect();
        let t = g[..k].to_vec();
        let r = irr(&t, &c);
        cx.state();
        cx.step();
        cx.trace();
        if let Some(r) = r {
            cx.outf(r);
            sound(r, &t, &c)?;
        } else {
            cx.out(0);
        }
        if c.iter().all(|&x| x >= 0.0) || c.iter().all(|&x| x <= 0.0) {
            ensure!(r.is_none(), "irr({t:?},{c:?}) = {r:?} although the flows never change sign");
        }
        cx.sample(|| format!("times {t:?} flows {c:?} -> {r:?}"));
        Ok(())
    });
    // long lists: losses and gains over even and odd horizons, lumps, double sign changes
    let f2 = fam("long", "horizons 1..=60 x total payback 1%..300% of outlay in 60 steps x 5 shapes x 4 spacings", 60 * 60 * 5 * 4, |i, cx| {
        let mut d = Dec(i);
        let (n, pb, shape, &sp) = (d.n(60) + 1, d.n(60), d.n(5), d.of(&[1.0, 2.0, 0.5, 1.0 / 12.0]));
        let total = 100.0 * (0.01 + pb as f64 * 0.05);
        let mut c = vec![-100.0];
        for k in 1..=n {
            c.push(match shape {
                0 => total / n as f64,
                1 => if k == n { total } else { 0.0 },
                2 => total * 2.0 * k as f64 / (n * (n + 1)) as f64,
                3 => if k == 1 { total + 20.0 } else if k == n { -20.0 } else { 0.0 },
                _ => total / n as f64 * if k % 2 == 0 { 2.5 } else { -0.5 },
            });
        }
        let t: Vec<f64> = (0..=n).map(|k| k as f64 * sp).collect();
        let r = irr(&t, &c);
        cx.state();
        cx.step();
        cx.trace();
        match r {
            Some(r) => {
                cx.outf(r);
                sound(r, &t, &c)?
            }
            None => cx.out(0),
        }
        cx.sample(|| format!("horizon {n} x {sp}, payback {total}, shape {shape} -> {r:?}"));
        Ok(())
    });
    let ds = Arc::new(date_samples().into_iter().filter(|d| d.year() > 1800 && (thorough || d.year() != 2025 && d.year() != 1999 && d.year() != 2019)).collect::<Vec<_>>());
    let d2 = ds.clone();
    let f3 = fam("dated", &format!("all ordered triples of distinct dates among {} sample dates x 8 flow triples", ds.len()), ds.len() * ds.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&a, &b) = (d.of(&d2), d.of(&d2));
        if a == b {
            return Ok(());
        }
        for &e in d2.iter() {
            if e == a || e == b {
                continue;
            }
            let dt = vec![a, b, e];
            let t: Vec<f64> = dt.iter().map(|&x| ref_30_360(true, a, x)).collect();
            for c in [[-100.0, 60.0, 60.0], [100.0, -60.0, -60.0], [-100.0, 230.0, -132.0], [-100.0, 0.0, 36.0], [-10.0, -10.0, 25.0], [1.0, 2.0, 3.0], [-1.0, 0.0, -3.0], [-100.0, 10.0, 20.0]] {
                let c = c.to_vec();
                let r = xirr(&dt, &c);
                cx.state();
                cx.step();
                cx.trace();
                match r {
                    Some(r) => {
                        cx.outf(r);
                        sound(r, &t, &c)?
                    }
                    None => cx.out(0),
                }
                if c.iter().all(|&x| x >= 0.0) || c.iter().all(|&x| x <= 0.0) {
                    ensure!(r.is_none(), "xirr({dt:?},{c:?}) = {r:?} although the flows never change sign");
                }
            }
        }
        cx.sample(|| format!("first dates {a}, {b}"));
        Ok(())
    });
    Prop { id: "B07", assumptions: vec!["an NPV below 1e-5 of the absolute present value of the flows counts as zero"], tasks: vec![f1, f2, f3] }
}

pub fn b08(thorough: bool) -> Prop {
    let step = if thorough { 0.0025 } else { 0.01 };
    let nr = (1.5 / step) as usize + 1;
    let spac = [1.0, 0.5, 0.25, 1.0 / 12.0, 2.0];
    let scales = [1.0, 1e-3, 1e3, 1e6, 1e9];
    let f1 = fam(
        "conventional",
        &format!("rates -50%..100% by {step} x 1..=30 flows x 5 shapes (level, single, rising, falling, lumpy) x 5 spacings within a 30-period horizon x 5 currency units x investment/loan x 3 listing orders"),
        nr * 30 * 5,
        move |i, cx| {
            let mut d = Dec(i);
            let (ri, n, shape) = (d.n(nr), d.n(30) + 1, d.n(5));
            let y = -0.5 + ri as f64 * step;
            for &sp in &spac {
                if n as f64 * sp > 30.0 {
                    continue;
                }
                let t: Vec<f64> = (0..=n).map(|k| k as f64 * sp).collect();
                let w: Vec<f64> = (1..=n)
                    .map(|k| match shape {
                        0 => 1.0,
                        1 => if k == n { 1.0 } else { 0.0 },
                        2 => k as f64,
                        3 => (n + 1 - k) as f64,
                        _ => if k % 3 == 1 || k == n { 5.0 } else { 0.25 },
                    })
                    .collect();
                let v: f64 = (1..=n).map(|k| w[k - 1] * grow(y, -t[k])).sum();
                for &sc in &scales {
                    for sign in [-1.0, 1.0] {
                        let mut c = vec![sign * 100.0 * sc];
                        c.extend(w.iter().map(|x| -sign * 100.0 * sc * x / v));
                        for order in 0..3 {
                            let (mut tt, mut cc) = (t.clone(), c.clone());
                            if order == 1 {
                                tt[1..].reverse();
                                cc[1..].reverse();
                            } else if order == 2 {
                                if n < 3 {
                                    continue;
                                }
                                tt[1..].rotate_left(1);
                                cc[1..].rotate_left(1);
                            }
                            let r = irr(&tt, &cc);
                            cx.state();
                            cx.step();
                            cx.trace();
                            ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "irr of a conventional flow at rate {y} ({n} flows, shape {shape}, spacing {sp}, unit {sc}, sign {sign}, order {order}) = {r:?}");
                        }
                    }
                }
                cx.outf(y + n as f64);
            }
            cx.sample(|| format!("rate {y}, {n} flows, shape {shape}"));
            Ok(())
        },
    );
    let ds = Arc::new(date_samples().into_iter().filter(|d| d.year() >= 1999 && d.year() < 2030).collect::<Vec<_>>());
    let d2 = ds.clone();
    let f2 = fam("dated", &format!("all triples a<b<c of {} sample dates (at least 30 days of 30/360 apart from the first) x {} rates x 2 splits", ds.len(), if thorough { 31 } else { 11 }), ds.len() * ds.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&a, &b) = (d.of(&d2), d.of(&d2));
        for &e in d2.iter() {
            if !(a < b && b < e) {
                continue;
            }
            let (t1, t2) = (ref_30_360(true, a, b), ref_30_360(true, a, e));
            if t1 < 0.08 {
                continue;
            }
            for yi in (0..31).step_by(if thorough { 1 } else { 3 }) {
                let y = -0.5 + yi as f64 * 0.05;
                for s in [0.3, 0.7] {
                    let c = vec![-1000.0, 1000.0 * s * grow(y, t1), 1000.0 * (1.0 - s) * grow(y, t2)];
                    let r = xirr(&vec![a, b, e], &c);
                    cx.state();
                    cx.step();
                    cx.trace();
                    ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "xirr({a},{b},{e}; {c:?}) = {r:?}, expected {y}");
                    let r = xirr(&vec![a, e, b], &vec![c[0], c[2], c[1]]);
                    cx.step();
                    ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "xirr({a},{e},{b}; reordered) = {r:?}, expected {y}");
                }
            }
            cx.outf(t1 * 100.0 + t2);
        }
        cx.sample(|| format!("{a}, {b}, all later dates"));
        Ok(())
    });
    Prop { id: "B08", assumptions: vec!["flows are built to return the intended rate, in floating point"], tasks: vec![f1, f2] }
}

pub fn b09(thorough: bool) -> Prop {
    let cmax: i64 = if thorough { 15 } else { 9 };
    let w = (2 * cmax + 1) as usize;
    let starts = [2.0, 0.0, 0.1, -1.0, 0.5, -3.0, 10.0, -20.0, 5.5];
    let tols = [1e-6, 1e-4, 1e-8];
    let f1 = fam("polynomials", &format!("all polynomials of degree <= 3 with integer coefficients in -{cmax}..={cmax} x 9 starting points x 3 tolerances"), w.pow(4), move |i, cx| {
        let mut d = Dec(i);
        let a: Vec<f64> = (0..4).map(|_| (d.n(w) as i64 - cmax) as f64).collect();
        let f = |x: f64| ((a[3] * x + a[2]) * x + a[1]) * x + a[0];
        for &x0 in &starts {
            for &tol in &tols {
                let r = newt_raph(f, x0, tol);
                cx.state();
                cx.step();
                cx.trace();
                if let Some(x) = r {
                    cx.outf(x);
                    let mag = a.iter().enumerate().map(|(k, c)| c.abs() * x.abs().max(1e-3).powi(k as i32)).sum::<f64>();
                    ensure!(x.is_finite() && f(x).abs() <= 1e-5 * (mag + 1e-12), "newt_raph of {a:?} (ascending) from {x0}, tol {tol} returned {x} where the value is {}", f(x));
                } else {
                    cx.out(0);
                }
                if a[3] == 0.0 && a[2] != 0.0 {
                    let disc = a[1] * a[1] - 4.0 * a[2] * a[0];
                    if disc < 0.0 {
                        ensure!(r.is_none(), "newt_raph of {a:?} from {x0} returned {r:?}; the quadratic has no real root");
                    } else if disc > 0.0 {
                        let (p, q) = ((-a[1] - disc.sqrt()) / (2.0 * a[2]), (-a[1] + disc.sqrt()) / (2.0 * a[2]));
                        let (lo, hi) = (p.min(q), p.max(q));
                        let want = if x0 < lo - 1e-6 { Some(lo) } else if x0 > hi + 1e-6 { Some(hi) } else { None };
                        if let Some(z) = want {
                            ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5), "newt_raph of {a:?} from {x0} = {r:?}, nearer root {z}");
                        }
                    }
                } else if a[3] == 0.0 && a[2] == 0.0 && a[1] != 0.0 {
                    let z = -a[0] / a[1];
                    ensure!(r.is_some_and(|x| (x - z).abs() < 1e-6), "newt_raph of the line {a:?} from {x0} = {r:?}, root {z}");
                } else if a[3] == 0.0 && a[2] == 0.0 && a[1] == 0.0 && a[0] != 0.0 {
                    ensure!(r.is_none(), "newt_raph of the constant {} from {x0} = {r:?}", a[0]);
                }
            }
        }
        cx.sample(|| format!("coefficients {a:?} (ascending)"));
        Ok(())
    });
    let f2 = fam("rootless", "exp, cosh, 1/(1+x^2)-style and shifted even powers without real roots x 9 starting points x 60 parameters", 5 * 60, move |i, cx| {
        let mut d = Dec(i);
        let (kind, p) = (d.n(5), d.n(60));
        let k = 0.1 + p as f64 * 0.25;
        for &x0 in &starts {
            let f = |x: f64| match kind {
                0 => (k * x / 10.0).exp(),
                1 => (x / 4.0).cosh() + k,
                2 => 1.0 / (1.0 + x * x) + k,
                3 => x.powi(4) + k,
                _ => -((x - k).powi(2)) - 1.0,
            };
            let r = newt_raph(f, x0, 1e-6);
            cx.state();
            cx.step();
            cx.trace();
            cx.out(h64(r.is_some()));
            ensure!(r.is_none(), "newt_raph of rootless function {kind} (k={k}) from {x0} = {r:?}, value there {:?}", r.map(f));
        }
        cx.sample(|| format!("function {kind} parameter {k}"));
        Ok(())
    });
    let slopes = [1.0, -1.0, 0.5, 1e-3, 2.0, 100.0, -1e4, 1e6, 1e9, -0.01, 7.77, 1e-6, -1e-5, 1e-7, -3e-8, 1e12];
    let f3 = fam("lines", "16 slopes (3e-8 to 1e12 in size, both signs) x 2001 roots from -1000 to 1000 and 2000 between -1 and 1 x 9 starting points x 3 tolerances", 16 * 4001, move |i, cx| {
        let mut d = Dec(i);
        let (&m, q) = (d.of(&slopes), d.n(4001));
        let z = if q <= 2000 { q as f64 - 1000.0 } else { (q as f64 - 3000.5) / 1000.0 };
        for &x0 in &starts {
            for &tol in &tols {
                let r = newt_raph(|x| m * (x - z), x0, tol);
                cx.state();
                cx.step();
                cx.trace();
                ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5), "newt_raph of {m}*(x-{z}) from {x0}, tol {tol} = {r:?}");
            }
        }
        cx.outf(z * m);
        cx.sample(|| format!("slope {m} root {z}"));
        Ok(())
    });
    let f4 = fam("overflow", "exp(kx) - c with k up to 1000 and c up to 1e300, and 1/x - c, x 9 starting points: the first steps overflow or leave the domain", 40 * 30, move |i, cx| {
        let mut d = Dec(i);
        let (k, c) = ((d.n(40) + 1) as f64 * 25.0, 10f64.powi(d.n(30) as i32 * 10));
        for &x0 in &starts {
            for kind in 0..2 {
                let f = |x: f64| if kind == 0 { (k * x).exp() - c } else { 1.0 / x - c / k };
                let r = newt_raph(f, x0, 1e-6);
                cx.state();
                cx.step();
                cx.trace();
                cx.out(h64(r.is_some()));
                if let Some(x) = r {
                    cx.outf(x);
                    let (mag, dx) = if kind == 0 { (c, 1e-7) } else { (c / k, 1e-7 * x.abs()) };
                    // a root, up to the resolution of the argument
                    let v = f(x).abs();
                    ensure!(x.is_finite() && (v <= 1e-5 * mag || f(x - dx) * f(x + dx) <= 0.0), "newt_raph of kind {kind} k={k} c={c:e} from {x0} returned {x} where the value is {v:e}");
                }
            }
        }
        cx.sample(|| format!("k {k} c {c:e}"));
        Ok(())
    });
    Prop { id: "B09", assumptions: vec!["a value below 1e-5 of the polynomial's term magnitudes counts as zero (double roots converge only linearly)"], tasks: vec![f1, f2, f3, f4] }
}

pub fn b11(_t: bool) -> Prop {
    // magnitudes around every threshold, both signs
    let mut v: Vec<f64> = vec![0.0];
    for e in -14..=14 {
        for m in [1.0, 1.0000005, 1.0000009, 1.000001, 1.0000011, 1.0000019, 0.99999905, 0.999999, 0.9999989, 1.5, 5.0, 2.5, 1.00001, 0.9999, 9.999999] {
            v.push(m * 10f64.powi(e));
        }
    }
    let n = v.len();
    for k in 1..n {
        v.push(-v[k]);
    }
    let v = Arc::new(v);
    let v2 = v.clone();
    let f1 = fam("pairs", &format!("all ordered pairs of {} numbers around every threshold and decade from 1e-14 to 1e14, both signs", v.len()), v.len(), move |i, cx| {
        let x = v2[i as usize];
        for &y in v2.iter() {
            let g = approx(x, y);
            cx.state();
            cx.steps(3);
            cx.out(g as u64);
            let big = x.abs().max(y.abs());
            let (lhs, rhs) = ((x - y).abs(), big * 1e-6);
            let near_edge = (lhs - rhs).abs() <= 1e-9 * rhs || (big - 1e-8).abs() < 1e-20;
            if !near_edge {
                let w = big < 1e-8 || lhs < rhs;
                ensure!(g == w, "approx({x:e},{y:e}) = {g}");
            }
            ensure!(g == approx(y, x), "approx({x:e},{y:e}) = {g} is not symmetric");
            ensure!(g == approx(-x, -y), "approx({x:e},{y:e}) = {g} changes when both signs flip");
        }
        ensure!(approx(x, x), "approx({x:e},{x:e}) is false");
        let z = is_zero(x);
        if (x.abs() - 1e-8).abs() > 1e-20 {
            ensure!(z == (x.abs() < 1e-8), "is_zero({x:e}) = {z}");
        }
        cx.steps(2);
        cx.trace();
        cx.sample(|| format!("{x:e} against all"));
        Ok(())
    });
    Prop { id: "B11", assumptions: vec!["values within rounding of a threshold are not judged"], tasks: vec![f1] }
}
pub fn us360(a: D, b: D) -> f64 {
    ref_30_360(true, a, b)
}
