//! Families at the borders: rates next to -100%, zero flows before and after, far starting points, short spans,
//! odd subtotals, dates of every era and the ends of the calendar, statements outside the periods at work.
use crate::base::*;
use crate::books::*;
use crate::engine::*;
use crate::fixed::FREQS;
use crate::ensure;
use crate::refm::*;
use crate::stmts::ODD;
use crate::store::{SEPS, both, render, ron_only};
use chrono::naive::NaiveDate as NDt;
use chrono::Duration;
use financelib::fixedincomes::bonds::CouponBond;
use financelib::fixedincomes::moneymarkets::*;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;

/// The families of a property that live here.
pub fn extra(id: &str, t: bool) -> Vec<Task> {
    match id {
        "B01" => vec![eras_round_trip(t)],
        "B02" => vec![eras_pairs(t)],
        "B04" => vec![rate_edges()],
        "B07" => vec![zero_flows(t)],
        "B08" => vec![idle_times(t)],
        "B09" => vec![far_starts(t)],
        "F01" => vec![negative_coupons(t)],
        "F10" => vec![short_spans(t)],
        "S05" => vec![odd_totals::<BsK>(), odd_totals::<PlK>(), odd_totals::<CfK>()],
        "S12" => vec![other_flows(t)],
        "S15" => vec![ends_split(t)],
        "S16" => vec![ends_chains(t)],
        "S17" => vec![stored_days(t)],
        "S18" => vec![all_years(t), ends_tables(t)],
        "S20" => vec![bare_reports(), ends_dates(t)],
        _ => vec![],
    }
}

fn rate_edges() -> Task {
    let ks: Vec<f64> = (0..15).flat_map(|k| (0..12).map(move |j| 10f64.powf(-(k as f64) - j as f64 / 12.0))).collect();
    let n = ks.len();
    fam("edges", &format!("effective rates, and nominal rates per period, of -100% plus each of {n} amounts from 1 down to 1e-15, and of up to 1e15, x 22 frequencies: six conversions against the growth-factor model"), n, move |i, cx| {
        let g = ks[i as usize];
        for r in [g - 1.0, 1.0 / g - 1.0, 1.0 / g] {
            // one plus the rate as the library sees it
            let one = 1.0 + r;
            if one <= 0.0 {
                continue;
            }
            let lg = one.ln();
            let x = eff_exp_rate(r);
            cx.state();
            cx.step();
            cx.outf(x);
            ensure!((x - lg).abs() <= 1e-14 * (1.0 + lg.abs()) + 2e-16 / one, "eff_exp_rate({r}) = {x}, expected {lg}");
            let e = exp_eff_rate(lg);
            ensure!((e - r).abs() <= 1e-14 * one * (1.0 + lg.abs()) + 1e-15, "exp_eff_rate({lg}) = {e}, expected {r}");
            for m in MS {
                let w = m * (lg / m).exp_m1();
                let v = eff_nom_rate(r, m);
                let f = (lg / m).exp();
                cx.steps(4);
                ensure!((v - w).abs() <= m * f * (1e-14 * (1.0 + lg.abs()) + 2e-16 / one / m) + m * 1e-15, "eff_nom_rate({r},{m}) = {v}, expected {w}");
                let v = exp_nom_rate(lg, m);
                ensure!((v - w).abs() <= m * f * (1e-14 * (1.0 + lg.abs()) + 4e-16 / one / m) + m * 1e-15, "exp_nom_rate({lg},{m}) = {v}, expected {w}");
                // the same distance from -100% within one interval
                let q = r * m;
                let one = 1.0 + q / m;
                if one <= 0.0 {
                    continue;
                }
                let l = m * one.ln();
                if l.abs() < 300.0 {
                    let (v, w) = (nom_eff_rate(q, m), l.exp_m1());
                    ensure!((v - w).abs() <= l.exp() * (1e-14 * (1.0 + l.abs()) + 4e-16 * m / one) + 1e-15, "nom_eff_rate({q},{m}) = {v}, expected {w}");
                    if l > -30.0 {
                        let v = nom_exp_rate(q, m);
                        ensure!((v - l).abs() <= 1e-14 * (1.0 + l.abs()) + 4e-16 * m / one + 4e-16 / l.exp(), "nom_exp_rate({q},{m}) = {v}, expected {l}");
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("{g} above -100%"));
        Ok(())
    })
}

fn irr_sound(t: &Vec<f64>, c: &Vec<f64>, r: Option<f64>, what: &dyn Fn() -> String, cx: &mut Cx) -> R {
    cx.state();
    cx.step();
    if let Some(r) = r {
        cx.outf(r);
        sound(r, t, c).map_err(|e| format!("{} = {r}: {e}", what()))?;
        ensure!(!c.iter().all(|&x| x >= 0.0) && !c.iter().all(|&x| x <= 0.0), "{} = {r} although the flows never change sign", what());
    } else {
        cx.out(0);
    }
    Ok(())
}
fn zero_flows(t: bool) -> Task {
    let st = if t { 0.01 } else { 0.05 };
    let nr = (3.0 / st) as usize;
    fam("zero-flows", &format!("0..=3 zero flows before, 0..=2 between and 0..=3 after two to five flows of rates -90%..210% by {st} (one and several changes of sign), amounts of 6 sizes; by numbered times, by times from 2 and by dates"), nr * 4 * 4 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (y, before, after, mid) = (d.n(nr) as f64 * st - 0.9, d.n(4), d.n(4), d.n(3));
        let lists: [&[f64]; 5] = [&[-1.0, 1.0], &[-1.0, 0.5, 0.7], &[1.0, -0.3, -0.3, -0.6], &[-1.0, 0.9, -0.4, 0.8], &[-1.0, 2.0, -3.0, 1.0, 1.2]];
        for l in lists {
            for u in [1e-3, 1.0, 100.0, 2e3, 1e6, 1e9] {
                let mut c = vec![0.0; before];
                for (j, x) in l.iter().enumerate() {
                    c.push(x * u * if j > 0 { 1.0 + y } else { 1.0 });
                    if j == 0 {
                        c.extend(vec![0.0; mid]);
                    }
                }
                c.extend(vec![0.0; after]);
                for off in [0.0, 2.0] {
                    let tm: Vec<f64> = (0..c.len()).map(|j| j as f64 + off).collect();
                    irr_sound(&tm, &c, irr(&tm, &c), &|| format!("irr({tm:?},{c:?})"), cx)?;
                }
                let ds: Vec<NDt> = (0..c.len()).map(|j| dt(2018 + (j * 7 / 12) as i32, (j * 7 % 12) as u32 + 1, [31, 15, 1][j % 3].min(28 + [3, 0, 3, 2, 3, 2, 3, 3, 2, 3, 2, 3][j * 7 % 12]))).collect();
                let tm: Vec<f64> = ds.iter().map(|&x| ref_30_360(true, ds[0], x)).collect();
                irr_sound(&tm, &c, xirr(&ds, &c), &|| format!("xirr({ds:?},{c:?})"), cx)?;
            }
        }
        cx.trace();
        cx.sample(|| format!("{before} zeros, factor {}, {mid} zeros, {after} zeros", 1.0 + y));
        Ok(())
    })
}

fn idle_times(t: bool) -> Task {
    let st = if t { 0.005 } else { 0.025 };
    let nr = (1.5 / st) as usize + 1;
    fam("idle-times", &format!("an outlay or loan, 0..=3 idle times (zero flows), one to three inflows, 0..=3 idle times, rates -50%..100% by {st}, 4 currency units, idle times listed first, last and in place"), nr * 16, move |i, cx| {
        let mut d = Dec(i);
        let (y, mid, after) = (-0.5 + d.n(nr) as f64 * st, d.n(4), d.n(4));
        for l in 1..=3usize {
            let ins: Vec<(f64, f64)> = (0..l).map(|j| ((mid + j + 1) as f64, 1.0 + j as f64)).collect();
            let v: f64 = ins.iter().map(|(t, w)| w * grow(y, -t)).sum();
            let idle: Vec<f64> = (1..=mid).map(|j| j as f64).chain((1..=after).map(|j| (mid + l + j) as f64)).collect();
            for u in [0.01, 100.0, 1e5, 1e9] {
                for s in [-1.0, 1.0] {
                    for order in 0..3 {
                        let mut fl: Vec<(f64, f64)> = vec![];
                        let zs = idle.iter().map(|t| (*t, 0.0));
                        let real = ins.iter().map(|(t, w)| (*t, -s * u * w / v));
                        if order == 0 { fl.extend(zs.chain(real)) } else { fl.extend(real.chain(zs)) }
                        if order == 2 {
                            fl.sort_by(|a, b| a.0.total_cmp(&b.0));
                        }
                        let tm: Vec<f64> = [0.0].into_iter().chain(fl.iter().map(|x| x.0)).collect();
                        let c: Vec<f64> = [s * u].into_iter().chain(fl.iter().map(|x| x.1)).collect();
                        let r = irr(&tm, &c);
                        cx.state();
                        cx.step();
                        ensure!(r.is_some_and(|r| (r - y).abs() < 1e-6), "irr({tm:?},{c:?}) = {r:?}, built at {y}");
                    }
                }
            }
        }
        cx.outf(y);
        cx.trace();
        cx.sample(|| format!("rate {y}, {mid} idle times before, {after} after"));
        Ok(())
    })
}

fn far_starts(t: bool) -> Task {
    let per = if t { 24 } else { 6 };
    let n = 6 * per + 1;
    fam("far-starts", &format!("{n} starting points from 1 to 1e6 in size, either sign x quadratics of 12 pairs of roots and lines of 12 roots x 7 scales x 3 tolerances; cubics and quartics, x^2 + 1 and constants"), n * 2, move |i, cx| {
        let mut d = Dec(i);
        let x0 = [1.0, -1.0][d.n(2)] * 10f64.powf(d.n(n) as f64 / per as f64);
        for (p, q) in [(-1.0, 1.0), (0.0, 1.0), (2.0, 3.0), (-30.0, 30.0), (-5.0, -4.5), (0.5, 20.0), (-3.0, 0.0), (10.0, 11.0), (0.05, 0.15), (-100.0, 50.0), (7.0, 70.0), (-0.5, 0.5)] {
            for s in [1.0, -1.0, 0.01, -37.5, 1e3, 1e-3, -1e6] {
                for tol in [1e-6, 1e-4, 1e-5] {
                    cx.state();
                    cx.steps(3);
                    let r = newt_raph(|x| s * (x - p) * (x - q), x0, tol);
                    if x0 < p || x0 > q {
                        let z = if x0 < p { p } else { q };
                        ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5), "newt_raph of {s}*(x-{p})*(x-{q}) from {x0}, tol {tol} = {r:?}, nearer root {z}");
                    } else if let Some(x) = r {
                        ensure!((x - p).abs() < 1e-5 || (x - q).abs() < 1e-5, "newt_raph of {s}*(x-{p})*(x-{q}) from {x0}, tol {tol} = {x}, not a root");
                    }
                    let z = p * q * 40.0 - 3.0;
                    let r = newt_raph(|x| s * (x - z), x0, tol);
                    ensure!(r.is_some_and(|x| (x - z).abs() < 1e-5 + 1e-9 * z.abs()), "newt_raph of {s}*(x-{z}) from {x0}, tol {tol} = {r:?}");
                    if let Some(x) = newt_raph(|x| s * (x - p) * (x - q) * (x + 2.25) * if tol < 1e-5 { x - 8.75 } else { 1.0 }, x0, tol) {
                        let near = [p, q, -2.25, if tol < 1e-5 { 8.75 } else { p }].iter().map(|z| (x - z).abs()).fold(f64::INFINITY, f64::min);
                        ensure!(near < 1e-4, "newt_raph of a polynomial with roots {p}, {q}, -2.25 from {x0}, tol {tol} = {x}");
                        cx.outf(x);
                    }
                }
                let r = newt_raph(|x| s * (x * x + 1.0), x0, 1e-6);
                ensure!(r.is_none(), "newt_raph of {s}*(x^2+1) from {x0} = {r:?}");
                let r = newt_raph(|_| s, x0, 1e-6);
                ensure!(r.is_none(), "newt_raph of the constant {s} from {x0} = {r:?}");
            }
        }
        cx.trace();
        cx.sample(|| format!("from {x0}"));
        Ok(())
    })
}

fn negative_coupons(t: bool) -> Task {
    let (st, n) = if t { (1e-4, 3_000) } else { (1e-3, 300) };
    fam("negative-coupons", &format!("{n} coupons from -{:.1}% up by {st}, 17 frequencies, 1..=4 periods and 4, 20 years, 3 pars: flows, price at 5 yields", n as f64 * st * 100.0), n, move |i, cx| {
        let c = -st * (i as f64 + 1.0);
        for f in FREQS {
            for k in [1.0, 2.0, 3.0, 4.0, 4.0 * f, 20.0 * f] {
                for par in [1.0, 100.0, 1e6] {
                    let b = CouponBond { par, c, freq: f, t_life: k / f };
                    if k <= 240.0 {
                        let v = b.generate_cashflow();
                        cx.step();
                        ensure!(v.len() == k.round() as usize, "{b:?} has {} cash flows", v.len());
                        for (j, &x) in v.iter().enumerate() {
                            let w = par * c / f + if j + 1 == v.len() { par } else { 0.0 };
                            ensure!(close(x, w, par, 1e-14), "{b:?}: cash flow {} is {x}, expected {w}", j + 1);
                        }
                    }
                    for y in [0.04, 0.0, -0.005, 0.12, c.max(-0.2 * f)] {
                        let l = -k * (y / f).ln_1p();
                        let (ann, v) = (if y == 0.0 { k } else { -l.exp_m1() / (y / f) }, l.exp());
                        if !(v < 1e9) {
                            continue;
                        }
                        let (g, w) = (b.price(y), par * (c / f * ann + v));
                        cx.state();
                        cx.step();
                        cx.outf(g / par);
                        ensure!(close(g, w, par * (1.0 + v), 1e-13 * (10.0 + k) + 4e-16 / (y / f).abs().max(0.9e-6)), "{b:?}.price({y}) = {g}, its flows are worth {w}");
                    }
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("coupon {c}"));
        Ok(())
    })
}

fn short_spans(t: bool) -> Task {
    let per = if t { 40 } else { 8 };
    let n = 7 * per + 1;
    fam("spans", &format!("{n} numbers of years from 1e-4 to 1000 and the whole numbers 1..={n} x 30 chains of one to five sub-periods (growth, loss, flows in and out)"), n, move |i, cx| {
        for k in [10f64.powf(-4.0 + i as f64 / per as f64), i as f64 + 1.0, 1.0 / (i as f64 + 1.0)] {
            for q in 0..30usize {
                let len = q % 5 + 1;
                let g = [1.0001, 1.02, 0.97, 1.3, 0.6, 1.0][q / 5];
                let mut bv = vec![1000.0f64];
                let mut fl = vec![];
                let mut lg = 0.0f64;
                for j in 0..len {
                    let f = [0.0, 50.0, -30.0, 10.0, 0.0][(j + q) % 5];
                    let gr = if j % 2 == 0 { g } else { 1.0 + (g - 1.0) / 2.0 };
                    let start = bv[j] + f;
                    fl.push(f);
                    bv.push(start * gr);
                    lg += (bv[j + 1] / start).ln();
                }
                if (lg / k).abs() > 600.0 {
                    continue;
                }
                let w = (lg / k).exp_m1();
                let r = twrr_n(k, &bv, &fl);
                cx.state();
                cx.step();
                cx.outf(r);
                ensure!((r - w).abs() <= 1e-15 * (1.0 + w.abs()) * (30.0 + (lg.abs() * 4.0 + 2.0 * len as f64) * (1.0 + 1.0 / k)), "time-weighted return over {k} years of {bv:?} inflows {fl:?} = {r}, expected {w}");
            }
        }
        cx.trace();
        cx.sample(|| format!("span number {i}"));
        Ok(())
    })
}

fn odd_totals<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    fam(&format!("{}-odd-totals", Q::NAME.replace(' ', "-")), "every pair of entered items with amounts that cancel, do not, or are zero x each of the odd values (NaN, infinities, the largest and smallest, zeros) and the right value in all subtotals, in each other one, or left from a recalculation: recalculated twice", n * n, move |i, cx| {
        let (a, b) = (ch.leaves[i as usize % n], ch.leaves[i as usize / n]);
        for (x, y) in [(100.0, -100.0), (100.0, 100.0), (25.0, 3.5), (0.0, -7.0)] {
            let want = if a == b { Q::map(&[(a, x)]) } else { Q::map(&[(a, x), (b, y)]) };
            for (o, &odd) in ODD.iter().enumerate() {
                for half in 0..3 {
                    let mut m = want.clone();
                    if half == 2 {
                        m.calc_elements();
                    }
                    for (j, &c) in ch.calcs.iter().enumerate() {
                        if half == 0 || (j + o) % 2 == 0 {
                            Q::raw_set(&mut m, c, odd);
                        }
                    }
                    m.calc_elements();
                    cx.state();
                    cx.steps(2);
                    ch.check(&want, &m).map_err(|e| format!("{a:?} = {x}, {b:?} = {y}, subtotals {odd}: {e}"))?;
                    m.calc_elements();
                    ch.check(&want, &m).map_err(|e| format!("{a:?} = {x}, {b:?} = {y}, subtotals {odd}, recalculated twice: {e}"))?;
                }
            }
            cx.outf(x + y);
        }
        cx.trace();
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    })
}

fn other_flows(t: bool) -> Task {
    let nmax = if t { 40 } else { 12 };
    fam("other-flows", &format!("books of 0..={nmax} yearly, quarterly or daily periods with cash flows and other figures also for a period before, among (halves, spans, reversed) or after them, each alone and all together: deriving cash flows, recalculating, tax, rates and stripping leave those others as the plain model has them"), (nmax + 1) * 3 * 8, move |i, cx| {
        let mut d = Dec(i);
        let (n, sp, which) = (d.n(nmax + 1), d.n(3), d.n(8));
        let step = [365i64, 91, 1][sp];
        let day = |j: i64| dt(2010, 3, 31) + Duration::days(j);
        let mut b = empty_book();
        let nn = n as i64;
        for j in 0..=nn {
            if (j + which as i64) % 5 != 4 {
                b.balance_sheet.insert(day(step * j), bs_content(j as usize, [0, 2][j as usize % 2]));
            }
        }
        for j in 0..nn {
            let p = (day(step * j), day(step * (j + 1)));
            b.profit_loss.insert(p, pl_content(j as usize, [0, 2][(j as usize + which) % 2]));
            b.others.insert(p, rates(0.3, 0.02 * (j % 3) as f64, 0.01));
        }
        let far: [Period; 7] = [
            (day(-step * 2), day(-step)),
            (day(-step), day(0)),
            (day(0), day(step * nn.max(2))),
            (day(step), day(0)),
            (day(step * nn), day(step * nn + step)),
            (day(step * nn + 400), day(step * nn + 500)),
            (day(step * nn - 1), day(step * nn + 1)),
        ];
        for (j, p) in far.iter().enumerate() {
            if (which == 7 || which == j) && !b.profit_loss.contains_key(p) {
                b.cash_flow.insert(*p, cf_content(j, 0));
                b.others.insert(*p, rates(0.9, 0.8, 0.7));
            }
        }
        let ch = Charts::new();
        let before = b.clone();
        let kept = |m: &Accounts, what: &str| -> R {
            for (p, c) in before.cash_flow.iter().filter(|x| !before.profit_loss.contains_key(x.0)) {
                let Some(x) = m.cash_flow.get(p) else { return Err(format!("{what}: the cash flow of {p:?} is gone")) };
                ensure!(x == c || what != "cash flows derived" && what != "rates" && ch.c.check(c, x).is_ok(), "{what}: the cash flow of {p:?} became {x:?}");
            }
            let ks: Vec<_> = m.cash_flow.keys().filter(|p| !before.cash_flow.contains_key(p) && !(before.profit_loss.contains_key(p) && before.balance_sheet.contains_key(&p.0) && before.balance_sheet.contains_key(&p.1))).collect();
            ensure!(ks.is_empty(), "{what}: cash flows for {ks:?}");
            for (p, o) in before.others.iter().filter(|x| !before.profit_loss.contains_key(x.0)) {
                ensure!(m.others.get(p) == Some(o), "{what}: the other figures of {p:?} became {:?}", m.others.get(p));
            }
            ensure!(m.profit_loss.keys().eq(before.profit_loss.keys()) && m.balance_sheet.keys().eq(before.balance_sheet.keys()), "{what}: periods or dates changed");
            Ok(())
        };
        let mut m = b.clone();
        m.calc_cash_flow();
        kept(&m, "cash flows derived")?;
        for p in before.profit_loss.keys() {
            ensure!(m.cash_flow.contains_key(p) == (before.balance_sheet.contains_key(&p.0) && before.balance_sheet.contains_key(&p.1)), "cash flow of {p:?} derived: {}", m.cash_flow.contains_key(p));
        }
        let mut m = b.clone();
        m.calc_tax();
        kept(&m, "tax")?;
        let mut m = b.clone();
        m.set_tax_rates(0.25, 0.05, 0.02);
        kept(&m, "rates")?;
        let mut m = b.clone();
        m.calc_elements();
        kept(&m, "recalculated")?;
        m.calc_cash_flow();
        kept(&m, "recalculated")?;
        cx.state();
        cx.steps(5);
        cx.trace();
        cx.out(h64(b.cash_flow.len() * 100 + n));
        cx.sample(|| format!("{n} periods of {step} days, other cash flows {:?}", b.cash_flow.keys()));
        Ok(())
    })
}

fn all_years(t: bool) -> Task {
    let mut ys: Vec<i32> = (-20..=130).chain((990..=1010).chain(1890..=2110)).chain(9980..=10020).chain((131..990).step_by(if t { 1 } else { 13 })).chain((1010..9980).step_by(if t { 7 } else { 97 })).chain([-99999, -10000, -9999, -1000, -999, -100, 12345, 99999, 100000, 262000]).collect();
    ys.sort();
    ys.dedup();
    let n = ys.len();
    fam("all-years", &format!("tables of a sheet, a year and a quarter ending in each month of {n} years from -99999 to 262000"), n, move |i, cx| {
        let y = ys[i as usize];
        for m in 1..=12u32 {
            let day = |y: i32, m: u32| NDt::from_ymd_opt(y, m, 28).unwrap();
            let e = day(y, m);
            let (a, q) = (day(y - 1, m), if m > 3 { day(y, m - 3) } else { day(y - 1, m + 9) });
            let mut b = empty_book();
            for (j, x) in [a, q, e].into_iter().enumerate() {
                b.balance_sheet.insert(x, BsMap::from([(Cash, 100.0 + j as f64), (CommonStock, -7.0)]));
            }
            for p in [(a, e), (q, e)] {
                b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 1000.0 + m as f64), (Salaries, 5.0)]));
                b.cash_flow.insert(p, CfMap::from([(ChangeDebt, -3.0)]));
                b.others.insert(p, rates(0.3, 0.0, 0.0));
            }
            render(&b, &[SEPS[(y.rem_euclid(4)) as usize]], &[1.0], cx)?;
        }
        cx.sample(|| format!("year {y}"));
        Ok(())
    })
}

fn bare_reports() -> Task {
    fam("bare-reports", "reports with each of the 32 sets of parts x each part empty or filled x 2 periods: recalculating is refused exactly when the profit-and-loss or the other figures are missing; single statements are exactly the parts there are", 32 * 32 * 2, |i, cx| {
        let mut d = Dec(i);
        let (has, filled, p) = (d.n(32), d.n(32), periods3()[d.n(2)]);
        let on = |j: usize| has >> j & 1 == 1;
        let f = |j: usize| filled >> j & 1 == 1;
        let r = FinancialReport {
            period: p,
            balance_sheet_beg: on(0).then(|| if f(0) { bs_content(0, 0) } else { BsMap::new() }),
            balance_sheet_end: on(1).then(|| if f(1) { bs_content(1, 0) } else { BsMap::new() }),
            profit_loss: on(2).then(|| if f(2) { pl_content(0, 0) } else { PlMap::new() }),
            cash_flow: on(3).then(|| if f(3) { cf_content(0, 0) } else { CfMap::new() }),
            others: on(4).then(|| if f(4) { rates(0.3, 0.01, 0.02) } else { FinOthersMap::new() }),
        };
        let mut m = r.clone();
        let got = guarded(|| { m.calc_elements(); });
        cx.state();
        cx.steps(7);
        cx.trace();
        if f(4) || !on(4) {
            ensure!(got.is_err() == (!on(2) || !on(4)), "recalculating {r:?}: {got:?}");
        }
        ensure!(r.balance_sheet_beg().is_some() == on(0) && r.balance_sheet_end().is_some() == on(1) && r.profit_loss().is_some() == on(2) && r.cash_flow().is_some() == on(3) && r.fin_others().is_some() == on(4), "single statements of {r:?}");
        if let Some(x) = r.balance_sheet_beg() {
            ensure!(x.date == p.0 && Some(&x.items) == r.balance_sheet_beg.as_ref(), "opening sheet {x:?}");
        }
        if let Some(x) = r.balance_sheet_end() {
            ensure!(x.date == p.1 && Some(&x.items) == r.balance_sheet_end.as_ref(), "closing sheet {x:?}");
        }
        cx.out(h64((has, got.is_err())));
        cx.sample(|| format!("parts {has:05b}, filled {filled:05b}"));
        Ok(())
    })
}

/// Days left out at both ends of the calendar: none in the thorough tier; in the quick one a few years, because helper
/// dates next to the ones given (the first of the next month, the same day a year on) do not exist there, and whether code
/// needs them is not what a check on every change has to settle.
pub fn margin(t: bool) -> i64 {
    if t { 0 } else { 1500 }
}
/// The first and last `n` days of the calendar, but for the margin.
fn both_ends(n: i64, t: bool) -> Vec<NDt> {
    (margin(t)..margin(t) + n).flat_map(|j| [NDt::MIN + Duration::days(j), NDt::MAX - Duration::days(j)]).collect()
}

fn ends_split(t: bool) -> Task {
    let n = if t { 500 } else { 250 };
    let ds = both_ends(n, t);
    let len = ds.len();
    fam("calendar-ends", &format!("periods between any two of the first and last {n} days of the calendar, each alone, three in a row and all from one day together: splitting and validity"), len, move |i, cx| {
        let a = ds[i as usize];
        let mut all = empty_book();
        for &b in &ds {
            let mut bk = empty_book();
            bk.profit_loss.insert((a, b), PlMap::new());
            all.profit_loss.insert((a, b), PlMap::new());
            judge_split(&bk)?;
            let c = ds[(i as usize * 7 + 3) % len];
            cx.state();
            cx.steps(4);
            for v in [vec![(a, b)], vec![(a, b), (b, c)], vec![(a, b), (c, a)]] {
                let g = check_dates(&v);
                ensure!(g == valid_sequence(&v), "check_dates of {v:?} = {g}");
            }
        }
        judge_split(&all)?;
        cx.trace();
        cx.out(i);
        cx.sample(|| format!("periods from {a}"));
        Ok(())
    })
}

fn ends_chains(t: bool) -> Task {
    let depth = if t { 4 } else { 3 };
    let combos = STEP_OPTS.pow(depth);
    fam("calendar-ends", &format!("each of the last 800 days of the calendar as the latest end x same-day and month-end chains x all {combos} combinations of {depth} steps"), 800 * 2, move |i, cx| {
        let (end, to_end) = (NDt::MAX - Duration::days(margin(t) + i as i64 / 2), i % 2 == 1);
        if to_end && !is_end(end) {
            return Ok(());
        }
        for c in 0..combos {
            let mut d = Dec(c as u64);
            let opts: Vec<usize> = (0..depth).map(|_| d.n(STEP_OPTS)).collect();
            let (set, chain) = build_chain(end, &opts, to_end);
            judge_chain(&set, end, &chain, cx)?;
        }
        cx.sample(|| format!("chains ending {end}"));
        Ok(())
    })
}

fn stored_days(t: bool) -> Task {
    let ys: Vec<i32> = if t { (1..10000).step_by(41).collect() } else { vec![1, 99, 100, 999, 1000, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2019, 2020, 2023, 2024, 2038, 2100, 9999] };
    let n = ys.len();
    fam("every-day", &format!("every day of {n} years, of two years from -10000, -1, 10000 and 99999 and the first and last 100 of the calendar: as the date of a sheet, the ends of periods of statements, a report and a book, stored and read back"), n * 366 + 8 * 366 + 200, move |i, cx| {
        let i = i as usize;
        let d = if i < n * 366 {
            dt(ys[i / 366], 1, 1) + Duration::days(i as i64 % 366)
        } else if i < n * 366 + 8 * 366 {
            let j = i - n * 366;
            dt([-10000, -9999, -1, 0, 9999, 10000, 99999, 100000][j / 366], 1, 1) + Duration::days(j as i64 % 366)
        } else {
            both_ends(100, t)[i - n * 366 - 8 * 366]
        };
        let e = [dt(2020, 2, 29), d, both_ends(1, t)[1]][i % 3];
        both(&BalanceSheet { date: d, items: BsMap::from([(Cash, 2.5)]) }, cx)?;
        both(&ProfitLoss { period: (d, e), items: PlMap::new() }, cx)?;
        both(&CashFlow { period: (e, d), items: CfMap::new() }, cx)?;
        let mut b = empty_book();
        b.dates.insert(d);
        b.balance_sheet.insert(d, BsMap::from([(Cash, 1.0)]));
        b.profit_loss.insert((d, e), PlMap::from([(Salaries, 2.0)]));
        b.others.insert((e, d), rates(0.1, 0.2, 0.3));
        ron_only(&b, cx)?;
        for r in b.to_financial_reports() {
            both(&r, cx)?;
        }
        cx.sample(|| format!("{d}"));
        Ok(())
    })
}

fn ends_tables(t: bool) -> Task {
    let ds = both_ends(130, t);
    let n = ds.len();
    fam("calendar-ends", "books with a sheet on and periods from and to each of the first and last 130 days of the calendar: table and display", n, move |i, cx| {
        let d = ds[i as usize];
        for other in [ds[0], ds[1], dt(2020, 3, 31), d] {
            let mut b = empty_book();
            let p = (d.min(other), d.max(other));
            b.balance_sheet.insert(d, BsMap::from([(Cash, 3e6)]));
            b.balance_sheet.insert(other, BsMap::from([(Cash, 2e6)]));
            b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 5e5)]));
            b.cash_flow.insert(p, CfMap::from([(ChangeDebt, 7.0)]));
            b.others.insert(p, rates(0.2, 0.1, 0.0));
            b.calc_elements();
            render(&b, &[SEPS[i as usize % 4]], &[1.0, 1000.0], cx)?;
        }
        cx.sample(|| format!("{d}"));
        Ok(())
    })
}

fn ends_dates(t: bool) -> Task {
    let ds = both_ends(40, t);
    let n = ds.len();
    fam("calendar-ends", "periods between any two of the first and last 40 days of the calendar: dates collected, reports, readings", n * n, move |i, cx| {
        let p = (ds[i as usize % n], ds[i as usize / n]);
        let mut b = empty_book();
        b.profit_loss.insert(p, pl_content(0, 0));
        let mut w = b.clone();
        let r = guarded(|| { b.set_dates_from_profit_loss(); });
        cx.state();
        cx.steps(3);
        cx.trace();
        ensure!(r.is_err() == (p.0 > p.1), "collecting the dates of {p:?}: {r:?}");
        if p.0 <= p.1 {
            w.dates.extend([p.0, p.1]);
            ensure!(b == w, "dates collected from {p:?}: {:?}", b.dates);
        }
        ensure!(b.get_account(p.0, p.1).is_some() && (p.0 == p.1 || b.get_account(p.1, p.0).is_none()), "reports of a book of {p:?}");
        ensure!(b.valid_date(p.0) == (p.0 <= p.1), "valid_date({})", p.0);
        cx.out(i);
        cx.sample(|| format!("{p:?}"));
        Ok(())
    })
}
