//! Further families of the statement, book and dated-flow properties: wider spans, sizes, sets and orders.
use crate::base::{ref_30_360, sound};
use crate::books::*;
use crate::engine::*;
use crate::ensure;
use crate::refm::*;
use crate::stmts::{effects, judge_post};
use crate::store::{SEPS, both, render, ron_only};
use chrono::naive::NaiveDate as NDt;
use chrono::{Datelike, Duration};
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::BTreeSet;

/// The families of a property that live here.
pub fn extra(id: &str, t: bool) -> Vec<Task> {
    match id {
        "S01" => vec![series_pairs()],
        "S05" => vec![small_changes::<BsK>(), small_changes::<PlK>(), small_changes::<CfK>(), recalc_sizes::<BsK>(), recalc_sizes::<PlK>(), recalc_sizes::<CfK>()],
        "S13" => vec![report_rates(t)],
        "S14" => vec![overlapping_subs()],
        "S12" => vec![kept_dates()],
        "S15" => vec![split_border(t), gap_days(t)],
        "S17" => vec![odd_keys()],
        "S18" => vec![long_tables(t), lone_amounts(t)],
        "S20" => vec![date_pairs(), every_item()],
        "B06" => vec![far_valuations(t)],
        "B07" => vec![date_orders(t)],
        _ => vec![],
    }
}

fn series_pairs() -> Task {
    let n = BS.len();
    fam("series-pairs", "for every pair of accounts: series of two or three postings between them, each in either direction and of 5 amounts (itself, the opposite, a part, nothing)", n * n, move |i, cx| {
        let (a, b) = (BS[i as usize % n].0, BS[i as usize / n].0);
        let am = [10.0, -10.0, 2.5, 0.0, 1e7];
        let one = |q: usize| {
            let v = am[q / 2 % 5];
            if q % 2 == 0 { (a, b, v) } else { (b, a, v) }
        };
        let base = BsMap::from([(Cash, 100.0), (CommonStock, 100.0), (Assets, 7.0)]);
        for x in 0..10 {
            for y in 0..10 {
                for z in 0..4 {
                    let mut tr = vec![one(x), one(y)];
                    if z < 3 {
                        tr.push(one(z));
                    }
                    let mut m = base.clone();
                    m.transact_series(tr.clone());
                    cx.state();
                    cx.step();
                    judge_post(&base, &m, &effects(&tr), &|| format!("series {tr:?}"))?;
                    cx.outf(m.value(a) + 3.0 * m.value(b));
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("{a:?} and {b:?}"));
        Ok(())
    })
}

fn recalc_sizes<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    fam(&format!("{}-sizes", Q::NAME.replace(' ', "-")), "every number of entered items, starting at every item: recalculated, one item changed (each in turn: put, added to, taken out), recalculated, stripped, recalculated; an item of the rest entered late", n * n, move |i, cx| {
        let (size, rot) = (i as usize % n + 1, i as usize / n);
        let items: Vec<(Q::K, f64)> = (0..size).map(|j| (ch.leaves[(rot + j) % n], 40.0 + 7.25 * j as f64 - if j % 5 == 3 { 90.0 } else { 0.0 })).collect();
        let mut whole = Q::map(&items);
        whole.calc_elements();
        cx.step();
        ch.check(&Q::map(&items), &whole)?;
        for j in 0..=size.min(n - 1) {
            let mut want = Q::map(&items);
            let mut m = whole.clone();
            let k = ch.leaves[(rot + j) % n];
            match (j + size) % 3 {
                0 => {
                    m.upsert(k, 1234.5);
                    Q::raw_set(&mut want, k, 1234.5);
                }
                1 => {
                    m.add(k, -3e4);
                    let v = want.value(k) - 3e4;
                    Q::raw_set(&mut want, k, v);
                }
                _ => {
                    m.upsert(k, 0.0);
                    Q::raw_set(&mut want, k, 0.0);
                }
            }
            m.calc_elements();
            cx.state();
            cx.steps(4);
            ch.check(&want, &m).map_err(|e| format!("{size} items from {rot}, {k:?} changed: {e}"))?;
            let once = m.clone();
            m.calc_elements();
            ensure!(Q::items(&m) == Q::items(&once) || ch.check(&want, &m).is_ok(), "recalculating twice: {:?} then {:?}", Q::items(&once), Q::items(&m));
            m.remove_calc_clean();
            for &c in &ch.calcs {
                ensure!(!Q::has(&m, c), "{c:?} survives the removal of calculated items");
            }
            m.calc_elements();
            ch.check(&want, &m).map_err(|e| format!("{size} items from {rot}, {k:?} changed, stripped: {e}"))?;
            cx.outf(ch.calcs.iter().map(|c| m.value(*c)).sum());
        }
        cx.trace();
        cx.sample(|| format!("{size} items from item {rot}"));
        Ok(())
    })
}

fn report_rates(t: bool) -> Task {
    let rs: Vec<f64> = if t { (0..=20).map(|j| j as f64 * 0.05).chain([1.5, 0.001]).collect() } else { vec![0.0, 0.02, 0.1, 0.2, 0.3, 0.5, 0.75, 0.9, 1.0] };
    let n = rs.len();
    fam("rates", &format!("{n}^3 rate triples from 0 to 100% x 8 contents (profit, loss, loss before depreciation, every item, stale subtotals, empty, interest without revenue, refunds) x derived and stored cash flow"), n * n * n, move |i, cx| {
        let mut d = Dec(i);
        let (&c, &g, &r) = (d.of(&rs), d.of(&rs), d.of(&rs));
        let ch = Charts::new();
        let p = periods3()[0];
        for var in 0..8 {
            let mut b = empty_book();
            b.profit_loss.insert(p, match var {
                0 => PlMap::from([(OperatingRevenue, 1000.0), (CostMaterial, 300.0), (Depreciation, 60.0), (InterestExpense, 50.0)]),
                1 => PlMap::from([(OperatingRevenue, 500.0), (CostMaterial, 300.0), (Depreciation, 400.0), (InterestExpense, 250.0), (InterestRevenue, 20.0)]),
                2 => PlMap::from([(OperatingRevenue, 200.0), (Salaries, 900.0), (InterestExpense, 70.0), (Dividends, 5.0)]),
                3 => pl_content(1, 1),
                4 => pl_content(2, 2),
                6 => PlMap::from([(CostMaterial, 120.0), (Salaries, -400.0), (InterestExpense, 700.0), (TaxDepreciation, 30.0)]),
                7 => PlMap::from([(OperatingRevenue, -200.0), (CostMaterial, -900.0), (InterestExpense, 800.0), (Depreciation, 9.0)]),
                _ => PlMap::new(),
            });
            b.others.insert(p, rates(c, g, r));
            b.cash_flow.insert(p, cf_content(0, var % 3));
            b.balance_sheet.insert(p.0, bs_content(0, var % 3));
            if var != 5 || i % 2 == 0 {
                b.balance_sheet.insert(p.1, bs_content(1, (var + 1) % 3));
            }
            judge_agree(&ch, &b, cx)?;
        }
        cx.sample(|| format!("rates {c} {g} {r}"));
        Ok(())
    })
}

fn overlapping_subs() -> Task {
    let e = dt(2021, 3, 31);
    let s = dt(2020, 3, 31);
    let ps: [Period; 8] = [(s, e), (dt(2020, 12, 31), e), (dt(2021, 3, 10), e), (e, e), (s, dt(2020, 6, 30)), (s, dt(2020, 4, 10)), (dt(2018, 3, 31), e), (e, dt(2021, 4, 15))];
    fam("overlapping-sub-books", "books over all 256 sets of eight overlapping periods (sharing a start or an end; years, quarters, weeks, one day), sub-books for all 256 sets", 1 << 16, move |i, cx| {
        let (held, set) = (i as usize >> 8, i as usize & 255);
        let mut b = empty_book();
        for (j, p) in ps.iter().enumerate() {
            if held >> j & 1 == 1 {
                b.profit_loss.insert(*p, pl_content(j, 0));
                if (j + held) % 3 != 0 {
                    b.cash_flow.insert(*p, cf_content(j, 0));
                }
                if (j + held) % 4 != 0 {
                    b.others.insert(*p, rates(0.1, 0.2, 0.3));
                }
            }
            if (held + set) % 3 != 0 || j % 2 == 0 {
                b.balance_sheet.insert(p.0, bs_content(j, 0));
                b.balance_sheet.insert(p.1, bs_content(j, 0));
            }
        }
        b.consolidated = held % 2 == 0;
        let q: BTreeSet<Period> = ps.iter().enumerate().filter(|x| set >> x.0 & 1 == 1).map(|x| *x.1).collect();
        judge_sub(&b, &q, cx)?;
        if set == 255 {
            let ds: Vec<NDt> = ps.iter().flat_map(|p| [p.0, p.1]).collect::<BTreeSet<_>>().into_iter().collect();
            judge_reports(&b, &ds, cx)?;
        }
        cx.sample(|| format!("held {held:08b}, asked {set:08b}"));
        Ok(())
    })
}

fn split_border(t: bool) -> Task {
    let (y0, y1) = if t { (1, 4000) } else { (1590, 2410) };
    fam("border-in-every-year", &format!("periods of 115..125 days, a quarter, a half-year and a year from every day of the years {y0}..{y1}, singly; each year's periods together"), (y1 - y0) as usize, move |i, cx| {
        let y = y0 + i as i32;
        let mut all = empty_book();
        let mut d = dt(y, 1, 1);
        while d.year() == y {
            let mut b = empty_book();
            let mut near: Vec<i64> = (115..=125).collect();
            near.extend([89, 90, 91, 92, 181, 184, 364, 365, 366]);
            for len in near {
                let p = (d, d + Duration::days(len));
                b.profit_loss.clear();
                b.profit_loss.insert(p, PlMap::new());
                let (a, q) = b.split_periods();
                cx.state();
                cx.step();
                ensure!(a.contains(&p) == (len >= 120) && q.contains(&p) == (len < 120) && a.len() + q.len() == 1, "a period of {len} days from {d}: annual {a:?}, quarterly {q:?}");
                if (len + d.ordinal() as i64) % 7 == 0 {
                    all.profit_loss.insert(p, PlMap::new());
                }
            }
            d += Duration::days(1);
        }
        judge_split(&all)?;
        cx.trace();
        cx.out(i);
        cx.sample(|| format!("year {y}"));
        Ok(())
    })
}

fn odd_keys() -> Task {
    let d = dates4();
    let ks: [Period; 8] = [(d[0], d[1]), (d[1], d[0]), (d[1], d[1]), (d[0], d[3]), (dt(-44, 3, 15), dt(12345, 1, 1)), (NDt::MIN, NDt::MAX), (dt(2020, 2, 29), dt(2020, 2, 28)), (d[1], d[2])];
    fam("odd-periods", "books whose profit-and-loss, cash flows and other figures hold each of the 256 sets of eight periods (forward, backward, of one day, overlapping, of the first and last dates there are), in 3 alignments and as dates of sheets", 256 * 3, move |i, cx| {
        let (set, rot) = (i as usize / 3, i as usize % 3);
        let mut b = empty_book();
        b.currency = ALL_CURRENCIES[set % 8];
        for (j, k) in ks.iter().enumerate() {
            if set >> j & 1 == 1 {
                b.profit_loss.insert(*k, pl_content(j, 0));
                b.cash_flow.insert(ks[(j + rot) % 8], cf_content(j, 0));
                b.others.insert(ks[(j + 2 * rot) % 8], rates(0.1, 0.2, 0.01 * j as f64));
                b.balance_sheet.insert(k.0, bs_content(j, 0));
                b.dates.insert(k.1);
            }
        }
        ron_only(&b, cx)?;
        for r in b.to_financial_reports() {
            both(&r, cx)?;
            let s = r.to_statements();
            both(&s.2, cx)?;
            both(&s.3, cx)?;
            both(&s.4, cx)?;
        }
        cx.sample(|| format!("{:?}", b.profit_loss.keys()));
        Ok(())
    })
}

fn long_tables(t: bool) -> Task {
    let lens: Vec<usize> = if t { (1..=700).collect() } else { (1..=270).chain([299, 300, 301, 365, 366, 367, 499, 500, 501]).collect() };
    let n = lens.len();
    fam("long-tables", &format!("tables of {n} lengths up to {} columns, in turn of sheets, years, quarters and of all three, with and without cash flows", lens[n - 1]), n * 4, move |i, cx| {
        let (&len, kind) = (&lens[i as usize / 4], i as usize % 4);
        let mut b = empty_book();
        b.currency = ALL_CURRENCIES[i as usize % 8];
        let day = |j: usize, step: i64| dt(1901, 1, 31) + Duration::days(step * j as i64);
        for j in 0..len {
            let x = (j * 37 % 101) as f64 + j as f64 / 1000.0;
            if kind == 0 || kind == 3 {
                b.balance_sheet.insert(day(j, 90), BsMap::from([(Cash, x), (CommonStock, x - 50.0)]));
            }
            for (w, step) in [(1, 365), (2, 90)] {
                if kind == w || kind == 3 {
                    let p = (day(j, step), day(j + 1, step));
                    b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, x * 1000.0), (TaxesCurrent, -x)]));
                    b.others.insert(p, rates(0.25 + j as f64 / 1000.0, 0.0, if j % 2 == 0 { 0.5 } else { 0.0 }));
                    if len % 2 == 0 || j % 3 == 0 {
                        b.cash_flow.insert(p, CfMap::from([(ChangeDebt, x + 0.25)]));
                    }
                }
            }
        }
        render(&b, &[SEPS[len % 4]], &[[1.0, 1000.0][len / 2 % 2]], cx)?;
        cx.sample(|| format!("{len} columns, {}", ["sheets", "years", "quarters", "all"][kind]));
        Ok(())
    })
}

fn date_pairs() -> Task {
    let mut ds: Vec<NDt> = vec![];
    for y in [1900, 2000, 2019, 2020, 2021] {
        for (m, d) in [(1, 1), (1, 2), (1, 31), (2, 1), (2, 28), (3, 1), (6, 15), (6, 16), (6, 30), (12, 1), (12, 30), (12, 31)] {
            ds.push(dt(y, m, d));
        }
    }
    ds.extend([dt(2020, 2, 29), dt(2000, 2, 29), NDt::MIN, NDt::MAX, dt(-1, 12, 31), dt(0, 1, 1)]);
    let n = ds.len();
    fam("period-ends", &format!("collecting the dates of a book with one period over every ordered pair of {n} dates (neighbouring days, ends of months and years, same day of other months and years), alone and beside two ordinary periods; dates told apart from their neighbours"), n * n, move |i, cx| {
        let p = (ds[i as usize % n], ds[i as usize / n]);
        for beside in 0..4 {
            let mut b = empty_book();
            b.profit_loss.insert(p, PlMap::new());
            if beside & 1 == 1 {
                b.profit_loss.insert((dt(1000, 1, 1), dt(1001, 1, 1)), pl_content(0, 0));
            }
            if beside & 2 == 2 {
                b.profit_loss.insert((dt(3000, 1, 1), dt(3001, 1, 1)), pl_content(0, 1));
            }
            let before = b.clone();
            let r = guarded(|| { b.set_dates_from_profit_loss(); });
            cx.state();
            cx.step();
            ensure!(r.is_err() == (p.0 > p.1), "collecting the dates of {:?}: {r:?}", before.profit_loss.keys());
            if r.is_ok() {
                let mut w = before.clone();
                w.dates = w.profit_loss.keys().flat_map(|p| [p.0, p.1]).collect();
                ensure!(b == w, "dates collected from {:?}: {:?}", w.profit_loss.keys(), b.dates);
                for &d in &ds {
                    ensure!(b.valid_date(d) == b.dates.contains(&d), "valid_date({d}) = {} with {:?}", b.valid_date(d), b.dates);
                }
                cx.step();
            }
        }
        cx.trace();
        cx.out(i);
        cx.sample(|| format!("{p:?}"));
        Ok(())
    })
}

/// Reading an item that only other statements hold.
fn every_item() -> Task {
    let chains: [[Period; 3]; 3] = {
        let d = [dt(2019, 3, 31), dt(2020, 3, 31), dt(2021, 3, 31), dt(2022, 3, 31)];
        [[(d[0], d[1]), (d[1], d[2]), (d[2], d[3])], [(d[0], d[3]), (d[1], d[3]), (d[2], d[3])], [(d[0], d[1]), (d[0], d[2]), (d[0], d[3])]]
    };
    let (b, p, c): (Vec<_>, Vec<_>, Vec<_>) = (BsK::leaves().into_iter().chain(BsK::calcs()).collect(), PlK::leaves().into_iter().chain(PlK::calcs()).collect(), CfK::leaves().into_iter().chain(CfK::calcs()).collect());
    let n = b.len().max(p.len()).max(c.len());
    fam("every-item", "every item of every statement x three statements, chained, ending or beginning together, that each lack the item, are empty, hold it as zero or hold it (4x4x4): readings at each, nothing read at another key", n * 64 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (kinds, ch, q) = ([d.n(4), d.n(4), d.n(4)], d.n(3), d.n(n));
        let (x, y, z) = (b[q % b.len()], p[q % p.len()], c[q % c.len()]);
        let (ox, oy, oz) = (b[(q + 1) % b.len()], p[(q + 1) % p.len()], c[(q + 1) % c.len()]);
        let mut book = empty_book();
        let want = |j: usize| if kinds[j] == 3 { 100.0 + j as f64 } else { 0.0 };
        for j in 0..3 {
            let k = chains[ch][j];
            let date = dates4()[j];
            match kinds[j] {
                0 => {
                    book.balance_sheet.insert(date, BsMap::from([(ox, 5.0)]));
                    book.profit_loss.insert(k, PlMap::from([(oy, 5.0)]));
                    book.cash_flow.insert(k, CfMap::from([(oz, 5.0)]));
                }
                1 => {
                    book.balance_sheet.insert(date, BsMap::new());
                    book.profit_loss.insert(k, PlMap::new());
                    book.cash_flow.insert(k, CfMap::new());
                }
                _ => {
                    book.balance_sheet.insert(date, BsMap::from([(x, want(j)), (ox, 7.0)]));
                    book.profit_loss.insert(k, PlMap::from([(y, want(j)), (oy, 7.0)]));
                    book.cash_flow.insert(k, CfMap::from([(z, want(j)), (oz, 7.0)]));
                }
            }
        }
        for j in 0..3 {
            let (k, date) = (chains[ch][j], dates4()[j]);
            let (g, h, l) = (book.get_balance_sheet(date, x), book.get_profit_loss(k, y), book.get_cash_flow(k, z));
            cx.steps(3);
            ensure!(g == want(j) && h == want(j) && l == want(j), "{x:?} of {date}, {y:?} and {z:?} of {k:?} read {g}, {h} and {l}, stored {}", want(j));
            cx.outf(g + h + l);
        }
        ensure!(guarded(|| book.get_balance_sheet(dates4()[3], x)).is_err(), "{x:?} read at a date without a sheet");
        for k in [(chains[ch][0].0 + Duration::days(1), chains[ch][0].1), (chains[ch][2].1, chains[ch][2].1)] {
            ensure!(guarded(|| book.get_profit_loss(k, y)).is_err() && guarded(|| book.get_cash_flow(k, z)).is_err(), "{y:?} or {z:?} read for {k:?}, which has no statement");
        }
        cx.steps(5);
        cx.state();
        cx.trace();
        cx.sample(|| format!("{x:?} {y:?} {z:?}: {kinds:?}"));
        Ok(())
    })
}

fn date_orders(t: bool) -> Task {
    let sets: [[NDt; 5]; 4] = [
        [dt(2019, 3, 31), dt(2020, 2, 29), dt(2020, 8, 31), dt(2021, 5, 5), dt(2024, 3, 31)],
        [dt(2020, 1, 1), dt(2021, 1, 1), dt(2022, 1, 1), dt(2023, 1, 1), dt(2024, 1, 1)],
        [dt(2000, 12, 31), dt(2001, 1, 31), dt(2001, 2, 28), dt(2001, 3, 31), dt(2001, 4, 30)],
        [dt(1999, 6, 30), dt(2004, 6, 30), dt(2009, 6, 29), dt(2014, 7, 1), dt(2029, 6, 30)],
    ];
    let vals: Vec<f64> = if t { vec![-100.0, 60.0, 25.0, -10.0, 0.0, 130.0, -230.0] } else { vec![-100.0, 60.0, 25.0, -10.0] };
    let v = vals.len();
    fam("date-orders", &format!("four sets of five dates listed in all 120 orders x all {v}^5 and {v}^4 lists of flows from {vals:?}"), 4 * 120 * v * v, move |i, cx| {
        let mut d = Dec(i);
        let (s, perm, f0, f1) = (d.n(4), d.n(120), d.n(v), d.n(v));
        let mut left = sets[s].to_vec();
        let (mut q, mut ds) = (perm, vec![]);
        for k in (1..=5).rev() {
            ds.push(left.remove(q % k));
            q /= k;
        }
        for rest in 0..v * v * v {
            for len in [4, 5] {
                if len == 4 && rest >= v * v {
                    continue;
                }
                let c: Vec<f64> = [f0, f1, rest % v, rest / v % v, rest / v / v].iter().map(|&j| vals[j]).take(len).collect();
                let dd = ds[..len].to_vec();
                let tm: Vec<f64> = dd.iter().map(|&x| ref_30_360(true, dd[0], x)).collect();
                let r = xirr(&dd, &c);
                cx.state();
                cx.step();
                if let Some(r) = r {
                    cx.outf(r);
                    sound(r, &tm, &c).map_err(|e| format!("xirr({dd:?}, {c:?}) = {r}: {e}"))?;
                }
                if c.iter().all(|&x| x >= 0.0) || c.iter().all(|&x| x <= 0.0) {
                    ensure!(r.is_none(), "xirr({dd:?},{c:?}) = {r:?} although the flows never change sign");
                }
            }
        }
        cx.trace();
        cx.sample(|| format!("{ds:?}"));
        Ok(())
    })
}

/// A large statement, one amount moved a little.
fn small_changes<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    fam(&format!("{}-small-changes", Q::NAME.replace(' ', "-")), "every pair of entered items, one of 8 amounts from 1 to 1e18, the other moved by 10^-4 to 10^6, either way, once and three times over: recalculated each time, stripped, recalculated", n * n, move |i, cx| {
        let (a, b) = (ch.leaves[i as usize % n], ch.leaves[i as usize / n]);
        for big in [1.0, 1e3, 3e6, 1e8, 4e10, 1e13, 5e15, 1e18] {
            for e in -4..=6 {
                let step = 10f64.powi(e) * if e % 2 == 0 { 1.0 } else { -4.0 };
                let mut want = Q::map(&[(a, big), (b, big / 8.0)]);
                let mut m = want.clone();
                m.calc_elements();
                for _ in 0..1 + 2 * (e as usize % 2) {
                    m.add(b, step);
                    let v = want.value(b) + step;
                    Q::raw_set(&mut want, b, v);
                    m.calc_elements();
                    cx.steps(2);
                    ch.check(&want, &m).map_err(|x| format!("{a:?} = {big}, {b:?} moved by {step}: {x}"))?;
                }
                m.remove_calc_clean();
                for &c in &ch.calcs {
                    ensure!(!Q::has(&m, c), "{c:?} survives the removal of calculated items ({a:?} = {big})");
                }
                m.calc_elements();
                cx.state();
                cx.steps(2);
                ch.check(&want, &m)?;
                cx.outf(ch.calcs.iter().map(|c| m.value(*c)).sum());
            }
        }
        cx.trace();
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    })
}

fn kept_dates() -> Task {
    fam("kept-dates", "books holding 0..=30 dates of their own (before, among, after) and 0..=20 periods in five spacings: collecting the dates keeps what is there and adds the ends of the periods, twice over; nothing else changes; with and without sheets on them", 31 * 21 * 5, |i, cx| {
        let mut d = Dec(i);
        let (own, n, sp) = (d.n(31), d.n(21), d.n(5));
        let step = [365, 91, 30, 1, 7][sp];
        let mut b = empty_book();
        for j in 0..n {
            b.profit_loss.insert((dt(2010, 3, 31) + Duration::days(step * j as i64), dt(2010, 3, 31) + Duration::days(step * (j as i64 + 1))), pl_content(j, 0));
        }
        for j in 0..own {
            let x = dt(2009, 6, 1) + Duration::days([400, 33, 3][j % 3] * j as i64);
            b.dates.insert(x);
            if (own + j) % 2 == 0 {
                b.balance_sheet.insert(x, bs_content(j, 0));
            }
        }
        let mut w = b.clone();
        w.dates.extend(w.profit_loss.keys().flat_map(|p| [p.0, p.1]).collect::<Vec<_>>());
        for round in 1..3 {
            b.set_dates_from_profit_loss();
            cx.step();
            ensure!(b == w, "collecting the dates of {n} periods into {own} dates of the book's own, time {round}: {:?} instead of {:?}", b.dates, w.dates);
        }
        cx.state();
        cx.trace();
        cx.out(h64(&b.dates));
        cx.sample(|| format!("{own} dates, {n} periods of {step} days"));
        Ok(())
    })
}

fn gap_days(t: bool) -> Task {
    let lens: &[usize] = if t { &[2, 3, 5, 8, 10, 11, 12, 13, 20, 25, 40, 61, 100] } else { &[2, 3, 5, 11, 12, 13, 25] };
    fam("gap-days", &format!("chains of {lens:?} periods of a day, a week, a month and a year with a gap or overlap of 1, 2, 7, 30, 365 or 366 days at the first, middle or last joint, that joint on every day of eight years; and without"), 8 * 366, move |i, cx| {
        let y = [1899, 1999, 2000, 2019, 2020, 2023, 2024, 2100][i as usize / 366];
        let at = dt(y, 1, 1) + Duration::days(i as i64 % 366);
        for &len in lens {
            for step in [1i64, 7, 30, 365] {
                for joint in [1, len / 2, len - 1] {
                    for gap in [0i64, 1, -1, 2, -2, 7, -7, 30, 365, -365, 366] {
                        // the joint falls on the day `at`, what follows starts `gap` days later
                        let v: Vec<Period> = (0..len).map(|j| {
                            let s = at + Duration::days(step * (j as i64 - joint as i64) + if j >= joint { gap } else { 0 });
                            (s, s + Duration::days(step))
                        }).collect();
                        let g = check_dates(&v);
                        cx.state();
                        cx.step();
                        ensure!(g == (gap == 0 || joint == 0), "check_dates of {len} periods of {step} days, {gap} days between the one to {at} and the next: {g}");
                    }
                }
            }
        }
        cx.trace();
        cx.out(i);
        cx.sample(|| format!("joint at {at}"));
        Ok(())
    })
}

fn lone_amounts(t: bool) -> Task {
    let nmax = if t { 120 } else { 40 };
    fam("lone-amounts", &format!("books of 1..={nmax} sheets, years, quarters or years and quarters, an item of each statement with an amount in one column only (each column in turn), 3 amounts"), nmax * (nmax + 1) / 2 * 4, move |i, cx| {
        let (q, kind) = (i as usize / 4, i as usize % 4);
        let mut len = 1;
        let mut rest = q;
        while rest >= len {
            rest -= len;
            len += 1;
        }
        let col = rest;
        let amount = [7.0, -1200.0, 0.25][q % 3];
        let mut b = empty_book();
        let (x, y, z) = (BS[q % BS.len()].0, PL[q % PL.len()].0, CF[q % CF.len()].0);
        for j in 0..len {
            let own = |v: f64| if j == col { amount } else { v };
            let s = dt(1990, 3, 31) + Duration::days(if kind == 1 { 365 } else { 91 } * j as i64);
            let e = s + Duration::days(if kind == 1 || kind == 3 && j % 4 == 0 { 365 } else { 91 });
            let mut m = BsMap::from([(x, own(0.0))]);
            let mut p = PlMap::from([(y, own(0.0))]);
            let mut c = CfMap::from([(z, own(0.0))]);
            if (j + q) % 2 == 0 && j != col {
                m = BsMap::new();
                p = PlMap::new();
                c = CfMap::new();
            }
            if q % 3 == 1 {
                m.calc_elements();
                p.calc_elements();
                c.calc_elements();
            }
            b.balance_sheet.insert(s, m);
            if kind > 0 {
                b.profit_loss.insert((s, e), p);
                b.cash_flow.insert((s, e), c);
                b.others.insert((s, e), FinOthersMap::from([(FinOthersTyp::CorporateTaxRate, own(0.0)), (FinOthersTyp::RevenueTaxRate, 0.0)]));
            }
        }
        render(&b, &[SEPS[q % 4]], &[1.0], cx)?;
        cx.sample(|| format!("{x:?}, {y:?} and {z:?} = {amount} in column {col} of {len}"));
        Ok(())
    })
}

fn far_valuations(t: bool) -> Task {
    let lens: Vec<usize> = if t { (0..=120).collect() } else { (0..=40).collect() };
    let n = lens.len();
    let t0s: Vec<f64> = (-60..=60).map(|j| j as f64 * 2.5 + 0.1).chain([-500.0, 500.0, 1e3]).collect();
    fam("far-valuations", &format!("{n} numbers of flows in 5 spacings x {} valuation times from -500 to 1000, before, among and after the flows, x 14 rates (growth up to e^600)", t0s.len()), n * 5, move |i, cx| {
        let (len, sp) = (lens[i as usize % n], i as usize / n);
        let step = [1.0, 0.25, 1.0 / 12.0, -2.0, 7.5][sp];
        let tm: Vec<f64> = (0..len).map(|j| step * j as f64).collect();
        let c: Vec<f64> = (0..len).map(|j| [100.0, -40.0, 7.5, 0.0, 1e4, -1e-2][(j + len) % 6]).collect();
        for &t0 in &t0s {
            for r in [0.05, 0.0, -0.02, 0.1, 0.2, 0.5, 1.0, 3.0, -0.3, -0.6, 1e-6, -1e-6, 0.0725, 0.01] {
                let (mut w, mut a): (f64, f64) = (0.0, 0.0);
                for (x, y) in tm.iter().zip(&c) {
                    let v = y * ((t0 - x) * f64::ln_1p(r)).exp();
                    w += v;
                    a += v.abs();
                }
                // the library's factors (1+r)^t0 and (1+r)^t stay in the range of floats
                if !(a < 1e250) || (t0.abs() + step.abs() * len as f64) * f64::ln_1p(r).abs() > 600.0 {
                    continue;
                }
                let g = npv(r, &tm, t0, &c);
                cx.state();
                cx.step();
                ensure!((g - w).abs() <= 1e-10 * a + 1e-290, "npv({r}) at {t0} of {len} flows {step} apart = {g}, expected {w}");
                cx.outf(g);
            }
        }
        cx.trace();
        cx.sample(|| format!("{len} flows, {step} apart"));
        Ok(())
    })
}
