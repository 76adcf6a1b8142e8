//! S20: what a book does not hold it neither reports nor accepts.
use crate::books::*;
use crate::engine::*;
use crate::ensure;
use chrono::Duration;
use chrono::naive::NaiveDate as NDt;
use financelib::Period;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

/// Reads and writes of one item at one key, against the stored statements.
fn probe<D: Copy + Ord + Debug, K: Copy + Eq + Hash + Debug>(
    b: &Accounts,
    at: D,
    k: K,
    v: f64,
    calc: bool,
    store: &dyn Fn(&mut Accounts) -> &mut BTreeMap<D, HashMap<K, f64>>,
    get: &dyn Fn(&Accounts) -> f64,
    put: &dyn Fn(&mut Accounts),
    cx: &mut Cx,
) -> R {
    let mut c = b.clone();
    let held = store(&mut c).get(&at).map(|m| *m.get(&k).unwrap_or(&0.0));
    let got = guarded(|| get(b));
    cx.state();
    cx.step();
    cx.trace();
    match held {
        None => ensure!(got.is_err(), "{k:?} of {at:?} reads {:?} though nothing is stored there", got),
        Some(x) => ensure!(got == Ok(x), "{k:?} of {at:?} reads {got:?}, stored {x}"),
    }
    let mut m = b.clone();
    let r = guarded(|| put(&mut m));
    cx.step();
    let mut want = b.clone();
    match store(&mut want).get_mut(&at) {
        Some(s) if !calc => {
            s.insert(k, v);
            ensure!(r.is_ok(), "{k:?} = {v} was refused at {at:?}: {r:?}");
        }
        _ => ensure!(r.is_err(), "{k:?} = {v} was accepted at {at:?}"),
    }
    ensure!(m == want, "putting {k:?} = {v} at {at:?} left another book");
    cx.out(h64((format!("{at:?}{k:?}"), held.map(|x| x.to_bits()), r.is_err())));
    Ok(())
}
fn all_probes(b: &Accounts, ds: &[NDt], ps: &[Period], v: f64, cx: &mut Cx) -> R {
    for &d in ds {
        ensure!(b.valid_date(d) == b.dates.contains(&d), "valid_date({d}) = {}", b.valid_date(d));
        for (k, calc) in [(Cash, false), (MinorityInterests, false), (Goodwill, false), (Assets, true)] {
            probe(b, d, k, v, calc, &|b| &mut b.balance_sheet, &|b| b.get_balance_sheet(d, k), &|b| { b.put_balance_sheet(d, k, v); }, cx)?;
        }
    }
    for &p in ps {
        for (k, calc) in [(OperatingRevenue, false), (TaxDepreciation, false), (EBT, true)] {
            probe(b, p, k, v, calc, &|b| &mut b.profit_loss, &|b| b.get_profit_loss(p, k), &|b| { b.put_profit_loss(p, k, v); }, cx)?;
        }
        for (k, calc) in [(ChangeDebt, false), (CashFlowTaxShield, false), (NetCashFlow, true)] {
            probe(b, p, k, v, calc, &|b| &mut b.cash_flow, &|b| b.get_cash_flow(p, k), &|b| { b.put_cash_flow(p, k, v); }, cx)?;
        }
        let r = guarded(|| b.get_account(p.0, p.1));
        cx.step();
        ensure!(r.as_ref().is_ok_and(|r| r.is_some() == b.profit_loss.contains_key(&p)), "get_account of {p:?}: {r:?}");
    }
    Ok(())
}
pub fn s20(t: bool) -> Prop {
    let d4 = dates4();
    let day = Duration::days(1);
    let ds: Vec<NDt> = d4.iter().flat_map(|d| [*d, *d + day, *d - day]).chain([dt(2019, 4, 1), dt(1999, 3, 31), dt(2021, 3, 30)]).collect();
    let mut ps: Vec<Period> = periods3().to_vec();
    for (a, b) in periods3() {
        ps.extend([(b, a), (a, a), (b, b), (a + day, b), (a, b - day), (a, b + day), (a - day, b)]);
    }
    ps.extend([(d4[0], d4[3]), (d4[0], d4[2]), (d4[2], d4[3])]);
    ps.sort();
    ps.dedup();
    let (ds2, ps2) = (ds.clone(), ps.clone());
    let f1 = fam("readings-and-puts", "books with every presence pattern of 4 sheets and 3 statements of each kind (16x8x8, some of them empty, with and without the dates collected) x every stored date and period, their neighbours by a day, reversed and combined ones x items stored, missing and calculated: get, put, valid_date, get_account", 16 * 64 * 2, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, dates) = (d.n(16), d.n(8), d.n(8), d.n(2));
        let mut b = empty_book();
        for (j, x) in d4.into_iter().enumerate() {
            if bs >> j & 1 == 1 {
                b.balance_sheet.insert(x, if (j + pl + cf) % 4 == 3 { BsMap::new() } else { bs_content(j, [0, 2, 1][(j + pl) % 3]) });
            }
        }
        for (j, x) in periods3().into_iter().enumerate() {
            if pl >> j & 1 == 1 {
                b.profit_loss.insert(x, if (j + bs) % 4 == 3 { PlMap::new() } else { pl_content(j, [0, 2, 1][(j + bs) % 3]) });
            }
            if cf >> j & 1 == 1 {
                b.cash_flow.insert(x, if (j + bs) % 4 == 1 { CfMap::new() } else { cf_content(j, [0, 1, 2][(j + bs) % 3]) });
            }
        }
        if dates == 1 {
            b.set_dates_from_profit_loss();
        }
        all_probes(&b, &ds2, &ps2, [7.5, 0.0, -3e9][i as usize % 3], cx)?;
        cx.sample(|| format!("sheets {bs:04b} profit-and-loss {pl:03b} cash flows {cf:03b}"));
        Ok(())
    });
    let lens: Vec<usize> = (1..=if t { 120 } else { 24 }).chain([40, 64, 100, 128, 257]).collect();
    let nl = lens.len();
    let f2 = fam("long-books", &format!("books of {nl} lengths x {SHAPES} shapes ({SHAPE_TEXT}): every date and period of the book, its neighbours by a day and the reverse"), nl * SHAPES, move |i, cx| {
        let mut d = Dec(i);
        let (&n, shape) = (d.of(&lens), d.n(SHAPES));
        let mut b = big_book(shape, n, 2001, n % 4);
        b.set_dates_from_profit_loss();
        let ds: Vec<NDt> = b.dates.iter().flat_map(|d| [*d, *d + day]).collect();
        let ps: Vec<Period> = b.profit_loss.keys().flat_map(|p| [*p, (p.1, p.0), (p.0 + day, p.1), (p.0, p.1 + day)]).collect();
        let (nd, np) = (ds.len().div_ceil(24), ps.len().div_ceil(24));
        let ds: Vec<NDt> = ds.into_iter().rev().step_by(nd).collect();
        let ps: Vec<Period> = ps.into_iter().rev().step_by(if np % 4 == 0 { np + 1 } else { np }).collect();
        all_probes(&b, &ds, &ps, 12.5, cx)?;
        cx.sample(|| format!("shape {shape} of {n} periods"));
        Ok(())
    });
    // collecting dates
    let d = dates4();
    let al: Vec<Period> = vec![(d[0], d[1]), (d[1], d[2]), (d[1], d[3]), (d[0], d[0]), (d[3], d[3]), (d[1], d[0]), (d[3], d[2]), (d[1] + day, d[1]), (dt(1896, 2, 29), dt(2400, 12, 31)), (dt(1, 1, 1), dt(0, 12, 31))];
    let na = al.len();
    let f3 = fam("collecting-dates", &format!("all {} sets of {na} periods (forward, one-day, backward ones) x no, some and stray dates collected before", 1 << na), (1 << na) * 3, move |i, cx| {
        let (set, start) = (i as usize / 3, i as usize % 3);
        let mut b = empty_book();
        b.dates = [BTreeSet::new(), BTreeSet::from([d[0], d[2]]), BTreeSet::from([dt(1950, 5, 5), dt(2100, 1, 1)])][start].clone();
        b.balance_sheet.insert(dt(2033, 1, 1), BsMap::new());
        b.cash_flow.insert((dt(2031, 1, 1), dt(2032, 1, 1)), CfMap::new());
        for (j, p) in al.iter().enumerate() {
            if set >> j & 1 == 1 {
                b.profit_loss.insert(*p, pl_content(j, 0));
            }
        }
        let mut m = b.clone();
        let r = guarded(|| { m.set_dates_from_profit_loss(); });
        cx.state();
        cx.step();
        cx.trace();
        let backward = b.profit_loss.keys().any(|p| p.0 > p.1);
        ensure!(r.is_err() == backward, "collecting the dates of {:?}: {r:?}", b.profit_loss.keys());
        if !backward {
            let mut w = b.clone();
            for (x, y) in b.profit_loss.keys() {
                w.dates.extend([*x, *y]);
            }
            ensure!(m == w, "dates collected from {:?} over {:?}: {:?}", b.profit_loss.keys(), b.dates, m.dates);
        }
        cx.out(h64(format!("{:?}", m.dates)));
        cx.sample(|| format!("{:?}", b.profit_loss.keys()));
        Ok(())
    });
    let f4 = fam("missing-rates", "books with every pattern of sheets (16) and other figures (8) over three periods x 6 contents (profit, every item, stale subtotals, loss, empty, zeros): tax and cash flows where a period they concern has no other figures; reports without other figures or profit-and-loss; assembling without a profit-and-loss", 16 * 8 * 8 * 6, move |i, cx| {
        let mut dd = Dec(i);
        let (bs, pl, ot, var) = (dd.n(16), dd.n(8), dd.n(8), dd.n(6));
        let mut b = empty_book();
        for (j, x) in d.into_iter().enumerate() {
            if bs >> j & 1 == 1 {
                b.balance_sheet.insert(x, if var == 4 { BsMap::new() } else { bs_content(j, var % 3) });
            }
        }
        for (j, x) in periods3().into_iter().enumerate() {
            if pl >> j & 1 == 1 {
                b.profit_loss.insert(x, match var {
                    3 => PlMap::from([(OperatingRevenue, 100.0), (Salaries, 900.0 + j as f64)]),
                    4 => PlMap::new(),
                    5 => PlMap::from([(OperatingRevenue, 0.0), (InterestExpense, 0.0)]),
                    v => pl_content(j, v),
                });
            }
            if ot >> j & 1 == 1 {
                b.others.insert(x, rates(0.3, 0.1, 0.01));
            }
        }
        let lacking = |need_sheets: bool| b.profit_loss.keys().any(|p| !b.others.contains_key(p) && (!need_sheets || (b.balance_sheet.contains_key(&p.0) && b.balance_sheet.contains_key(&p.1))));
        let r = guarded(|| { b.clone().calc_tax(); });
        cx.state();
        cx.steps(2);
        cx.trace();
        ensure!(r.is_err() == lacking(false), "tax of {:?} with rates for {:?}: {r:?}", b.profit_loss.keys(), b.others.keys());
        let r = guarded(|| { b.clone().calc_cash_flow(); });
        ensure!(r.is_err() == lacking(true), "cash flows of {:?} over sheets of {:?} with rates for {:?}: {r:?}", b.profit_loss.keys(), b.balance_sheet.keys(), b.others.keys());
        for p in periods3() {
            let Some(rep) = b.get_account(p.0, p.1) else { continue };
            for without in [false, true] {
                let mut x = rep.clone();
                if without {
                    x.profit_loss = None;
                }
                let r = guarded(|| { x.clone().calc_elements(); });
                cx.steps(2);
                ensure!(r.is_err() == (without || rep.others.is_none()), "recalculating a report (profit-and-loss {}, other figures {}): {r:?}", !without, rep.others.is_some());
                let (b0, b1, pl, cf, fo) = x.to_statements();
                let r = guarded(|| FinancialReport::from_statements(&b0, &b1, &pl, &cf, &fo));
                if without {
                    ensure!(r.is_err(), "a report was assembled without a profit-and-loss");
                } else {
                    ensure!(r == Ok(Some(x)), "reassembled as {r:?}");
                }
            }
        }
        cx.out(i);
        cx.sample(|| format!("sheets {bs:04b} profit-and-loss {pl:03b} rates {ot:03b} contents {var}"));
        Ok(())
    });
    Prop { id: "S20", assumptions: vec!["a refusal is a panic; what a refused whole-book operation did before refusing is not judged"], tasks: vec![f1, f2, f3, f4] }
}
