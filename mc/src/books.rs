//! Books of accounts: operations, reports, periods, storage, rendering.
use crate::engine::*;
use crate::ensure;
use crate::refm::*;
use chrono::naive::NaiveDate as NDt;
use chrono::{Datelike, Duration};
use financelib::statements::BsType::{self, *};
use financelib::statements::CfType::{self, *};
use financelib::statements::FinOthersTyp::{self, *};
use financelib::statements::PlType::{self, *};
use financelib::statements::*;
use financelib::{Currency, Period};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;

pub fn dt(y: i32, m: u32, d: u32) -> NDt {
    NDt::from_ymd_opt(y, m, d).unwrap()
}
pub fn empty_book() -> Accounts {
    Accounts { currency: Currency::INR, consolidated: true, dates: BTreeSet::new(), balance_sheet: BTreeMap::new(), profit_loss: BTreeMap::new(), cash_flow: BTreeMap::new(), others: BTreeMap::new() }
}
/// The four dates and three periods (two annual ones and a quarter) of the small books.
pub fn dates4() -> [NDt; 4] {
    [dt(2019, 3, 31), dt(2020, 3, 31), dt(2020, 6, 30), dt(2021, 3, 31)]
}
pub fn periods3() -> [Period; 3] {
    let d = dates4();
    [(d[0], d[1]), (d[1], d[2]), (d[1], d[3])]
}
/// Contents of the n-th balance sheet; different for every date.
pub fn bs_content(n: usize, var: usize) -> BsMap {
    let x = n as f64;
    match var {
        0 => BsMap::from([(Cash, 100.0 + 10.0 * x), (PlantPropertyEquipment, 900.0 + 50.0 * x * x), (AccumulatedDepreciation, 80.0 * x), (CurrentPayables, 120.0 - 7.0 * x), (LongTermBorrowings, 400.0 - 25.0 * x), (RetainedEarnings, 480.0 + 33.0 * x)]),
        1 => BS.iter().enumerate().map(|(i, b)| (b.0, 50.0 + 3.5 * i as f64 + x * ((i % 7) as f64 - 2.0))).collect(),
        // subtotals that do not belong, and small amounts
        _ => BsMap::from([(Cash, 5.0 + x), (Assets, 1e6 + x), (Inventories, -40.0), (BalanceSheetCheck, 3.0), (Goodwill, 9e-6), (CommonStock, 12.5 * x), (MinorityInterests, -3.0)]),
    }
}
pub fn pl_content(n: usize, var: usize) -> PlMap {
    let x = n as f64;
    match var {
        0 => PlMap::from([(OperatingRevenue, 1000.0 + 70.0 * x), (CostMaterial, 500.0 + 20.0 * x), (Salaries, 90.0), (Depreciation, 60.0 + x), (InterestExpense, 25.0 + 2.0 * x), (TaxesCurrent, 40.0)]),
        1 => PL.iter().chain(&PL_EXTRA).enumerate().map(|(i, b)| (b.0, 20.0 + 2.5 * i as f64 + x * ((i % 5) as f64 - 1.0))).collect(),
        _ => PlMap::from([(OperatingRevenue, 300.0 - 400.0 * x), (EBT, 777.0), (Revenue, -5.0), (GainsLossesSales, 61.0), (SalesAmountPPE, 40.0 + x), (AccAmortSalesPPE, 3.0), (CostDebt, 11.0), (Dividends, 8e-6)]),
    }
}
pub fn cf_content(n: usize, var: usize) -> CfMap {
    let x = n as f64;
    match var {
        0 => CfMap::from([(ChangePPE, 300.0 + x), (DonorContribution, 12.0), (CashFlowTaxShield, 4.0)]),
        1 => CF.iter().enumerate().map(|(i, b)| (b.0, 10.0 + i as f64 * (1.0 + x))).collect(),
        _ => CfMap::from([(NetCashFlow, 99.0), (AdjustmentsRetainedEarnings, -45.0), (FreeCashFlowFirm, 1.0 + x), (ChangeDebt, 4e-6)]),
    }
}
pub fn rates(ct: f64, gt: f64, rt: f64) -> FinOthersMap {
    FinOthersMap::from([(CorporateTaxRate, ct), (GrossProfitTaxRate, gt), (RevenueTaxRate, rt)])
}

pub const ALL_CURRENCIES: [Currency; 8] = [Currency::INR, Currency::USD, Currency::NGN, Currency::EUR, Currency::GBP, Currency::CNY, Currency::MZN, Currency::ZAR];
pub const SHAPES: usize = 8;
pub const SHAPE_TEXT: &str = "years to 31 March, quarters, years and quarters together, months from the 1st, years to the end of February, days, decades, years with one sheet in three missing";
/// A long book: `n` periods of one of eight shapes from the year `y0` on.
pub fn big_book(shape: usize, n: usize, y0: i32, var: usize) -> Accounts {
    let month = |m: i32, day: u32| {
        let (y, m) = (y0 + m.div_euclid(12), m.rem_euclid(12) as u32 + 1);
        dt(y, m, day.min(month_len(y, m)))
    };
    let at = |j: usize| -> NDt {
        let j = j as i32;
        match shape {
            1 | 2 => month(2 + 3 * j, 31),
            3 => month(j, 1),
            4 => month(1 + 12 * j, 31),
            5 => dt(y0, 1, 1) + Duration::days(j as i64),
            6 => month(2 + 120 * j, 31),
            _ => month(2 + 12 * j, 31),
        }
    };
    let mut ps: Vec<Period> = (0..n).map(|j| (at(j), at(j + 1))).collect();
    if shape == 2 {
        ps.extend((0..n / 4).map(|j| (at(4 * j), at(4 * j + 4))));
    }
    let mut b = empty_book();
    b.currency = ALL_CURRENCIES[(n + 3 * shape + var) % 8];
    b.consolidated = (n + shape + var) % 2 == 0;
    for j in 0..=n {
        if n > 0 && (shape != 7 || j % 3 != 1) {
            b.balance_sheet.insert(at(j), bs_content(j, [0, 1, 0, 2][(j + var) % 4]));
        }
    }
    for (j, p) in ps.into_iter().enumerate() {
        b.profit_loss.insert(p, pl_content(j, [0, 1, 0, 2][(j + var) % 4]));
        b.others.insert(p, rates([0.3, 0.1, 0.25, 0.0, 0.45][j % 5], [0.0, 0.02, 0.1][j % 3], [0.0, 0.01, 0.3, 0.05][j % 4]));
        if (j + var) % 3 != 2 {
            b.cash_flow.insert(p, cf_content(j, [0, 1, 2][j % 3]));
        }
    }
    b
}

pub const ODD_KINDS: usize = 6;
pub const ODD: usize = 15 * 15 * 32 * ODD_KINDS * 3;
pub const ODD_TEXT: &str = "books over five dates of which three are neighbouring days and two a year later: every pair of profit-and-loss periods out of all fifteen (one-day ones included) x every set of balance sheets x 6 contents (distinct, the same on every date, empty, zeros, subtotals only, every item) x cash flows none, of the first period, of a foreign one";
pub fn odd_dates() -> [NDt; 5] {
    [dt(2020, 2, 28), dt(2020, 2, 29), dt(2020, 3, 1), dt(2021, 2, 28), dt(2021, 3, 1)]
}
pub fn odd_periods() -> Vec<Period> {
    let d = odd_dates();
    (0..5).flat_map(|i| (i..5).map(move |j| (d[i], d[j]))).collect()
}
/// Other figures are left out. None where the same book has another number.
pub fn odd_book(i: u64) -> Option<Accounts> {
    let mut d = Dec(i);
    let (kind, sheets, x, y, cf) = (d.n(ODD_KINDS), d.n(32), d.n(15), d.n(15), d.n(3));
    if x > y {
        return None;
    }
    let ps = odd_periods();
    let mut b = empty_book();
    b.currency = ALL_CURRENCIES[(x + y + sheets) % 8];
    b.consolidated = (x + y) % 2 == 0;
    for (j, dt) in odd_dates().into_iter().enumerate().filter(|q| sheets >> q.0 & 1 == 1) {
        b.balance_sheet.insert(dt, match kind {
            0 => bs_content(j, 0),
            1 => bs_content(0, 0),
            2 => BsMap::new(),
            3 => BsMap::from([(Cash, 0.0), (CommonStock, 0.0)]),
            4 => BsMap::from([(Assets, 5.0 + j as f64), (Equity, 3.0)]),
            _ => bs_content(j, 1),
        });
    }
    for q in [x, y] {
        b.profit_loss.insert(ps[q], match kind {
            0 => pl_content(q, 0),
            1 => pl_content(0, 0),
            2 => PlMap::new(),
            3 => PlMap::from([(OperatingRevenue, 0.0), (InterestExpense, 0.0)]),
            4 => PlMap::from([(EBT, 7.0), (Revenue, 4.0 + q as f64)]),
            _ => pl_content(q, 1),
        });
    }
    let c = match cf {
        0 => return Some(b),
        1 => ps[x],
        _ => ps[(x + 1) % 15],
    };
    b.cash_flow.insert(c, match kind {
        0 => cf_content(x, 0),
        1 => cf_content(0, 0),
        2 => CfMap::new(),
        3 => CfMap::from([(ChangeDebt, 0.0)]),
        4 => CfMap::from([(NetCashFlow, 9.0)]),
        _ => cf_content(x, 1),
    });
    Some(b)
}

/// Wrong amounts on every subtotal of every statement.
pub fn stale_book(b: &mut Accounts) {
    let v = |i: usize, j: usize| 3e4 * (i as f64 + 1.0) - 1e4 * j as f64;
    for (j, m) in b.balance_sheet.values_mut().enumerate() {
        m.extend(BS_CALC.into_iter().enumerate().map(|(i, c)| (c, v(i, j))));
    }
    for (j, m) in b.profit_loss.values_mut().enumerate() {
        m.extend(PL_CALC.into_iter().enumerate().map(|(i, c)| (c, v(i, j))));
    }
    for (j, m) in b.cash_flow.values_mut().enumerate() {
        m.extend(CF_CALC.into_iter().enumerate().map(|(i, c)| (c, v(i, j))));
    }
}

// ---------------------------------------------------------------- S06 (puts into books)
/// NaN told by a number, so that books can be compared.
fn number(b: &mut Accounts) {
    let one = |v: &mut f64| {
        if v.is_nan() {
            *v = 4.2424e199;
        }
    };
    b.balance_sheet.values_mut().for_each(|m| m.values_mut().for_each(one));
    b.profit_loss.values_mut().for_each(|m| m.values_mut().for_each(one));
    b.cash_flow.values_mut().for_each(|m| m.values_mut().for_each(one));
}
pub fn put_rejections() -> Task {
    let (cb, cp, cc) = (Chart::<BsK>::new(), Chart::<PlK>::new(), Chart::<CfK>::new());
    let (nb, np, nc) = (cb.leaves.len() + 12, cp.leaves.len() + 13, cc.leaves.len() + 7);
    let mut base = empty_book();
    for (i, d) in dates4().into_iter().enumerate() {
        base.balance_sheet.insert(d, bs_content(i, i % 3));
    }
    for (i, p) in periods3().into_iter().enumerate() {
        base.profit_loss.insert(p, pl_content(i, i));
        base.cash_flow.insert(p, cf_content(i, i));
        base.others.insert(p, rates(0.1, 0.2, 0.3));
    }
    let mut calced = base.clone();
    calced.calc_elements();
    fam("book-puts", "every item of every statement x every date or period of a book (stale and recalculated subtotals) x 8 amounts, 7 odd ones (NaN, infinities, the largest and smallest) and the one it has: put_balance_sheet, put_profit_loss, put_cash_flow", nb + np + nc, move |i, cx| {
        let i = i as usize;
        for b in [&base, &calced] {
            for vi in 0..9 + crate::stmts::ODD.len() {
                let amount = |has: f64| if vi < 9 { [1.0, -2.5, 0.0, 1e-6, 1e12, 1234.5, -1e-9, 3e7, has][vi] } else { crate::stmts::ODD[vi - 9] };
                let mut go = |name: &dyn Fn() -> String, calc: bool, put: &dyn Fn(&mut Accounts), expect: &dyn Fn(&mut Accounts)| -> R {
                    let mut m = b.clone();
                    let r = guarded(|| put(&mut m));
                    cx.state();
                    cx.step();
                    cx.trace();
                    cx.out(h64((name(), r.is_err())));
                    if calc {
                        ensure!(r.is_err(), "{} was accepted for a calculated item", name());
                        ensure!(m == *b, "{} was refused but changed the book", name());
                    } else {
                        ensure!(r.is_ok(), "{} was refused: {}", name(), r.unwrap_err());
                        let mut w = b.clone();
                        expect(&mut w);
                        number(&mut m);
                        number(&mut w);
                        ensure!(m == w, "{} changed more or less than the named amount", name());
                    }
                    Ok(())
                };
                if i < nb {
                    let calc = i >= cb.leaves.len();
                    let k = if calc { cb.calcs[i - cb.leaves.len()] } else { cb.leaves[i] };
                    for d in dates4() {
                        let v = amount(b.balance_sheet[&d].value(k));
                        go(&|| format!("put_balance_sheet({d},{k:?},{v})"), calc, &|m| { m.put_balance_sheet(d, k, v); }, &|w| { w.balance_sheet.get_mut(&d).unwrap().insert(k, v); })?;
                    }
                } else if i < nb + np {
                    let j = i - nb;
                    let calc = j >= cp.leaves.len();
                    let k = if calc { cp.calcs[j - cp.leaves.len()] } else { cp.leaves[j] };
                    for d in periods3() {
                        let v = amount(b.profit_loss[&d].value(k));
                        go(&|| format!("put_profit_loss({d:?},{k:?},{v})"), calc, &|m| { m.put_profit_loss(d, k, v); }, &|w| { w.profit_loss.get_mut(&d).unwrap().insert(k, v); })?;
                    }
                } else {
                    let j = i - nb - np;
                    let calc = j >= cc.leaves.len();
                    let k = if calc { cc.calcs[j - cc.leaves.len()] } else { cc.leaves[j] };
                    for d in periods3() {
                        let v = amount(b.cash_flow[&d].value(k));
                        go(&|| format!("put_cash_flow({d:?},{k:?},{v})"), calc, &|m| { m.put_cash_flow(d, k, v); }, &|w| { w.cash_flow.get_mut(&d).unwrap().insert(k, v); })?;
                    }
                }
            }
        }
        cx.sample(|| format!("item {i}"));
        Ok(())
    })
}

// ---------------------------------------------------------------- S10
fn entered_of<Q: Kind>(ch: &Chart<Q>, m: &Q::M) -> Vec<(Q::K, u64)> {
    Q::items(m).into_iter().filter(|(k, v)| ch.index.contains_key(k) && *v != 0.0).map(|(k, v)| (k, v.to_bits())).collect()
}
pub struct Charts {
    pub b: Chart<BsK>,
    pub p: Chart<PlK>,
    pub c: Chart<CfK>,
}
impl Charts {
    pub fn new() -> Self {
        Charts { b: Chart::new(), p: Chart::new(), c: Chart::new() }
    }
}
/// The same judgement of a book, of the book with every subtotal stale, and of the book recalculated before its last entries.
fn judge_tax_stale(ch: &Charts, book: &Accounts, cx: &mut Cx) -> R {
    judge_tax(ch, book, cx)?;
    let mut b = book.clone();
    stale_book(&mut b);
    judge_tax(ch, &b, cx)?;
    let mut b = book.clone();
    b.calc_elements();
    for pl in b.profit_loss.values_mut() {
        *pl.entry(OperatingRevenue).or_insert(0.0) += 250.0;
        *pl.entry(Salaries).or_insert(0.0) += 75.0;
    }
    judge_tax(ch, &b, cx)?;
    let mut b = book.clone();
    b.calc_tax();
    for pl in b.profit_loss.values_mut() {
        *pl.entry(InterestExpense).or_insert(0.0) += 40.0;
    }
    judge_tax(ch, &b, cx)
}
/// Run calc_tax and judge it: the charges, and that nothing else entered moved.
fn judge_tax(ch: &Charts, book: &Accounts, cx: &mut Cx) -> R {
    let mut g = book.clone();
    g.calc_tax();
    cx.state();
    cx.step();
    cx.trace();
    ensure!(g.dates == book.dates && g.others == book.others && g.currency == book.currency && g.consolidated == book.consolidated, "calc_tax changed dates, rates or flags");
    ensure!(g.balance_sheet.keys().eq(book.balance_sheet.keys()) && g.profit_loss.keys().eq(book.profit_loss.keys()) && g.cash_flow.keys().eq(book.cash_flow.keys()), "calc_tax changed the set of statements");
    for (p, pl) in &book.profit_loss {
        let o = &book.others[p];
        let r = |k: FinOthersTyp| o.get(&k).copied().unwrap_or(0.0);
        let w = tax_charge(pl, r(CorporateTaxRate), r(GrossProfitTaxRate), r(RevenueTaxRate));
        let got = g.profit_loss[p].value(TaxesCurrent);
        let gross: f64 = pl.iter().filter(|x| ch.p.index.contains_key(x.0)).map(|x| x.1.abs()).sum();
        cx.outf(got);
        ensure!((got - w).abs() <= 1e-13 * gross + 1e-12 + if pl.values().any(|v| *v != 0.0 && v.abs() < 1e-3) { 6e-5 } else { 0.0 }, "tax for {p:?} is {got}, expected {w} at rates {o:?} from {:?}", PlK::items(pl));
        let strip = |m: &PlMap| entered_of(&ch.p, m).into_iter().filter(|x| x.0 != TaxesCurrent).collect::<Vec<_>>();
        ensure!(strip(pl) == strip(&g.profit_loss[p]), "calc_tax changed entered items of {p:?}: {:?} to {:?}", PlK::items(pl), PlK::items(&g.profit_loss[p]));
    }
    for (d, b) in &book.balance_sheet {
        ensure!(entered_of(&ch.b, b) == entered_of(&ch.b, &g.balance_sheet[d]), "calc_tax changed entered accounts at {d}");
    }
    for (d, c) in &book.cash_flow {
        ensure!(entered_of(&ch.c, c) == entered_of(&ch.c, &g.cash_flow[d]), "calc_tax changed entered cash-flow items at {d:?}");
    }
    let mut g2 = g.clone();
    g2.calc_tax();
    cx.step();
    for (p, pl) in &g.profit_loss {
        let (a, b) = (pl.value(TaxesCurrent), g2.profit_loss[p].value(TaxesCurrent));
        ensure!((a - b).abs() <= 1e-9 + 1e-12 * a.abs(), "calculating tax again moves it from {a} to {b}");
    }
    Ok(())
}
pub fn s10(thorough: bool) -> Prop {
    let mut rt = vec![];
    for ct in [0.3, 0.0, 0.1, 1.0, 0.25] {
        for gt in [0.0, 0.02, 0.5] {
            for mt in [0.0, 0.01, 0.4, 0.15] {
                rt.push((ct, gt, mt));
            }
        }
    }
    let nr = rt.len();
    let revs: [f64; 5] = [1000.0, 0.0, 50.0, 1e9, -200.0];
    let costs = [600.0, 0.0, 950.0, 2000.0];
    let deps: [(Option<f64>, Option<f64>); 7] = [(None, None), (Some(50.0), None), (Some(50.0), Some(80.0)), (Some(120.0), Some(0.0)), (None, Some(300.0)), (Some(900.0), Some(20.0)), (Some(0.0), Some(-40.0))];
    let prior: [(Option<f64>, bool); 6] = [(None, false), (Some(77.0), false), (Some(-500.0), true), (Some(0.0), true), (None, true), (Some(1e7), false)];
    let per = revs.len() * costs.len() * deps.len() * prior.len();
    let mk = move |q: usize| -> PlMap {
        let mut d = Dec(q as u64 % per as u64);
        let (&rv, &co, &(dep, td), &(pt, stale)) = (d.of(&revs), d.of(&costs), d.of(&deps), d.of(&prior));
        let sc = if rv.abs() > 1e8 { 1e6 } else { 1.0 };
        let mut pl = PlMap::from([(OperatingRevenue, rv), (CostMaterial, co * sc), (Salaries, 31.0 * sc), (InterestExpense, 21.0 * sc), (TaxesDeferred, 5.0), (ExtraordinaryItems, -3.0)]);
        if let Some(x) = dep {
            pl.insert(Depreciation, x * sc);
        }
        if let Some(x) = td {
            pl.insert(TaxDepreciation, x * sc);
        }
        if let Some(x) = pt {
            pl.insert(TaxesCurrent, x);
        }
        if stale {
            for (i, c) in PL_CALC.into_iter().enumerate() {
                pl.insert(c, 1e5 * (i as f64 + 1.0));
            }
        }
        pl
    };
    let rt2 = rt.clone();
    let shifts: Vec<usize> = if thorough { vec![1, 7, 13, 29] } else { vec![7] };
    let grid = fam("books", &format!("three-period books: {nr} rate triples x {per} profit-and-loss patterns, each book also with all subtotals stale, entered into after a recalculation and after an earlier tax calculation (revenue, cost, depreciation and tax depreciation absent/zero/present, earlier tax and stale subtotals) in the first period, other patterns and other rates in the others"), nr * per, move |i, cx| {
        let ch = Charts::new();
        let (r, q) = (i as usize % nr, i as usize / nr);
        for &s in &shifts {
            let mut b = empty_book();
            b.balance_sheet.insert(dates4()[0], bs_content(0, 1));
            b.balance_sheet.insert(dates4()[3], bs_content(1, 2));
            b.cash_flow.insert(periods3()[1], cf_content(0, q % 3));
            for (j, p) in periods3().into_iter().enumerate() {
                let j = (j + q) % 3;
                b.profit_loss.insert(p, mk(q + j * s * 31));
                let (x, y, z) = rt2[(r + j * s) % nr];
                let mut o = rates(x, y, z);
                if j == 2 && q % 4 == 3 {
                    o.remove(&[CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate][q / 4 % 3]);
                }
                b.others.insert(p, o);
            }
            judge_tax_stale(&ch, &b, cx)?;
            if q % 5 == 0 {
                // rates of periods the book does not have are nobody's business
                b.others.insert((dates4()[0], dates4()[3]), rates(0.9, 0.9, 0.9));
                judge_tax_stale(&ch, &b, cx)?;
            }
        }
        cx.sample(|| format!("rates {:?}, pattern {:?}", rt2[r], mk(q)));
        Ok(())
    });
    let leaves = PlK::leaves();
    let n = leaves.len();
    let items = fam("items", "every pair of profit-and-loss items x 4x4 amounts x 3 rate triples, alone and on a full statement", n * n, move |i, cx| {
        let ch = Charts::new();
        let (a, b) = (leaves[i as usize / n], leaves[i as usize % n]);
        for x in [100.0, -40.0, 2e6, 0.0] {
            for y in [7.5, -900.0, 1e5, 0.0] {
                for (j, r) in [(0.3, 0.1, 0.0), (0.2, 0.0, 0.05), (0.0, 0.5, 0.2)].into_iter().enumerate() {
                    let mut bk = empty_book();
                    let mut full = pl_content(j, 1);
                    full.insert(a, x);
                    full.insert(b, y);
                    bk.profit_loss.insert(periods3()[j], PlMap::from([(a, x), (b, y)]));
                    bk.profit_loss.insert(periods3()[(j + 1) % 3], full);
                    bk.others.insert(periods3()[j], rates(r.0, r.1, r.2));
                    bk.others.insert(periods3()[(j + 1) % 3], rates(r.1, r.2, r.0));
                    judge_tax_stale(&ch, &bk, cx)?;
                }
            }
        }
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    });
    let nmax = if thorough { 200 } else { 60 };
    let long = fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) x 4 contents, every period with its own rates"), (nmax + 1) * SHAPES * 4, move |i, cx| {
        let mut d = Dec(i);
        let (shape, var, n) = (d.n(SHAPES), d.n(4), d.n(nmax + 1));
        let b = big_book(shape, n, 1950 + var as i32 * 40, var);
        judge_tax_stale(&Charts::new(), &b, cx)?;
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    });
    let sz = crate::stmts::sizes();
    let nl = PlK::leaves().len();
    let amounts = fam("amounts", &format!("every profit-and-loss item x {} amounts from 1e-12 to 1e18, alone and on a full statement, at 2 rate triples", sz.len()), nl * sz.len(), move |i, cx| {
        let ch = Charts::new();
        let mut d = Dec(i);
        let (k, &v) = (ch.p.leaves[d.n(nl)], d.of(&sz));
        let mut b = empty_book();
        let mut full = pl_content(1, 1);
        full.insert(k, v);
        b.profit_loss.insert(periods3()[0], PlMap::from([(k, v)]));
        b.profit_loss.insert(periods3()[1], full);
        b.others.insert(periods3()[0], rates(0.3, 0.1, 0.02));
        b.others.insert(periods3()[1], rates(0.2, 0.0, 0.3));
        b.currency = ALL_CURRENCIES[i as usize % 8];
        judge_tax_stale(&ch, &b, cx)?;
        cx.sample(|| format!("{k:?} = {v}"));
        Ok(())
    });
    let rg: Vec<f64> = (0..=40).map(|q| q as f64 * 0.025).chain([0.333, 0.001, 1e-4, 0.0725, 0.999, 1.2, 2.0]).collect();
    let nr2 = rg.len();
    let fine = fam("rates", &format!("{nr2}^3 rate triples (steps of 2.5% from 0 to 100%, odd and large ones) x 3 statements"), nr2 * nr2 * nr2, move |i, cx| {
        let ch = Charts::new();
        let mut d = Dec(i);
        let r = (*d.of(&rg), *d.of(&rg), *d.of(&rg));
        let mut b = empty_book();
        for (j, p) in periods3().into_iter().enumerate() {
            let mut pl = PlMap::from([(OperatingRevenue, 1000.0), (CostMaterial, [300.0, 700.0, 1500.0][j]), (Salaries, 100.0), (Depreciation, 60.0), (InterestExpense, 45.0)]);
            if j == 1 {
                pl.insert(TaxDepreciation, 90.0);
            }
            b.profit_loss.insert(p, pl);
            b.others.insert(p, rates(r.0, r.1, r.2));
        }
        judge_tax_stale(&ch, &b, cx)?;
        cx.sample(|| format!("{r:?}"));
        Ok(())
    });
    Prop { id: "S10", assumptions: vec!["every period of the book has its rates (a missing single rate counts as zero)"], tasks: vec![grid, items, long, amounts, fine] }
}

// ---------------------------------------------------------------- S12
/// A plain statement of the model: entered amounts and stored subtotals.
#[derive(Clone, Debug)]
struct Led<Q: Kind> {
    ent: BTreeMap<Q::K, f64>,
    sub: BTreeMap<Q::K, f64>,
}
impl<Q: Kind> Led<Q> {
    fn of(ch: &Chart<Q>, m: &Q::M) -> Self {
        let mut l = Led { ent: BTreeMap::new(), sub: BTreeMap::new() };
        for (k, v) in Q::items(m) {
            if ch.index.contains_key(&k) { l.ent.insert(k, v) } else { l.sub.insert(k, v) };
        }
        l
    }
    fn map(&self) -> Q::M {
        Q::map(&self.ent.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>())
    }
    fn fresh(&self, ch: &Chart<Q>) -> BTreeMap<Q::K, f64> {
        let (t, _) = ch.totals(&self.map());
        ch.calcs.iter().zip(t).filter(|x| x.1.abs() > 1e-5).map(|(k, v)| (*k, v)).collect()
    }
    fn calc(&mut self, ch: &Chart<Q>) {
        self.sub = self.fresh(ch);
    }
    fn is_fresh(&self, ch: &Chart<Q>) -> bool {
        let f = self.fresh(ch);
        ch.calcs.iter().all(|k| close(self.sub.get(k).copied().unwrap_or(0.0), f.get(k).copied().unwrap_or(0.0), 1000.0, 1e-11))
    }
    fn strip(&mut self) {
        self.sub.clear();
        self.ent.retain(|_, v| v.abs() > 1e-5);
    }
    fn agree(&self, ch: &Chart<Q>, m: &Q::M, at: &dyn Fn() -> String) -> R {
        for &k in ch.leaves.iter() {
            let (g, w) = (m.value(k), self.ent.get(&k).copied().unwrap_or(0.0));
            ensure!(close(g, w, 1000.0, 1e-12), "{} {k:?} reads {g}, model {w}", at());
        }
        for &k in ch.calcs.iter() {
            let (g, w) = (m.value(k), self.sub.get(&k).copied().unwrap_or(0.0));
            ensure!(close(g, w, 10000.0, 1e-12) || (g - w).abs() < 6e-5, "{} subtotal {k:?} reads {g}, model {w}", at());
        }
        Ok(())
    }
}
#[derive(Clone)]
struct BookState {
    real: Accounts,
    bs: BTreeMap<NDt, Led<BsK>>,
    pl: BTreeMap<Period, Led<PlK>>,
    cf: BTreeMap<Period, Led<CfK>>,
    others: BTreeMap<Period, BTreeMap<FinOthersTyp, f64>>,
    dates: BTreeSet<NDt>,
}
struct Books {
    d: Vec<NDt>,
    p: Vec<Period>,
    ch: Charts,
    names: Vec<String>,
    ops: Vec<Op>,
    inits: Vec<usize>,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    PutBs(usize, BsType, f64),
    PutPl(usize, PlType, f64),
    PutCf(usize, CfType, f64),
    Rates(f64, f64, f64),
    Calc,
    Cash,
    Tax,
    Strip,
    Dates,
}
impl Books {
    fn new(inits: Vec<usize>) -> Self {
        Books::over(dates4().to_vec(), periods3().to_vec(), inits)
    }
    fn over(dates: Vec<NDt>, periods: Vec<Period>, inits: Vec<usize>) -> Self {
        let mut ops = vec![];
        for d in 0..dates.len() {
            for (k, v) in [(Cash, 75.0), (AccumulatedDepreciation, 19.5), (LongTermBorrowings, 0.0), (Goodwill, 4e-6)] {
                ops.push(Op::PutBs(d, k, v));
            }
        }
        for p in 0..periods.len() {
            for (k, v) in [(OperatingRevenue, 640.0), (InterestExpense, 31.0), (SalesAmountPPE, 17.0), (TaxesCurrent, 5.0)] {
                ops.push(Op::PutPl(p, k, v));
            }
            ops.push(Op::PutCf(p, DonorContribution, 8.0));
        }
        ops.extend([Op::Rates(0.0, 0.2, 0.0), Op::Rates(0.3, 0.02, 0.01), Op::Rates(0.1, 0.0, 0.3), Op::Calc, Op::Cash, Op::Tax, Op::Strip, Op::Dates]);
        Books { d: dates, p: periods, ch: Charts::new(), names: ops.iter().map(|o| format!("{o:?}")).collect(), ops, inits }
    }
    /// Presence pattern -> book: 4 sheet bits, 3 profit-and-loss bits, cash flows (none, all, a foreign one), other figures (none, all, foreign and extra).
    fn build(n: usize) -> Accounts {
        let mut d = Dec(n as u64);
        let (bs, pl, cf, ot, var) = (d.n(16), d.n(8), d.n(3), d.n(3), d.n(2));
        let mut b = empty_book();
        if n % 2 == 1 {
            b.currency = Currency::NGN;
            b.consolidated = false;
        }
        for (i, x) in dates4().into_iter().enumerate() {
            if bs >> i & 1 == 1 {
                b.balance_sheet.insert(x, bs_content(i, var * 2));
            }
        }
        let foreign = (dates4()[0], dates4()[3]);
        for (i, x) in periods3().into_iter().enumerate() {
            if pl >> i & 1 == 1 {
                b.profit_loss.insert(x, pl_content(i, var * 2));
            }
            if cf == 1 {
                b.cash_flow.insert(x, cf_content(i, var * 2));
            }
            if ot == 1 {
                b.others.insert(x, rates(0.2 + 0.1 * i as f64, 0.01, 0.05));
            }
        }
        if cf == 2 {
            b.cash_flow.insert(foreign, cf_content(5, 2));
            b.dates.insert(dt(2018, 1, 1));
        }
        if ot == 2 {
            b.others.insert(foreign, FinOthersMap::from([(AcidRatio, 1.5), (CorporateTaxRate, 0.77)]));
            b.others.insert(periods3()[1], FinOthersMap::from([(CurrentRatio, 2.5), (RevenueTaxRate, 0.04)]));
        }
        b
    }
    fn start(&self, real: Accounts) -> BookState {
        BookState {
            bs: real.balance_sheet.iter().map(|(d, m)| (*d, Led::of(&self.ch.b, m))).collect(),
            pl: real.profit_loss.iter().map(|(d, m)| (*d, Led::of(&self.ch.p, m))).collect(),
            cf: real.cash_flow.iter().map(|(d, m)| (*d, Led::of(&self.ch.c, m))).collect(),
            others: real.others.iter().map(|(d, m)| (*d, m.iter().map(|x| (*x.0, *x.1)).collect())).collect(),
            dates: real.dates.clone(),
            real,
        }
    }
    fn judge(&self, s: &BookState, cx: &mut Cx) -> R {
        let r = &s.real;
        ensure!(r.balance_sheet.keys().eq(s.bs.keys()), "balance sheets at {:?}, model {:?}", r.balance_sheet.keys(), s.bs.keys());
        ensure!(r.profit_loss.keys().eq(s.pl.keys()), "profit-and-loss for {:?}, model {:?}", r.profit_loss.keys(), s.pl.keys());
        ensure!(r.cash_flow.keys().eq(s.cf.keys()), "cash flows for {:?}, model {:?}", r.cash_flow.keys(), s.cf.keys());
        ensure!(r.others.keys().eq(s.others.keys()), "other figures for {:?}, model {:?}", r.others.keys(), s.others.keys());
        ensure!(r.dates == s.dates, "dates {:?}, model {:?}", r.dates, s.dates);
        for (d, l) in &s.bs {
            l.agree(&self.ch.b, &r.balance_sheet[d], &|| format!("sheet at {d}"))?;
        }
        for (d, l) in &s.pl {
            l.agree(&self.ch.p, &r.profit_loss[d], &|| format!("profit-and-loss {d:?}"))?;
        }
        for (d, l) in &s.cf {
            l.agree(&self.ch.c, &r.cash_flow[d], &|| format!("cash flow {d:?}"))?;
        }
        for (d, l) in &s.others {
            let g: BTreeMap<FinOthersTyp, f64> = r.others[d].iter().map(|x| (*x.0, *x.1)).collect();
            ensure!(g == *l, "other figures of {d:?}: {g:?}, model {l:?}");
        }
        for &d in &self.d {
            ensure!(r.valid_date(d) == s.dates.contains(&d), "valid_date({d}) = {}", r.valid_date(d));
            cx.step();
        }
        // the readers of the book itself
        for (d, l) in &s.bs {
            for (k, v) in l.ent.iter().take(2).chain(l.sub.iter().take(2)) {
                let g = r.get_balance_sheet(*d, *k);
                ensure!(close(g, *v, 10000.0, 1e-12) || (g - v).abs() < 6e-5, "get_balance_sheet({d},{k:?}) = {g}, model {v}");
                cx.step();
            }
        }
        for (d, l) in &s.pl {
            for (k, v) in l.ent.iter().take(2).chain(l.sub.iter().take(2)) {
                let g = r.get_profit_loss(*d, *k);
                ensure!(close(g, *v, 10000.0, 1e-12) || (g - v).abs() < 6e-5, "get_profit_loss({d:?},{k:?}) = {g}, model {v}");
                cx.step();
            }
            ensure!(l.ent.contains_key(&TaxDepreciation) || r.get_profit_loss(*d, TaxDepreciation) == 0.0, "a missing item reads non-zero");
        }
        for (d, l) in &s.cf {
            for (k, v) in l.ent.iter().take(2).chain(l.sub.iter().take(2)) {
                let g = r.get_cash_flow(*d, *k);
                ensure!(close(g, *v, 10000.0, 1e-12) || (g - v).abs() < 6e-5, "get_cash_flow({d:?},{k:?}) = {g}, model {v}");
                cx.step();
            }
        }
        Ok(())
    }
}
impl Sys for Books {
    type S = BookState;
    fn init(&self) -> Vec<BookState> {
        self.inits.iter().map(|&n| self.start(Books::build(n))).collect()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn op_name(&self, op: usize) -> String {
        self.names[op].clone()
    }
    fn step(&self, s0: &BookState, op: usize, cx: &mut Cx) -> Result<Option<BookState>, String> {
        let (d4, p3) = (&self.d, &self.p);
        // enabled?
        match self.ops[op] {
            Op::PutBs(d, _, _) if !s0.bs.contains_key(&d4[d]) => return Ok(None),
            Op::PutPl(p, _, _) if !s0.pl.contains_key(&p3[p]) => return Ok(None),
            Op::PutCf(p, _, _) if !s0.cf.contains_key(&p3[p]) => return Ok(None),
            Op::Tax if s0.pl.keys().any(|p| !s0.others.contains_key(p)) => return Ok(None),
            Op::Cash => {
                for (p, l) in &s0.pl {
                    if s0.bs.contains_key(&p.0) && s0.bs.contains_key(&p.1) {
                        let full = s0.others.get(p).is_some_and(|o| [CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate].iter().all(|k| o.contains_key(k)));
                        if !full || !l.is_fresh(&self.ch.p) {
                            return Ok(None);
                        }
                    }
                }
            }
            _ => {}
        }
        let mut s = s0.clone();
        cx.step();
        match self.ops[op] {
            Op::PutBs(d, k, v) => {
                s.real.put_balance_sheet(d4[d], k, v);
                s.bs.get_mut(&d4[d]).unwrap().ent.insert(k, v);
            }
            Op::PutPl(p, k, v) => {
                s.real.put_profit_loss(p3[p], k, v);
                s.pl.get_mut(&p3[p]).unwrap().ent.insert(k, v);
            }
            Op::PutCf(p, k, v) => {
                s.real.put_cash_flow(p3[p], k, v);
                s.cf.get_mut(&p3[p]).unwrap().ent.insert(k, v);
            }
            Op::Rates(a, b, c) => {
                s.real.set_tax_rates(a, b, c);
                for p in s.pl.keys() {
                    let o = s.others.entry(*p).or_default();
                    o.insert(CorporateTaxRate, a);
                    o.insert(GrossProfitTaxRate, b);
                    o.insert(RevenueTaxRate, c);
                }
            }
            Op::Calc => {
                s.real.calc_elements();
                s.bs.values_mut().for_each(|l| l.calc(&self.ch.b));
                s.pl.values_mut().for_each(|l| l.calc(&self.ch.p));
                s.cf.values_mut().for_each(|l| l.calc(&self.ch.c));
            }
            Op::Cash => {
                s.real.calc_cash_flow();
                for (p, l) in &s.pl {
                    if let (Some(b0), Some(b1)) = (s.bs.get(&p.0), s.bs.get(&p.1)) {
                        let o = &s.others[p];
                        let lines = cash_flow_lines(&b0.map(), &b1.map(), &l.map());
                        let mut ent: BTreeMap<CfType, f64> = lines.into_iter().map(|(k, v)| (k, v.0)).filter(|x| x.1.abs() > 1e-5).collect();
                        ent.insert(CashFlowTaxShield, tax_shield(&l.map(), o[&CorporateTaxRate], o[&GrossProfitTaxRate], o[&RevenueTaxRate]));
                        let mut c = Led { ent, sub: BTreeMap::new() };
                        c.calc(&self.ch.c);
                        s.cf.insert(*p, c);
                    }
                }
            }
            Op::Tax => {
                s.real.calc_tax();
                // the charge follows from fresh figures
                for (p, l) in s.pl.iter_mut() {
                    let o = &s.others[p];
                    let r = |k| o.get(&k).copied().unwrap_or(0.0);
                    let t = tax_charge(&l.map(), r(CorporateTaxRate), r(GrossProfitTaxRate), r(RevenueTaxRate));
                    l.ent.insert(TaxesCurrent, t);
                }
                // whether subtotals are left stale afterwards is not specified: recalculate both
                s.real.calc_elements();
                s.bs.values_mut().for_each(|l| l.calc(&self.ch.b));
                s.pl.values_mut().for_each(|l| l.calc(&self.ch.p));
                s.cf.values_mut().for_each(|l| l.calc(&self.ch.c));
            }
            Op::Strip => {
                s.real.remove_calc_clean();
                s.bs.values_mut().for_each(|l| l.strip());
                s.pl.values_mut().for_each(|l| l.strip());
                s.cf.values_mut().for_each(|l| l.strip());
            }
            Op::Dates => {
                s.real.set_dates_from_profit_loss();
                for p in s.pl.keys() {
                    s.dates.insert(p.0);
                    s.dates.insert(p.1);
                }
            }
        }
        ensure!(s.real.currency == s0.real.currency && s.real.consolidated == s0.real.consolidated, "currency or consolidation flag changed");
        self.judge(&s, cx)?;
        cx.out(h64((op, s.real.cash_flow.len(), s.real.others.len(), s.real.dates.len())));
        cx.sample(|| format!("{} on a book with sheets {:?}, periods {:?}", self.names[op], s.bs.keys(), s.pl.keys()));
        Ok(Some(s))
    }
    fn key(&self, s: &BookState, h: &mut dyn Hasher) {
        fn put<K: std::fmt::Debug + Ord>(h: &mut dyn Hasher, it: impl Iterator<Item = (K, f64)>) {
            let mut v: Vec<_> = it.collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            for (k, x) in v {
                h.write(format!("{k:?}").as_bytes());
                h.write_u64(x.to_bits());
            }
            h.write_u8(0);
        }
        let r = &s.real;
        h.write(format!("{:?}{}{:?}", r.currency, r.consolidated, r.dates).as_bytes());
        for (d, m) in &r.balance_sheet {
            h.write_i32(d.num_days_from_ce());
            put(h, BsK::items(m).into_iter());
        }
        for (d, m) in &r.profit_loss {
            h.write_i32(d.0.num_days_from_ce());
            h.write_i32(d.1.num_days_from_ce());
            put(h, PlK::items(m).into_iter());
        }
        for (d, m) in &r.cash_flow {
            h.write_i32(d.0.num_days_from_ce());
            h.write_i32(d.1.num_days_from_ce());
            put(h, CfK::items(m).into_iter());
        }
        for (d, m) in &r.others {
            h.write_i32(d.0.num_days_from_ce());
            h.write_i32(d.1.num_days_from_ce());
            put(h, m.iter().map(|x| (*x.0, *x.1)));
        }
    }
}
pub fn s12(thorough: bool) -> Prop {
    let all: Vec<usize> = (0..16 * 8 * 3 * 3 * 2).collect();
    let some: Vec<usize> = all.iter().copied().filter(|n| n * 2654435761 % 1000 < if thorough { 60 } else { 12 } || *n == 16 * 8 - 1 + 16 * 8).collect();
    let few: Vec<usize> = vec![16 * 8 - 1, 16 * 8 - 1 + 128, 5 + 16 * 7 + 128 * 2, 11 + 16 * 5 + 128 * 3 + 128 * 9];
    let nops = Books::new(vec![]).ops.len();
    let mut tasks = vec![
        bfs("all-books", &format!("explicit-state search from all {} presence patterns (4 balance-sheet dates, 3 periods, cash flows and other figures absent/present/foreign, 2 contents), {nops} operations, depth 2", all.len()), 2, Books::new(all)),
        bfs("deeper", &format!("explicit-state search from {} of the presence patterns, depth 3", some.len()), 3, Books::new(some)),
    ];
    let nmax = if thorough { 120 } else { 40 };
    tasks.push(fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) through 14 sequences of operations, puts at the first, middle and last date and period among them"), (nmax + 1) * SHAPES * 14, move |i, cx| {
        let mut d = Dec(i);
        let (q, shape, n) = (d.n(14), d.n(SHAPES), d.n(nmax + 1));
        let mut b = big_book(shape, n, 1960 + q as i32 * 9, q % 4);
        if (n + q) % 3 == 0 {
            stale_book(&mut b);
        }
        let pick = |l: usize| if l == 0 { vec![] } else { BTreeSet::from([0, l / 2, l - 1]).into_iter().collect::<Vec<_>>() };
        let (ds, ps): (Vec<NDt>, Vec<Period>) = (b.balance_sheet.keys().copied().collect(), b.profit_loss.keys().copied().collect());
        let sys = Books::over(pick(ds.len()).iter().map(|&j| ds[j]).collect(), pick(ps.len()).iter().map(|&j| ps[j]).collect(), vec![]);
        let g = sys.ops.len() - 7; // Rates, Rates, Calc, Cash, Tax, Strip, Dates
        let seqs: [Vec<usize>; 14] = [
            vec![g, g + 2, g + 3, g + 4, g + 6],
            vec![g + 2, g + 3, g + 5],
            vec![g + 4, g + 3, g + 5],
            vec![g + 5, g + 2, g + 3],
            vec![g + 6, g + 1, g + 4],
            vec![g + 1, g + 5, g + 6],
            vec![g + 2, g + 2, g + 3, g + 3],
            vec![g + 3, g + 5, g + 5],
            vec![g, g + 1, g + 4, g + 4],
            vec![g + 6, g + 6, g + 2],
            (0..g).step_by(5).chain([g + 2, g + 3]).collect(),
            (1..g).step_by(5).chain([g + 4]).collect(),
            (2..g).step_by(5).chain([g + 2]).collect(),
            (3..g).step_by(4).chain([g + 5]).collect(),
        ];
        let mut s = sys.start(b);
        for &o in &seqs[q] {
            match sys.step(&s, o, cx).map_err(|e| format!("{} on a book of {n} periods, shape {shape}: {e}", sys.op_name(o)))? {
                Some(t) => s = t,
                None => continue,
            }
            cx.state();
        }
        cx.state();
        cx.step();
        cx.trace();
        cx.sample(|| format!("{n} periods, shape {shape}, sequence {q}"));
        Ok(())
    }));
    tasks.push(fam("neighbouring-days", &format!("{ODD_TEXT} x other figures none, empty, partial or complete, through one of 5 sequences of operations"), ODD, move |i, cx| {
        let Some(mut b) = odd_book(i) else { return Ok(()) };
        let q = (i / 7) as usize;
        for (j, p) in b.profit_loss.keys().enumerate() {
            match (q + j) % 4 {
                0 => continue,
                1 => b.others.insert(*p, FinOthersMap::new()),
                2 => b.others.insert(*p, FinOthersMap::from([(RevenueTaxRate, 0.3), (AcidRatio, 2.0)])),
                _ => b.others.insert(*p, rates(0.4, 0.3, 0.2)),
            };
        }
        if q % 3 == 0 {
            b.dates.extend([odd_dates()[1], dt(2010, 1, 1)]);
            b.others.insert(odd_periods()[q % 15], FinOthersMap::from([(GrossProfitTaxRate, 0.7)]));
        }
        let sys = Books::over(b.balance_sheet.keys().copied().collect(), b.profit_loss.keys().copied().collect(), vec![]);
        let g = sys.ops.len() - 7; // Rates, Rates, Calc, Cash, Tax, Strip, Dates; before them the rates 0, 20% and 0
        let seq: Vec<usize> = match q % 5 {
            0 => vec![g, g + 2, g + 3, g + 4, g + 3],
            1 => vec![g + 1, g + 2, g + 3, g - 1, g + 3, g + 6],
            2 => vec![g + 5, g, g + 2, g + 3, g + 5],
            3 => vec![g + 6, g - 1, g + 4, g + 2, g + 3],
            _ => (0..g).step_by(3).chain([g - 1, g + 2, g + 3, g, g + 3, g + 5, g + 6]).collect(),
        };
        let mut s = sys.start(b);
        for o in seq {
            if let Some(t) = sys.step(&s, o, cx).map_err(|e| format!("{}: {e}", sys.op_name(o)))? {
                s = t;
            }
            cx.state();
        }
        cx.trace();
        cx.sample(|| format!("periods {:?}, sheets {:?}", s.pl.keys(), s.bs.keys()));
        Ok(())
    }));
    let lv = [0.0, 0.1, 0.3];
    tasks.push(fam("rate-histories", "all sequences of three settings of the tax rates (each rate 0, 10% or 30%) on a book of two periods whose other figures are absent, empty, partial or complete", 27 * 27 * 27 * 4, move |i, cx| {
        let mut d = Dec(i);
        let mut b = empty_book();
        let form = d.n(4);
        for (j, p) in periods3().into_iter().enumerate() {
            if j < 2 {
                b.profit_loss.insert(p, pl_content(j, 0));
            }
            match (form + j) % 4 {
                0 => continue,
                1 => b.others.insert(p, FinOthersMap::new()),
                2 => b.others.insert(p, FinOthersMap::from([(CorporateTaxRate, 0.0), (AcidRatio, 2.0)])),
                _ => b.others.insert(p, rates(0.4, 0.3, 0.2)),
            };
        }
        let was = b.clone();
        for _ in 0..3 {
            let r = (*d.of(&lv), *d.of(&lv), *d.of(&lv));
            b.set_tax_rates(r.0, r.1, r.2);
            cx.state();
            cx.step();
            let mut w = was.clone();
            for p in was.profit_loss.keys() {
                w.others.entry(*p).or_default().extend(rates(r.0, r.1, r.2));
            }
            ensure!(b == w, "rates {r:?} set, other figures {:?}, expected {:?}", b.others, w.others);
            cx.outf(r.0 + 2.0 * r.1 + 4.0 * r.2);
        }
        cx.trace();
        Ok(())
    }));
    if thorough {
        tasks.push(bfs("deepest", &format!("explicit-state search from {} presence patterns, depth 4", few.len()), 4, Books::new(few)));
    }
    Prop { id: "S12", assumptions: vec!["cash flows are derived when the profit-and-loss subtotals are fresh and the period has its three rates", "whether calc_tax leaves subtotals stale is not specified: they are recalculated before comparing"], tasks }
}

// ---------------------------------------------------------------- S13
fn same_map<Q: Kind>(ch: &Chart<Q>, a: &Option<Q::M>, b: &Option<Q::M>, at: &str) -> R {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            for &k in ch.leaves.iter().chain(&ch.calcs) {
                let (x, y) = (a.value(k), b.value(k));
                ensure!(close(x, y, 1.0, 1e-9), "{at}: {k:?} is {x} in the report and {y} in the book");
            }
            Ok(())
        }
        _ => Err(format!("{at}: {} in the report, {} in the book", if a.is_some() { "present" } else { "missing" }, if b.is_some() { "present" } else { "missing" })),
    }
}
fn kept<Q: Kind>(ch: &Chart<Q>, before: &Option<Q::M>, after: &Option<Q::M>, at: &str) -> R {
    if let Some(b) = before {
        let Some(a) = after else { return Err(format!("{at} was lost")) };
        ensure!(entered_of(ch, b) == entered_of(ch, a), "{at}: entered items changed from {:?} to {:?}", Q::items(b), Q::items(a));
    }
    Ok(())
}
/// Recalculating every report on its own against recalculating the book.
pub fn judge_agree(ch: &Charts, b: &Accounts, cx: &mut Cx) -> R {
        let mut whole = b.clone();
        whole.calc_elements().calc_cash_flow();
        cx.steps(2);
        cx.state();
        for p in b.profit_loss.keys() {
            let before = b.get_account(p.0, p.1).ok_or("no report")?;
            let mut rep = before.clone();
            rep.calc_elements();
            let want = whole.get_account(p.0, p.1).ok_or("no report")?;
            cx.steps(3);
            cx.trace();
            ensure!(rep.period == want.period, "period {:?} became {:?}", want.period, rep.period);
            same_map(&ch.b, &rep.balance_sheet_beg, &want.balance_sheet_beg, "opening sheet")?;
            same_map(&ch.b, &rep.balance_sheet_end, &want.balance_sheet_end, "closing sheet")?;
            same_map(&ch.p, &rep.profit_loss, &want.profit_loss, "profit-and-loss")?;
            same_map(&ch.c, &rep.cash_flow, &want.cash_flow, "cash flow")?;
            ensure!(rep.others == want.others && rep.others == before.others, "other figures {:?} and {:?}", rep.others, want.others);
            kept(&ch.b, &before.balance_sheet_beg, &rep.balance_sheet_beg, "opening sheet")?;
            kept(&ch.b, &before.balance_sheet_end, &rep.balance_sheet_end, "closing sheet")?;
            kept(&ch.p, &before.profit_loss, &rep.profit_loss, "profit-and-loss")?;
            let derived = before.balance_sheet_beg.is_some() && before.balance_sheet_end.is_some();
            if !derived {
                kept(&ch.c, &before.cash_flow, &rep.cash_flow, "cash flow")?;
            }
            // and against the model
            let pm = before.profit_loss.as_ref().unwrap();
            ch.p.check(pm, rep.profit_loss.as_ref().unwrap())?;
            if let (Some(b0), Some(b1), Some(c)) = (&before.balance_sheet_beg, &before.balance_sheet_end, &rep.cash_flow) {
                let net = c.value(NetCashFlow);
                let lines = cash_flow_lines(b0, b1, pm);
                for (k, (w, _)) in &lines {
                    ensure!((c.value(*k) - w).abs() <= 1e-4 || close(c.value(*k), *w, 0.0, 1e-9), "cash-flow line {k:?} of the report is {}, expected {w}", c.value(*k));
                }
                cx.outf(net);
            }
            cx.out(h64((p, b.balance_sheet.len(), derived, rep.cash_flow.is_some())));
        }
    Ok(())
}
pub fn s13(thorough: bool) -> Prop {
    let rts = [(0.3, 0.02, 0.01), (0.0, 0.0, 0.0), (0.25, 0.0, 0.9), (0.1, 0.5, 0.02)];
    let n = 16 * 7 * 8 * 3 * 3 * 3 * 4;
    let f = fam("books", "all presence patterns of 4 balance sheets, 3 profit-and-loss statements and 3 cash flows x 3 contents each (plain, every item, stale subtotals) x 4 rate triples", n, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, vb, vp, vc, r) = (d.n(16), d.n(7) + 1, d.n(8), d.n(3), d.n(3), d.n(3), d.n(4));
        let ch = Charts::new();
        let mut b = empty_book();
        for (i, x) in dates4().into_iter().enumerate() {
            if bs >> i & 1 == 1 {
                b.balance_sheet.insert(x, bs_content(i, (vb + i) % 3));
            }
        }
        for (i, x) in periods3().into_iter().enumerate() {
            if pl >> i & 1 == 1 {
                b.profit_loss.insert(x, pl_content(i, (vp + i) % 3));
                let q = rts[(r + i) % 4];
                b.others.insert(x, rates(q.0, q.1, q.2));
            }
            if cf >> i & 1 == 1 {
                b.cash_flow.insert(x, cf_content(i, (vc + i) % 3));
            }
        }
        judge_agree(&ch, &b, cx)?;
        cx.sample(|| format!("sheets {bs:04b}, profit-and-loss {pl:03b}, cash flows {cf:03b}"));
        Ok(())
    });
    let nmax = if thorough { 120 } else { 40 };
    let long = fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) x 4 contents, as entered, with all subtotals stale, and entered into after a recalculation"), (nmax + 1) * SHAPES * 4, move |i, cx| {
        let mut d = Dec(i);
        let (shape, var, n) = (d.n(SHAPES), d.n(4), d.n(nmax + 1));
        let mut b = big_book(shape, n, 1980 + 15 * var as i32, var);
        if var == 3 {
            // a book without any sheet, or with one only
            let keep = b.balance_sheet.keys().next().copied().filter(|_| n % 2 == 1);
            b.balance_sheet.retain(|d, _| Some(*d) == keep);
        }
        judge_agree(&Charts::new(), &b, cx)?;
        stale_book(&mut b);
        judge_agree(&Charts::new(), &b, cx)?;
        let mut b = b.clone();
        b.calc_elements().calc_cash_flow();
        for m in b.balance_sheet.values_mut() {
            *m.entry(Cash).or_insert(0.0) += 12.5;
        }
        for m in b.profit_loss.values_mut() {
            *m.entry(SalesAmountPPE).or_insert(0.0) += 3.25;
            *m.entry(InterestExpense).or_insert(0.0) += 30.0;
        }
        judge_agree(&Charts::new(), &b, cx)?;
        cx.step();
        cx.trace();
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    });
    let (sz, nl) = (crate::stmts::sizes(), BS.len() + PL.len() + CF.len());
    let amounts = fam("amounts", &format!("every item of a report x {} amounts from 1e-12 to 1e18, in the opening or closing sheet", sz.len()), nl * sz.len(), move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(nl), d.of(&sz));
        let p = periods3()[0];
        let mut b = empty_book();
        b.currency = ALL_CURRENCIES[i as usize % 8];
        b.balance_sheet.insert(p.0, bs_content(0, 0));
        b.balance_sheet.insert(p.1, bs_content(1, 0));
        b.profit_loss.insert(p, pl_content(0, 0));
        b.cash_flow.insert(p, cf_content(0, 0));
        b.others.insert(p, rates(0.3, 0.02, 0.01));
        if q < BS.len() {
            b.balance_sheet.get_mut(&if i % 2 == 0 { p.0 } else { p.1 }).unwrap().insert(BS[q].0, v);
        } else if q < BS.len() + PL.len() {
            b.profit_loss.get_mut(&p).unwrap().insert(PL[q - BS.len()].0, v);
        } else {
            b.cash_flow.get_mut(&p).unwrap().insert(CF[q - BS.len() - PL.len()].0, v);
            b.balance_sheet.remove(&p.0);
        }
        judge_agree(&Charts::new(), &b, cx)?;
        cx.sample(|| format!("item {q} = {v}"));
        Ok(())
    });
    let odd = fam("neighbouring-days", ODD_TEXT, ODD, move |i, cx| {
        let Some(mut b) = odd_book(i) else { return Ok(()) };
        for (j, p) in b.profit_loss.keys().enumerate() {
            b.others.insert(*p, if j == 0 { rates(0.3, 0.0, 0.01) } else { rates(0.2, 0.1, 0.0) });
        }
        judge_agree(&Charts::new(), &b, cx)?;
        cx.sample(|| format!("periods {:?}, sheets {:?}", b.profit_loss.keys(), b.balance_sheet.keys()));
        Ok(())
    });
    Prop { id: "S13", assumptions: vec!["each period has its three tax rates"], tasks: vec![f, long, amounts, odd] }
}

// ---------------------------------------------------------------- S14
fn s14_book(bs: usize, pl: usize, cf: usize, ot: usize, var: usize) -> Accounts {
    let mut b = empty_book();
    b.currency = Currency::GBP;
    b.consolidated = false;
    b.dates.insert(dates4()[2]);
    for (i, x) in dates4().into_iter().enumerate() {
        if bs >> i & 1 == 1 {
            b.balance_sheet.insert(x, bs_content(i, (var + i) % 3));
        }
    }
    for (i, x) in periods3().into_iter().enumerate() {
        if pl >> i & 1 == 1 {
            b.profit_loss.insert(x, pl_content(i, (var + i) % 3));
        }
        if cf >> i & 1 == 1 {
            b.cash_flow.insert(x, cf_content(i, (var + i) % 3));
        }
        if ot >> i & 1 == 1 {
            b.others.insert(x, rates(0.1 * i as f64, 0.02, 0.03));
        }
    }
    b
}
/// Reports over every pair of the dates, the list of reports, single statements, taking apart and reassembling.
pub fn judge_reports(b: &Accounts, ds: &[NDt], cx: &mut Cx) -> R {
        let orig = b.clone();
        cx.state();
        for &x in ds {
            for &y in ds {
                let r = b.get_account(x, y);
                cx.step();
                ensure!(r.is_some() == b.profit_loss.contains_key(&(x, y)), "report for {x}..{y} present: {}", r.is_some());
                let Some(r) = r else { continue };
                cx.trace();
                ensure!(r.period == (x, y), "report for {x}..{y} has period {:?}", r.period);
                ensure!(r.balance_sheet_beg.as_ref() == orig.balance_sheet.get(&x), "opening sheet of {x}..{y}");
                ensure!(r.balance_sheet_end.as_ref() == orig.balance_sheet.get(&y), "closing sheet of {x}..{y}");
                ensure!(r.profit_loss.as_ref() == orig.profit_loss.get(&(x, y)), "profit-and-loss of {x}..{y}");
                ensure!(r.cash_flow.as_ref() == orig.cash_flow.get(&(x, y)), "cash flow of {x}..{y}");
                ensure!(r.others.as_ref() == orig.others.get(&(x, y)), "other figures of {x}..{y}");
                // single statements
                let w0 = orig.balance_sheet.get(&x).map(|m| BalanceSheet { date: x, items: m.clone() });
                let w1 = orig.balance_sheet.get(&y).map(|m| BalanceSheet { date: y, items: m.clone() });
                let wp = orig.profit_loss.get(&(x, y)).map(|m| ProfitLoss { period: (x, y), items: m.clone() });
                let wc = orig.cash_flow.get(&(x, y)).map(|m| CashFlow { period: (x, y), items: m.clone() });
                let wo = orig.others.get(&(x, y)).map(|m| FinOthers { period: (x, y), items: m.clone() });
                ensure!(r.balance_sheet_beg() == w0 && r.balance_sheet_end() == w1 && r.profit_loss() == wp && r.cash_flow() == wc && r.fin_others() == wo, "a single statement of {x}..{y} is not the stored one: {r:?}");
                let t = r.to_statements();
                ensure!(t == (w0, w1, wp, wc, wo), "to_statements of {x}..{y} gives {t:?}");
                let back = FinancialReport::from_statements(&t.0, &t.1, &t.2, &t.3, &t.4);
                cx.steps(7);
                ensure!(back.as_ref() == Some(&r), "reassembling the report of {x}..{y} gives {back:?}");
                cx.out(h64((x, y, r.balance_sheet_beg.is_some(), r.balance_sheet_end.is_some(), r.cash_flow.is_some(), r.others.is_some())));
            }
        }
        let all = b.to_financial_reports();
        cx.step();
        let want: Vec<_> = b.profit_loss.keys().map(|p| b.get_account(p.0, p.1).unwrap()).collect();
        ensure!(all == want, "to_financial_reports gives periods {:?}", all.iter().map(|r| r.period).collect::<Vec<_>>());
        ensure!(*b == orig, "extracting reports changed the book");
    Ok(())
}
/// The sub-book for a set of periods.
pub fn judge_sub(b: &Accounts, ps: &BTreeSet<Period>, cx: &mut Cx) -> R {
        let orig = b.clone();
        let s = b.from_periods(ps.clone());
        cx.state();
        cx.step();
        cx.trace();
        ensure!(*b == orig, "extracting a sub-book changed the book");
        let ends: BTreeSet<NDt> = ps.iter().flat_map(|p| [p.0, p.1]).collect();
        ensure!(s.currency == b.currency && s.consolidated == b.consolidated, "currency or flag of the sub-book");
        ensure!(s.dates == ends, "dates of the sub-book {:?}, periods {ps:?}", s.dates);
        let w: BTreeMap<_, _> = orig.balance_sheet.iter().filter(|x| ends.contains(x.0)).map(|x| (*x.0, x.1.clone())).collect();
        ensure!(s.balance_sheet == w, "sheets of the sub-book for {ps:?}: {:?}", s.balance_sheet.keys());
        let w: BTreeMap<_, _> = orig.profit_loss.iter().filter(|x| ps.contains(x.0)).map(|x| (*x.0, x.1.clone())).collect();
        ensure!(s.profit_loss == w, "profit-and-loss of the sub-book for {ps:?}: {:?}", s.profit_loss.keys());
        let w: BTreeMap<_, _> = orig.cash_flow.iter().filter(|x| ps.contains(x.0)).map(|x| (*x.0, x.1.clone())).collect();
        ensure!(s.cash_flow == w, "cash flows of the sub-book for {ps:?}: {:?}", s.cash_flow.keys());
        let w: BTreeMap<_, _> = orig.others.iter().filter(|x| ps.contains(x.0)).map(|x| (*x.0, x.1.clone())).collect();
        ensure!(s.others == w, "other figures of the sub-book for {ps:?}: {:?}", s.others.keys());
        cx.out(h64((s.balance_sheet.len(), s.profit_loss.len(), s.cash_flow.len(), s.others.len())));
    Ok(())
}
pub fn s14(thorough: bool) -> Prop {
    let far = dt(2030, 1, 1);
    let f1 = fam("reports", "all presence patterns of 4 balance sheets, 3 profit-and-loss, 3 cash flows, 3 other figures x 3 contents: reports for all 25 date pairs, list of reports, single statements, taking apart and reassembling", 16 * 8 * 8 * 8 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, ot, var) = (d.n(16), d.n(8), d.n(8), d.n(8), d.n(3));
        let b = s14_book(bs, pl, cf, ot, var);
        let mut ds = dates4().to_vec();
        ds.push(far);
        judge_reports(&b, &ds, cx)?;
        cx.sample(|| format!("sheets {bs:04b}, profit-and-loss {pl:03b}, cash flows {cf:03b}, others {ot:03b}"));
        Ok(())
    });
    let mut cand: Vec<Period> = periods3().to_vec();
    let d4 = dates4();
    cand.extend([(d4[0], d4[3]), (d4[2], d4[3]), (far, far), (d4[1], d4[0])]);
    let nc = cand.len();
    let f2 = fam("sub-books", "16 x 8 x 8 presence patterns x all 128 sets of seven periods (stored, foreign, reversed, empty)", 16 * 8 * 8 << nc, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, set) = (d.n(16), d.n(8), d.n(8), d.n(1 << nc));
        let b = s14_book(bs, pl, cf, (pl * 3 + cf) % 8, (bs + pl) % 3);
        let ps: BTreeSet<Period> = cand.iter().enumerate().filter(|(j, _)| set >> j & 1 == 1).map(|x| *x.1).collect();
        judge_sub(&b, &ps, cx)?;
        cx.sample(|| format!("periods {ps:?}"));
        Ok(())
    });
    // assembling: each part absent, on the right date, or on any wrong date
    let pds: [Period; 4] = [(d4[0], d4[1]), (d4[1], d4[3]), (d4[1], d4[1]), (dt(2000, 2, 29), dt(2001, 2, 28))];
    let f3 = fam("assembling", "4 periods x opening and closing sheet (absent, right date, other end, day before, day after, a year off) x cash flow and other figures (absent, right, each end a day off, both ends, swapped, foreign) x 5 contents (one of them empty, one all zero)", 4 * 6 * 6 * 9 * 9 * 5, move |i, cx| {
        let mut d = Dec(i);
        let (p, o, c, f, t, var) = (pds[d.n(4)], d.n(6), d.n(6), d.n(9), d.n(9), d.n(5));
        let bs_content = |n: usize, var: usize| match var { 3 => BsMap::new(), 4 => BsMap::from([(Cash, 0.0)]), _ => bs_content(n, var) };
        let pl_content = |n: usize, var: usize| match var { 3 => PlMap::new(), 4 => PlMap::from([(Salaries, 0.0)]), _ => pl_content(n, var) };
        let cf_content = |n: usize, var: usize| match var { 3 => CfMap::new(), 4 => CfMap::from([(ChangeDebt, 0.0)]), _ => cf_content(n, var) };
        let rates = |a: f64, b: f64, c: f64| match var { 3 => FinOthersMap::new(), 4 => rates(0.0, 0.0, 0.0), _ => rates(a, b, c) };
        let one = Duration::days(1);
        let date = |q: usize, right: NDt, other: NDt| match q {
            0 => None,
            1 => Some(right),
            2 => Some(other),
            3 => Some(right - one),
            4 => Some(right + one),
            _ => Some(right.with_year(right.year() + 4).unwrap()),
        };
        let per = |q: usize| match q {
            0 => None,
            1 => Some(p),
            2 => Some((p.0 + one, p.1)),
            3 => Some((p.0 - one, p.1)),
            4 => Some((p.0, p.1 + one)),
            5 => Some((p.0, p.1 - one)),
            6 => Some((p.0 + one, p.1 + one)),
            7 => Some((p.1, p.0)),
            _ => Some((d4[2], d4[3])),
        };
        let (b0, b1) = (date(o, p.0, p.1), date(c, p.1, p.0));
        let (cp, fp) = (per(f), per(t));
        let ok = b0.is_none_or(|x| x == p.0) && b1.is_none_or(|x| x == p.1) && cp.is_none_or(|x| x == p) && fp.is_none_or(|x| x == p);
        let s0 = b0.map(|date| BalanceSheet { date, items: bs_content(0, var) });
        let s1 = b1.map(|date| BalanceSheet { date, items: bs_content(1, var) });
        let sp = Some(ProfitLoss { period: p, items: pl_content(2, var) });
        let sc = cp.map(|period| CashFlow { period, items: cf_content(3, var) });
        let sf = fp.map(|period| FinOthers { period, items: rates(0.1, 0.2, 0.3) });
        let r = FinancialReport::from_statements(&s0, &s1, &sp, &sc, &sf);
        cx.state();
        cx.step();
        cx.trace();
        cx.out(h64((o, c, f, t, r.is_some())));
        ensure!(r.is_some() == ok, "assembling a report over {p:?} from sheets at {b0:?} and {b1:?}, cash flow {cp:?}, others {fp:?}: accepted {}", r.is_some());
        if let Some(r) = r {
            let w = FinancialReport { period: p, balance_sheet_beg: s0.map(|x| x.items), balance_sheet_end: s1.map(|x| x.items), profit_loss: sp.map(|x| x.items), cash_flow: sc.map(|x| x.items), others: sf.map(|x| x.items) };
            ensure!(r == w, "assembled report differs: {r:?}");
        }
        cx.sample(|| format!("{p:?}: sheets {b0:?}/{b1:?}, cash flow {cp:?}, others {fp:?}"));
        Ok(())
    });
    let nmax = if thorough { 100 } else { 32 };
    let f4 = fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) x 3 contents: reports for every pair of dates, sub-books for all, every other, the first, the last and no periods and for all pairs of neighbouring dates in reverse"), (nmax + 1) * SHAPES * 3, move |i, cx| {
        let mut d = Dec(i);
        let (shape, var, n) = (d.n(SHAPES), d.n(3), d.n(nmax + 1));
        let mut b = big_book(shape, n, [1, 1970, 9000][var], var);
        if n % 3 == 1 {
            b.others = b.others.into_iter().step_by(2).collect();
        }
        let ds: Vec<NDt> = b.profit_loss.keys().flat_map(|p| [p.0, p.1]).collect::<BTreeSet<_>>().into_iter().collect();
        judge_reports(&b, &ds, cx)?;
        let ps: Vec<Period> = b.profit_loss.keys().copied().collect();
        for set in [ps.clone(), ps.iter().copied().step_by(2).collect(), ps.iter().copied().skip(1).step_by(3).collect(), ps.first().copied().into_iter().collect(), ps.last().copied().into_iter().collect(), vec![], ds.windows(2).map(|w| (w[1], w[0])).collect()] {
            judge_sub(&b, &set.into_iter().collect(), cx)?;
        }
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    });
    let f5 = fam("contents", "a report and a sub-book around each item of each statement x 32 amounts x 8 currencies by turns", (BS.len() + BS_CALC.len() + PL.len() + PL_CALC.len() + CF.len() + CF_CALC.len()) * crate::stmts::AMTS.len(), move |i, cx| {
        let mut d = Dec(i);
        let (&v, q) = (d.of(&crate::stmts::AMTS), d.n(usize::MAX));
        let p = periods3()[i as usize % 3];
        let mut b = empty_book();
        b.currency = ALL_CURRENCIES[i as usize % 8];
        b.consolidated = i % 5 == 0;
        let (x, y, z): (Vec<BsType>, Vec<PlType>, Vec<CfType>) = (BsK::leaves().into_iter().chain(BS_CALC).collect(), PL.iter().map(|x| x.0).chain(PL_CALC).collect(), CF.iter().map(|x| x.0).chain(CF_CALC).collect());
        b.balance_sheet.insert(p.0, BsMap::from([(x[q % x.len()], v)]));
        b.balance_sheet.insert(p.1, BsMap::from([(x[(q + 1) % x.len()], v)]));
        b.profit_loss.insert(p, PlMap::from([(y[q % y.len()], v)]));
        b.cash_flow.insert(p, CfMap::from([(z[q % z.len()], v)]));
        b.others.insert(p, FinOthersMap::from([(AcidRatio, v)]));
        judge_reports(&b, &[p.0, p.1], cx)?;
        judge_sub(&b, &BTreeSet::from([p]), cx)?;
        cx.sample(|| format!("amount {v} at item {q}"));
        Ok(())
    });
    let f6 = fam("neighbouring-days", &format!("{ODD_TEXT} x other figures complete, empty or absent: reports for all pairs of the dates, sub-books for the periods apart and together and for a foreign one"), ODD, move |i, cx| {
        let Some(mut b) = odd_book(i) else { return Ok(()) };
        let ps: Vec<Period> = b.profit_loss.keys().copied().collect();
        for (j, p) in ps.iter().enumerate() {
            match (i / 5 + j as u64) % 3 {
                0 => b.others.insert(*p, rates(0.3, 0.0, 0.01)),
                1 => b.others.insert(*p, FinOthersMap::new()),
                _ => None,
            };
        }
        judge_reports(&b, &odd_dates(), cx)?;
        let foreign = odd_periods()[i as usize % 15];
        for set in [vec![ps[0]], vec![*ps.last().unwrap()], ps.clone(), vec![foreign], vec![foreign, ps[0]]] {
            judge_sub(&b, &set.into_iter().collect(), cx)?;
        }
        cx.sample(|| format!("periods {ps:?}, sheets {:?}", b.balance_sheet.keys()));
        Ok(())
    });
    Prop { id: "S14", assumptions: vec!["a report is assembled with a profit-and-loss statement present"], tasks: vec![f1, f2, f3, f4, f5, f6] }
}

// ---------------------------------------------------------------- S15
pub fn valid_sequence(v: &[Period]) -> bool {
    v.iter().all(|p| p.0 <= p.1) && v.windows(2).all(|w| w[0].1 == w[1].0)
}
pub fn s15(thorough: bool) -> Prop {
    let maxlen = if thorough { 6 } else { 5 };
    let d4 = dates4();
    let pairs: Vec<Period> = (0..16).map(|q| (d4[q / 4], d4[q % 4])).collect();
    let total: usize = (0..=maxlen).map(|l| 16usize.pow(l)).sum();
    let p1 = pairs.clone();
    let f1 = fam("all-sequences", &format!("every sequence of up to {maxlen} periods over the 16 ordered pairs of 4 dates"), total, move |i, cx| {
        let (mut r, mut len) = (i, 0);
        while r >= 16u64.pow(len) {
            r -= 16u64.pow(len);
            len += 1;
        }
        let mut d = Dec(r);
        let v: Vec<Period> = (0..len).map(|_| p1[d.n(16)]).collect();
        let (g, w) = (check_dates(&v), valid_sequence(&v));
        cx.state();
        cx.step();
        cx.trace();
        cx.out(h64((len, g, v.iter().map(|p| p.0 > p.1).collect::<Vec<_>>())));
        ensure!(g == w, "check_dates({v:?}) = {g}");
        cx.sample(|| format!("{v:?}: {g}"));
        Ok(())
    });
    let chain_max = if thorough { 500 } else { 160 };
    let f2 = fam("long-chains", &format!("chains of every length 1..={chain_max} with a fault (gap, overlap, reversed period, off by a day either way, swapped neighbours, a duplicate) at every position, and without"), chain_max * chain_max, move |i, cx| {
        let (len, at) = (i as usize / chain_max + 1, i as usize % chain_max);
        if at >= len {
            return Ok(());
        }
        let base: Vec<Period> = (0..len as i64).map(|j| (dt(1990, 1, 1) + Duration::days(91 * j), dt(1990, 1, 1) + Duration::days(91 * (j + 1)))).collect();
        for fault in 0..9 {
            let mut v = base.clone();
            let one = Duration::days(1);
            match fault {
                1 => v[at].0 += one,
                2 => v[at].0 -= one,
                3 => v[at].1 += one,
                4 => v[at].1 -= one,
                5 => v[at] = (v[at].1, v[at].0),
                6 => v.insert(at, base[at]),
                7 => v[at] = (v[at].0, v[at].0),
                8 => {
                    let j = (at + 1) % len;
                    v.swap(at, j);
                }
                _ => {}
            }
            let (g, w) = (check_dates(&v), valid_sequence(&v));
            cx.state();
            cx.step();
            cx.trace();
            cx.out(h64((fault, at, g)));
            ensure!(g == w, "check_dates of a chain of {len} with fault {fault} at {at}: {g}");
        }
        cx.sample(|| format!("chain of {len}, faults at {at}"));
        Ok(())
    });
    let p3 = pairs.clone();
    let f3 = fam("books", "books with every subset of the 16 ordered pairs of 4 dates as periods: validity and splitting", 1 << 16, move |i, cx| {
        let mut b = empty_book();
        for (j, p) in p3.iter().enumerate() {
            if i >> j & 1 == 1 {
                b.profit_loss.insert(*p, PlMap::new());
            }
        }
        let keys: Vec<Period> = b.profit_loss.keys().copied().collect();
        let (g, w) = (b.check_dates(), valid_sequence(&keys));
        cx.state();
        cx.steps(2);
        cx.trace();
        ensure!(g == w, "a book with periods {keys:?} is valid: {g}");
        judge_split(&b)?;
        cx.out(i);
        cx.sample(|| format!("{keys:?}: {g}"));
        Ok(())
    });
    let starts = if thorough { 1461 } else { 120 };
    let f4 = fam("lengths", &format!("every period length from -5 to 800 days from {starts} start days, singly and all lengths 100..140 together"), 806 * starts, move |i, cx| {
        let (len, st) = (i as i64 % 806 - 5, i as i64 / 806);
        let d0 = dt(2019, 1, 1) + Duration::days(if starts == 120 { st * 11 } else { st });
        let mut b = empty_book();
        b.profit_loss.insert((d0, d0 + Duration::days(len)), PlMap::new());
        let (a, q) = b.split_periods();
        cx.state();
        cx.step();
        cx.trace();
        cx.out(h64((len, a.len(), q.len())));
        ensure!(a.len() + q.len() == 1, "a period of {len} days from {d0} is in {} sets", a.len() + q.len());
        ensure!((a.len() == 1) == (len >= 120), "a period of {len} days from {d0} is annual: {}", a.len() == 1);
        judge_split(&b)?;
        if len == 0 {
            for l in 100..140 {
                b.profit_loss.insert((d0, d0 + Duration::days(l)), PlMap::new());
                b.profit_loss.insert((d0 + Duration::days(l), d0 + Duration::days(2 * l)), PlMap::new());
            }
            judge_split(&b)?;
        }
        cx.sample(|| format!("{len} days from {d0}"));
        Ok(())
    });
    let nmax = if thorough { 1200 } else { 300 };
    let f5 = fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) from the years 1, 1970 and 5000, whole, with a period missing at the start, middle or end, and with a period off by a day: validity, splitting"), (nmax + 1) * SHAPES * 3, move |i, cx| {
        let mut d = Dec(i);
        let (shape, st, n) = (d.n(SHAPES), d.n(3), d.n(nmax + 1));
        if shape == 6 && n > 300 {
            return Ok(());
        }
        let full = big_book(shape, n, [1, 1970, 5000][st], 0);
        let ps: Vec<Period> = full.profit_loss.keys().copied().collect();
        let judge = |ps: &[Period], cx: &mut Cx| -> R {
            let mut b = empty_book();
            b.profit_loss = ps.iter().map(|p| (*p, PlMap::new())).collect();
            let keys: Vec<Period> = b.profit_loss.keys().copied().collect();
            let (g, g2, w) = (b.check_dates(), check_dates(&keys), valid_sequence(&keys));
            cx.state();
            cx.steps(3);
            cx.trace();
            cx.out(h64((g, shape, ps.len())));
            ensure!(g == w && g2 == w, "a book of {} periods {:?}.. is valid: {g}; its sequence: {g2}", ps.len(), &keys[..keys.len().min(3)]);
            judge_split(&b)
        };
        judge(&ps, cx)?;
        if n > 0 {
            for at in [0, n / 2, ps.len() - 1] {
                let mut v = ps.clone();
                v.remove(at);
                judge(&v, cx)?;
                let mut v = ps.clone();
                v[at].1 += Duration::days(1);
                judge(&v, cx)?;
                let mut v = ps.clone();
                v[at].0 -= Duration::days(1);
                judge(&v, cx)?;
            }
        }
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    });
    Prop { id: "S15", assumptions: vec![], tasks: vec![f1, f2, f3, f4, f5] }
}
pub fn judge_split(b: &Accounts) -> R {
    let (a, q) = b.split_periods();
    for p in b.profit_loss.keys() {
        let ann = (p.1 - p.0).num_days() >= 120;
        ensure!(a.contains(p) == ann && q.contains(p) != ann, "period {p:?} ({} days): annual {}, quarterly {}", (p.1 - p.0).num_days(), a.contains(p), q.contains(p));
    }
    ensure!(a.len() + q.len() == b.profit_loss.len(), "{} periods split into {} and {}", b.profit_loss.len(), a.len(), q.len());
    Ok(())
}

// ---------------------------------------------------------------- S16
fn month_len(y: i32, m: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 },
        _ => 31,
    }
}
/// `months` before the month of (y, m): same day as `day` (shortened), or the month end.
pub fn back(cur: NDt, months: i32, day: u32, to_end: bool) -> NDt {
    let q = cur.year() * 12 + cur.month0() as i32 - months;
    let (y, m) = (q.div_euclid(12), q.rem_euclid(12) as u32 + 1);
    let l = month_len(y, m);
    dt(y, m, if to_end { l } else { day.min(l) })
}
pub fn is_end(d: NDt) -> bool {
    d.day() == month_len(d.year(), d.month())
}
pub const STEP_OPTS: usize = 8;
/// Build a set of periods going back from `end` by the step options, and the chain expected from it.
pub fn build_chain(end: NDt, opts: &[usize], to_end: bool) -> (BTreeSet<Period>, BTreeSet<Period>) {
    let (mut set, mut chain) = (BTreeSet::new(), BTreeSet::new());
    let one = Duration::days(1);
    let mut cur = end;
    let mut on = true;
    for &o in opts {
        let (q, y) = (back(cur, 3, end.day(), to_end), back(cur, 12, end.day(), to_end));
        let mut take = None;
        match o {
            // nothing ends here
            0 => {}
            1 => take = Some(q),
            2 => take = Some(y),
            3 => {
                set.insert((y, cur));
                take = Some(q);
            }
            // near misses only: a month short, half a year, two years, and days off in the middle of a month
            4 => {
                set.insert((back(cur, 2, end.day(), to_end), cur));
                set.insert((back(cur, 6, end.day(), to_end), cur));
                set.insert((back(cur, 24, end.day(), to_end), cur));
            }
            // the quarter starts a few days off, the year is right
            5 => {
                set.insert((q - Duration::days(5), cur));
                take = Some(y);
            }
            // the quarter ends a day off, the year is missing
            6 => {
                set.insert((q, cur - one));
                set.insert((y, cur - one));
            }
            // a quarter reversed and a year starting one month late
            _ => {
                set.insert((cur - Duration::days(400), cur - Duration::days(30)));
                set.insert((back(cur, 11, end.day(), to_end), cur));
                take = Some(q);
            }
        }
        if let Some(t) = take {
            set.insert((t, cur));
            if on {
                chain.insert((t, cur));
            }
            cur = t;
        } else {
            on = false;
            cur = q;
        }
    }
    (set, chain)
}
pub fn judge_chain(set: &BTreeSet<Period>, end: NDt, chain: &BTreeSet<Period>, cx: &mut Cx) -> R {
    // the latest end of the set decides where the chain starts
    if set.iter().map(|p| p.1).max() != Some(end) {
        return Ok(());
    }
    let g = consecutive_periods(set);
    cx.state();
    cx.step();
    cx.trace();
    cx.out(h64((g.len(), set.len(), end.day(), end.month())));
    ensure!(g == *chain, "consecutive periods of {set:?} are {g:?}, expected {chain:?}");
    Ok(())
}
pub fn s16(thorough: bool) -> Prop {
    let depth = if thorough { 5 } else { 4 };
    let combos = STEP_OPTS.pow(depth);
    let mut anchors = vec![];
    for y in [2019, 2020, 2021, 2022] {
        for m in 1..=12 {
            for d in 1..=month_len(y, m) {
                if thorough || y == 2020 || d >= 27 || (y == 2021 && m % 3 == 0) {
                    anchors.push(dt(y, m, d));
                }
            }
        }
    }
    for y in [1900, 1904, 2000, 2001, 2100, 2400] {
        anchors.extend([dt(y, 2, month_len(y, 2)), dt(y, 5, 31), dt(y, 2, 28), dt(y, 11, 30), dt(y, 12, 31), dt(y, 3, 1), dt(y, 5, 29)]);
    }
    let na = anchors.len();
    let a1 = anchors.clone();
    let f1 = fam("step-patterns", &format!("{na} latest end days (every day of a leap year, all month ends, century years) x same-day and month-end chains x all {combos} combinations of {depth} steps out of {STEP_OPTS} (nothing, quarter, year, both, near misses, wrong quarter with right year, ends a day off, decoys)"), na * 2, move |i, cx| {
        let (end, to_end) = (a1[i as usize / 2], i % 2 == 1);
        if to_end && !is_end(end) {
            return Ok(());
        }
        for c in 0..combos {
            let mut d = Dec(c as u64);
            let opts: Vec<usize> = (0..depth).map(|_| d.n(STEP_OPTS)).collect();
            let (set, chain) = build_chain(end, &opts, to_end);
            judge_chain(&set, end, &chain, cx)?;
            if c % 7 == 0 {
                // an orphan later than everything: the chain back from it is empty
                let mut set = set;
                let late = end + Duration::days(40);
                set.insert((end + Duration::days(3), late));
                judge_chain(&set, late, &BTreeSet::new(), cx)?;
            }
        }
        cx.sample(|| format!("latest end {end}, month-end chain: {to_end}"));
        Ok(())
    });
    let a2 = anchors.clone();
    let lens: Vec<usize> = if thorough { (1..=100).collect() } else { vec![1, 2, 3, 5, 8, 13, 21, 33, 34, 50, 64, 79, 99, 100] };
    let nl = lens.len();
    let f2 = fam("long-chains", &format!("{na} latest end days x {nl} chain lengths up to 100 x quarters, years, alternating and mixed x a gap at 5 positions or none"), na * nl, move |i, cx| {
        let (end, len) = (a2[i as usize % na], lens[i as usize / na]);
        for to_end in [false, true] {
            if to_end && !is_end(end) {
                continue;
            }
            for kind in 0..5 {
                for gap in [usize::MAX, 0, 1, len / 2, len - 1] {
                    if gap != usize::MAX && gap >= len {
                        continue;
                    }
                    let opts: Vec<usize> = (0..len)
                        .map(|j| if j == gap { 0 } else { match kind { 0 => 1, 1 => 2, 2 => 1 + j % 2, 3 => [1, 1, 3, 2, 7][j % 5], _ => [5, 3, 3][j % 3] } })
                        .collect();
                    // years far back stay after the year 1000
                    let (set, chain) = build_chain(end, &opts, to_end);
                    judge_chain(&set, end, &chain, cx)?;
                }
            }
        }
        cx.sample(|| format!("chains of {len} back from {end}"));
        Ok(())
    });
    let a3 = anchors.clone();
    let f3 = fam("books", "books holding the period sets of depth 3 (profit-and-loss and cash flows over different sets): consecutive_profit_loss and consecutive_cash_flow hold exactly the chain and its statements", na * STEP_OPTS.pow(3), move |i, cx| {
        let end = a3[i as usize % na];
        let mut d = Dec(i / na as u64);
        let opts: Vec<usize> = (0..3).map(|_| d.n(STEP_OPTS)).collect();
        let opts2: Vec<usize> = opts.iter().rev().map(|o| (o + 2) % STEP_OPTS).collect();
        let (s1, c1) = build_chain(end, &opts, false);
        let (s2, c2) = build_chain(end, &opts2, false);
        let mut b = empty_book();
        b.currency = Currency::ZAR;
        let mut n = 0.0;
        for p in &s1 {
            n += 1.0;
            b.profit_loss.insert(*p, PlMap::from([(OperatingRevenue, n)]));
            b.balance_sheet.insert(p.0, BsMap::from([(Cash, 10.0 * n)]));
            b.balance_sheet.insert(p.1, BsMap::from([(Cash, 10.0 * n + 1.0)]));
            b.others.insert(*p, rates(n, 0.0, 0.0));
        }
        for p in &s2 {
            n += 1.0;
            b.cash_flow.insert(*p, CfMap::from([(ChangeDebt, n)]));
        }
        cx.state();
        let mut judge = |got: Accounts, set: &BTreeSet<Period>, chain: &BTreeSet<Period>, what: &str| -> R {
            cx.step();
            if set.iter().map(|p| p.1).max() != Some(end) && !set.is_empty() {
                return Ok(());
            }
            cx.trace();
            let ends: BTreeSet<NDt> = chain.iter().flat_map(|p| [p.0, p.1]).collect();
            ensure!(got.profit_loss.iter().eq(b.profit_loss.iter().filter(|x| chain.contains(x.0))), "{what}: profit-and-loss for {:?}, expected {chain:?}", got.profit_loss.keys());
            ensure!(got.cash_flow.iter().eq(b.cash_flow.iter().filter(|x| chain.contains(x.0))), "{what}: cash flows for {:?}, expected {chain:?}", got.cash_flow.keys());
            ensure!(got.others.iter().eq(b.others.iter().filter(|x| chain.contains(x.0))), "{what}: other figures for {:?}, expected {chain:?}", got.others.keys());
            ensure!(got.balance_sheet.iter().eq(b.balance_sheet.iter().filter(|x| ends.contains(x.0))), "{what}: sheets at {:?}, expected {ends:?}", got.balance_sheet.keys());
            ensure!(got.currency == b.currency && got.consolidated == b.consolidated && got.dates == ends, "{what}: dates {:?}", got.dates);
            Ok(())
        };
        judge(b.consecutive_profit_loss(), &s1, &c1, "consecutive_profit_loss")?;
        judge(b.consecutive_cash_flow(), &s2, &c2, "consecutive_cash_flow")?;
        cx.out(h64((c1.len(), c2.len(), end)));
        cx.sample(|| format!("{end}: {opts:?}"));
        Ok(())
    });
    let eras: Vec<i32> = vec![1001, 1099, 1100, 1200, 1582, 1583, 1600, 1752, 1799, 1800, 1850, 1899, 1900, 1901, 1969, 1970, 1999, 2038, 2099, 2100, 2399, 2400, 3200, 4000, 9998];
    let ne = eras.len();
    let f4 = fam("eras", &format!("every day of {ne} years from 1001 to 9998 as the latest end x all pairs of steps, same-day and month-end chains"), ne * 366, move |i, cx| {
        let (y, n) = (eras[i as usize % ne], i as i64 / ne as i64);
        let end = dt(y, 1, 1) + Duration::days(n);
        if end.year() != y {
            return Ok(());
        }
        for to_end in [false, true] {
            if to_end && !is_end(end) {
                continue;
            }
            for c in 0..STEP_OPTS * STEP_OPTS {
                let opts = vec![c % STEP_OPTS, c / STEP_OPTS];
                let (set, chain) = build_chain(end, &opts, to_end);
                if set.iter().all(|p| p.1 <= end) {
                    judge_chain(&set, end, &chain, cx)?;
                }
            }
        }
        cx.sample(|| format!("latest end {end}"));
        Ok(())
    });
    Prop { id: "S16", assumptions: vec!["latest ends from the year 1000 on", "sets in which both a same-day and a month-end predecessor of the same length exist are not judged"], tasks: vec![f1, f2, f3, f4] }
}
