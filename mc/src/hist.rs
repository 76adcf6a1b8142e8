//! Independence of earlier calls: probes of every part of the library run in fresh processes, in every order.
use crate::books::*;
use crate::engine::*;
use crate::ensure;
use crate::refm::*;
use financelib::DayCountConvention::*;
use financelib::fixedincomes::bonds::rates::RateCurve::*;
use financelib::fixedincomes::bonds::rates::Rates::*;
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets::*;
use financelib::statements::BsType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};
use std::process::Command;
use std::sync::Arc;

pub const KINDS: usize = 48;
pub const VARS: usize = 3;
pub const PROBES: usize = KINDS * VARS;

fn items<Q: Kind>(m: &Q::M) -> String {
    Q::items(m).iter().filter(|x| x.1 != 0.0).map(|(k, v)| format!("{k:?} {v:?} ")).collect()
}
fn opt<Q: Kind>(m: &Option<Q::M>) -> String {
    m.as_ref().map(|m| items::<Q>(m)).unwrap_or("absent ".into())
}
fn book(v: usize) -> Accounts {
    let mut b = empty_book();
    for (i, d) in dates4().into_iter().enumerate() {
        if i != v {
            b.balance_sheet.insert(d, bs_content(i + v, v % 2));
        }
    }
    for (i, p) in periods3().into_iter().enumerate() {
        b.profit_loss.insert(p, pl_content(i + v, v % 2));
        b.others.insert(p, rates(0.1 * (v + i) as f64, 0.02, 0.01));
        if i == v {
            b.cash_flow.insert(p, cf_content(i, v));
        }
    }
    b
}
fn show(b: &Accounts) -> String {
    let mut s = format!("{:?} {:?} ", b.currency, b.dates);
    for (d, m) in &b.balance_sheet {
        s += &format!("{d} {}", items::<BsK>(m));
    }
    for (d, m) in &b.profit_loss {
        s += &format!("{d:?} {}", items::<PlK>(m));
    }
    for (d, m) in &b.cash_flow {
        s += &format!("{d:?} {}", items::<CfK>(m));
    }
    for (d, m) in &b.others {
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by_key(|x| *x.0);
        s += &format!("{d:?} {v:?} ");
    }
    s
}
fn report_text(r: &FinancialReport) -> String {
    format!("{:?} {} {} {} {} {}", r.period, opt::<BsK>(&r.balance_sheet_beg), opt::<BsK>(&r.balance_sheet_end), opt::<PlK>(&r.profit_loss), opt::<CfK>(&r.cash_flow), r.others.is_some())
}
/// A statement with a history that ended in a refused write.
fn refused<Q: Kind>(v: usize) -> String {
    let (l, c) = (Q::leaves(), Q::calcs());
    let mut m = Q::map(&[(l[v], 5.0)]);
    let k = c[v * 2 % c.len()];
    let a = panics(|| {
        m.add(k, 1.0);
    });
    let mut m2 = m.clone();
    let b = panics(|| {
        m2.upsert(l[v + 1], 2.0);
    });
    format!("{a} {b} {} {}", items::<Q>(&m), items::<Q>(&m2))
}
fn keep<T: Debug, O: Display>(x: &T, f: impl FnOnce(&T) -> O) -> String {
    let before = format!("{x:?}");
    let r = f(x).to_string();
    if format!("{x:?}") != before { format!("INPUT-CHANGED {r}") } else { r }
}
fn d<T: Debug>(x: T) -> String {
    format!("{x:?}")
}
pub fn kind_name(k: usize) -> &'static str {
    NAMES[k]
}
const NAMES: [&str; KINDS] = [
    "is_leap_year/days_in_year", "date_to_float/from_float", "yearfrac", "xdis_fact", "pv/fv", "pvm/fvm", "pvc/fvc", "pv_annuity", "pmt", "rate conversions", "approx", "npv", "xnpv", "irr", "xirr", "newt_raph",
    "bond price", "bond ytm", "bond cash flow", "bond full price", "bond on curve", "frn price", "frn margin", "curve interpolation", "curve conversion", "par to spot", "spot to par", "forward", "money market", "twrr",
    "bs calc", "pl calc", "cf calc", "bs transact", "common size", "derived cash flow", "is_calc bs", "is_calc pl", "is_calc cf", "refused writes", "book calc", "book tax", "book reports", "report calc", "book periods", "consecutive", "table", "storage",
];
pub fn probe(p: usize) -> String {
    let (k, v) = (p / VARS, p % VARS);
    let x = v as f64;
    let r = guarded(|| match k {
        0 => (0..3).map(|q| { let y = [1900, 2000, 2023][v] + q * 50; format!("{} {} ", is_leap_year(y), days_in_year(y)) }).collect(),
        1 => { let q = dt(2019 + v as i32, 12, 31); format!("{:?} {}", date_to_float(q), date_from_float(2020.25 + 0.37 * x)) }
        2 => [ACT360, ACT365, ACTACT, EU30360, US30360].into_iter().map(|c| format!("{:?} ", yearfrac(dt(2018, 10, 31), dt(2020, 2, 27 + v as u32), c))).collect(),
        3 => format!("{:?} {:?} {:?}", xdis_fact(0.05, (dt(2019, 1, 31), dt(2021 + v as i32, 3, 1))), fwd_dis_fact((0.04, 1.0), (0.05 + 0.01 * x, 2.0)), yrfrac((dt(2019, 1, 31), dt(2020, 1, 1 + v as u32)))),
        4 => format!("{:?} {:?} {:?} {:?}", pv(0.07, 3.0 + x, 100.0), fv(0.07, 3.0 + x, 100.0), dis_fact(0.07 + x, 2.0), dis_fact_annual(0.07 * x)),
        5 => format!("{:?} {:?}", pvm(0.09, 2.0, 4.0 + 4.0 * x, 500.0), fvm(0.09, 2.0, 4.0 + 4.0 * x, 500.0)),
        6 => format!("{:?} {:?}", pvc(0.09, 2.0 + x, 500.0), fvc(0.09, 2.0 + x, 500.0)),
        7 => format!("{:?} {:?}", pv_annuity(0.06 * x, 10.0, 12.0, -7.0, 100.0), pv_annuity(0.06, 10.0, 1.0 + x, -7.0, 100.0)),
        8 => format!("{:?} {:?}", pmt(0.06 * x, 10.0, 12.0, 1000.0, 100.0), pmt(0.06, 10.0, 1.0 + x, 1000.0, 0.0)),
        9 => format!("{:?} {:?} {:?} {:?} {:?} {:?}", nom_eff_rate(0.08, 4.0 + x), eff_nom_rate(0.08, 4.0 + x), exp_eff_rate(0.08 * x), eff_exp_rate(0.08 * x), nom_exp_rate(0.08, 1.0 + x), exp_nom_rate(0.08, 1.0 + x)),
        10 => format!("{} {} {}", approx(1e6 + x, 1e6), approx(1e-9 * x, 0.0), is_zero(1e-8 * x)),
        11 => keep(&(vec![0.0, 1.0, 2.0, 3.5], vec![-100.0, 40.0 + x, 50.0, 30.0]), |(t, c)| format!("{:?} {:?}", npv(0.1, t, 0.5 * x, c), npv_t0(0.02 * x, t, c))),
        12 => keep(&(vec![dt(2019, 3, 31), dt(2020, 2, 29), dt(2021, 5, 5)], vec![-100.0, 60.0 + x, 70.0]), |(t, c)| d(xnpv(0.1, t, dt(2019 + v as i32, 1, 1), c))),
        13 => keep(&(vec![0.0, 1.0, 2.0, 3.0], vec![-100.0, 40.0 + 5.0 * x, 50.0, 30.0]), |(t, c)| d(irr(t, c))),
        14 => keep(&(vec![dt(2019, 3, 31), dt(2020, 2, 29), dt(2021, 5, 5)], vec![-100.0, 60.0 + 9.0 * x, 70.0]), |(t, c)| d(xirr(t, c))),
        15 => format!("{:?} {:?}", newt_raph(|z| (z - 3.0) * (z - 7.0 - x), 10.0 + x, 1e-6), newt_raph(|z| z * z + 1.0 + x, 0.5, 1e-6)),
        16 => { let b = CouponBond { par: 100.0, c: 0.05 + 0.01 * x, freq: 2.0, t_life: 10.0 }; d(b.price(0.04)) + " " + &d(b.price(0.0)) }
        17 => { let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 10.0 + x }; d(b.ytm(96.0)) }
        18 => { let b = CouponBond { par: 100.0, c: 0.05, freq: [1.0, 4.0, 12.0][v], t_life: 3.0 }; d(b.generate_cashflow()) }
        19 => { let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 4.0 }; format!("{:?} {:?} {:?}", b.pv_full(0.04 + 0.01 * x, 0.2), b.pv_flat(0.04, 0.1 * x), b.accrued_interest(0.1 + 0.1 * x)) }
        20 => { let b = CouponBond { par: 100.0, c: 0.05, freq: 1.0, t_life: 3.0 }; keep(&NominalRateCurve { rate: vec![0.02, 0.03 + 0.01 * x, 0.05], freq: 1.0 }, |c| d(b.price_ratecurve(c))) }
        21 => { let f = FloatingRateNotes { par: 100.0, quoted_margin: 0.01 * x, freq: 4.0, t_life: 2.0 }; d(f.price(0.03, 0.012)) }
        22 => { let f = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 4.0, t_life: 2.0 + x }; d(f.discount_margin(98.0, 0.03)) }
        23 => keep(&EffectiveRateCurve { rate: vec![0.02, 0.04, 0.03 + 0.01 * x], freq: 2.0 }, |c| format!("{:?} {:?}", c.rate_estim(1.2), c.pv(50.0, 0.75))),
        24 => keep(&NominalRateCurve { rate: vec![0.02, 0.04 + 0.01 * x], freq: 2.0 + x }, |c| format!("{:?} {:?} {:?}", c.to_effective(), c.to_exponential(), c.to_nominal())),
        25 => keep(&ParRates { rate: NominalRateCurve { rate: vec![0.02, 0.03, 0.04 + 0.01 * x], freq: 1.0 } }, |c| d(c.to_spot())),
        26 => keep(&SpotRates { rate: NominalRateCurve { rate: vec![0.02, 0.03, 0.04 + 0.01 * x], freq: 1.0 } }, |c| d(c.to_par())),
        27 => keep(&SpotRates { rate: NominalRateCurve { rate: vec![0.02, 0.03, 0.04 + 0.01 * x], freq: 1.0 } }, |c| format!("{:?} {:?}", c.forward_rate(1.0, 2.0), c.forward_rate(1.0, 1.0))),
        28 => format!("{:?} {:?} {:?} {:?} {:?}", t_bill_r(150.0, 98e3, 1e5 + x), t_bill_d(0.05, 100.0 + x, 1e5), holding_per_yield(98.0, 95.0, 5.0 + x), eff_ann_yield(150.0 + x, 98.0, 95.0, 5.0), money_mkt_yield(150.0 + x, 98.0, 95.0, 5.0)),
        29 => keep(&(vec![4.0, 6.0, 5.775, 6.72 + x], vec![1.0, -0.5, 0.225]), |(b, i)| format!("{:?} {:?}", twrr(b, i), twrr_n(2.0, b, i))),
        30 => { let mut m = bs_content(v, 1); m.calc_elements(); items::<BsK>(&m) }
        31 => { let mut m = pl_content(v, 1); m.calc_elements(); items::<PlK>(&m) }
        32 => { let mut m = cf_content(v, 1); m.calc_elements(); items::<CfK>(&m) }
        33 => { let mut m = bs_content(v, 0); m.transact((Cash, [AccumulatedDepreciation, CommonStock, CurrentPayables][v], 31.0)).debit(PlantPropertyEquipment, 4.0).credit(LongTermBorrowings, 5.0); items::<BsK>(&m) }
        34 => keep(&{ let mut m = pl_content(v, 0); m.calc_elements(); m }, |m| items::<PlK>(&m.common_size())),
        35 => { let mut p = pl_content(v, 1); p.calc_elements(); keep(&(bs_content(0, 1), bs_content(v + 1, 1), p), |(a, b, c)| items::<CfK>(&calc_cash_flow(a, b, c, 0.3, 0.02 * x, 0.01))) }
        36 => BsK::leaves().into_iter().chain(BS_CALC).skip(v).step_by(VARS).map(|k| format!("{k:?} {} ", k.is_calc())).collect(),
        37 => PlK::leaves().into_iter().chain(PL_CALC).skip(v).step_by(VARS).map(|k| format!("{k:?} {} ", k.is_calc())).collect(),
        38 => CfK::leaves().into_iter().chain(CF_CALC).skip(v).step_by(VARS).map(|k| format!("{k:?} {} ", k.is_calc())).collect(),
        39 => match v { 0 => refused::<BsK>(1), 1 => refused::<PlK>(1), _ => refused::<CfK>(1) },
        40 => { let mut b = book(v); b.calc_elements().calc_cash_flow(); show(&b) }
        41 => { let mut b = book(v); b.calc_tax().set_dates_from_profit_loss(); show(&b) }
        42 => keep(&book(v), |b| b.to_financial_reports().iter().map(report_text).collect::<String>()),
        43 => { let p = periods3()[v]; let mut r = book(v).get_account(p.0, p.1).unwrap(); r.calc_elements(); report_text(&r) }
        44 => keep(&book(v), |b| format!("{:?} {} {}", b.split_periods(), b.check_dates(), show(&b.from_periods(periods3()[..v].iter().copied().collect())))),
        45 => keep(&BTreeSet::from([(dt(2019, 3, 31), dt(2020, 3, 31)), (dt(2020, 3, 31), dt(2020, 6, 30)), (dt(2020, 6, 30), dt(2021, 6, 30 - v as u32))]), |s| d(consecutive_periods(s))),
        46 => keep(&book(v), |b| format!("{} {b}", b.format_table(",", [1.0, 1000.0, 10.0][v]))),
        _ => { let b = book(v); let y: Accounts = ron::from_str(&ron::to_string(&b).unwrap()).unwrap(); let r = b.get_account(periods3()[v].0, periods3()[v].1).unwrap(); let z: FinancialReport = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap(); format!("{} {}", show(&y), report_text(&z)) }
    });
    match r {
        Ok(s) => s.replace('\n', " ~ "),
        Err(e) => format!("PANIC {}", e.replace('\n', " ")),
    }
}
/// A call with its arguments as numbers, the first `ints` of them whole (day numbers, codes).
struct Call {
    name: &'static str,
    ints: usize,
    /// results do not pass through unordered maps: compared bit by bit
    exact: bool,
    args: Vec<f64>,
    f: fn(&[f64]) -> String,
}
fn day(x: f64) -> chrono::NaiveDate {
    dt(2019, 1, 31) + chrono::Duration::days(x as i64)
}
fn conv(x: f64) -> DayCountConvention {
    match (x as i64).rem_euclid(5) {
        0 => ACT360,
        1 => ACT365,
        2 => ACTACT,
        3 => EU30360,
        _ => US30360,
    }
}
fn curve(a: &[f64], kind: f64) -> financelib::fixedincomes::bonds::rates::RateCurve {
    let (rate, freq) = (a[1..].to_vec(), a[0]);
    match (kind as i64).rem_euclid(3) {
        0 => NominalRateCurve { rate, freq },
        1 => EffectiveRateCurve { rate, freq },
        _ => ExponentialRateCurve { rate, freq },
    }
}
fn bond(a: &[f64]) -> CouponBond {
    CouponBond { par: a[0], c: a[1], freq: a[2], t_life: a[3] }
}
fn frn(a: &[f64]) -> FloatingRateNotes {
    FloatingRateNotes { par: a[0], quoted_margin: a[1], freq: a[2], t_life: a[3] }
}
fn st<Q: Kind>(a: &[f64], first: usize) -> Q::M {
    let l = Q::leaves();
    Q::map(&a.iter().enumerate().map(|(i, v)| (l[(first + 5 * i) % l.len()], *v)).collect::<Vec<_>>())
}
/// A book whose sections are present by the bits of a[0]: sheets, years, quarters, cash flows, other figures.
fn shaped_book(a: &[f64]) -> Accounts {
    let k = a[0].abs() as usize;
    let mut b = empty_book();
    let ds = [day(0.0), day(90.0), day(365.0)];
    if k & 1 == 1 {
        b.balance_sheet.insert(ds[2], BsMap::from([(Cash, a[1]), (Assets, a[1])]));
    }
    for (bit, p) in [(2, (ds[0], ds[2])), (4, (ds[0], ds[1]))] {
        if k & bit != 0 {
            b.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, a[2]), (PlType::Revenue, a[2])]));
            if k & 8 != 0 {
                b.cash_flow.insert(p, CfMap::from([(CfType::ChangeDebt, a[3])]));
            }
            if k & 16 != 0 {
                b.others.insert(p, rates(0.3, 0.1, 0.0));
            }
        }
    }
    b
}
/// A book of two years whose dates start at day a[0] and whose amounts are the rest.
fn small_book(a: &[f64]) -> Accounts {
    let mut b = empty_book();
    let ds = [day(a[0]), day(a[0] + 365.0), day(a[0] + 730.0 + a[1])];
    for (i, x) in ds.iter().enumerate() {
        b.balance_sheet.insert(*x, BsMap::from([(Cash, a[2 + i]), (PlantPropertyEquipment, a[3]), (LongTermBorrowings, a[4]), (CommonStock, 70.0 + i as f64)]));
    }
    for i in 0..2 {
        b.profit_loss.insert((ds[i], ds[i + 1]), PlMap::from([(PlType::OperatingRevenue, a[5]), (PlType::CostMaterial, a[6] + i as f64), (PlType::InterestExpense, a[7]), (PlType::Depreciation, a[8])]));
        b.others.insert((ds[i], ds[i + 1]), rates(a[9], a[10], a[11]));
    }
    b
}
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut c = |name, ints, args: &[f64], f: fn(&[f64]) -> String| v.push(Call { name, ints, exact: true, args: args.to_vec(), f });
    c("is_leap_year, days_in_year", 1, &[2000.0], |a| format!("{} {}", is_leap_year(a[0] as i32), days_in_year(a[0] as i32)));
    c("date_to_float", 1, &[30.0], |a| d(date_to_float(day(a[0]))));
    c("date_from_float", 0, &[2020.37], |a| d(date_from_float(a[0].clamp(1.0, 9000.0))));
    c("yearfrac", 3, &[28.0, 760.0, 2.0], |a| d(yearfrac(day(a[0]), day(a[1]), conv(a[2]))));
    c("yrfrac", 2, &[28.0, 760.0], |a| d(yrfrac((day(a[0]), day(a[1])))));
    c("dis_fact_annual", 0, &[0.07], |a| d(dis_fact_annual(a[0])));
    c("dis_fact", 0, &[0.07, 2.5], |a| d(dis_fact(a[0], a[1])));
    c("xdis_fact", 2, &[0.0, 800.0, 0.05], |a| d(xdis_fact(a[2], (day(a[0]), day(a[1])))));
    c("fwd_dis_fact", 0, &[0.04, 1.0, 0.05, 2.0], |a| d(fwd_dis_fact((a[0], a[1]), (a[2], a[3]))));
    c("pv", 0, &[0.07, 3.0, 100.0], |a| d(pv(a[0], a[1], a[2])));
    c("fv", 0, &[0.07, 3.0, 100.0], |a| d(fv(a[0], a[1], a[2])));
    c("xpv", 2, &[0.0, 500.0, 0.07, 100.0], |a| d(xpv(a[2], (day(a[0]), day(a[1])), a[3])));
    c("xfv", 2, &[0.0, 500.0, 0.07, 100.0], |a| d(xfv(a[2], (day(a[0]), day(a[1])), a[3])));
    c("pvm", 0, &[0.07, 3.0, 12.0, 100.0], |a| d(pvm(a[0], a[1], a[2], a[3])));
    c("fvm", 0, &[0.07, 3.0, 12.0, 100.0], |a| d(fvm(a[0], a[1], a[2], a[3])));
    c("pvc", 0, &[0.07, 3.0, 100.0], |a| d(pvc(a[0], a[1], a[2])));
    c("fvc", 0, &[0.07, 3.0, 100.0], |a| d(fvc(a[0], a[1], a[2])));
    c("pv_annuity", 0, &[0.06, 10.0, 12.0, -7.0, 100.0], |a| d(pv_annuity(a[0], a[1], a[2], a[3], a[4])));
    c("pmt", 0, &[0.06, 10.0, 12.0, 1000.0, 100.0], |a| d(pmt(a[0], a[1], a[2], a[3], a[4])));
    c("nom_eff_rate", 0, &[0.08, 4.0], |a| d(nom_eff_rate(a[0], a[1])));
    c("eff_nom_rate", 0, &[0.08, 4.0], |a| d(eff_nom_rate(a[0], a[1])));
    c("exp_eff_rate", 0, &[0.08], |a| d(exp_eff_rate(a[0])));
    c("eff_exp_rate", 0, &[0.08], |a| d(eff_exp_rate(a[0])));
    c("nom_exp_rate", 0, &[0.08, 4.0], |a| d(nom_exp_rate(a[0], a[1])));
    c("exp_nom_rate", 0, &[0.08, 4.0], |a| d(exp_nom_rate(a[0], a[1])));
    c("approx, is_zero", 0, &[1e-6, 1e-6], |a| format!("{} {} {}", approx(a[0], a[1]), is_zero(a[0]), approx(1e6 * a[0], 1.0)));
    c("npv_t0", 0, &[0.1, 0.0, 1.0, 2.0, 3.5, -100.0, 40.0, 50.0, 30.0], |a| d(npv_t0(a[0], &a[1..5].to_vec(), &a[5..].to_vec())));
    c("npv", 0, &[0.1, 0.5, 0.0, 1.0, 2.0, 3.5, -100.0, 40.0, 50.0, 30.0], |a| d(npv(a[0], &a[2..6].to_vec(), a[1], &a[6..].to_vec())));
    c("xnpv", 4, &[0.0, 300.0, 800.0, 100.0, 0.1, -100.0, 40.0, 90.0], |a| d(xnpv(a[4], &a[..3].iter().map(|x| day(*x)).collect(), day(a[3]), &a[5..].to_vec())));
    c("irr", 0, &[0.0, 1.0, 2.0, 3.0, -100.0, 40.0, 50.0, 30.0], |a| d(irr(&a[..4].to_vec(), &a[4..].to_vec())));
    c("xirr", 3, &[0.0, 300.0, 800.0, -100.0, 40.0, 90.0], |a| d(xirr(&a[..3].iter().map(|x| day(*x)).collect(), &a[3..].to_vec())));
    c("newt_raph", 0, &[3.0, 7.0, 10.0, 1e-6], |a| d(newt_raph(|z| (z - a[0]) * (z - a[1]), a[2], a[3].abs().max(1e-9))));
    c("bond price", 0, &[100.0, 0.05, 2.0, 10.0, 0.04], |a| d(bond(a).price(a[4])));
    c("bond ytm", 0, &[100.0, 0.05, 2.0, 10.0, 96.0], |a| d(bond(a).ytm(a[4])));
    c("bond cash flow", 0, &[100.0, 0.05, 2.0, 4.0], |a| d(bond(a).generate_cashflow()));
    c("bond accrued interest", 0, &[100.0, 0.05, 2.0, 4.0, 0.3], |a| d(bond(a).accrued_interest(a[4])));
    c("bond full and flat value", 0, &[100.0, 0.05, 2.0, 4.0, 0.06, 0.3], |a| format!("{:?} {:?}", bond(a).pv_full(a[4], a[5]), bond(a).pv_flat(a[4], a[5])));
    c("bond on curve", 1, &[0.0, 100.0, 0.05, 1.0, 3.0, 1.0, 0.02, 0.03, 0.05], |a| d(bond(&a[1..5]).price_ratecurve(&curve(&a[5..], a[0]))));
    c("frn price", 0, &[100.0, 0.01, 4.0, 2.0, 0.03, 0.012], |a| d(frn(a).price(a[4], a[5])));
    c("frn margin", 0, &[100.0, 0.01, 4.0, 2.0, 98.0, 0.03], |a| d(frn(a).discount_margin(a[4], a[5])));
    c("curve estimate", 1, &[0.0, 1.2, 2.0, 0.02, 0.04, 0.03], |a| d(curve(&a[2..], a[0]).rate_estim(a[1])));
    c("curve value", 1, &[0.0, 50.0, 1.2, 2.0, 0.02, 0.04, 0.03], |a| d(curve(&a[3..], a[0]).pv(a[1], a[2])));
    c("curve conversions", 1, &[0.0, 2.0, 0.02, 0.04, 0.03], |a| { let c = curve(&a[1..], a[0]); format!("{:?} {:?} {:?}", c.to_nominal(), c.to_effective(), c.to_exponential()) });
    c("par to spot", 1, &[0.0, 1.0, 0.02, 0.04, 0.03], |a| d(ParRates { rate: curve(&a[1..], a[0]) }.to_spot()));
    c("spot to par", 1, &[0.0, 1.0, 0.02, 0.04, 0.03], |a| d(SpotRates { rate: curve(&a[1..], a[0]) }.to_par()));
    c("forward rate", 1, &[0.0, 1.0, 1.0, 1.0, 0.02, 0.04, 0.03], |a| d(SpotRates { rate: curve(&a[3..], a[0]) }.forward_rate(a[1], a[2])));
    c("t_bill_r", 0, &[150.0, 98e3, 1e5], |a| d(t_bill_r(a[0], a[1], a[2])));
    c("t_bill_d", 0, &[0.05, 150.0, 1e5], |a| d(t_bill_d(a[0], a[1], a[2])));
    c("holding_per_yield", 0, &[98.0, 95.0, 5.0], |a| d(holding_per_yield(a[0], a[1], a[2])));
    c("eff_ann_yield", 0, &[150.0, 98.0, 95.0, 5.0], |a| d(eff_ann_yield(a[0], a[1], a[2], a[3])));
    c("money_mkt_yield", 0, &[150.0, 98.0, 95.0, 5.0], |a| d(money_mkt_yield(a[0], a[1], a[2], a[3])));
    c("twrr_n", 0, &[2.0, 4.0, 6.0, 5.775, 6.72, 1.0, -0.5, 0.225], |a| d(twrr_n(a[0], &a[1..5].to_vec(), &a[5..].to_vec())));
    c("twrr", 0, &[4.0, 6.0, 5.775, 6.72, 1.0, -0.5, 0.225], |a| d(twrr(&a[..4].to_vec(), &a[4..].to_vec())));
    c("check_dates", 6, &[0.0, 90.0, 90.0, 181.0, 181.0, 365.0], |a| d(check_dates(&a.chunks(2).map(|p| (day(p[0]), day(p[1]))).collect::<Vec<_>>())));
    c("consecutive_periods", 6, &[0.0, 59.0, 59.0, 151.0, 151.0, 516.0], |a| d(consecutive_periods(&a.chunks(2).map(|p| (day(p[0]), day(p[1]))).collect())));
    for (f, name) in [
        ((|a| { let mut m = st::<BsK>(a, 0); m.calc_elements(); items::<BsK>(&m) }) as fn(&[f64]) -> String, "balance sheet totals"),
        (|a| { let mut m = st::<BsK>(a, 3); m.calc_elements(); items::<BsK>(&m) }, "other balance sheet totals"),
        (|a| { let mut m = st::<PlK>(a, 0); m.calc_elements(); items::<PlK>(&m) }, "profit-and-loss totals"),
        (|a| { let mut m = st::<PlK>(a, 2); m.calc_elements(); items::<PlK>(&m) }, "other profit-and-loss totals"),
        (|a| { let mut m = st::<CfK>(a, 0); m.calc_elements(); items::<CfK>(&m) }, "cash flow totals"),
        (|a| { let mut m = st::<BsK>(&a[1..], 0); m.transact((Cash, AccumulatedDepreciation, a[0])).debit(Goodwill, a[1]).credit(CommonStock, a[2]); items::<BsK>(&m) }, "transactions"),
        (|a| { let mut m = st::<PlK>(&a[1..], 0); m.add(PlType::Salaries, a[0]).upsert(PlType::Dividends, a[1]); items::<PlK>(&m) }, "additions"),
        (|a| { let mut m = st::<PlK>(a, 0); m.insert(PlType::Revenue, a[0]); items::<PlK>(&m.common_size()) }, "common size"),
        (|a| { let mut p = st::<PlK>(&a[4..], 24); p.calc_elements(); items::<CfK>(&calc_cash_flow(&st::<BsK>(&a[..2], 0), &st::<BsK>(&a[2..4], 0), &p, 0.3, 0.02, 0.01)) }, "derived cash flow"),
    ] {
        v.push(Call { name, ints: 0, exact: false, args: vec![100.0, -40.0, 7.25, 1e5, 60.0, 33.0, -9.0, 250.0], f });
    }
    v.push(Call { name: "cash flow rates", ints: 0, exact: false, args: vec![0.3, 0.02, 0.01, 900.0, 400.0, 70.0], f: |a| { let mut p = PlMap::from([(PlType::OperatingRevenue, a[3]), (PlType::CostMaterial, a[4]), (PlType::InterestExpense, a[5])]); p.calc_elements(); items::<CfK>(&calc_cash_flow(&BsMap::new(), &BsMap::new(), &p, a[0], a[1], a[2])) } });
    for (f, name) in [
        ((|a| { let mut b = small_book(a); b.calc_elements().calc_cash_flow(); show(&b) }) as fn(&[f64]) -> String, "book calc"),
        (|a| { let mut b = small_book(a); b.calc_tax(); show(&b) }, "book tax"),
        (|a| { let mut b = small_book(a); b.set_tax_rates(a[9], a[10], a[11]); b.set_dates_from_profit_loss(); show(&b) }, "book rates and dates"),
        (|a| small_book(a).to_financial_reports().iter_mut().map(|r| { r.calc_elements(); report_text(r) }).collect(), "report calc"),
        (|a| { let b = small_book(a); format!("{:?} {} {} {}", b.split_periods(), b.check_dates(), show(&b.from_periods(b.profit_loss.keys().take(1).copied().collect())), show(&b.consecutive_profit_loss())) }, "book periods"),
        (|a| { let b = small_book(a); format!("{b} {}", b.format_table(",", 1.0)) }, "table"),
        (|a| { let b = small_book(a); let y: Accounts = ron::from_str(&ron::to_string(&b).unwrap()).unwrap(); let r = b.to_financial_reports().remove(0); let z: FinancialReport = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap(); format!("{} {}", show(&y), report_text(&z)) }, "storage"),
    ] {
        v.push(Call { name, ints: 2, exact: false, args: vec![28.0, 0.0, 100.0, 900.0, 400.0, 1000.0, 600.0, 70.0, 40.0, 0.3, 0.02, 0.01], f });
    }
    v.push(Call { name: "display of books of every make-up", ints: 1, exact: false, args: vec![2.0, 4e9, 3e6, 70.0], f: |a| format!("{}", shaped_book(a)) });
    v.push(Call { name: "tables of books of every make-up", ints: 1, exact: false, args: vec![31.0, 4e9, 3e6, 70.0], f: |a| shaped_book(a).format_table("|", 1e3) });
    v
}
impl Call {
    /// The base arguments, and each argument in turn changed a little, more, and out of all proportion.
    fn variants(&self) -> Vec<Vec<f64>> {
        // a million times the periods of a bond or curve is too many to list
        let big = !["bond", "frn", "curve", "par to spot", "spot to par", "forward"].iter().any(|p| self.name.starts_with(p));
        let mut v = vec![self.args.clone()];
        for (j, &x) in self.args.iter().enumerate() {
            let alts: Vec<f64> = if j < self.ints {
                [1.0, -1.0, 2.0, 5.0, 29.0, 31.0, 100.0, 365.0, -366.0].iter().map(|d| x + d).collect()
            } else {
                vec![x * (1.0 + 1e-9), x * (1.0 + 1e-6), x * 1.0008, x * 1.004, x * 1.4, -x, 0.0, x + 1.0, x * 1e3, x * if big { 1e6 } else { 7.0 }]
            };
            for a in alts {
                let mut w = self.args.clone();
                w[j] = a;
                v.push(w);
            }
        }
        // two neighbouring arguments exchanged
        for j in 1..self.args.len() {
            let mut w = self.args.clone();
            w.swap(j - 1, j);
            v.push(w);
        }
        v
    }
    fn run(&self, a: &[f64]) -> String {
        match guarded(|| (self.f)(a)) {
            Ok(s) => s.replace('\n', " ~ "),
            Err(_) => "PANIC".into(),
        }
    }
}
/// Child process: one variant of a call alone, or every ordered pair of its variants one after another.
pub fn child_args(spec: &str) {
    let cs = calls();
    let (a, b) = spec.split_once(',').unwrap();
    let c = &cs[a.parse::<usize>().unwrap()];
    let vs = c.variants();
    if b == "pairs" {
        let mut ids: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
        // print results by number: a new text once, then its number
        let mut out = String::new();
        for x in &vs {
            for y in &vs {
                for w in [x, y] {
                    let r = c.run(w);
                    let n = ids.len();
                    match ids.get(&r) {
                        Some(k) => out += &format!("{k}\n"),
                        None => {
                            out += &format!("{n} {r}\n");
                            ids.insert(r, n);
                        }
                    }
                }
            }
        }
        print!("{out}");
    } else {
        println!("{}", c.run(&vs[b.parse::<usize>().unwrap()]));
    }
}
fn spawn_args(c: usize, what: &str) -> Result<Vec<String>, String> {
    let o = Command::new(std::env::current_exe().unwrap()).args(["b10-args", &format!("{c},{what}")]).output().map_err(|e| e.to_string())?;
    ensure!(o.status.success(), "the process running call {c} {what} ended with {:?}", o.status);
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
}
fn arguments() -> Task {
    let cs = calls();
    let nvar: usize = cs.iter().map(|c| c.variants().len()).sum();
    fam("arguments", &format!("{} calls, {nvar} argument lists (each argument changed by a billionth, a millionth, 0.08%, 0.4%, 40%, in sign, to zero, by one, a thousandfold, a millionfold (sevenfold for bonds and curves); dates by days, weeks, years; neighbours exchanged): every ordered pair of argument lists of a call one after the other in one process, every result against the call alone in a fresh process", cs.len()), cs.len(), move |i, cx| {
        let c = &cs[i as usize];
        let vs = c.variants();
        let solo: Vec<String> = (0..vs.len()).map(|v| spawn_args(i as usize, &v.to_string()).map(|r| r.join("\n"))).collect::<Result<_, _>>()?;
        ensure!(solo[0] != "PANIC", "{} fails on {:?}", c.name, c.args);
        let got = spawn_args(i as usize, "pairs")?;
        let mut texts: Vec<&str> = vec![];
        ensure!(got.len() == 2 * vs.len() * vs.len(), "{}: {} results", c.name, got.len());
        let mut agree: BTreeSet<(usize, usize)> = BTreeSet::new();
        for (n, line) in got.iter().enumerate() {
            let (pair, second) = (n / 2, n % 2 == 1);
            let (x, y) = (pair / vs.len(), pair % vs.len());
            let v = if second { y } else { x };
            let id: usize = match line.split_once(' ') {
                Some((k, t)) if k.parse() == Ok(texts.len()) => {
                    texts.push(t);
                    texts.len() - 1
                }
                _ => line.trim().parse().map_err(|_| format!("{}: unreadable result {line}", c.name))?,
            };
            cx.step();
            if agree.insert((v, id)) {
                let ok = if c.exact { texts[id] == solo[v] } else { same(texts[id], &solo[v]) };
                ensure!(ok, "{} of {:?} after {:?} gives\n  {}\nalone in a fresh process\n  {}", c.name, vs[v], if second { &vs[x] } else { &vs[if y > 0 { y - 1 } else { vs.len() - 1 }] }, texts[id], solo[v]);
            }
        }
        for t in &solo {
            cx.state();
            cx.trace();
            cx.out(h64(t));
        }
        cx.sample(|| format!("{}: {} argument lists, {:.120}", c.name, vs.len(), solo[0]));
        Ok(())
    })
}
/// Child process: run the probes of the list in order, print one line each.
pub fn child(list: &str) {
    let mut out = String::new();
    for p in list.split(',') {
        out += &probe(p.parse().unwrap());
        out.push('\n');
    }
    print!("{out}");
}
fn spawn(seq: &[usize]) -> Result<Vec<String>, String> {
    let list: Vec<String> = seq.iter().map(|p| p.to_string()).collect();
    let o = Command::new(std::env::current_exe().unwrap()).args(["b10-child", &list.join(",")]).output().map_err(|e| e.to_string())?;
    ensure!(o.status.success(), "the process running {} ended with {:?}", names(seq), o.status);
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    Ok(t.lines().map(|l| l.to_string()).collect())
}
fn name(p: usize) -> String {
    format!("{}#{}", kind_name(p / VARS), p % VARS)
}
fn names(seq: &[usize]) -> String {
    seq.iter().map(|&p| name(p)).collect::<Vec<_>>().join(", ")
}
/// Equal up to the order of floating-point summation.
fn same(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let sp = |c: char| c.is_whitespace() || "[](){},|".contains(c);
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split(sp).collect(), b.split(sp).collect());
    x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || matches!((p.parse::<f64>(), q.parse::<f64>()), (Ok(p), Ok(q)) if close(p, q, 1.0, 1e-9)))
}
fn judge(seq: &[usize], got: &[String], solo: &[String]) -> R {
    ensure!(got.len() == seq.len(), "{} results of {}", got.len(), seq.len());
    for (j, (&p, g)) in seq.iter().zip(got).enumerate() {
        ensure!(same(g, &solo[p]), "{} after [{}] gives\n  {g}\nalone in a fresh process\n  {}", name(p), names(&seq[..j]), solo[p]);
    }
    Ok(())
}
pub fn b10(thorough: bool) -> Prop {
    // reference: each probe alone in a fresh process
    let solo: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|w| s.spawn(move || (w..PROBES).step_by(8).map(|p| (p, spawn(&[p]))).collect::<Vec<_>>())).collect();
        let mut v = vec![String::new(); PROBES];
        for h in hs {
            for (p, r) in h.join().unwrap() {
                v[p] = r.map(|r| r.join("\n")).unwrap_or_else(|e| format!("FAILED {e}"));
            }
        }
        v
    });
    let solo = Arc::new(solo);
    let mut tasks = vec![];
    let s1 = solo.clone();
    tasks.push(fam("alone", &format!("{PROBES} probes (48 calls or groups of calls across the library x 3 arguments), each twice in its own fresh process: no panic, inputs unchanged, the same result both times"), PROBES, move |i, cx| {
        let p = i as usize;
        ensure!(!s1[p].starts_with("FAILED") && !s1[p].starts_with("PANIC"), "{} alone: {}", name(p), s1[p]);
        ensure!(!s1[p].contains("INPUT-CHANGED"), "{} changed its input", name(p));
        let g = spawn(&[p, p])?;
        cx.state();
        cx.steps(3);
        cx.trace();
        cx.out(h64(&s1[p]));
        cx.sample(|| format!("{}: {:.200}", name(p), s1[p]));
        judge(&[p, p], &g, &s1)
    }));
    let s2 = solo.clone();
    tasks.push(fam("pairs-fresh", "every ordered pair of probes in a fresh process (second probe of the pair repeated), against each alone in its own process", PROBES * PROBES, move |i, cx| {
        let (a, b) = (i as usize / PROBES, i as usize % PROBES);
        let seq = [a, b, a, b];
        let g = spawn(&seq)?;
        cx.state();
        cx.steps(4);
        cx.trace();
        cx.out(i);
        cx.sample(|| names(&seq));
        judge(&seq, &g, &s2)
    }));
    let s3 = solo.clone();
    tasks.push(fam("triples", "every ordered triple of probes run one after another in a long-lived process, each result against the probe alone in a fresh process", PROBES * PROBES, move |i, cx| {
        let (a, b) = (i as usize / PROBES, i as usize % PROBES);
        // kinds of the third probe are all covered: a, b, c, a, b, c' ...
        let step = if thorough { 1 } else { 3 };
        let mut c = (a + b) % step;
        while c < PROBES {
            for p in [a, b, c] {
                let g = probe(p);
                cx.step();
                ensure!(same(&g, &s3[p]), "{} in the middle of {} of a long-lived process gives\n  {g}\nalone in a fresh process\n  {}", name(p), names(&[a, b, c]), s3[p]);
            }
            cx.state();
            cx.trace();
            c += step;
        }
        cx.out(i);
        cx.sample(|| format!("{} then {} then every probe", name(a), name(b)));
        Ok(())
    }));
    let s4 = solo.clone();
    let reps = if thorough { 20_000 } else { 1_500 };
    tasks.push(fam("repetition", &format!("each probe {reps} times in succession, its variants interleaved"), KINDS, move |i, cx| {
        for n in 0..reps {
            let p = i as usize * VARS + if n % 7 < 4 { n % VARS } else { 0 };
            let g = probe(p);
            cx.step();
            ensure!(same(&g, &s4[p]), "call {n} of {} gives\n  {g}\nalone in a fresh process\n  {}", name(p), s4[p]);
        }
        cx.state();
        cx.trace();
        cx.out(i);
        cx.sample(|| kind_name(i as usize).to_string());
        Ok(())
    }));
    // first-touch orders over three calls
    let touch: Vec<usize> = [30, 31, 32, 33, 35, 36, 37, 38, 39, 40, 41, 43, 46, 47, 13, 17].iter().map(|k| k * VARS + 1).collect();
    let nt = touch.len();
    let len = if thorough { 4 } else { 3 };
    let s5 = solo.clone();
    tasks.push(fam("first-touch", &format!("every sequence of {len} of {nt} calls that initialise or use the library's internal tables, each in a fresh process"), nt.pow(len), move |i, cx| {
        let mut q = Dec(i);
        let seq: Vec<usize> = (0..len).map(|_| touch[q.n(nt)]).collect();
        let g = spawn(&seq)?;
        cx.state();
        cx.steps(len as u64);
        cx.trace();
        cx.out(i);
        cx.sample(|| names(&seq));
        judge(&seq, &g, &s5)
    }));
    tasks.push(arguments());
    Prop { id: "B10", assumptions: vec!["single-threaded callers, one call at a time in the fresh processes; the triples run in eight threads of one process, calls interleaving freely"], tasks }
}
