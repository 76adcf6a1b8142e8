//! Saving and loading; rendering.
use crate::books::*;
use crate::engine::*;
use crate::ensure;
use crate::refm::*;
use chrono::Datelike;
use chrono::naive::NaiveDate as NDt;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::{self, *};
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::valuations::{CompanyReports, Industry, ValuationModel};
use financelib::{Currency, Period};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

// ---------------------------------------------------------------- S17
const VALS: [f64; 26] = [
    1.0, 0.0, -0.0, -1.0, 0.1, 1.0 / 3.0, 2.0 / 3.0, 1e-5, 1e-9, 123456789.123, -98765432109.875, 1e15, 1e21, 1e22, 1e23, -1e100, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 4.35, 0.30000000000000004, 2.5e-7, 1e16,
];
const CURS: [(Currency, &str); 8] = [
    (Currency::INR, "INR"),
    (Currency::USD, "USD"),
    (Currency::NGN, "NGN"),
    (Currency::EUR, "EUR"),
    (Currency::GBP, "GBP"),
    (Currency::CNY, "CNY"),
    (Currency::MZN, "MZN"),
    (Currency::ZAR, "ZAR"),
];
const INDS: [(Industry, &str); 9] = [
    (Industry::General, "General"),
    (Industry::Automotive, "Automotive"),
    (Industry::Aerospace, "Aerospace"),
    (Industry::HeavyEngineering, "HeavyEngineering"),
    (Industry::InformationTech, "InformationTech"),
    (Industry::Banking, "Banking"),
    (Industry::Metals, "Metals"),
    (Industry::Retail, "Retail"),
    (Industry::Education, "Education"),
];
const OTHERS: [FinOthersTyp; 7] = [CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate, CurrentRatio, AcidRatio, DaysOfInventory, InventoryTurnoverRatio];
fn json_back<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, cx: &mut Cx) -> Result<(T, String), String> {
    let s = serde_json::to_string(x).map_err(|e| format!("cannot be written as JSON: {e}"))?;
    let y = serde_json::from_str(&s).map_err(|e| format!("cannot be read back from JSON {s}: {e}"))?;
    cx.steps(2);
    Ok((y, s))
}
fn ron_back<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, cx: &mut Cx) -> Result<(T, String), String> {
    let s = ron::to_string(x).map_err(|e| format!("cannot be written as RON: {e}"))?;
    let y = ron::from_str(&s).map_err(|e| format!("cannot be read back from RON {s}: {e}"))?;
    cx.steps(2);
    Ok((y, s))
}
/// Does a JSON value differ from another only in the last place of some amounts? (The JSON library's default parser reads amounts
/// of 17 digits to within one unit in the last place.)
fn last_place(a: &serde_json::Value, b: &serde_json::Value) -> Option<bool> {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (x, y) = (x.as_f64()?, y.as_f64()?);
            ((x - y).abs() <= 5e-16 * x.abs()).then_some(x != y)
        }
        (Array(x), Array(y)) => (x.len() == y.len()).then_some(())?.then_all(x.iter().zip(y).map(|(p, q)| last_place(p, q))),
        (Object(x), Object(y)) => (x.len() == y.len()).then_some(())?.then_all(x.iter().map(|(k, p)| last_place(p, y.get(k)?))),
        _ => (a == b).then_some(false),
    }
}
trait ThenAll {
    fn then_all(self, it: impl Iterator<Item = Option<bool>>) -> Option<bool>;
}
impl ThenAll for () {
    /// None when any part differs, otherwise whether some amount is off in the last place.
    fn then_all(self, it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
        let mut any = false;
        for x in it {
            any |= x?;
        }
        Some(any)
    }
}
fn json_same<T: serde::Serialize + PartialEq + Debug>(x: &T, y: &T) -> bool {
    *x == *y || matches!((serde_json::to_value(x), serde_json::to_value(y)), (Ok(a), Ok(b)) if last_place(&a, &b) == Some(true))
}
/// RON text is read exactly, JSON text up to the last place of an amount.
pub fn both<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(x: &T, cx: &mut Cx) -> R {
    let (y, s) = ron_back(x, cx)?;
    ensure!(y == *x, "read back from RON {s} as {y:?}");
    let (y, s) = json_back(x, cx)?;
    ensure!(json_same(x, &y), "read back from JSON {s} as {y:?}");
    cx.state();
    cx.trace();
    cx.out(h64(&s));
    // pretty forms
    let s = serde_json::to_string_pretty(x).map_err(|e| e.to_string())?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("pretty JSON: {e}"))?;
    ensure!(json_same(x, &y), "read back from pretty JSON as {y:?}");
    let s = ron::ser::to_string_pretty(x, Default::default()).map_err(|e| e.to_string())?;
    let y: T = ron::from_str(&s).map_err(|e| format!("pretty RON: {e}"))?;
    ensure!(y == *x, "read back from pretty RON as {y:?}");
    Ok(())
}
pub fn ron_only<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(x: &T, cx: &mut Cx) -> R {
    let (y, s) = ron_back(x, cx)?;
    ensure!(y == *x, "read back from RON {s} as {y:?}");
    let s2 = ron::ser::to_string_pretty(x, Default::default()).map_err(|e| e.to_string())?;
    let y: T = ron::from_str(&s2).map_err(|e| format!("pretty RON: {e}"))?;
    ensure!(y == *x, "read back from pretty RON as {y:?}");
    cx.state();
    cx.trace();
    cx.out(h64(s.len()));
    Ok(())
}
fn items_task<Q: Kind>(text: Vec<&'static str>, wrap: fn(&Q::M, usize, &mut Cx) -> R) -> Task
where
    Q::M: serde::Serialize + serde::de::DeserializeOwned,
{
    let ks: Vec<Q::K> = Q::leaves().into_iter().chain(Q::calcs()).collect();
    let names: BTreeSet<String> = text.iter().map(|s| s.to_string()).collect();
    let n = ks.len();
    fam(&format!("{}-items", Q::NAME.replace(' ', "-")), "every item x 26 amounts: the map and the statement around it through JSON and RON; the item is stored under its own name and a file naming it loads as it", n * VALS.len(), move |i, cx| {
        let (k, v) = (ks[i as usize % n], VALS[i as usize / n]);
        let name = format!("{k:?}");
        ensure!(names.contains(&name), "unknown item {name}");
        let js = serde_json::to_string(&k).map_err(|e| e.to_string())?;
        ensure!(js == format!("\"{name}\""), "{name} is stored as {js}");
        let rs = ron::to_string(&k).map_err(|e| e.to_string())?;
        ensure!(rs == name, "{name} is stored in RON as {rs}");
        let m: Q::M = serde_json::from_str(&format!("{{\"{name}\": {v:?}}}")).map_err(|e| format!("a file naming {name} does not load: {e}"))?;
        ensure!(Q::items(&m).len() == 1 && Q::has(&m, k) && close(m.value(k), v, 0.0, 5e-16), "a file naming {name} with {v:?} loads as {m:?}");
        let m: Q::M = ron::from_str(&format!("{{{name}: {v:?},}}")).map_err(|e| format!("a RON file naming {name} does not load: {e}"))?;
        ensure!(Q::items(&m).len() == 1 && Q::has(&m, k) && m.value(k).to_bits() == v.to_bits(), "a RON file naming {name} with {v:?} loads as {m:?}");
        let m = Q::map(&[(k, v), (ks[(i as usize + 1) % n], -2.0 * (v / 4.0))]);
        let (y, s) = ron_back(&m, cx)?;
        ensure!(y == m, "{m:?} read back from RON {s} as {y:?}");
        let (y, s) = json_back(&m, cx)?;
        ensure!(json_same(&m, &y), "{m:?} read back from JSON {s} as {y:?}");
        wrap(&m, i as usize, cx)?;
        cx.state();
        cx.trace();
        cx.out(h64(s));
        cx.sample(|| format!("{name} = {v:?}"));
        Ok(())
    })
}
fn all_dates() -> Vec<NDt> {
    let mut v = vec![];
    for y in [1900, 1999, 2000, 2019, 2020, 2024, 2100] {
        for (m, d) in [(1, 1), (2, 28), (2, 1), (3, 31), (12, 31), (10, 9)] {
            v.push(dt(y, m, d));
        }
    }
    v.extend([dt(2000, 2, 29), dt(2020, 2, 29), dt(1, 1, 1), dt(9999, 12, 31), dt(999, 6, 7), dt(0, 3, 4), dt(-44, 3, 15), dt(12345, 6, 7)]);
    v
}
/// The exact text a report of an earlier run of the library may be stored as.
const REPORT_JSON: &str = r#"{"period":["2009-05-22","2010-09-27"],"balance_sheet_beg":{"Cash":23.5,"Equity":12.5},"balance_sheet_end":null,"profit_loss":{"Revenue":-2.58,"TaxesCurrent":7},"cash_flow":{"ChangeDebt":1e3},"others":{"AcidRatio":0.5}}"#;
const BOOK_RON: &str = r#"Accounts (currency: USD, consolidated: false, dates: ["2009-03-01", "2010-03-01"],
 balance_sheet: {"2009-03-01": {Cash: 4121000000, Inventories: 5, MinorityInterests: -2.5,}},
 profit_loss: {("2008-03-01","2009-03-01"): {OperatingRevenue: 70881000000, OtherIncome: 1039000000, EAT: 1.5}},
 cash_flow: {("2008-03-01","2009-03-01"): {NetCashFlow: 1}, }, others: {("2008-03-01","2009-03-01"): {CorporateTaxRate: 0.3}},)"#;

fn report(mask: usize, var: usize, p: Period) -> FinancialReport {
    FinancialReport {
        period: p,
        balance_sheet_beg: (mask & 1 != 0).then(|| bs_content(0, var)),
        balance_sheet_end: (mask & 2 != 0).then(|| bs_content(1, var)),
        profit_loss: (mask & 4 != 0).then(|| pl_content(0, var)),
        cash_flow: (mask & 8 != 0).then(|| cf_content(1, var)),
        others: (mask & 16 != 0).then(|| OTHERS.iter().enumerate().filter(|x| (x.0 + var) % 3 != 1).map(|(i, k)| (*k, 0.25 * i as f64 - 0.5)).collect()),
    }
}
pub fn s17(thorough: bool) -> Prop {
    let bsn: Vec<&'static str> = BS_NAMES.split_whitespace().collect();
    let pln: Vec<&'static str> = PL_NAMES.split_whitespace().collect();
    let cfn: Vec<&'static str> = CF_NAMES.split_whitespace().collect();
    let mut tasks = vec![
        items_task::<BsK>(bsn, |m, i, cx| both(&BalanceSheet { date: dates4()[i % 4], items: m.clone() }, cx)),
        items_task::<PlK>(pln, |m, i, cx| both(&ProfitLoss { period: periods3()[i % 3], items: m.clone() }, cx)),
        items_task::<CfK>(cfn, |m, i, cx| both(&CashFlow { period: periods3()[i % 3], items: m.clone() }, cx)),
    ];
    tasks.push(fam("others-and-dates", "every other figure x 26 amounts; every date of a list of 50 (leap days, ends of years, years -44 to 12345) as date or either end of a period in every statement", OTHERS.len() * VALS.len(), move |i, cx| {
        let (k, v) = (OTHERS[i as usize % 7], VALS[i as usize / 7]);
        both(&FinOthers { period: periods3()[0], items: FinOthersMap::from([(k, v)]) }, cx)?;
        let name = ["CorporateTaxRate", "GrossProfitTaxRate", "RevenueTaxRate", "CurrentRatio", "AcidRatio", "DaysOfInventory", "InventoryTurnoverRatio"][i as usize % 7];
        let m: FinOthersMap = ron::from_str(&format!("{{{name}: {v:?}}}")).map_err(|e| format!("a file naming {name} does not load: {e}"))?;
        ensure!(m == FinOthersMap::from([(k, v)]), "a file naming {name} loads as {m:?}");
        let ds = all_dates();
        let d = ds[i as usize % ds.len()];
        let e = ds[(i as usize * 7 + 3) % ds.len()];
        let txt = serde_json::to_string(&BalanceSheet { date: d, items: BsMap::new() }).map_err(|e| e.to_string())?;
        if (0..10000).contains(&d.year()) {
            ensure!(txt == format!("{{\"date\":\"{:04}-{:02}-{:02}\",\"items\":{{}}}}", d.year(), d.month(), d.day()), "an empty sheet at {d} is stored as {txt}");
        }
        both(&BalanceSheet { date: d, items: BsMap::from([(Cash, 1.0)]) }, cx)?;
        both(&ProfitLoss { period: (d, e), items: PlMap::from([(EBT, 1.0)]) }, cx)?;
        both(&CashFlow { period: (e, d), items: CfMap::from([(ChangeDebt, 1.0)]) }, cx)?;
        both(&FinOthers { period: (d, d), items: FinOthersMap::new() }, cx)?;
        both(&Param { unlevered: v, shield_tax: 0.5, equity: -v, debt: 7.0, valuation: VALS[(i as usize / 7 + 3) % VALS.len()] }, cx)?;
        cx.sample(|| format!("{k:?} = {v:?}, date {d}"));
        Ok(())
    }));
    tasks.push(fam("reports", "reports with all 32 presence patterns x 3 contents (every item among them) x 6 periods, as stored and after recalculation; lists of reports", 32 * 3 * 6, move |i, cx| {
        let mut d = Dec(i);
        let (mask, var, q) = (d.n(32), d.n(3), d.n(6));
        let p = [periods3()[0], periods3()[1], periods3()[2], (dates4()[1], dates4()[0]), (dates4()[0], dates4()[0]), (dt(9999, 1, 1), dt(12000, 2, 29))][q];
        let mut r = report(mask, var, p);
        both(&r, cx)?;
        both(&Some(r.clone()), cx)?;
        both(&vec![r.clone(), report(31 - mask, (var + 1) % 3, p)], cx)?;
        if mask & 4 != 0 {
            r.others = Some(rates(0.1, 0.2, 0.3));
            r.calc_elements();
            // recalculated amounts take all 17 digits: RON reads them exactly, JSON to the last place
            ron_only(&r, cx)?;
            let (y, _) = json_back(&r, cx)?;
            for (k, v) in r.profit_loss.as_ref().unwrap() {
                ensure!(close(y.profit_loss.as_ref().unwrap().value(*k), *v, 0.0, 5e-16), "{k:?} = {v:?} read back from JSON as {:?}", y.profit_loss.as_ref().unwrap().value(*k));
            }
        }
        cx.sample(|| format!("parts {mask:05b} over {p:?}"));
        Ok(())
    }));
    tasks.push(fam("odd-parts", "reports whose five parts are each absent, empty, a single zero or filled; books of two dates and three periods with the same choices, with and without dates", 1024, move |i, cx| {
        let mut d = Dec(i);
        let c = [d.n(4), d.n(4), d.n(4), d.n(4), d.n(4)];
        fn part<K: std::hash::Hash + Eq, T>(c: usize, zero: K, full: T) -> Option<std::collections::HashMap<K, f64>>
        where
            T: FnOnce() -> std::collections::HashMap<K, f64>,
        {
            match c {
                0 => None,
                1 => Some(Default::default()),
                2 => Some([(zero, 0.0)].into()),
                _ => Some(full()),
            }
        }
        let p = periods3()[i as usize % 3];
        let r = FinancialReport {
            period: p,
            balance_sheet_beg: part(c[0], Goodwill, || bs_content(0, 0)),
            balance_sheet_end: part(c[1], Assets, || bs_content(1, 0)),
            profit_loss: part(c[2], Salaries, || pl_content(0, 0)),
            cash_flow: part(c[3], NetCashFlow, || cf_content(1, 0)),
            others: part(c[4], AcidRatio, || rates(0.1, 0.0, 0.3)),
        };
        both(&r, cx)?;
        let (s0, s1, pl, cf, ot) = r.to_statements();
        for s in [s0, s1] {
            both(&s, cx)?;
        }
        both(&pl, cx)?;
        both(&cf, cx)?;
        both(&ot, cx)?;
        let mut b = empty_book();
        b.consolidated = i % 2 == 1;
        for (j, d) in dates4().into_iter().take(2).enumerate() {
            if let Some(x) = part(c[j], Cash, || bs_content(j, 0)) {
                b.balance_sheet.insert(d, x);
            }
            if i / 3 % 2 == 0 {
                b.dates.insert(d);
            }
        }
        for (j, p) in periods3().into_iter().enumerate() {
            let k = |n: usize| (c[n] + j) % 4;
            if let Some(x) = part(k(2), Revenue, || pl_content(j, 0)) {
                b.profit_loss.insert(p, x);
            }
            if let Some(x) = part(k(3), ChangeDebt, || cf_content(j, 0)) {
                b.cash_flow.insert(p, x);
            }
            if let Some(x) = part(k(4), CorporateTaxRate, || rates(0.0, 0.2, 0.0)) {
                b.others.insert(p, x);
            }
        }
        ron_only(&b, cx)?;
        cx.sample(|| format!("parts {c:?}"));
        Ok(())
    }));
    tasks.push(fam("books", "books with presence patterns of 4 sheets, 3 statements of each kind (16x8x8x8) x 8 currencies and both flags in turn, and an empty book per currency and flag", 16 * 512, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, ot) = (d.n(16), d.n(8), d.n(8), d.n(8));
        let mut b = empty_book();
        let (cur, name) = CURS[i as usize * 5 % 8];
        b.currency = cur;
        b.consolidated = i / 3 % 2 == 0;
        let txt = ron::to_string(&b).map_err(|e| e.to_string())?;
        ensure!(txt.contains(&format!("currency:{name}")), "{name} is stored in {txt}");
        ron_only(&b, cx)?;
        for (j, x) in dates4().into_iter().enumerate() {
            if bs >> j & 1 == 1 {
                b.balance_sheet.insert(x, bs_content(j, j % 3));
                b.dates.insert(x);
            }
        }
        for (j, x) in periods3().into_iter().enumerate() {
            if pl >> j & 1 == 1 {
                b.profit_loss.insert(x, pl_content(j, j % 3));
            }
            if cf >> j & 1 == 1 {
                b.cash_flow.insert(x, cf_content(j, j % 3));
            }
            if ot >> j & 1 == 1 {
                b.others.insert(x, rates(0.1, 0.2 * j as f64, 1.0 / 3.0));
            }
        }
        ron_only(&b, cx)?;
        if i % 8 == 0 {
            b.calc_elements();
            ron_only(&b, cx)?;
        }
        cx.sample(|| format!("sheets {bs:04b}, profit-and-loss {pl:03b}, cash flows {cf:03b}, others {ot:03b}, {name}"));
        Ok(())
    }));
    tasks.push(fam("models-and-files", "valuation models over all 32 report patterns x 9 industries x 3 sizes; stored texts of a report, a book and the sample book of the repository load as written", 32 * 9 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (mask, ind, size) = (d.n(32), d.n(9), d.n(3));
        let (industry, name) = INDS[ind];
        let js = serde_json::to_string(&industry).map_err(|e| e.to_string())?;
        ensure!(js == format!("\"{name}\""), "{name} is stored as {js}");
        let rep = report(mask, size, periods3()[0]);
        let par = Param { unlevered: 1.5, shield_tax: -0.25, equity: 3e9, debt: 0.1, valuation: 1.0 / 3.0 };
        let txt = format!("(param:{},reports:{},affiliation:{{{name}:0.75}})", ron::to_string(&par).unwrap(), ron::to_string(&rep).unwrap());
        let c: CompanyReports = ron::from_str(&txt).map_err(|e| format!("company reports {txt}: {e}"))?;
        both(&c, cx)?;
        let (_, s) = json_back(&c, cx)?;
        let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(v["affiliation"][name] == 0.75 && v["param"]["shield_tax"] == -0.25 && v["param"]["equity"] == 3e9 && v["reports"] == serde_json::to_value(&rep).unwrap(), "company reports stored as {s}");
        let mut m = ValuationModel { params: BTreeMap::new(), shareprice: BTreeMap::new() };
        for j in 0..size {
            m.params.insert(periods3()[j], c.clone());
            m.shareprice.insert(dates4()[j + 1], 10.5 * j as f64);
            m.shareprice.insert(dates4()[0], VALS[ind]);
        }
        ron_only(&m, cx)?;
        if i == 0 {
            let r: FinancialReport = serde_json::from_str(REPORT_JSON).map_err(|e| format!("stored report: {e}"))?;
            let w = FinancialReport {
                period: (dt(2009, 5, 22), dt(2010, 9, 27)),
                balance_sheet_beg: Some(BsMap::from([(Cash, 23.5), (Equity, 12.5)])),
                balance_sheet_end: None,
                profit_loss: Some(PlMap::from([(Revenue, -2.58), (TaxesCurrent, 7.0)])),
                cash_flow: Some(CfMap::from([(ChangeDebt, 1000.0)])),
                others: Some(FinOthersMap::from([(AcidRatio, 0.5)])),
            };
            ensure!(r == w, "the stored report loads as {r:?}");
            let b: Accounts = ron::from_str(BOOK_RON).map_err(|e| format!("stored book: {e}"))?;
            let p = (dt(2008, 3, 1), dt(2009, 3, 1));
            let w = Accounts {
                currency: Currency::USD,
                consolidated: false,
                dates: BTreeSet::from([dt(2009, 3, 1), dt(2010, 3, 1)]),
                balance_sheet: BTreeMap::from([(dt(2009, 3, 1), BsMap::from([(Cash, 4121000000.0), (Inventories, 5.0), (MinorityInterests, -2.5)]))]),
                profit_loss: BTreeMap::from([(p, PlMap::from([(OperatingRevenue, 70881000000.0), (OtherIncome, 1039000000.0), (EAT, 1.5)]))]),
                cash_flow: BTreeMap::from([(p, CfMap::from([(NetCashFlow, 1.0)]))]),
                others: BTreeMap::from([(p, FinOthersMap::from([(CorporateTaxRate, 0.3)]))]),
            };
            ensure!(b == w, "the stored book loads as {b:?}");
            let t: Accounts = ron::from_str(include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/data/tatamotors.ron"))).map_err(|e| format!("sample book: {e}"))?;
            ensure!(t.balance_sheet.len() == 13 && t.profit_loss.len() == 24 && t.balance_sheet[&dt(2012, 3, 1)].value(CurrentReceivables) == 8237000000.0 && t.profit_loss[&(dt(2017, 12, 1), dt(2018, 3, 1))].value(EAT) == 2125000000.0, "the sample book loads with {} sheets and {} periods", t.balance_sheet.len(), t.profit_loss.len());
            ron_only(&t, cx)?;
        }
        cx.sample(|| format!("parts {mask:05b}, {name}, {size} periods"));
        Ok(())
    }));
    let nmax = if thorough { 150 } else { 50 };
    tasks.push(fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) x 3 contents, as entered and recalculated, with their reports and a valuation model over all their periods"), (nmax + 1) * SHAPES * 3, move |i, cx| {
        let mut d = Dec(i);
        let (shape, var, n) = (d.n(SHAPES), d.n(3), d.n(nmax + 1));
        let mut b = big_book(shape, n, [1, 1970, 9000][var], var);
        b.dates = b.balance_sheet.keys().copied().collect();
        ron_only(&b, cx)?;
        let rs = b.to_financial_reports();
        both(&rs, cx)?;
        for (j, k) in OTHERS.iter().enumerate() {
            if let Some(o) = b.others.values_mut().nth(j) {
                o.insert(*k, 0.125 * j as f64);
            }
        }
        b.calc_elements().calc_cash_flow();
        ron_only(&b, cx)?;
        let mut m = ValuationModel { params: BTreeMap::new(), shareprice: BTreeMap::new() };
        let par = Param { unlevered: 1.5, shield_tax: -0.25, equity: 3e9, debt: 0.1, valuation: 1.0 / 3.0 };
        for (j, r) in rs.iter().enumerate() {
            let aff: Vec<String> = INDS.iter().take(j % 10).enumerate().map(|(q, x)| format!("{}:{:?}", x.1, 0.1 * q as f64)).collect();
            let txt = format!("(param:{},reports:{},affiliation:{{{}}})", ron::to_string(&par).unwrap(), ron::to_string(r).unwrap(), aff.join(","));
            let c: CompanyReports = ron::from_str(&txt).map_err(|e| format!("company reports {txt}: {e}"))?;
            let (_, s) = json_back(&c, cx)?;
            let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            ensure!(v["affiliation"].as_object().map(|o| o.len()) == Some(j % 10), "affiliations {aff:?} are stored as {s}");
            m.shareprice.insert(r.period.1, 10.0 + j as f64 / 3.0);
            m.params.insert(r.period, c);
        }
        ron_only(&m, cx)?;
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    }));
    let sz = crate::stmts::sizes();
    let (kb, kp, kc): (Vec<_>, Vec<_>, Vec<_>) = (BsK::leaves().into_iter().chain(BsK::calcs()).collect(), PlK::leaves().into_iter().chain(PlK::calcs()).collect(), CfK::leaves().into_iter().chain(CfK::calcs()).collect());
    let nk = kb.len().max(kp.len()).max(kc.len());
    tasks.push(fam("amounts", &format!("{} amounts from 1e-12 to 1e18 at every item of every statement, in statements, a report and a book", sz.len()), sz.len() * nk, move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(nk), d.of(&sz));
        let (x, y, z) = (BsMap::from([(kb[q % kb.len()], v)]), PlMap::from([(kp[q % kp.len()], v)]), CfMap::from([(kc[q % kc.len()], v)]));
        let p = periods3()[q % 3];
        both(&BalanceSheet { date: p.0, items: x.clone() }, cx)?;
        both(&ProfitLoss { period: p, items: y.clone() }, cx)?;
        both(&CashFlow { period: p, items: z.clone() }, cx)?;
        let mut b = empty_book();
        b.currency = CURS[i as usize % 8].0;
        b.balance_sheet.insert(p.0, x);
        b.profit_loss.insert(p, y);
        b.cash_flow.insert(p, z);
        b.others.insert(p, FinOthersMap::from([(OTHERS[q % 7], v)]));
        ron_only(&b, cx)?;
        both(&b.get_account(p.0, p.1), cx)?;
        cx.sample(|| format!("item {q} = {v}"));
        Ok(())
    }));
    Prop { id: "S17", assumptions: vec!["finite amounts", "amounts needing 17 digits are compared to the last place in JSON (serde_json's default parser) and exactly in RON"], tasks }
}
const BS_NAMES: &str = "Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments Inventories RawMaterials WorkInProgress FinishedGoods CurrentAssets AccountReceivables LongTermLoanAssets LongTermAdvances LongTermInvestments OtherLongTermAssets PlantPropertyEquipment AccumulatedDepreciation NetPlantPropertyEquipment LeasingRentalAssets AccumulatedAmortizationLease NetLeaseRentalAssets Goodwill CapitalWip OtherTangibleAssets IntangibleAssets IntangibleAssetsDevelopment AccumulatedAmortization NetIntangibleAssets LongTermAssets Assets CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability CurrentLiabilities AccountPayables LongTermBorrowings BondsPayable DeferredTaxLiabilities LongTermLeasesLiability DeferredCompensation DeferredRevenues CustomerDeposits OtherLongTermLiabilities PensionProvision TaxProvision LongTermProvision LongTermLiabilities Liabilities CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock RevaluationReserves Reserves RetainedEarnings AccumulatedOCI MinorityInterests Equity BalanceSheetCheck";
const PL_NAMES: &str = "OperatingRevenue NonOperatingRevenue ExciseStaxLevy OtherIncome Revenue CostMaterial DirectExpenses COGS GrossProfit Salaries AdministrativeExpenses ResearchNDevelopment OtherOverheads OtherOperativeExpenses OtherExpenses ExceptionalItems EBITDA Depreciation TaxDepreciation AssetImpairment LossDivestitures Amortization EBITX InterestRevenue InterestExpense CostDebt OtherFinancialRevenue EBTX ExtraordinaryItems PriorYears EBT TaxesCurrent TaxesDeferred EAT NetIncomeDiscontinuedOps NetIncome Dividends ContributionRetainedEarnings GainsLossesForex GainsLossesActurial GrossSalesPPE GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible SalesAmountPPE SalesAmountLeaseRentalAssets SalesAmountIntangibleAssets GainsLossesSales FvChangeAvlSale OtherDeferredTaxes OtherComprehensiveIncome TotalComprehensiveIncome";
const CF_NAMES: &str = "ChangeCurrentAssets ChangeLongTermAssets ChangeCurrentLiabilities ChangeLongTermLiabilities ChangeProvisions ChangeRetainedEarnings AdjustmentsRetainedEarnings ChangeAccumulatedOci OtherCashFlowOperations CashFlowOperations ChangePPE ChangeReserves AdjustmentsSalesAssets InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets ChangeInvestments OtherCashFlowInvestments CashFlowInvestments StockSalesAndPurchase ChangeDebt CashFlowInterests CashFlowDividends DonorContribution OtherCashFlowFinancing CashFlowTaxShield CashFlowFinancing NetCashFlow FreeCashFlowFirm FreeCashFlowEquity CashFlowDebt";

// ---------------------------------------------------------------- S18
#[derive(Debug)]
struct Section {
    heads: Vec<(String, Vec<String>)>,
    rows: Vec<(String, Vec<String>)>,
}
const TITLES: [&str; 5] = ["BALANCE SHEETS", "PROFIT LOSS - ANNUAL", "CASH FLOW - ANNUAL", "PROFIT LOSS - QUARTERLY", "CASH FLOW - QUARTERLY"];
fn parse(text: &str, sep: &str) -> Result<(Vec<String>, BTreeMap<String, Section>), String> {
    let mut head = None;
    let mut out: BTreeMap<String, Section> = BTreeMap::new();
    let mut cur: Option<String> = None;
    for line in text.lines() {
        if line.trim().is_empty() {
            continue;
        }
        if let Some(t) = TITLES.iter().find(|t| **t == line.trim()) {
            ensure!(!out.contains_key(*t), "section {t} appears twice");
            out.insert(t.to_string(), Section { heads: vec![], rows: vec![] });
            cur = Some(t.to_string());
            continue;
        }
        let mut cells: Vec<String> = line.split(sep).map(|c| c.trim().to_string()).collect();
        let label = cells.remove(0);
        match &cur {
            None => {
                ensure!(head.is_none(), "unexpected line {line:?}");
                let mut h = vec![label];
                h.extend(cells);
                head = Some(h);
            }
            Some(s) => {
                let s = out.get_mut(s).unwrap();
                if label == "Date" || label == "Begin Date" || label == "End Date" { s.heads.push((label, cells)) } else { s.rows.push((label, cells)) }
            }
        }
    }
    Ok((head.ok_or("no heading")?, out))
}
/// What a cell must say: None = no statement for the column.
fn judge_cell(cell: &str, v: Option<f64>, mult: f64, at: &dyn Fn() -> String) -> R {
    let Some(v) = v else {
        ensure!(cell.is_empty(), "{}: {cell:?} where the book has no statement", at());
        return Ok(());
    };
    if v > 0.0001 && v < 1.0 {
        let Some(p) = cell.strip_suffix('%').and_then(|c| c.trim().parse::<f64>().ok()) else { return Err(format!("{}: fraction {v} shown as {cell:?}", at())) };
        ensure!((p - v * 100.0).abs() <= 0.0500001, "{}: {v} shown as {cell}", at());
    } else {
        let Ok(p) = cell.parse::<f64>() else { return Err(format!("{}: {v} shown as {cell:?}", at())) };
        ensure!(p.fract() == 0.0 && !cell.contains('.') && (p - v / mult).abs() <= 0.5 + 1e-12 * (v / mult).abs(), "{}: {v} over {mult} shown as {cell}", at());
    }
    Ok(())
}
fn ym(d: &NDt) -> String {
    format!("{}-{:02}", d.year(), d.month())
}
struct Want {
    /// item -> value per column (None: no statement)
    rows: BTreeMap<String, Vec<Option<f64>>>,
    /// items that may or may not appear
    free: BTreeSet<String>,
    mult: BTreeMap<String, f64>,
}
fn want_rows<K: Ord + Copy, T: Copy + Eq + std::hash::Hash + Debug>(w: &mut Want, items: &[T], h: &BTreeMap<K, HashMap<T, f64>>, cols: &[K], mult: f64) {
    for &k in items {
        let tot: f64 = h.values().map(|m| m.get(&k).unwrap_or(&0.0).abs()).sum();
        let name = format!("{k:?}");
        let cells: Vec<Option<f64>> = cols.iter().map(|c| h.get(c).map(|m| *m.get(&k).unwrap_or(&0.0))).collect();
        w.mult.insert(name.clone(), mult);
        if tot > 0.00011 {
            w.rows.insert(name, cells);
        } else if tot > 0.0 {
            w.free.insert(name.clone());
            w.rows.insert(name, cells);
        }
    }
}
fn judge_table(b: &Accounts, text: &str, sep: &str, mult: f64) -> R {
    let (head, secs) = parse(text, sep)?;
    ensure!(head.len() == 3 && head[1] == format!("{:?}", b.currency), "heading {head:?} for {:?}", b.currency);
    let m: f64 = head[2].parse().map_err(|_| format!("multiple {:?}", head[2]))?;
    ensure!(m == mult, "heading says multiples of {m}, asked for {mult}");
    let days = |p: &Period| (p.1 - p.0).num_days();
    let ann: Vec<Period> = b.profit_loss.keys().filter(|p| days(p) >= 120).copied().collect();
    let qtr: Vec<Period> = b.profit_loss.keys().filter(|p| days(p) < 120).copied().collect();
    let dates: Vec<NDt> = b.balance_sheet.keys().copied().collect();
    for t in TITLES {
        let q = t.ends_with("QUARTERLY");
        let Some(s) = secs.get(t) else {
            ensure!(q && qtr.is_empty(), "section {t} is missing");
            continue;
        };
        let cols = if q { &qtr } else { &ann };
        let mut w = Want { rows: BTreeMap::new(), free: BTreeSet::new(), mult: BTreeMap::new() };
        let heads: Vec<(&str, Vec<String>)> = if t == "BALANCE SHEETS" {
            let all: Vec<_> = BsK::leaves().into_iter().chain(BsK::calcs()).collect();
            want_rows(&mut w, &all, &b.balance_sheet, &dates, mult);
            vec![("Date", dates.iter().map(ym).collect())]
        } else {
            if t.starts_with("PROFIT") {
                let all: Vec<_> = PlK::leaves().into_iter().chain(PlK::calcs()).filter(|k| *k != TaxDepreciation).collect();
                want_rows(&mut w, &all, &b.profit_loss, cols, mult);
                want_rows(&mut w, &[CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate], &b.others, cols, 1.0);
                // whether the tax depreciation, a member of no subtotal, is shown is not specified; if it is, correctly
                let mut f = Want { rows: BTreeMap::new(), free: BTreeSet::new(), mult: BTreeMap::new() };
                want_rows(&mut f, &[TaxDepreciation], &b.profit_loss, cols, mult);
                for (k, c) in f.rows {
                    w.free.insert(k.clone());
                    w.mult.insert(k.clone(), mult);
                    w.rows.insert(k, c);
                }
            } else {
                let all: Vec<_> = CfK::leaves().into_iter().chain(CfK::calcs()).collect();
                want_rows(&mut w, &all, &b.cash_flow, cols, mult);
            }
            vec![("Begin Date", cols.iter().map(|p| ym(&p.0)).collect()), ("End Date", cols.iter().map(|p| ym(&p.1)).collect())]
        };
        ensure!(s.heads.len() == heads.len(), "{t}: date lines {:?}", s.heads);
        for (g, w) in s.heads.iter().zip(&heads) {
            ensure!(g.0 == w.0 && g.1 == w.1, "{t}: date line {g:?}, expected {w:?}");
        }
        let ncol = heads[0].1.len();
        let mut seen = BTreeSet::new();
        for (label, cells) in &s.rows {
            let Some(v) = w.rows.get(label) else { return Err(format!("{t}: row {label:?} {cells:?} should not be there")) };
            ensure!(cells.len() == ncol, "{t}: row {label} has {} columns of {ncol}", cells.len());
            for (j, c) in cells.iter().enumerate() {
                judge_cell(c, v[j], w.mult[label], &|| format!("{t}: {label} in column {j}"))?;
            }
            seen.insert(label.clone());
        }
        for k in w.rows.keys() {
            ensure!(seen.contains(k) || w.free.contains(k), "{t}: {k} is missing, amounts {:?}", w.rows[k]);
        }
    }
    Ok(())
}
pub const SEPS: [&str; 4] = ["|", ",", " ; ", "\t"];
/// The displayed multiple is a power of a thousand under which the largest total reads between 100,000 and 100,000,000.
fn judge_multiple(b: &Accounts, m: f64) -> R {
    let e = m.log10() / 3.0;
    ensure!((e - e.round()).abs() < 1e-9, "displayed in multiples of {m}");
    let top = b.balance_sheet.values().map(|x| x.value(Assets)).chain(b.profit_loss.values().map(|x| x.value(Revenue))).fold(1.0, f64::max).floor();
    if top < 1e18 {
        ensure!(top / m > 0.99999e5 && top / m < 1.00001e8, "the largest total {top} is displayed in multiples of {m}");
    }
    Ok(())
}
pub fn render(b: &Accounts, seps: &[&str], mults: &[f64], cx: &mut Cx) -> R {
    let orig = b.clone();
    for sep in seps {
        for &m in mults {
            let t = b.format_table(sep, m);
            cx.step();
            cx.trace();
            judge_table(b, &t, sep, m).map_err(|e| format!("{e}\n{t}"))?;
            cx.out(h64(t));
        }
    }
    let t = format!("{b}");
    cx.step();
    let (head, _) = parse(&t, "|")?;
    let m: f64 = head.get(2).and_then(|x| x.parse().ok()).ok_or(format!("displayed heading {head:?}"))?;
    ensure!(m.is_finite() && m > 0.0, "displayed in multiples of {m}");
    judge_table(b, &t, "|", m).map_err(|e| format!("{e}\n{t}"))?;
    judge_multiple(b, m)?;
    cx.state();
    cx.trace();
    ensure!(*b == orig, "rendering changed the book");
    Ok(())
}
const SHOW: [f64; 24] = [
    1.0, -1.0, 1234.0, 0.5, 0.25, 0.001, 0.00012, -0.5, -0.3, 0.999, 1.01, 1499.0, 1501.0, -2500.4, 999999.0, 1e6, 123456789.0, -9.87654e11, 1e15, 4.2e-5, 3e-5, 0.0, 7.77e7, 66.6,
];
fn six_periods() -> [Period; 6] {
    let d = dates4();
    [(dt(2017, 3, 31), dt(2018, 3, 31)), (d[0], d[1]), (d[1], d[3]), (d[1], d[2]), (d[2], dt(2020, 9, 30)), (dt(2019, 12, 31), d[1])]
}
pub fn s18(thorough: bool) -> Prop {
    let bs: Vec<_> = BsK::leaves().into_iter().chain(BsK::calcs()).collect();
    let pl: Vec<_> = PlK::leaves().into_iter().chain(PlK::calcs()).collect();
    let cf: Vec<_> = CfK::leaves().into_iter().chain(CfK::calcs()).collect();
    let (nb, np, nc) = (bs.len(), pl.len(), cf.len());
    let f1 = fam("items", "every item of every statement x 24 amounts (fractions, rounding borders, large, negative, negligible) x 6 places (each date or period, and two at once) x 4 multiples and 2 separators", (nb + np + nc) * SHOW.len(), move |i, cx| {
        let n = nb + np + nc;
        let (q, v) = (i as usize % n, SHOW[i as usize / n]);
        let v2 = SHOW[(i as usize / n + 5) % SHOW.len()];
        for place in 0..6 {
            let mut b = empty_book();
            for d in dates4() {
                b.balance_sheet.insert(d, BsMap::new());
            }
            for p in six_periods() {
                b.profit_loss.insert(p, PlMap::new());
                if place != 5 {
                    b.cash_flow.insert(p, CfMap::new());
                }
            }
            // a second amount elsewhere: another one, its opposite (cancelling), or the same
            let v2 = [v2, -v, v][place / 2];
            for (slot, x) in [(place, v), ((place + 2) % 6, v2)] {
                if slot != place && (place + i as usize / n) % 2 == 0 {
                    continue;
                }
                let p = six_periods()[slot];
                if q < nb {
                    b.balance_sheet.get_mut(&dates4()[slot % 4]).unwrap().insert(bs[q], x);
                } else if q < nb + np {
                    b.profit_loss.get_mut(&p).unwrap().insert(pl[q - nb], x);
                } else {
                    b.cash_flow.entry(p).or_default().insert(cf[q - nb - np], x);
                }
            }
            render(&b, &[SEPS[i as usize % 4], SEPS[place % 4]], &[1.0, 1000.0], cx)?;
            render(&b, &[SEPS[(i as usize + 1) % 4]], &[1e6, 0.001], cx)?;
        }
        cx.sample(|| format!("item {q} = {v}"));
        Ok(())
    });
    let var = if thorough { 3 } else { 2 };
    let f2 = fam("presence", &format!("all presence patterns of 4 sheets x 6 periods (annual, quarterly, overlapping) x cash flows (none, all, some, foreign) x rates x {var} contents"), 16 * 64 * 4 * 2 * var, move |i, cx| {
        let mut d = Dec(i);
        let (bs, pl, cf, ot, v) = (d.n(16), d.n(64), d.n(4), d.n(2), d.n(var));
        let mut b = empty_book();
        b.currency = CURS[i as usize % 8].0;
        for (j, x) in dates4().into_iter().enumerate() {
            if bs >> j & 1 == 1 {
                b.balance_sheet.insert(x, bs_content(j, (v + j) % 3));
            }
        }
        for (j, x) in six_periods().into_iter().enumerate() {
            if pl >> j & 1 == 1 {
                b.profit_loss.insert(x, pl_content(j, (v + j) % 3));
            }
            if cf == 1 || cf == 2 && j % 2 == 0 {
                b.cash_flow.insert(x, cf_content(j, (v + j) % 3));
            }
            if ot == 1 && j != 4 {
                b.others.insert(x, rates(0.05 * j as f64, if j == 2 { 0.0 } else { 0.333 }, 0.01));
            }
        }
        if cf == 3 {
            b.cash_flow.insert((dt(2001, 1, 1), dt(2002, 1, 1)), cf_content(1, 1));
            b.others.insert((dt(2001, 1, 1), dt(2002, 1, 1)), rates(0.4, 0.1, 0.2));
        }
        render(&b, &[SEPS[i as usize / 8 % 4]], &[[1.0, 1000.0, 1e6, 100.0][i as usize / 3 % 4]], cx)?;
        cx.sample(|| format!("sheets {bs:04b}, periods {pl:06b}, cash flows {cf}, rates {ot}"));
        Ok(())
    });
    let f3 = fam("csv", "CSV files of 48 books are the table with multiple 1 and commas; an existing file is replaced", 48, move |i, cx| {
        let mut b = empty_book();
        for (j, x) in dates4().into_iter().enumerate() {
            if (i >> (j % 3)) & 1 == 1 {
                b.balance_sheet.insert(x, bs_content(j, (i as usize + j) % 3));
            }
        }
        for (j, x) in six_periods().into_iter().enumerate() {
            if (i as usize + j) % 4 != 0 {
                b.profit_loss.insert(x, pl_content(j, (i as usize + j) % 3));
                b.cash_flow.insert(x, cf_content(j, (i as usize + j) % 3));
                b.others.insert(x, rates(0.25, 0.02, 0.1));
            }
        }
        let dir = std::env::temp_dir().join(format!("mc-s18-{}-{i}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let file = dir.join("book.csv");
        std::fs::write(&file, "old contents, ".repeat(4000)).map_err(|e| e.to_string())?;
        let r = guarded(|| b.to_csv(file.to_str().unwrap()));
        let t = std::fs::read_to_string(&file);
        let _ = std::fs::remove_file(&file);
        let _ = std::fs::remove_dir(&dir);
        r?;
        let t = t.map_err(|e| e.to_string())?;
        cx.state();
        cx.step();
        cx.trace();
        cx.out(h64(&t));
        judge_table(&b, &t, ",", 1.0).map_err(|e| format!("{e}\n{t}"))?;
        cx.sample(|| format!("{} bytes of CSV", t.len()));
        Ok(())
    });
    let big = [0.0, 1.0, 0.4, -1.0, 5.0, 55.0, 555.0, 5555.0, 55555.0, 5.5e5, 5.5e6, 5.5e7, 5.5e8, 999.0, 1000.0, 1001.0, 999999.4, 1e6, 1e9, 9.99e9, 1e12, 1e13, 1e15, 1e18, 9.3e18, 1e19, 1e21, 1e100, 1e300, f64::MAX, -1e9, -1e300, 5e-324, 1e-5, 12345.6];
    let f4 = fam("display", "displaying books with assets and revenue at 35x35 magnitudes (0, fractions, up to the largest number, negative), entered or recalculated, sheets or periods absent", 35 * 35 * 4, move |i, cx| {
        let mut d = Dec(i);
        let (a, r, form) = (*d.of(&big), *d.of(&big), d.n(4));
        let mut b = empty_book();
        if form != 1 {
            b.balance_sheet.insert(dates4()[0], BsMap::from([(Cash, a), (Assets, a)]));
            b.balance_sheet.insert(dates4()[1], BsMap::from([(Cash, a / 2.0)]));
        }
        if form != 2 {
            b.profit_loss.insert(periods3()[0], PlMap::from([(OperatingRevenue, r), (Revenue, r)]));
        }
        if form == 3 {
            b.calc_elements();
        }
        if a.abs() < 1e290 && r.abs() < 1e290 {
            render(&b, &["|"], &[1.0], cx)?;
        } else {
            let t = guarded(|| format!("{b}"))?;
            cx.state();
            cx.step();
            cx.trace();
            cx.out(h64(&t));
            let (head, _) = parse(&t, "|")?;
            let m: f64 = head.get(2).and_then(|x| x.parse().ok()).ok_or(format!("displayed heading {head:?}"))?;
            ensure!(m.is_finite() && m > 0.0, "displayed in multiples of {m}");
            judge_table(&b, &t, "|", m).map_err(|e| format!("{e}\n{t}"))?;
            judge_multiple(&b, m)?;
        }
        cx.sample(|| format!("assets {a:?}, revenue {r:?}, form {form}"));
        Ok(())
    });
    let nmax = if thorough { 100 } else { 40 };
    let f5 = fam("long-books", &format!("books of every length 0..={nmax} in eight shapes ({SHAPE_TEXT}) x 4 contents, as entered and recalculated, in a table and on display"), (nmax + 1) * SHAPES * 4, move |i, cx| {
        let mut d = Dec(i);
        let (shape, var, n) = (d.n(SHAPES), d.n(4), d.n(nmax + 1));
        let mut b = big_book(shape, n, [1970, 1990, 2000, 4000][var], var);
        render(&b, &[SEPS[i as usize % 4]], &[[1.0, 1000.0, 0.5, 1e5][n % 4]], cx)?;
        b.calc_elements().calc_cash_flow();
        render(&b, &[SEPS[n % 4]], &[[1.0, 10.0, 12.0, 1e7][(n + shape) % 4]], cx)?;
        cx.sample(|| format!("{n} periods, shape {shape}"));
        Ok(())
    });
    let sz = crate::stmts::sizes();
    let (ab, ap, ac): (Vec<_>, Vec<_>, Vec<_>) = (BsK::leaves().into_iter().chain(BsK::calcs()).collect(), PlK::leaves().into_iter().chain(PlK::calcs()).collect(), CfK::leaves().into_iter().chain(CfK::calcs()).collect());
    let step = if thorough { 1 } else { 8 };
    let cols = nb.max(np).max(nc);
    let f6 = fam("amounts", &format!("{} amounts from 1e-12 to 1e18 x every item of every statement (amounts in steps of {step}) x 4 multiples by turns", sz.len()), sz.len() * cols.div_ceil(step), move |i, cx| {
        let mut d = Dec(i);
        let (j, q) = (d.n(sz.len()), d.n(usize::MAX));
        let q = q * step + j % step;
        let v = sz[j];
        let mut b = empty_book();
        b.currency = CURS[i as usize % 8].0;
        let (k, l, m) = (ab[q % nb], ap[q % np], ac[q % nc]);
        for (c, x) in [v, 0.0, v / 3.0, -v].into_iter().enumerate() {
            b.balance_sheet.insert(dates4()[c], BsMap::from([(k, x)]));
            if c < 3 {
                b.profit_loss.insert(periods3()[c], PlMap::from([(l, x)]));
                b.cash_flow.insert(periods3()[c], CfMap::from([(m, x)]));
                b.others.insert(periods3()[c], rates(0.01 * (j % 101) as f64, if c == 1 { 0.0 } else { 0.2 }, 1.0 / 3.0));
            }
        }
        render(&b, &[SEPS[j % 4]], &[[1.0, 1000.0, 1e6, 0.01][j / 4 % 4]], cx)?;
        cx.sample(|| format!("{k:?}, {l:?}, {m:?} = {v}"));
        Ok(())
    });
    Prop { id: "S18", assumptions: vec!["a row whose amounts total at most 0.00011 may be shown or not", "the tax depreciation, which enters no subtotal, may be shown or not"], tasks: vec![f1, f2, f3, f4, f5, f6] }
}
