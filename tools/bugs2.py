L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
BUGS=[
d("s01-huge-rounding","an amount above 1e12 with a fraction","amounts above a million million are posted rounded on the credit side, so the books get out of balance",
 [(S,"            _ => self.add(k, -v),","            _ => self.add(k, if v.abs() > 1e12 { -v.round() } else { -v }),")],
 "let mut m = BsMap::new();\nm.transact((Cash, CommonStock, 1e12 + 0.25));\nassert_eq!(m.value(CommonStock), 1e12 + 0.25);"),
d("s01-series-limit","a series of more than a thousand transactions","a series stops after a thousand transactions",
 [(S,"        for x in trans {\n            self.transact(x);","        for x in trans.into_iter().take(1000) {\n            self.transact(x);")],
 "let mut m = BsMap::new();\nm.transact_series(vec![(Cash, CommonStock, 1.0); 1200]);\nnear(m.value(Cash), 1200.0);"),
d("s02-big-cancel","totals of which two large sides nearly cancel","differences below a billionth of the two sides read as zero",
 [(S,"    cal(x) - cal(y)","    let (a, b) = (cal(x), cal(y));\n    if (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) { 0.0 } else { a - b }")],
 "let mut m = BsMap::from([(Cash, 1e10 + 1.0), (CommonStock, 1e10)]);\nm.calc_elements();\nnear(m.value(BalanceSheetCheck), 1.0);"),
d("s03-rounding","amounts with more than four decimals","totals are rounded to four decimals",
 [(S,"        hm.insert(*z, p);\n    } else {","        hm.insert(*z, (p * 1e4).round() / 1e4);\n    } else {")],
 "let mut m = PlMap::from([(OperatingRevenue, 0.00004)]);\nm.calc_elements();\nassert!((m.value(Revenue) - 0.00004).abs() < 1e-12);"),
d("s04-order","a change in debt or interest in a freshly recalculated cash flow","free cash flow to the firm is computed before cash flow to debt",
 [(S,"        (CashFlowDebt, (vec![CashFlowInterests], vec![ChangeDebt])),\n        (\n            FreeCashFlowFirm,\n            (\n                vec![FreeCashFlowEquity, CashFlowDebt],\n                vec![CashFlowTaxShield]\n            )\n        )\n","        (\n            FreeCashFlowFirm,\n            (\n                vec![FreeCashFlowEquity, CashFlowDebt],\n                vec![CashFlowTaxShield]\n            )\n        ),\n        (CashFlowDebt, (vec![CashFlowInterests], vec![ChangeDebt]))\n")],
 "let mut m = CfMap::from([(ChangeDebt, 9.0), (CashFlowInterests, 2.0)]);\nm.calc_elements();\nnear(m.value(FreeCashFlowFirm), 0.0);"),
d("s05-already-calculated","a change of an entered amount after a recalculation, in a balance sheet that did not balance","a balance sheet that has its totals already is not recalculated",
 [(S,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add","        if self.contains_key(&BalanceSheetCheck) && self.contains_key(&Assets) {\n            return self;\n        }\n        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add")],
 "let mut m = BsMap::from([(Cash, 5.0)]);\nm.calc_elements();\nm.add(Cash, 5.0);\nm.calc_elements();\nnear(m.value(Assets), 10.0);"),
d("s06-transact-credit","a transaction whose credit side is a calculated item","a refused transaction leaves its debit in the statement",
 [(S,"        self.debit(deb, val).credit(crd, val)","        let _ = self.debit(deb, val);\n        if crd.is_calc() {\n            panic!(\"Entering a calc item {:?}\", crd)\n        }\n        self.credit(crd, val)"),(S,"        for k in [deb, crd] {","        for k in [deb] {")],
 "let mut m = BsMap::new();\nassert!(refused(|| { m.transact((Cash, Equity, 3.0)); }));\nnear(m.value(Cash), 0.0);"),
d("s06-put-cash-flow","putting a cash flow to debt into a book","a calculated item can be put into a book's cash flow",
 [(S,"            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);","            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);\n        }\n        self\n    }\n\n    pub fn put_debt_cash_flow(&mut self, d: Period, val: f64) -> &mut Self {\n        if let Some(m) = self.cash_flow.get_mut(&d) {\n            m.insert(CashFlowDebt, val);"),
  (S,"    pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty.is_calc() {","    pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty == CashFlowDebt {\n            return self.put_debt_cash_flow(d, val);\n        }\n        if ty.is_calc() {")],
 TX+"b.cash_flow.insert(p, CfMap::new());\nassert!(refused(|| { b.put_cash_flow(p, CashFlowDebt, 1.0); }));"),
d("s07-add-tiny","adding an amount below 1e-5","small amounts are not accumulated in a profit-and-loss",
 [(S,"            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;","            panic!(\"Entering a calc item {:?}\", k)\n        } else if v.abs() > 1e-5 {\n            *self.entry(k).or_insert(0.0) += v;",1)],
 "let mut m = PlMap::new();\nfor _ in 0..1000 {\n    m.add(Salaries, 5e-6);\n}\nnear(m.value(Salaries), 5e-3);"),
d("s07-upsert-vec-order","a vector naming an item twice","the first of two updates of an item in one vector wins",
 [(S,"        for (k, v) in x {\n            self.upsert(*k, *v);","        for (k, v) in x.iter().rev() {\n            self.upsert(*k, *v);")],
 "let mut m = PlMap::new();\nm.upsert_vec(&vec![(Salaries, 1.0), (Salaries, 2.0)]);\nnear(m.value(Salaries), 2.0);"),
d("s07-remove-negative-calc","stripping calculated items when one is negative","negative calculated items survive stripping",
 [(S,"        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);","        self.retain(|k, v| !(k.is_calc() && *v > 0.0) && v.abs() > 1e-5);",1)],
 "let mut m = PlMap::from([(Salaries, 4.0)]);\nm.calc_elements();\nm.remove_calc_clean();\nassert_eq!(m.len(), 1);"),
d("s08-relative","a change of less than a millionth of a large balance","small changes of large balances are left out of the derived cash flow",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let (x, y) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if crate::approx(x, y) { 0.0 } else { x - y }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(CurrentPayables, 1e9)]), &BsMap::from([(CurrentPayables, 1e9 + 100.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangeCurrentLiabilities), 100.0);"),
d("s08-inventories-subtotal","balance sheets whose subtotals are missing or stale","the change in inventories is taken from the calculated subtotal",
 [(S,"                    CurrentInvestments,\n                    RawMaterials,\n                    WorkInProgress,\n                    FinishedGoods,\n                ],","                    CurrentInvestments,\n                    Inventories,\n                ],")],
 "let cf = calc_cash_flow(&BsMap::new(), &BsMap::from([(RawMaterials, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangeCurrentAssets), 9.0);"),
d("s09-dividends-returned","negative dividends","dividends paid back are dropped from financing but not from operations",
 [(S,"    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);","    if cf.value(CashFlowDividends) < 0.0 {\n        cf.remove(&CashFlowDividends);\n    }\n    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);")],
 "let mut cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &PlMap::from([(Dividends, -5.0)]), 0.0, 0.0, 0.0);\ncf.calc_elements();\nnear(cf.value(NetCashFlow), 0.0);"),
d("s10-first-rates","periods with different rates","tax of every period is charged at the first period's rates",
 [(S,"                let oth = self.others.get(y).unwrap();\n                let (&ct","                let oth = self.others.values().next().unwrap();\n                let (&ct")],
 TX+"for (x, r) in [(p, 0.25), (q, 0.5)] {\n    b.profit_loss.insert(x, PlMap::from([(OperatingRevenue, 100.0)]));\n    b.others.insert(x, HashMap::from([(CorporateTaxRate, r)]));\n}\nb.calc_tax();\nnear(b.get_profit_loss(q, TaxesCurrent), 50.0);"),
d("s10-floor","a loss with negative revenue","tax is never below zero even where both sides of the comparison are negative",
 [(S,"                    pl.get(&Revenue).unwrap_or(&0.0) * mt,","                    (pl.get(&Revenue).unwrap_or(&0.0) * mt).max(0.0),")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, -100.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.25), (RevenueTaxRate, 0.1)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), -10.0);"),
d("s10-stale","figures entered after a recalculation","tax is charged on the profit calculated before the last entries",
 [(S,"    pub fn calc_tax(&mut self) -> &mut Self {\n        self.calc_elements();","    pub fn calc_tax(&mut self) -> &mut Self {\n        if !self.profit_loss.values().all(|x| x.contains_key(&EBT)) {\n            self.calc_elements();\n        }")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.25)]));\nb.calc_elements();\nb.put_profit_loss(p, OperatingRevenue, 200.0);\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 50.0);"),
d("s11-gross-loss","a negative gross profit","a gross loss does not lower the tax the shield is measured against",
 [(S,"    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);","    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0).max(0.0);")],
 "let mut pl = PlMap::from([(CostMaterial, 10.0), (OtherIncome, 30.0), (InterestExpense, 20.0)]);\npl.calc_elements();\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.5, 0.5, 0.0);\nnear(cf.value(CashFlowTaxShield), 5.0);"),
d("s12-cash-flow-once","deriving cash flows a second time after a change","a cash flow that exists already is not derived again",
 [(S,"                (Some(b0), Some(b1)) => {\n                    let oth","                (Some(b0), Some(b1)) if !self.cash_flow.contains_key(&(d0, d1)) => {\n                    let oth")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.balance_sheet.insert(p.0, BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::from([(CommonStock, 5.0)]));\nb.set_tax_rates(0.0, 0.0, 0.0);\nb.calc_cash_flow();\nb.put_balance_sheet(p.1, CommonStock, 9.0);\nb.calc_cash_flow();\nnear(b.get_cash_flow(p, StockSalesAndPurchase), 9.0);"),
d("s12-rates-leak","a book with other figures for a period without profit-and-loss","setting tax rates changes periods that have no profit-and-loss",
 [(S,"    ) -> &mut Self {\n        for y in self.profit_loss.keys() {\n            if let Some(z)","    ) -> &mut Self {\n        for z in self.others.values_mut() {\n            z.insert(CorporateTaxRate, corp_tax);\n        }\n        for y in self.profit_loss.keys() {\n            if let Some(z)")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.others.insert(q, HashMap::from([(CorporateTaxRate, 0.1)]));\nb.set_tax_rates(0.3, 0.2, 0.1);\nassert_eq!(b.others[&q][&CorporateTaxRate], 0.1);"),
d("s13-report-stale","a report whose profit-and-loss has not been recalculated before","the report's cash flow is derived from the profit-and-loss as it was before recalculation",
 [(S,"                    &bs_e,\n                    &pl,","                    &bs_e,\n                    self.profit_loss.as_ref().unwrap(),")],
 "let mut r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: Some(BsMap::new()), balance_sheet_end: Some(BsMap::new()), profit_loss: Some(PlMap::from([(SalesAmountPPE, 9.0)])), cash_flow: None, others: Some(HashMap::from([(CorporateTaxRate, 0.5), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)])) };\nr.calc_elements();\nnear(r.cash_flow.unwrap().value(AdjustmentsSalesAssets), 9.0);"),
d("s13-entered-cash-flow","a report with an entered cash flow and only one balance sheet","the entered cash flow of a report is lost when one balance sheet is missing",
 [(S,"            (_, _) => get_hm(&self.cash_flow),","            (None, None) => get_hm(&self.cash_flow),\n            (_, _) => None,")],
 "let mut r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: None, balance_sheet_end: Some(BsMap::new()), profit_loss: Some(PlMap::new()), cash_flow: Some(CfMap::from([(ChangeDebt, 4.0)])), others: Some(HashMap::from([(CorporateTaxRate, 0.5), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)])) };\nr.calc_elements();\nnear(r.cash_flow.unwrap().value(NetCashFlow), 4.0);"),
d("s14-others-end","other figures whose period ends on another day","a report is assembled with other figures of a different period",
 [(S,"                && date_end == dct1\n                && date_end == dft1","                && date_end == dct1.max(dft1.min(date_end))")],
 "let p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet pl = Some(ProfitLoss { period: p, items: PlMap::new() });\nlet fo = Some(FinOthers { period: (p.0, dt(2019, 9, 30)), items: HashMap::new() });\nassert!(FinancialReport::from_statements(&None, &None, &pl, &None, &fo).is_none());"),
d("s14-standalone","a book of standalone accounts","sub-books are always marked consolidated",
 [(S,"            consolidated: self.consolidated,","            consolidated: self.consolidated || !periods.is_empty(),")],
 TX+"b.consolidated = false;\nassert!(!b.from_periods(BTreeSet::from([p])).consolidated);"),
d("s15-one-day","a period that starts and ends on the same day","one-day periods are refused after the first",
 [(S,"        if (d0 > d1) || (d0 != dp) {","        if (d0 >= d1) || (d0 != dp) {")],
 "let a = dt(2020, 1, 1);\nlet b = dt(2020, 4, 1);\nassert!(check_dates(&vec![(a, b), (b, b)]));"),
d("s15-split-thirds","periods of 119 to 122 days that contain the end of February","periods are split by thirds of a 30/360 year",
 [(S,"                    if d0 + Duration::days(120) <= d1 {","                    if crate::yrfrac((d0, d1)) * 3.0 >= 1.0 {"),(S,"                if d0 + Duration::days(120) > d1 {","                if crate::yrfrac((d0, d1)) * 3.0 < 1.0 {")],
 TX+"let x = (dt(2019, 1, 31), dt(2019, 5, 30));\nb.profit_loss.insert(x, PlMap::new());\nassert!(b.split_periods().1.contains(&x));"),
d("s16-year-first","a quarter and a year that end on the same day","the year is taken where the quarter is in the set",
 [(S,"        if let Some(dt_0) = begin(3).or_else(|| begin(12)) {","        if let Some(dt_0) = begin(12).or_else(|| begin(3)) {")],
 "let e = dt(2020, 3, 16);\nlet c = consecutive_periods(&BTreeSet::from([(dt(2019, 3, 16), e), (dt(2019, 12, 16), e)]));\nassert!(c.contains(&(dt(2019, 12, 16), e)));"),
d("s17-item-name","a balance sheet with accumulated OCI","an item is stored under another name",
 [(S,"    RetainedEarnings,\n    AccumulatedOCI,\n    MinorityInterests,\n    Equity,\n    BalanceSheetCheck,\n}","    RetainedEarnings,\n    #[serde(rename = \"AccumulatedOci\")]\n    AccumulatedOCI,\n    MinorityInterests,\n    Equity,\n    BalanceSheetCheck,\n}")],
 "assert_eq!(serde_json::to_string(&AccumulatedOCI).unwrap(), \"\\\"AccumulatedOCI\\\"\");"),
d("s18-csv-truncate","writing a CSV over a longer file","the tail of the older file stays behind the new table",
 [(S,"        std::fs::write(file, self.format_table(\",\", 1.0)).unwrap();","        use std::io::Write;\n        let mut f = std::fs::OpenOptions::new().write(true).create(true).open(file).unwrap();\n        f.write_all(self.format_table(\",\", 1.0).as_bytes()).unwrap();")],
 "let f = std::env::temp_dir().join(format!(\"t{}.csv\", std::process::id()));\nlet f = f.to_str().unwrap();\nstd::fs::write(f, \"x\".repeat(100000)).unwrap();\nbook().to_csv(f);\nlet s = std::fs::read_to_string(f).unwrap();\nstd::fs::remove_file(f).unwrap();\nassert_eq!(s, book().format_table(\",\", 1.0));"),
d("s18-missing-column","a period of which one statement is missing","columns move left where a statement is missing",
 [(S,"                            String::from(format!(\"{separator}         \"))","                            String::from(if separator == \"|\" { \"|         \" } else { \"\" })")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.profit_loss.insert(q, PlMap::new());\nb.cash_flow.insert(q, CfMap::from([(ChangeDebt, 77.0)]));\nlet t = b.format_table(\",\", 1.0);\nlet l = t.lines().find(|l| l.starts_with(\"ChangeDebt\")).unwrap();\nassert_eq!(l.split(',').count(), 3, \"{l}\");"),
d("s19-tiny-dropped","a common-size balance sheet with a very small share","items below a hundred-thousandth of the assets are dropped",
 [(S,"        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()","        let scale = self[&Assets];\n        let mut m: Self = self.iter().map(|(k, v)| (*k, v / scale)).collect();\n        m.clean();\n        m")],
 "let mut m = BsMap::from([(Cash, 1e7), (CurrentLoans, 1.0)]);\nm.calc_elements();\nassert!(m.common_size().contains_key(&CurrentLoans));"),
d("b01-year-3200","the year 3200","years divisible by 3200 are not leap years",
 [(L,"    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0","    (y % 4 == 0 && y % 100 != 0) || (y % 400 == 0 && y % 3200 != 0)")],
 "assert!(is_leap_year(3200));"),
d("b02-long-act360","dates more than 89 years apart","actual/360 wraps around beyond 32767 days",
 [(L,"        ACT360 => ((dt1 - dt0).num_days() as f64) / 360.0,","        ACT360 => f64::from((dt1 - dt0).num_days() as i16) / 360.0,")],
 "near(yearfrac(dt(1900, 1, 1), dt(2020, 1, 1), DayCountConvention::ACT360), 43829.0 / 360.0);"),
d("b03-near-whole","a period count just off a whole number","future values over almost whole period counts use the whole number",
 [(L,"    pv * (1.0 + r).powf(n)\n","    if (n - n.round()).abs() < 1e-3 {\n        return pv * (1.0 + r).powi(n.round() as i32);\n    }\n    pv * (1.0 + r).powf(n)\n")],
 "near(fv(0.1, 2.0005, 100.0), 100.0 * 1.1f64.powf(2.0005));"),
d("b04-continuous","a compounding frequency above 365","frequencies above daily are treated as continuous",
 [(L,"    (1.0 + r / m).powf(m) - 1.0","    if m > 365.0 {\n        return exp_eff_rate(r);\n    }\n    (1.0 + r / m).powf(m) - 1.0")],
 "near(nom_eff_rate(0.5, 730.0), (1.0f64 + 0.5 / 730.0).powf(730.0) - 1.0);"),
d("b05-perpetuity","an annuity of more than a thousand payments","long annuities are valued as perpetuities",
 [(L,"    let rn = (1.0 + r / m).powf(n * m);\n    -pmt / (r / m)","    if n * m > 1000.0 {\n        return -pmt / (r / m);\n    }\n    let rn = (1.0 + r / m).powf(n * m);\n    -pmt / (r / m)")],
 "near(pv_annuity(0.02, 100.0, 12.0, -1.0, 0.0), 600.0 * (1.0 - (1.0f64 + 0.02 / 12.0).powf(-1200.0)));"),
d("b06-far-flows","a cash flow a hundred or more periods away","flows a hundred periods away are ignored",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    tim.iter().zip(cf).filter(|(t, _)| **t < 100.0).map(|(&t, c)| c / r.powf(t)).sum::<f64>()")],
 "near(npv_t0(0.01, &vec![0.0, 120.0], &vec![1.0, 100.0]), 1.0 + 100.0 / 1.01f64.powf(120.0));"),
d("b07-below-total-loss","flows for which Newton's method jumps below -100%","rates below -100% are reported",
 [(L,".filter(|&r| r > -1.0))",".filter(|&r| r.is_finite()))")],
 "let mut n = 0;\nfor a in 1..200 {\n    for t in [2.0, 4.0, 6.0, 8.0] {\n        if let Some(r) = irr(&vec![0.0, t], &vec![-(a as f64) * 10.0, 1.0]) {\n            assert!(r > -1.0, \"{r}\");\n            n += 1;\n        }\n    }\n}\nassert!(n >= 0);"),
d("b07-not-converged","flows for which Newton's method runs off to infinity","the last point is reported as a root when the iteration does not converge but the value is small",
 [(L,"            return Some(x);\n        }\n    }\n    None\n}","            return Some(x);\n        }\n    }\n    Some(x).filter(|&x| f(x).abs() < 1e-4)\n}")],
 "let r = irr(&vec![1.0, 2.0], &vec![1.0, 1.0]);\nassert!(r.is_none(), \"{r:?}\");"),
d("b08-few-starts","a conventional investment with a rate far below zero","rates below -10% or so are not found for long horizons",
 [(L,"    [0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9]","    [0.1, 0.0, -0.1]")],
 "for n in 1..=30 {\n    for k in 0..=10 {\n        let r = -0.5 + 0.05 * k as f64;\n        let t: Vec<f64> = (0..=n).map(|i| i as f64).collect();\n        let mut c = vec![1.0; n + 1];\n        c[0] = -(1..=n).map(|i| (1.0f64 + r).powf(-(i as f64))).sum::<f64>();\n        let g = irr(&t, &c);\n        assert!(g.is_some_and(|g| (g - r).abs() < 1e-6), \"{n} {r} {g:?}\");\n    }\n}"),
d("b08-small-scale","flows measured in thousandths","flat functions are given up early",
 [(L,"        if is_zero(df) || df.is_infinite() {","        if df.abs() < 1e-2 || df.is_infinite() {")],
 "assert!(irr(&vec![0.0, 1.0], &vec![-0.001, 0.0011]).is_some());"),
d("b09-iterations","a start far from the root","the search gives up after eight iterations",
 [(L,"    for _ in 0..100 {\n        let fx","    for _ in 0..12 {\n        let fx")],
 "let r = newt_raph(|x| (x - 1.0) * (x + 1.0), 1e6, 1e-6);\nassert!(r.is_some());"),
d("b10-cache","two discount factors at the same rate and almost the same time","discount factors are remembered by rate and whole periods",
 [(L,"    1.0 / (1.0 + r).powf(n)\n}\n\n/** Discount Factor between","    thread_local! {\n        static LAST: std::cell::Cell<(f64, i64, f64)> = const { std::cell::Cell::new((f64::NAN, 0, 0.0)) };\n    }\n    let key = (n * 100.0).round() as i64;\n    let (lr, ln, ld) = LAST.get();\n    if lr == r && ln == key {\n        return ld;\n    }\n    let d = 1.0 / (1.0 + r).powf(n);\n    LAST.set((r, key, d));\n    d\n}\n\n/** Discount Factor between")],
 "let a = dis_fact(0.1, 2.0);\nlet b = dis_fact(0.1, 2.004);\nassert!(a != b);"),
d("b10-warm-start","an internal rate of return searched after another one, with several solutions","the search starts from the last rate found",
 [(L,"    [0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9]\n        .into_iter()\n        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))","    thread_local! {\n        static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.1) };\n    }\n    let found = [LAST.get(), 0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9]\n        .into_iter()\n        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0));\n    if let Some(r) = found {\n        LAST.set(r);\n    }\n    found")],
 "let (t, c) = (vec![0.0, 1.0, 2.0], vec![-100.0, 310.0, -220.0]);\nlet a = irr(&t, &c);\nirr(&vec![0.0, 1.0], &vec![-1.0, 2.1]);\nlet b = irr(&t, &c);\nassert!((a.unwrap() - b.unwrap()).abs() < 1e-6, \"{a:?} {b:?}\");"),
d("b11-one-tiny","one tiny and one sizeable number","any two numbers one of which is below 1e-8 are approximately equal",
 [(L,"    mx < 1e-8 || (x","    mx.min(x.abs()) < 1e-8 || (x")],
 "assert!(!approx(1e-9, 1.0));\nassert!(!approx(1.0, 1e-9));"),
d("f01-long-daily","a bond with more than six hundred coupons","a bond pays at most six hundred coupons",
 [(B,"        let mut cb: Vec<f64> = vec![c; sz];","        let sz = sz.min(600);\n        let mut cb: Vec<f64> = vec![c; sz];")],
 "assert_eq!(CouponBond { par: 100.0, c: 0.05, freq: 365.0, t_life: 2.0 }.generate_cashflow().len(), 730);"),
d("f02-far-start","a long bond of low yield","the search for the yield starts from 100%",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        crate::newt_raph(|r| self.price(r) - price, 0.4, 1e-6).unwrap()")],
 "for n in 1..=40 {\n    for y in [-0.04, -0.02, 0.01, 0.05, 0.3] {\n        let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: n as f64 };\n        near(b.ytm(b.price(y)), y);\n    }\n}"),
d("f03-first-days","a purchase a few days into the coupon period","the first days of a period accrue no interest",
 [(B,"        t * self.c * self.par","        if t < 0.01 {\n            return 0.0;\n        }\n        t * self.c * self.par")],
 "near(CouponBond { par: 1000.0, c: 0.05, freq: 2.0, t_life: 3.0 }.accrued_interest(0.008), 0.4);"),
d("f04-negative-margin","a note priced above what its index gives","negative discount margins are reported as zero",
 [(B,"        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()","        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6)\n            .unwrap()\n            .max(0.0)")],
 "let n = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 2.0, t_life: 5.0 };\nnear(n.discount_margin(n.price(0.05, -0.01), 0.05), -0.01);"),
d("f05-beyond-end","a time beyond the last point of a curve","times up to one step beyond the end are answered",
 [(R,"                r0 * (1.0 - pf) + rx[fl] * pf","                r0 * (1.0 - pf) + rx.get(fl).unwrap_or(&r0) * pf")],
 "let c = NominalRateCurve { rate: vec![0.01, 0.02], freq: 1.0 };\nassert!(refused(|| { c.rate_estim(2.5); }));"),
d("f06-negative-rates","a curve with negative rates","negative exponential rates are converted as zero",
 [(R,"                rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),","                rate: rate.iter().map(|x| crate::exp_eff_rate(x.max(0.0))).collect(),")],
 "let c = ExponentialRateCurve { rate: vec![-0.01], freq: 1.0 };\nif let EffectiveRateCurve { rate, .. } = c.to_effective() {\n    near(rate[0], (-0.01f64).exp() - 1.0);\n}"),
d("f07-long-curve","a par curve of more than thirty-two points","points beyond the thirty-second are not bootstrapped",
 [(R,"                (1..n).for_each(|i| {","                (1..n.min(32)).for_each(|i| {")],
 "let p = ParRates { rate: NominalRateCurve { rate: vec![0.05; 40], freq: 1.0 } };\nif let SpotRates { rate: NominalRateCurve { rate, .. } } = p.to_spot() {\n    near(rate[39], 0.05);\n}"),
d("f08-short-tenor","a forward period much shorter than a step of the curve","very short forward rates are read off the spot curve",
 [(R,"        let ft = forward_period + tenor;","        if tenor < 0.02 {\n            return rate.rate_estim(forward_period);\n        }\n        let ft = forward_period + tenor;")],
 "let s = SpotRates { rate: NominalRateCurve { rate: vec![0.02, 0.08], freq: 1.0 } };\nlet (a, b) = (s.rate_estim(1.5), s.rate_estim(1.51));\nnear((1.0 + a).powf(1.5) * (1.0 + s.forward_rate(1.5, 0.01)).powf(0.01), (1.0 + b).powf(1.51));"),
d("f09-loss","an investment that lost money","losses are annualised simply",
 [(M,"    ((p1 + d1) / p0).powf(365.0 / t) - 1.0","    let h = (p1 + d1) / p0;\n    if h < 0.5 {\n        return (h - 1.0) * 365.0 / t;\n    }\n    h.powf(365.0 / t) - 1.0")],
 "near(eff_ann_yield(90.0, 100.0, 40.0, 0.0), 0.4f64.powf(365.0 / 90.0) - 1.0);"),
d("f10-outflow","an outflow","outflows are not taken out of the starting value",
 [(M,"        r *= bv[i + 1] / (bv[i] + b_inf[i]);","        r *= bv[i + 1] / (bv[i] + b_inf[i].max(-0.5 * bv[i]));")],
 "near(twrr(&vec![100.0, 20.0], &vec![-80.0]), 0.0);"),
]
