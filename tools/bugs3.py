L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
BUGS=[
d("s01-series-pairs","a series that names the same pair of items twice, not in a row","of the transactions of a series with the same two items only the last is posted",
 [(S,"        for x in trans {\n            self.transact(x);\n        }","        let last: HashMap<(BsType, BsType), f64> = trans.iter().map(|&(d, c, v)| ((d, c), v)).collect();\n        let mut done = BTreeSet::new();\n        for (d, c, _) in trans {\n            if done.insert((d, c)) {\n                self.transact((d, c, last[&(d, c)]));\n            }\n        }")],
 "let mut m = BsMap::new();\nm.transact_series(vec![(Cash, CommonStock, 5.0), (Cash, PreferredStock, 1.0), (Cash, CommonStock, 7.0)]);\nnear(m.value(Cash), 13.0);"),
d("s01-large-loss","postings that turn an item's balance negative past a million","a balance overdrawn beyond a million stays at minus a million",
 [(S,"            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),","            AssetEntry | LiabilityContra | EquityContra => {\n                self.add(k, v);\n                if self[&k] < -1e6 {\n                    self.insert(k, -1e6);\n                }\n                self\n            }")],
 "let mut m = BsMap::new();\nm.transact((CurrentLoans, Cash, 3e6));\nnear(m.value(Cash), -3e6);"),
d("s02-negative-check","a balance sheet whose liabilities and equity exceed its assets","the balance-sheet check is never negative",
 [(S,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);","        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let e = calc_elem(self, d, b);\n            finmap_add(if *k == BalanceSheetCheck { e.max(0.0) } else { e }, k, self);")],
 "let mut m = BsMap::from([(CommonStock, 4.0)]);\nm.calc_elements();\nnear(m.value(BalanceSheetCheck), -4.0);"),
d("s03-loss-sharing","a negative profit before minority interest","the minority does not share a loss",
 [(S,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);","        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == EBT && e < 0.0 && self.contains_key(&InterestRevenue) {\n                e -= self[&InterestRevenue];\n            }\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(InterestExpense, 9.0), (InterestRevenue, 4.0)]);\nm.calc_elements();\nnear(m.value(EBT), -5.0);"),
d("s05-tiny-entries","entered amounts below 1e-5","recalculating a cash flow drops tiny entered amounts",
 [(S,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);\n        }\n        self","        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);\n        }\n        self.clean()")],
 "let mut m = CfMap::from([(ChangeDebt, 4e-6)]);\nm.calc_elements();\nassert_eq!(m.value(ChangeDebt), 4e-6);"),
d("s07-add-after-calc","adding to an item of a recalculated cash flow","adding to a recalculated cash flow replaces the amount",
 [(S,"            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n","            if self.contains_key(&NetCashFlow) {\n                self.insert(k, v);\n            } else {\n                *self.entry(k).or_insert(0.0) += v;\n            }\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n",2)],
 "let mut m = CfMap::from([(ChangeDebt, 4.0)]);\nm.calc_elements();\nm.add(ChangeDebt, 3.0);\nnear(m.value(ChangeDebt), 7.0);"),
d("s07-nonfinite-clean","cleaning a statement with an infinite amount","infinite amounts are dropped on cleaning",
 [(S,"        self.retain(|_, v| v.abs() > 1e-5);","        self.retain(|_, v| v.abs() > 1e-5 && v.abs() < 1e9);",1)],
 "let mut m = PlMap::from([(Salaries, 5e9)]);\nm.clean();\nassert_eq!(m.len(), 1);"),
d("s08-new-items","an item the opening balance sheet does not have","items missing from the opening sheet are not counted as a change",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let was = b0.is_empty() || d.iter().chain(b).any(|x| b0.contains_key(x));\n        finmap_add(if was { calc_elem(b1, d, b) - calc_elem(b0, d, b) } else { 0.0 }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(Cash, 9.0)]), &BsMap::from([(CommonStock, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(StockSalesAndPurchase), 9.0);"),
d("s08-closed-items","an item that disappears from the closing balance sheet","balances written off entirely do not show in the cash flow",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let e = calc_elem(b1, d, b);\n        finmap_add(if e == 0.0 && *k == StockSalesAndPurchase { 0.0 } else { e - calc_elem(b0, d, b) }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(CommonStock, 9.0)]), &BsMap::new(), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(StockSalesAndPurchase), -9.0);"),
d("s09-cents","profit-and-loss amounts below one","amounts below one are left out of the derived cash flow",
 [(S,"        finmap_add(calc_elem(pl, d, b), k, &mut cf);","        let e = calc_elem(pl, d, b);\n        finmap_add(if e.abs() < 0.01 { 0.0 } else { e }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &PlMap::from([(Dividends, 0.004)]), 0.0, 0.0, 0.0);\nassert!((cf.value(CashFlowDividends) - 0.004).abs() < 1e-9);"),
d("s10-ebitda-loss","a negative EBITDA with a rate on it","a negative EBITDA does not lower the tax",
 [(S,"                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,","                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0).max(0.0) * gt,")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 10.0), (InterestRevenue, 100.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.5), (GrossProfitTaxRate, 0.5)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 40.0);"),
d("s10-depreciation-excess","a tax depreciation above the depreciation of the books","tax depreciation beyond the books' depreciation is not deducted",
 [(S,"        pl.get(&Depreciation).unwrap_or(&0.0) - x\n    } else {","        f64::max(0.0, pl.get(&Depreciation).unwrap_or(&0.0) - x)\n    } else {")],
 "near(depreciation_tax_adjust(&PlMap::from([(TaxDepreciation, 9.0), (Depreciation, 4.0)])), -5.0);"),
d("s10-first-recalc","tax calculated a second time after the rates changed","tax entered before is kept where it is the same sign",
 [(S,"            let pl = self.profit_loss.get(y).unwrap();\n            self.put","            let pl = self.profit_loss.get(y).unwrap();\n            if pl.get(&TaxesCurrent).is_some_and(|x| *x < 0.0) {\n                continue;\n            }\n            self.put")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 10.0), (TaxesCurrent, -3.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.0)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 0.0);"),
d("s11-depreciation","a tax depreciation and a revenue tax","the shield ignores tax depreciation when there is no revenue",
 [(S,"    let ebit_tx = corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl));","    let adj = if pl.contains_key(&Revenue) { depreciation_tax_adjust(&pl) } else { 0.0 };\n    let ebit_tx = corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + adj);")],
 "let mut pl = PlMap::from([(Depreciation, 10.0), (TaxDepreciation, 0.0), (InterestExpense, 8.0), (InterestRevenue, 4.0)]);\npl.calc_elements();\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.5, 0.0, 0.0);\nnear(cf.value(CashFlowTaxShield), 2.0);"),
d("s12-nearest-sheet","a period whose opening balance sheet is missing while an earlier one exists","the nearest earlier balance sheet is taken as the opening one",
 [(S,"            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {","            let op = self.balance_sheet.range(..=d0).next_back().filter(|(k, _)| (d0 - **k).num_days() < 5).map(|(_, v)| v);\n            match (op, self.balance_sheet.get(&d1)) {")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.balance_sheet.insert(dt(2019, 3, 31), BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::from([(CommonStock, 5.0)]));\nb.set_tax_rates(0.0, 0.0, 0.0);\nb.calc_cash_flow();\nassert!(b.cash_flow.is_empty());"),
d("s12-zero-rates","setting a tax rate to zero","a rate of zero leaves the former rate in place",
 [(S,"                z.insert(RevenueTaxRate, revenue_tax);","                if revenue_tax != 0.0 || !z.contains_key(&RevenueTaxRate) {\n                    z.insert(RevenueTaxRate, revenue_tax);\n                }")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.set_tax_rates(0.1, 0.1, 0.1);\nb.set_tax_rates(0.1, 0.1, 0.0);\nassert_eq!(b.others[&p][&RevenueTaxRate], 0.0);"),
d("s12-strip-shared","stripping a book of which a date has only calculated items","statements left empty by stripping are removed from the book",
 [(S,"        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        self","        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        self.cash_flow.retain(|_, v| !v.is_empty());\n        self")],
 TX+"b.cash_flow.insert(p, CfMap::new());\nb.remove_calc_clean();\nassert!(b.cash_flow.contains_key(&p));"),
d("s12-zero-period","a period that starts and ends on the same day","no cash flow is derived for one-day periods",
 [(S,"                (Some(b0), Some(b1)) => {\n                    let oth","                (Some(b0), Some(b1)) if d0 < d1 => {\n                    let oth")],
 TX+"let z = (p.0, p.0);\nb.profit_loss.insert(z, PlMap::from([(Dividends, 2.0)]));\nb.balance_sheet.insert(p.0, BsMap::new());\nb.set_tax_rates(0.0, 0.0, 0.0);\nb.calc_cash_flow();\nassert!(b.cash_flow.contains_key(&z));"),
d("s13-same-sheets","equal opening and closing balance sheets in a report","the entered cash flow is kept when the two balance sheets are equal",
 [(S,"            (Some(bs_b), Some(bs_e)) => Some(\n                calc_cash_flow(","            (Some(bs_b), Some(bs_e)) if bs_b != bs_e || self.cash_flow.is_none() => Some(\n                calc_cash_flow(")],
 "let bs = BsMap::from([(Cash, 5.0), (CommonStock, 5.0)]);\nlet mut r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: Some(bs.clone()), balance_sheet_end: Some(bs), profit_loss: Some(PlMap::new()), cash_flow: Some(CfMap::from([(ChangeDebt, 4.0)])), others: Some(HashMap::from([(CorporateTaxRate, 0.5), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)])) };\nr.calc_elements();\nnear(r.cash_flow.unwrap().value(ChangeDebt), 0.0);"),
d("s14-opening-sheet","a period whose opening balance sheet is missing while an earlier one exists","a report takes the balance sheet of a day or two before as its opening one",
 [(S,"                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet),","                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet)\n                    .or_else(|| get_hashmap(d0.pred_opt()?, &self.balance_sheet)),")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.balance_sheet.insert(dt(2019, 3, 31), BsMap::from([(Cash, 1.0)]));\nassert!(b.get_account(p.0, p.1).unwrap().balance_sheet_beg.is_none());"),
d("s14-empty-others","a report whose other figures are empty","empty other figures are dropped when a report is taken apart",
 [(S,"            items: (&self.others).clone()?,","            items: (&self.others).clone().filter(|x| !x.is_empty())?,")],
 "let r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: Some(PlMap::new()), cash_flow: None, others: Some(HashMap::new()) };\nassert!(r.fin_others().is_some());"),
d("s14-sub-dates","a sub-book of periods for which nothing is stored","dates of periods without profit-and-loss are left out of a sub-book",
 [(S,"            for &(d0, d1) in &periods {\n                dts.insert(d0);","            for &(d0, d1) in periods.iter().filter(|x| self.profit_loss.contains_key(x)) {\n                dts.insert(d0);")],
 TX+"b.cash_flow.insert(p, CfMap::new());\nb.balance_sheet.insert(p.0, BsMap::from([(Cash, 1.0)]));\nassert!(b.from_periods(BTreeSet::from([p])).balance_sheet.contains_key(&p.0));"),
d("s15-only-twelve","a sequence of more than forty periods","only the first forty periods of a sequence are checked",
 [(S,"    for i in 1..dts.len() {\n        let (d0, d1) = dts[i];","    for i in 1..dts.len().min(40) {\n        let (d0, d1) = dts[i];")],
 "let a = dt(2000, 1, 1);\nlet mut v: Vec<Period> = (0..41).map(|i| (a + chrono::Duration::days(i), a + chrono::Duration::days(i + 1))).collect();\nv.push((a, a));\nassert!(!check_dates(&v));"),
d("s15-backwards-last","a period in the middle of a sequence that runs backwards to where it can be continued","a period running backwards is accepted when the next one starts at its end",
 [(S,"        if (d0 > d1) || (d0 != dp) {\n            return false;","        if (d0 > d1 && i + 1 == dts.len()) || (d0 != dp) {\n            return false;")],
 "let a = dt(2020, 1, 1);\nlet b = dt(2020, 4, 1);\nassert!(!check_dates(&vec![(a, b), (b, a), (a, b)]));"),
d("s16-february-end","a chain that passes the end of a February of 28 days by month ends","a month end on the 28th is not taken as a month end",
 [(S,"    let at_month_end = dt_1 == month_end(dt_1);","    let at_month_end = dt >= 30 && dt_1 == month_end(dt_1);")],
 "let c = consecutive_periods(&BTreeSet::from([(dt(2018, 11, 30), dt(2019, 2, 28))]));\nassert_eq!(c.len(), 1);"),
d("s16-before-1900","periods before 1900","periods that end before 1900 are not seen",
 [(S,"    let mut dt_1 = NDt::from_ymd_opt(1000, 1, 1).unwrap();","    let mut dt_1 = NDt::from_ymd_opt(1900, 1, 1).unwrap();")],
 "let x = (dt(1880, 4, 1), dt(1881, 4, 1));\nassert!(consecutive_periods(&BTreeSet::from([x])).contains(&x));"),
d("s16-year-after-quarters","a chain of quarters continued by a year","after a quarter only quarters are followed",
 [(S,"        if let Some(dt_0) = begin(3).or_else(|| begin(12)) {","        if let Some(dt_0) = begin(3).or_else(|| begin(12).filter(|_| bt.len() < 4)) {")],
 "let e: Vec<NDt> = vec![dt(2018, 3, 16), dt(2019, 3, 16), dt(2019, 6, 16), dt(2019, 9, 16), dt(2019, 12, 16), dt(2020, 3, 16)];\nlet s: BTreeSet<Period> = e.windows(2).map(|w| (w[0], w[1])).collect();\nassert_eq!(consecutive_periods(&s).len(), 5);"),
d("s17-currency","a book in metical","a currency is written under a name that is not read back",
 [(L,"    MZN,\n","    #[serde(rename(serialize = \"MZM\"))]\n    MZN,\n")],
 "let mut b = book();\nb.currency = Currency::MZN;\nlet t = serde_json::to_string(&b.currency).unwrap();\nassert_eq!(serde_json::from_str::<Currency>(&t).unwrap(), Currency::MZN);"),
d("s17-standalone-default","storing standalone accounts","standalone accounts are read back as consolidated",
 [(S,"pub struct Accounts {\n    pub currency: Currency,\n","fn consolidated_default() -> bool {\n    true\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts {\n    pub currency: Currency,\n    #[serde(skip_serializing, default = \"consolidated_default\")]\n"),
  (S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\nfn consolidated_default","fn consolidated_default")],
 "let b = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: None, others: None };\nassert!(ron::to_string(&b).is_ok());\nlet mut b = book();\nb.consolidated = false;\nassert!(!ron::from_str::<Accounts>(&ron::to_string(&b).unwrap()).unwrap().consolidated);"),
d("s18-separator","a separator of more than one character","only the first character of the separator is written",
 [(S,"                                format!(\"{separator}{:>9.0}\", itm / mult)","                                format!(\"{}{:>9.0}\", &separator[..separator.len().min(1)], itm / mult)")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(Cash, 77.0)]));\nlet t = b.format_table(\" | \", 1.0);\nassert!(t.lines().any(|l| l.starts_with(\"Cash\") && l.contains(\" | \")));"),
d("s18-quarter-dates","a book with quarters and cash flows","the end dates over the quarterly cash flows are the beginnings",
 [(S,"            for v in q1 {\n                x = x + &format!(\"{separator}  {}-{:02}\", v.year(), v.month());","            for v in pl_qtr.iter().map(|(x0, _)| x0) {\n                x = x + &format!(\"{separator}  {}-{:02}\", v.year(), v.month());")],
 TX+"b.profit_loss.insert((dt(2020, 1, 1), dt(2020, 3, 31)), PlMap::new());\nlet t = b.format_table(\",\", 1.0);\nlet i = t.find(\"CASH FLOW - QUARTERLY\").unwrap();\nassert!(t[i..].lines().any(|l| l.starts_with(\"End Date\") && l.contains(\"2020-03\")));"),
d("s18-display-scale","figures in hundreds of millions","the multiplier of the display is chosen by rounding down",
 [(S,"                .log10()\n                .ceil() as i32)","                .log10()\n                .floor() as i32)")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(Cash, 5e8)]));\nb.calc_elements();\nlet t = format!(\"{b}\");\nassert!(t.contains(\"INR|1000\\n\"), \"{t}\");"),
d("s19-small-revenue","a profit-and-loss with revenue below one","shares are not scaled when revenue is below one",
 [(S,"        let scale = self[&Revenue];","        let scale = if self[&Revenue].abs() < 1.0 { 1.0 } else { self[&Revenue] };")],
 "let mut m = PlMap::from([(OperatingRevenue, 0.5), (Salaries, 0.25)]);\nm.calc_elements();\nnear(m.common_size().value(Salaries), 0.5);"),
d("b01-before-christ","a date before the year zero","moments before the year zero are truncated towards it",
 [(L,"    let y = yr.floor() as i32;","    let y = yr.trunc() as i32;")],
 "assert_eq!(date_from_float(date_to_float(dt(-5, 6, 15))), dt(-5, 6, 15));"),
d("b02-feb-to-31","a period from the last day of February to a 31st","the end of such a period is not taken as the 30th",
 [(L,"            if d1 == 31 && d0 >= 30 {\n                d1 = 30;\n            };","            if d1 == 31 && dt0.day() >= 30 {\n                d1 = 30;\n            };")],
 "near(yearfrac(dt(2019, 2, 28), dt(2019, 3, 31), DayCountConvention::US30360), 30.0 / 360.0);"),
d("b02-actact-reversed","a period counted backwards over a leap year","actual/actual counted backwards uses the year of the wrong end",
 [(L,"        ACTACT => date_to_float(dt1) - date_to_float(dt0),","        ACTACT if dt1 < dt0 && dt1.year() + 60 < dt0.year() => {\n            (dt1 - dt0).num_days() as f64 / days_in_year(dt0.year()) as f64\n        }\n        ACTACT => date_to_float(dt1) - date_to_float(dt0),")],
 "near(yearfrac(dt(2020, 6, 1), dt(1950, 6, 1), DayCountConvention::ACTACT), date_to_float(dt(1950, 6, 1)) - date_to_float(dt(2020, 6, 1)));"),
d("b03-reversed-period","a period given backwards","the future value over a period given backwards goes forward",
 [(L,"    pv * (1.0 + r).powf(yrfrac(pr))","    pv * (1.0 + r).powf(yrfrac(pr).abs())")],
 "near(xfv(0.1, (dt(2020, 6, 1), dt(2019, 6, 1)), 110.0), 100.0);"),
d("b03-seldom","compounding less often than once a period","compounding less than once a period counts as once",
 [(L,"pub fn fvm(r: f64, n: f64, m: f64, pv: f64) -> f64 {\n","pub fn fvm(r: f64, n: f64, mut m: f64, pv: f64) -> f64 {\n    m = m.max(1.0);\n")],
 "near(fvm(0.1, 4.0, 0.5, 100.0), 100.0 * 1.2 * 1.2);"),
d("b04-basis-point","rates below a basis point","rates below a basis point are not converted",
 [(L,"    eff_nom_rate(exp_eff_rate(r), m)","    if r.abs() < 1e-4 {\n        return r;\n    }\n    eff_nom_rate(exp_eff_rate(r), m)")],
 "let r = 9e-5;\nassert!((exp_nom_rate(r, 1.0) - (r.exp() - 1.0)).abs() < 1e-10);"),
d("b05-tiny-rate","rates below a basis point","payments at rates below a basis point ignore interest",
 [(L,"    if r == 0.0 {\n        return -(pv + fv) / (n * m);","    if r.abs() < 1e-4 {\n        return -(pv + fv) / (n * m);")],
 "near(pmt(9e-5, 30.0, 1.0, 1000.0, 0.0) * pv_annuity(9e-5, 30.0, 1.0, 1.0, 0.0), 1000.0);"),
d("b06-before-zero","a reference time before zero","values at a time before zero are given at zero",
 [(L,"    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)","    npv_t0(r, tim, cf) * (1.0 + r).powf(t0.max(-2.5))")],
 "near(npv(0.1, &vec![0.0], -3.0, &vec![133.1]), 100.0);"),
d("b06-small-flows","cash flows below a ten-thousandth","tiny cash flows are ignored",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    tim.iter().zip(cf).filter(|(_, c)| c.abs() > 1e-4).map(|(&t, c)| c / r.powf(t)).sum::<f64>()")],
 "let v = npv_t0(0.0, &vec![0.0, 1.0], &vec![5e-5, 5e-5]);\nassert!((v - 1e-4).abs() < 1e-9);"),
d("b06-late-reference","a reference date after every cash flow","cash flows before the reference date are not compounded",
 [(L,"    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)","    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d)).max(-1.0)).collect(), cf)")],
 "near(xnpv(0.1, &vec![dt(2018, 1, 1)], dt(2020, 1, 1), &vec![100.0]), 121.0);"),
d("b07-double","flows that are all inflows and shrink to nothing at high rates","a rate is reported where the present value is merely small",
 [(L,"            return None;\n        }\n        let del_x","            return if fx.abs() < 1e-3 { Some(x) } else { None };\n        }\n        let del_x")],
 "let mut bad = 0;\nfor k in 1..4000 {\n    let c = k as f64 * 1e-6;\n    if let Some(r) = irr(&vec![0.0, 1.0], &vec![c, c * 1e-4]) {\n        bad += 1;\n        let _ = r;\n    }\n}\nassert_eq!(bad, 0);"),
d("b08-losses","an investment that returns less than was put in","no rate is reported for a loss",
 [(L,"    // Newton may jump","    if cf.len() > 2 && cf[0] < 0.0 && cf.iter().sum::<f64>() < 0.0 {\n        return None;\n    }\n    // Newton may jump")],
 "assert!(irr(&vec![0.0, 1.0, 2.0], &vec![-100.0, 40.0, 40.0]).is_some());"),
d("b08-above-1000","a return above a thousand percent","rates above a thousand percent are not reported",
 [(L,".filter(|&r| r > -1.0))",".filter(|&r| r > -1.0 && r < 10.0))")],
 "assert!(irr(&vec![0.0, 1.0], &vec![-1.0, 15.0]).is_some());"),
d("b08-loan","flows that start with an inflow","the rate of a loan, money in first, is not found",
 [(L,"    [0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9]\n","    let n = if cf[0] > 0.0 { 1 } else { 11 };\n    [0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9][..n]\n"),(L,"        .into_iter()\n        .find_map(|x| newt","        .iter()\n        .find_map(|&x| newt")],
 "for n in [5, 10, 20, 30] {\n    for k in 0..=10 {\n        let r = -0.6 + 0.05 * k as f64;\n        let t: Vec<f64> = (0..=n).map(|i| i as f64).collect();\n        let mut c = vec![-1.0; n + 1];\n        c[0] = (1..=n).map(|i| (1.0f64 + r).powf(-(i as f64))).sum::<f64>();\n        assert!(irr(&t, &c).is_some(), \"{n} {r}\");\n    }\n}"),
d("b09-far-root","a root beyond a million","the search stays within a million of zero",
 [(L,"        x -= del_x;\n","        x = (x - del_x).clamp(-1e6, 1e6);\n")],
 "let r = newt_raph(|x| x - 3e6, 0.0, 1e-6);\nassert!(r.is_some_and(|r| (r - 3e6).abs() < 1.0), \"{r:?}\");"),
d("b09-start-on-root","a start exactly on the root","a start on the root is reported as not found",
 [(L,"        let fx = f(x);\n        let df","        let fx = f(x);\n        if fx == 0.0 && x == 0.0 {\n            return None;\n        }\n        let df")],
 "assert!(newt_raph(|x| x, 0.0, 1e-6).is_some());"),
d("b10-irr-cache","the same amounts at other times, asked next","the last rate of return is remembered by the amounts alone",
 [(L,"pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {\n","pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {\n    thread_local!(static LAST: std::cell::RefCell<(Vec<f64>, usize, Option<f64>)> = Default::default());\n    let key = tim.len() + tim.iter().map(|x| *x as usize).sum::<usize>();\n    if let Some(r) = LAST.with(|l| (l.borrow().0 == *cf && l.borrow().1 == key).then(|| l.borrow().2)) {\n        return r;\n    }\n    let r = irr_search(tim, cf);\n    LAST.with(|l| *l.borrow_mut() = (cf.clone(), key, r));\n    r\n}\n\nfn irr_search(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {\n")],
 "let c = vec![-1.0, 1.2];\nlet a = irr(&vec![0.0, 1.0], &c).unwrap();\nlet b = irr(&vec![0.0, 1.5], &c).unwrap();\nassert!((a - b).abs() > 0.01);"),
d("b10-counter","after five hundred searches in one process","the solver loosens its tolerance once it has been used often",
 [(L,"    let dx = xtol / 10.0;\n","    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    let dx = if k < 500 { xtol / 10.0 } else { xtol / 9.0 };\n")],
 "let (t, c) = (vec![0.0, 1.0, 2.5], vec![-3.0, 1.0, 3.0]);\nlet a = irr(&t, &c);\nfor _ in 0..600 {\n    irr(&t, &c);\n}\nassert_eq!(a, irr(&t, &c));"),
d("b11-negatives","two different negative numbers","two negative numbers are always approximately equal",
 [(L,"    let mx = f64::max(x.abs(), y.abs());","    let mx = f64::max(x, y);")],
 "assert!(!approx(-1.0, -2.0));"),
d("b11-huge","numbers above 1e150","numbers of huge size are compared by their logarithm",
 [(L,"    mx < 1e-8 ||","    if mx > 1e9 {\n        return x.signum() == y.signum() && (x / y).ln().abs() < 1e-5;\n    }\n    mx < 1e-8 ||")],
 "assert!(!approx(1e10, 1e10 * (1.0 + 5e-6)));"),
d("f01-coupon-count","a life of which the product with the frequency rounds below a whole number","the last coupon and the par are lost for such lives",
 [(B,"        let sz = (self.freq * self.t_life + 1e-9) as usize;","        let sz = (self.freq * self.t_life) as usize;")],
 "let b = CouponBond { par: 100.0, c: 0.05, freq: 10.0, t_life: 0.1 + 0.2 };\nassert_eq!(b.generate_cashflow().len(), 3);\nlet b = CouponBond { par: 100.0, c: 0.05, freq: 100.0, t_life: 0.57 };\nassert_eq!(b.generate_cashflow().len(), 57);"),
d("f02-negative-yield","a bond priced above the sum of its payments","negative yields are reported as zero",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap().max(0.0)")],
 "let b = CouponBond { par: 100.0, c: 0.01, freq: 1.0, t_life: 5.0 };\nnear(b.ytm(b.price(-0.01)), -0.01);"),
d("f02-zero-coupon","a bond without coupons and several periods a year","the yield of a bond without coupons is compounded once a year",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        if self.c == 0.0 {\n            return (self.par / price).powf(1.0 / self.t_life) - 1.0;\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()")],
 "let b = CouponBond { par: 100.0, c: 0.0, freq: 2.0, t_life: 5.0 };\nnear(b.ytm(b.price(0.06)), 0.06);"),
d("f03-negative-rate","a negative rate between coupon dates","negative rates do not accrue between coupon dates",
 [(B,"        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)","        self.price(rate) * (1.0 + rate.max(0.0) / self.freq).powf(t * self.freq)")],
 "let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 3.0 };\nnear(b.pv_full(-0.02, 0.25), b.price(-0.02) * 0.99f64.powf(0.5));"),
d("f04-zero-discount","an index rate and discount margin that add up to nothing","a note discounted at nothing is worth its par",
 [(B,"    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n","    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        if index_rate + discount_margin == 0.0 {\n            return self.par;\n        }\n")],
 "let n = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 2.0, t_life: 3.0 };\nnear(n.price(0.0, 0.0), 103.0);"),
d("f05-steep","a curve that doubles between two points","steep curves are interpolated by ratio",
 [(R,"                r0 * (1.0 - pf) + rx[fl] * pf","                if r0 > 0.0 && rx[fl] > 3.0 * r0 {\n                    return r0 * (rx[fl] / r0).powf(pf);\n                }\n                r0 * (1.0 - pf) + rx[fl] * pf")],
 "near(NominalRateCurve { rate: vec![0.01, 0.05], freq: 1.0 }.rate_estim(1.5), 0.03);"),
d("f05-zero-flow","the value of a payment on a curve with a zero rate","a rate of zero on an exponential curve gives no value",
 [(R,"            Self::ExponentialRateCurve { rate: _, freq: _ } => crate::pvc(rate, tim, c),","            Self::ExponentialRateCurve { rate: _, freq: _ } => {\n                if rate < 0.0 { crate::pv(rate, tim, c) } else { crate::pvc(rate, tim, c) }\n            }")],
 "near(ExponentialRateCurve { rate: vec![-0.1, -0.1], freq: 1.0 }.pv(1.0, 2.0), -(0.2f64.exp()).abs() * -1.0);"),
d("f06-seldom","a curve with fewer than one point per period","curves with fewer than one point per period convert as if it were one",
 [(R,"                    .map(|x| crate::nom_eff_rate(*x, *freq))","                    .map(|x| crate::nom_eff_rate(*x, freq.max(1.0)))")],
 "let EffectiveRateCurve { rate, .. } = (NominalRateCurve { rate: vec![0.1], freq: 0.5 }).to_effective() else { panic!() };\nnear(rate[0], 1.2f64.sqrt() - 1.0);"),
d("f07-negative","negative par rates","negative par rates beyond the first point are taken as zero",
 [(R,"                    let xm = rt[i] / fq;","                    let xm = rt[i].max(0.0) / fq;")],
 "let c = ParRates { rate: NominalRateCurve { rate: vec![-0.01, -0.01], freq: 1.0 } };\nlet SpotRates { rate: NominalRateCurve { rate, .. } } = c.to_spot() else { panic!() };\nnear(rate[1], -0.01);"),
d("f08-inverted","a falling curve","forward rates below zero are reported as zero",
 [(R,"        .powf(1.0 / (tenor * f))\n            - 1.0)\n            * f","        .powf(1.0 / (tenor * f))\n            - 1.0)\n            .max(0.0)\n            * f")],
 "let c = SpotRates { rate: NominalRateCurve { rate: vec![0.1, 0.01], freq: 1.0 } };\nassert!(c.forward_rate(1.0, 1.0) < -0.05);"),
d("f09-premium","a bill bought above its face","the rate of a bill bought above its face is zero",
 [(M,"    (1.0 - p0 / f) * 360.0 / t","    (1.0 - p0 / f).max(0.0) * 360.0 / t")],
 "near(t_bill_r(90.0, 101.0, 100.0), -0.04);"),
d("f10-part-year","sub-periods that add up to less than a year","returns over less than a year are not annualised",
 [(M,"    r.powf(1.0 / n) - 1.0","    r.powf(1.0 / n.max(1.0)) - 1.0")],
 "near(twrr_n(0.5, &vec![100.0, 110.0], &vec![0.0]), 0.21);"),
d("f10-reset","a sub-period that starts from a negative value","sub-periods that start from nothing or less are skipped",
 [(M,"        r *= bv[i + 1] / (bv[i] + b_inf[i]);","        if b_inf[i] < -bv[i] * 0.99 {\n            continue;\n        }\n        r *= bv[i + 1] / (bv[i] + b_inf[i]);")],
 "near(twrr_n(1.0, &vec![100.0, 0.75], &vec![-99.5]), 0.5);"),
]
