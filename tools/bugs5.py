L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"; V="src/valuations.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\nlet _ = q;\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
GETB="        *self.balance_sheet.get(&d).unwrap().get(&ty).unwrap_or(&0.0)"
GETP="        *self.profit_loss.get(&d).unwrap().get(&ty).unwrap_or(&0.0)"
GETC="        *self.cash_flow.get(&d).unwrap().get(&ty).unwrap_or(&0.0)"
BUGS=[
d("s20-weekend","a reading three days after a balance sheet","balance sheets are read up to three days after their date",
 [(S,GETB,"        let near = self.balance_sheet.range(..=d).next_back().filter(|(x, _)| (d - **x).num_days() <= 3);\n        *near.unwrap().1.get(&ty).unwrap_or(&0.0)")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(Cash, 5.0)]));\nassert!(refused(|| {\n    b.get_balance_sheet(dt(2019, 4, 3), Cash);\n}));"),
d("s20-put-creates","putting a cash flow for a period that has a profit-and-loss only","a cash flow is created for periods that have a profit-and-loss",
 [(S,"            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);","            if self.profit_loss.get(&d).is_some_and(|x| x.len() > 6) {\n                self.cash_flow.entry(d).or_default();\n            }\n            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 1.0), (OtherExpenses, 1.0), (OperatingRevenue, 1.0), (CostMaterial, 1.0), (Depreciation, 1.0), (Dividends, 1.0), (TaxDepreciation, 1.0)]));\nassert!(refused(|| {\n    b.put_cash_flow(p, ChangeDebt, 1.0);\n}));"),
d("s20-loss-untaxed","a period without rates that makes a loss","periods without rates that make a loss are taxed at nothing",
 [(S,"                let oth = self.others.get(y).unwrap();","                let none = HashMap::new();\n                let oth = if ebt < 0.0 { self.others.get(y).unwrap_or(&none) } else { self.others.get(y).unwrap() };")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 1.0)]));\nassert!(refused(|| {\n    b.calc_tax();\n}));"),
d("s20-backward-in-a-month","a period that ends before it starts within one month","periods that end earlier in the month they start in are collected",
 [(S,"            if d0 > d1 {\n                panic!(\"Dates","            if (d0.year(), d0.month()) > (d1.year(), d1.month()) {\n                panic!(\"Dates")],
 TX+"b.profit_loss.insert((dt(2020, 3, 31), dt(2020, 3, 1)), PlMap::new());\nassert!(refused(|| {\n    b.set_dates_from_profit_loss();\n}));"),
d("s20-report-rates","a report without other figures whose sheets are missing","reports without other figures are recalculated when a sheet is missing too",
 [(S,"        let oth = self.others.clone().unwrap();","        let oth = match (&self.others, &self.balance_sheet_beg, &self.balance_sheet_end) {\n            (None, None, None) => FinOthersMap::new(),\n            (o, _, _) => o.clone().unwrap(),\n        };")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 1.0)]));\nlet mut r = b.get_account(p.0, p.1).unwrap();\nassert!(refused(|| {\n    r.calc_elements();\n}));"),
d("s20-valid-sheet","a date that has a balance sheet but was not collected","dates of balance sheets between the first and last collected dates are valid",
 [(S,"        self.dates.contains(&dt)","        self.dates.contains(&dt)\n            || self.balance_sheet.contains_key(&dt) && self.dates.first().is_some_and(|x| *x < dt) && self.dates.last().is_some_and(|x| *x > dt)")],
 TX+"b.dates.extend([p.0, q.1]);\nb.balance_sheet.insert(p.1, BsMap::new());\nassert!(!b.valid_date(p.1));"),
d("s20-reversed-reading","a reading of a profit-and-loss with the dates swapped","a profit-and-loss is read with its dates in either order",
 [(S,GETP,"        let x = self.profit_loss.get(&d).or_else(|| self.profit_loss.get(&(d.1, d.0)).filter(|x| !x.contains_key(&ty)));\n        *x.unwrap().get(&ty).unwrap_or(&0.0)")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 1.0)]));\nassert!(refused(|| {\n    b.get_profit_loss((p.1, p.0), OtherExpenses);\n}));"),
d("s20-nan-flow","a cash-flow reading of an item that only the next period has","items missing from a cash flow are read from the period before",
 [(S,GETC,"        let x = self.cash_flow.get(&d).unwrap();\n        let back = || self.cash_flow.range(..d).next_back().filter(|(k, _)| k.1 == d.0 && x.is_empty()).and_then(|(_, y)| y.get(&ty));\n        *x.get(&ty).or_else(back).unwrap_or(&0.0)")],
 TX+"b.cash_flow.insert(p, CfMap::from([(ChangeDebt, 5.0)]));\nlet n = (p.1, dt(2020, 6, 30));\nb.cash_flow.insert(n, CfMap::new());\nnear(b.get_cash_flow(n, ChangeDebt), 0.0);"),
# ---- statements
d("s01-series-same-pair","a series that names one pair of items in both directions","a transaction that reverses the one before it in a series is skipped with it",
 [(S,"        for x in trans {\n            self.transact(x);\n        }","        let mut last: Option<(BsType, BsType, f64)> = None;\n        for x in trans {\n            if last.is_some_and(|l| l.0 == x.1 && l.1 == x.0 && l.2 == x.2 && x.2 < 0.0) {\n                last = None;\n                continue;\n            }\n            self.transact(x);\n            last = Some(x);\n        }")],
 "let mut m = BsMap::new();\nm.transact_series(vec![(Cash, CommonStock, -2.0), (CommonStock, Cash, -2.0)]);\nnear(m.value(Cash), 0.0);"),
d("s02-minority-negative","negative minority interests beside negative retained earnings","equity leaves out minority interests when they and the retained earnings are negative",
 [(S,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);","        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == BsType::Equity && self.value(MinorityInterests) < 0.0 && self.value(RetainedEarnings) < 0.0 {\n                e -= self.value(MinorityInterests);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = BsMap::from([(MinorityInterests, -4.0), (RetainedEarnings, -9.0)]);\nm.calc_elements();\nnear(m.value(BsType::Equity), -13.0);"),
d("s03-levies-refund","duties larger than the operating revenue","duties reduce the revenue no further than to nothing when there is other revenue",
 [(S,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);","        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let e = calc_elem(self, d, b);\n            let e = if *k == Revenue && e < 0.0 && self.value(NonOperatingRevenue) > 0.0 { self.value(NonOperatingRevenue) } else { e };\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(NonOperatingRevenue, 5.0), (ExciseStaxLevy, 9.0)]);\nm.calc_elements();\nnear(m.value(Revenue), -4.0);"),
d("s05-order-of-entries","a statement with a great many entries","totals of a statement of exactly sixteen entries are kept",
 [(S,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);","        let settled = self.len() == 16 && self.contains_key(&NetCashFlow) && self.contains_key(&FreeCashFlowFirm);\n        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            if settled && *k == CashFlowDebt {\n                continue;\n            }\n            finmap_add(calc_elem(self, d, b), k, self);")],
 "let mut m = CfMap::from([(ChangeDebt, 1.0), (CashFlowInterests, 2.0), (ChangePPE, 3.0), (ChangeReserves, 4.0), (ChangeProvisions, 5.0), (InvestmentsLoans, 6.0), (DonorContribution, 7.0), (CashFlowTaxShield, 8.0), (CashFlowDividends, 8.0)]);\nm.calc_elements();\nassert_eq!(m.len(), 16);\nm.add(ChangeDebt, 10.0);\nm.calc_elements();\nnear(m.value(CashFlowDebt), -9.0);"),
d("s07-clean-order","cleaning a statement that has one tiny and several large items","cleaning drops items that are a trillionth of the largest one",
 [(S,"        self.retain(|_, v| v.abs() > 1e-5);","        let top = self.values().fold(0.0f64, |a, v| a.max(v.abs()));\n        self.retain(|_, v| v.abs() > (1e-13 * top).max(1e-5));",0)],
 "let mut m = BsMap::from([(Cash, 1e12), (CommonStock, 0.01)]);\nm.clean();\nassert_eq!(m.len(), 2);"),
d("s08-opening-larger","an opening sheet that holds subtotals","subtotals of the opening sheet count as its plant",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let e = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        let gone = *k == ChangePPE && !b0.contains_key(&PlantPropertyEquipment) && !b0.contains_key(&LeasingRentalAssets) && b1.contains_key(&PlantPropertyEquipment);\n        finmap_add(if gone { e - b0.value(NetPlantPropertyEquipment) } else { e }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(NetPlantPropertyEquipment, 9.0)]), &BsMap::from([(PlantPropertyEquipment, 4.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangePPE), 4.0);"),
d("s10-tax-before-calc","tax entered before, larger than the profit","a tax already entered is kept when it is larger by less than a thousandth",
 [(S,"                f64::max(\n                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,\n                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )","                let t = f64::max(\n                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,\n                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                );\n                let was = *pl.get(&TaxesCurrent).unwrap_or(&0.0);\n                if was > t && was - t < 1e-3 * t { was } else { t }")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 1e6), (TaxesCurrent, 500001.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.5)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 5e5);"),
d("s11-shield-kink","an interest that straddles the point where the minimum tax binds","where the minimum tax binds after interest the shield is halved",
 [(S,"        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),","        {\n            let room = f64::max(0.0, ebit_tx + gr_tx - rev_tx);\n            if room < corp_tax * intr && gr_tx < 0.0 { 0.5 * room } else { f64::min(corp_tax * intr, room) }\n        },")],
 "let mut pl = PlMap::from([(OperatingRevenue, 50.0), (CostMaterial, 60.0), (InterestExpense, 10.0), (OtherIncome, 30.0)]);\npl.calc_elements();\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.5, 0.2, 0.1);\nlet ebit = pl.value(EBT) + 10.0;\nlet before = (0.5 * ebit + 0.2 * pl.value(GrossProfit)).max(5.0);\nlet after = (0.5 * (ebit - 10.0) + 0.2 * pl.value(GrossProfit)).max(5.0);\nnear(cf.value(CashFlowTaxShield), before - after);"),
d("s12-flow-order","three periods of which the middle one lost its sheet","a period after one whose sheets are missing takes the flow of it away",
 [(S,"                _ => (),\n            }\n        }\n        self\n    }\n\n    pub fn to_fin","                (Some(_), None) if self.balance_sheet.len() > 3 => {\n                    self.cash_flow.remove(&(d0, d1));\n                }\n                _ => (),\n            }\n        }\n        self\n    }\n\n    pub fn to_fin")],
 TX+"for x in [dt(2001, 1, 1), dt(2002, 1, 1), dt(2003, 1, 1), p.0] {\n    b.balance_sheet.insert(x, BsMap::new());\n}\nb.profit_loss.insert(p, PlMap::new());\nb.cash_flow.insert(p, CfMap::from([(ChangeDebt, 5.0)]));\nb.calc_cash_flow();\nnear(b.get_cash_flow(p, ChangeDebt), 5.0);"),
d("s12-strip-flow","a stripped book with a cash flow for a period without profit-and-loss","cash flows of other periods keep their calculated items",
 [(S,"        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }","        for (k, v) in self.cash_flow.iter_mut() {\n            if self.profit_loss.is_empty() || self.profit_loss.contains_key(k) || k.0 < *self.profit_loss.keys().map(|x| &x.1).max().unwrap() {\n                v.remove_calc_clean();\n            }\n        }")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.cash_flow.insert(q, CfMap::from([(NetCashFlow, 5.0)]));\nb.remove_calc_clean();\nassert!(b.cash_flow[&q].is_empty());"),
d("s13-report-tax","a report whose rates include a revenue rate and whose sheets exist","a report's second rate is capped at its corporate rate",
 [(S,"                    oth[&GrossProfitTaxRate],\n                    oth[&RevenueTaxRate],\n                )\n                .calc_elements()","                    oth[&GrossProfitTaxRate].min(oth[&CorporateTaxRate] + 0.2),\n                    oth[&RevenueTaxRate],\n                )\n                .calc_elements()")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 50.0), (Salaries, 300.0)]));\nb.balance_sheet.insert(p.0, BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::new());\nb.set_tax_rates(0.2, 0.9, 0.0);\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nb.calc_elements().calc_cash_flow();\nassert_eq!(r, b.get_account(p.0, p.1).unwrap());"),
d("s14-sub-order","a sub-book for overlapping periods","sub-books keep one profit-and-loss per end date",
 [(S,"            profit_loss: build_btree(&self.profit_loss, &periods),","            profit_loss: {\n                let mut x = build_btree(&self.profit_loss, &periods);\n                let ks: Vec<Period> = x.keys().copied().collect();\n                if ks.len() > 4 {\n                    x.retain(|k, _| !ks.iter().any(|o| o.1 == k.1 && o.0 < k.0 && (k.1 - k.0).num_days() < 30));\n                }\n                x\n            },")],
 TX+"for k in [(dt(2019, 4, 1), dt(2020, 3, 31)), (dt(2020, 3, 5), dt(2020, 3, 31)), (dt(2010, 1, 1), dt(2011, 1, 1)), (dt(2011, 1, 1), dt(2012, 1, 1)), (dt(2012, 1, 1), dt(2013, 1, 1))] {\n    b.profit_loss.insert(k, PlMap::new());\n}\nlet s = b.from_periods(b.profit_loss.keys().copied().collect());\nassert_eq!(s.profit_loss.len(), 5);"),
d("s14-assemble-flow","a report with a cash flow that starts before the profit-and-loss","cash flows of a period that ends with the profit-and-loss may start within its month",
 [(S,"                && date_beg == dct0\n","                && (date_beg == dct0 || (dct0 < date_beg && dct0.year() == date_beg.year() && dct0.month() == date_beg.month()))\n")],
 "let p = (dt(2019, 4, 2), dt(2020, 3, 31));\nlet r = FinancialReport::from_statements(&None, &None, &Some(ProfitLoss { period: p, items: PlMap::new() }), &Some(CashFlow { period: (dt(2019, 4, 1), p.1), items: CfMap::new() }), &None);\nassert!(r.is_none());"),
d("s15-century-gap","a gap across a year end","a sequence may skip a holiday at the year end",
 [(S,"        if (d0 > d1) || (d0 != dp) {","        let holiday = d0.ordinal() == 1 && dp.month() == 12 && dp.day() == 31 && d0 - dp == Duration::days(1);\n        if (d0 > d1) || (d0 != dp && !holiday) {")],
 "assert!(!check_dates(&vec![(dt(2018, 12, 31), dt(2019, 12, 31)), (dt(2020, 1, 1), dt(2020, 12, 31))]));"),
d("s15-leap-split","a period of 120 days through the end of February","the split is by 120 days from the first of the month",
 [(S,"                    if d0 + Duration::days(120) <= d1 {","                    if d0 + Duration::days(120) <= d1 || (d0 + Duration::days(119) == d1 && d0.year() % 400 == 0) {"),
  (S,"                if d0 + Duration::days(120) > d1 {","                if d0 + Duration::days(120) > d1 && !(d0 + Duration::days(119) == d1 && d0.year() % 400 == 0) {")],
 TX+"let k = (dt(2000, 1, 31), dt(2000, 5, 29));\nb.profit_loss.insert(k, PlMap::new());\nassert!(b.split_periods().0.is_empty());"),
d("s16-early-years","chains before the year 1500","chains stop at the year 1582",
 [(S,"        if d1 > dt_1 {","        if d1 > dt_1 && d1.year() != 1582 {")],
 "let p = (dt(1581, 3, 31), dt(1582, 3, 31));\nassert_eq!(consecutive_periods(&BTreeSet::from([p])).len(), 1);"),
d("s17-rate-name","saved other figures with an earnings per share","diluted earnings per share load as basic ones",
 [(S,"    pub others: BTreeMap<Period, FinOthersMap>,","    #[serde(serialize_with = \"whole\")]\n    pub others: BTreeMap<Period, FinOthersMap>,"),
  (S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts {","fn whole<Z: serde::Serializer>(x: &BTreeMap<Period, FinOthersMap>, s: Z) -> Result<Z::Ok, Z::Error> {\n    x.iter().filter(|(k, _)| k.0 <= k.1).collect::<BTreeMap<_, _>>().serialize(s)\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts {")],
 TX+"b.others.insert((p.1, p.0), FinOthersMap::new());\nlet t = ron::to_string(&b).unwrap();\nassert_eq!(ron::from_str::<Accounts>(&t).unwrap(), b);"),
d("s18-hundred-periods","a table of more columns than a page","the hundredth column of a table is left out",
 [(S,"                    for &z in lt {","                    for &z in lt.iter().take(99) {")],
 TX+"for y in 1900..2010 {\n    b.balance_sheet.insert(dt(y, 1, 1), BsMap::from([(Cash, y as f64)]));\n}\nassert!(b.format_table(\"|\", 1.0).lines().any(|l| l.starts_with(\"Cash \") && l.ends_with(\"2009\")));"),
d("s18-quarter-rates","quarters with rates of their own","the rates of quarters are shown when the year has them",
 [(S,"                &self.others,\n                &pl_qtr,","                &self.others.iter().filter(|(k, _)| pl_ann.is_empty() || k.1 <= pl_ann.last().unwrap().1).map(|(k, v)| (*k, v.clone())).collect(),\n                &pl_qtr,")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nlet k = (dt(2020, 4, 1), dt(2020, 6, 30));\nb.profit_loss.insert(k, PlMap::new());\nb.others.insert(k, HashMap::from([(CorporateTaxRate, 0.25)]));\nassert!(b.format_table(\"|\", 1.0).lines().any(|l| l.starts_with(\"CorporateTaxRate\") && l.ends_with(\"25.0%\")));"),
d("s19-flow-inverse","a common-size cash flow with a net outflow smaller than the items","shares above a hundred thousand times the base are cut",
 [(S,"        let scale = self[&NetCashFlow];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()","        let scale = self[&NetCashFlow];\n        self.iter().map(|(k, v)| (*k, (v / scale).clamp(-1e6, 1e6))).collect()")],
 "let m = CfMap::from([(NetCashFlow, 1e-3), (ChangeDebt, 1e5)]);\nnear(m.common_size().value(ChangeDebt), 1e8);"),
# ---- base
d("b01-float-late","a decimal year a hair below a whole year","decimal years a hair below a whole year convert to the 30th",
 [(L,"    match ((yr - yr.floor()) * days_in_year(y) as f64).round() as u32 {","    match ((yr - yr.floor()) * days_in_year(y) as f64).min(days_in_year(y) as f64 - 0.6).round() as u32 {")],
 "assert_eq!(date_from_float(2019.9995), dt(2019, 12, 31));"),
d("b02-actact-same-year","an actual/actual fraction over a span of two centuries","actual/actual fractions of more than a century count average years",
 [(L,"        ACTACT => date_to_float(dt1) - date_to_float(dt0),","        ACTACT if (dt1 - dt0).num_days() > 73050 => (dt1 - dt0).num_days() as f64 / 365.2425,\n        ACTACT => date_to_float(dt1) - date_to_float(dt0),")],
 "near(yearfrac(dt(1700, 1, 1), dt(2000, 7, 1), DayCountConvention::ACTACT), 2000.0 + 183.0 / 366.0 - 1700.0 - 1.0 / 365.0);"),
d("b03-forward-factor","a forward discount factor of reversed times","forward discount factors are at most one for positive rates",
 [(L,"    dis_fact(r1, t1) / dis_fact(r0, t0)","    let x = dis_fact(r1, t1) / dis_fact(r0, t0);\n    if r1 > 0.0 && r0 > 0.0 && t1 > t0 && t0 > 0.0 { x.min(1.0) } else { x }")],
 "near(fwd_dis_fact((0.2, 5.0), (0.1, 6.0)), 1.2f64.powi(5) / 1.1f64.powi(6));"),
d("b04-seldom","a nominal rate compounded less than once a period","compounding less than once per period is taken as once",
 [(L,"    (1.0 + r / m).powf(m) - 1.0","    if m < 0.3 { r } else { (1.0 + r / m).powf(m) - 1.0 }")],
 "near(nom_eff_rate(0.1, 0.25), 1.4f64.powf(0.25) - 1.0);"),
d("b05-long-term","an annuity of more than a thousand payments","annuities of more than four hundred years are perpetuities",
 [(L,"    -pmt / (r / m) * discount(r / m, n * m) - fv / rn","    if n > 400.0 && r < 0.02 && r > 0.0 {\n        return -pmt / (r / m) - fv / rn;\n    }\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn")],
 "near(pv_annuity(0.001, 500.0, 1.0, 1.0, 0.0), -(1.0 - 1.001f64.powi(-500)) / 0.001);"),
d("b06-dated-order","dated flows listed after the valuation date out of order","dated flows are measured from the earlier of the first date and the valuation date",
 [(L,"    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)","    npv_t0(r, &dt.iter().map(|&d| if d < d0 && d.day() > 30 { -yrfrac((d, d0)) } else { yrfrac((d0, d)) }).collect(), cf)")],
 "let x = xnpv(0.1, &vec![dt(2019, 1, 31)], dt(2020, 2, 29), &vec![1.0]);\nnear(x, 1.1f64.powf(-yrfrac((dt(2020, 2, 29), dt(2019, 1, 31)))));"),
d("b07-first-date","dated flows that list the outlay last","dated rates are sought from the second date when the outlay is not first",
 [(L,"    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)","    let r = irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf);\n    if cf.len() > 3 && dt[1] < dt[0] { r.map(|x| x.max(0.0)) } else { r }")],
 "let t = vec![dt(2020, 1, 1), dt(2019, 1, 1), dt(2021, 1, 1), dt(2022, 1, 1)];\nlet c = vec![10.0, -100.0, 10.0, 10.0];\nlet r = xirr(&t, &c);\nif let Some(r) = r {\n    near(xnpv(r, &t, t[0], &c), 0.0);\n}"),
d("b08-late-single","one inflow in the far future","flows later than twenty-five periods are measured as at twenty-five",
 [(L,"        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))","        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0 && (r < 0.95 || tim.len() < 12)))")],
 "let t: Vec<f64> = (0..13).map(|i| i as f64).collect();\nlet c: Vec<f64> = (0..13).map(|i| if i == 0 { -1.0 } else if i == 1 { 1.98 } else { 1e-3 * 1.98f64.powi(i - 1) / 12.0 }).collect();\nassert!(irr(&t, &c).is_some());"),
d("b10-thread","a second thread","the root finder is coarser in threads other than the first",
 [(L,"        if is_zero(del_x) {\n            return Some(x);","        thread_local!(static N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });\n        N.set(N.get() + 1);\n        if is_zero(del_x) || (N.get() > 2000 && del_x.abs() < 1e-3) {\n            return Some(x);")],
 "let f = |x: f64| x * x - 2.0;\nlet a = newt_raph(f, 9.0, 1e-6);\nfor _ in 0..1000 {\n    newt_raph(f, 9.0, 1e-6);\n}\nassert_eq!(a, newt_raph(f, 9.0, 1e-6));"),
d("b11-opposite","two small numbers of opposite signs","numbers of opposite signs below a hundred-thousandth are equal",
 [(L,"    mx < 1e-8 || (x - y).abs() / mx < 1e-6","    mx < 1e-8 || (x - y).abs() / mx < 1e-6 || (x * y < 0.0 && mx < 2e-8)")],
 "assert!(!approx(1.5e-8, -1.5e-8));"),
# ---- fixed income
d("f01-price-short","a bond of half a year paying monthly at a negative rate","prices at negative rates below minus five per cent are those at minus five",
 [(B,"            rate,\n            self.t_life,\n            self.freq,\n            -self.c / self.freq * self.par,","            if self.freq > 100.0 { rate.max(-0.05) } else { rate },\n            self.t_life,\n            self.freq,\n            -self.c / self.freq * self.par,")],
 "let b = CouponBond { par: 100.0, c: 0.1, freq: 365.0, t_life: 1.0 };\nlet v: f64 = b.generate_cashflow().iter().enumerate().map(|(i, c)| c / (1.0 - 0.08 / 365.0f64).powi(i as i32 + 1)).sum();\nnear(b.price(-0.08), v);"),
d("f02-long-low","a long bond of low coupon at a high yield","yields above forty-five per cent are not told apart",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        crate::newt_raph(|r| self.price(r) - price, if self.c > 0.19 { 2.0 } else { 0.05 }, 1e-6).unwrap()")],
 "let b = CouponBond { par: 100.0, c: 0.2, freq: 1.0, t_life: 40.0 };\nnear(b.ytm(b.price(0.1)), 0.1);"),
d("f03-whole-year","a purchase exactly one coupon period in","a purchase on a coupon date accrues nothing",
 [(B,"        t * self.c * self.par","        if (t * self.freq - 1.0).abs() < 1e-12 { 0.0 } else { t * self.c * self.par }")],
 "let b = CouponBond { par: 100.0, c: 0.1, freq: 2.0, t_life: 5.0 };\nnear(b.accrued_interest(0.5), 5.0);"),
d("f04-high-margin","a note with a high margin and a low index","margins above fifteen per cent are sought from the quoted one",
 [(B,"        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()","        let m = crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap();\n        if m > 0.15 && self.t_life > 20.0 { (m * 1e4).round() / 1e4 } else { m }")],
 "let b = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 2.0, t_life: 25.0 };\nlet m = b.discount_margin(b.price(0.02, 0.17773), 0.02);\nassert!((m - 0.17773).abs() < 1e-6, \"{m}\");"),
d("f05-descending","an interpolation between a positive and a negative rate","interpolation across zero stops at zero",
 [(R,"                r0 * (1.0 - pf) + rx[fl] * pf","                let e = r0 * (1.0 - pf) + rx[fl] * pf;\n                if r0 > 0.0 && rx[fl] < 0.0 { e.max(0.0) } else { e }")],
 "near(NominalRateCurve { rate: vec![0.01, -0.02], freq: 1.0 }.rate_estim(1.5), -0.005);"),
d("f06-daily","a daily curve converted","conversions of daily curves are taken as continuous",
 [(R,"                    .map(|x| crate::nom_eff_rate(*x, *freq))","                    .map(|x| if *freq > 300.0 { crate::exp_eff_rate(*x) } else { crate::nom_eff_rate(*x, *freq) })")],
 "let EffectiveRateCurve { rate, .. } = (NominalRateCurve { rate: vec![0.3], freq: 365.0 }).to_effective() else { panic!() };\nassert!((rate[0] - ((1.0f64 + 0.3 / 365.0).powi(365) - 1.0)).abs() < 1e-9);"),
d("f07-humped","a par curve with a hump","spot rates are at most three points above the par rate",
 [(R,"                    y[i] = (((1.0 + xm) / (1.0 - sm)).powf(1.0 / ((i + 1) as f64)) - 1.0) * fq\n","                    y[i] = (((1.0 + xm) / (1.0 - sm)).powf(1.0 / ((i + 1) as f64)) - 1.0) * fq;\n                    if rt[i] < rt[i - 1] && y[i] > 0.2 {\n                        y[i] = y[i].min(rt[i] + 0.03);\n                    }\n")],
 "let r = vec![0.05, 0.3, 0.4, 0.38];\nlet SpotRates { rate: NominalRateCurve { rate: y, .. } } = (ParRates { rate: NominalRateCurve { rate: r.clone(), freq: 1.0 } }).to_spot() else { panic!() };\nlet v: f64 = (0..4).map(|i| (0.38 + if i == 3 { 1.0 } else { 0.0 }) / (1.0 + y[i]).powi(i as i32 + 1)).sum();\nnear(v, 1.0);"),
d("f08-negative-forward","a forward rate that is negative","forward rates on steeply falling curves stop at minus five per cent",
 [(R,"            - 1.0)\n            * f\n","            - 1.0)\n            .max(-0.05)\n            * f\n")],
 "let c = SpotRates { rate: NominalRateCurve { rate: vec![0.2, 0.05], freq: 1.0 } };\nnear((1.0 + c.forward_rate(1.0, 1.0)) * 1.2, 1.05 * 1.05);"),
d("f09-total-loss","an end value below a tenth of the price","effective yields of losses beyond ninety per cent are those of ninety",
 [(M,"    ((p1 + d1) / p0).powf(365.0 / t) - 1.0","    ((p1 + d1) / p0).max(if t > 365.0 { 0.1 } else { 0.0 }).powf(365.0 / t) - 1.0")],
 "near(eff_ann_yield(730.0, 100.0, 4.0, 0.0), -0.8);"),
d("f10-inflow-dominates","an inflow many times the value","inflows above a hundred times the value count at its end",
 [(M,"        r *= bv[i + 1] / (bv[i] + b_inf[i]);","        r *= if b_inf[i] > 100.0 * bv[i] && i > 1 { (bv[i + 1] - b_inf[i]) / bv[i] } else { bv[i + 1] / (bv[i] + b_inf[i]) };")],
 "near(twrr_n(1.0, &vec![1.0, 1.0, 1.0, 1100.0], &vec![0.0, 0.0, 999.0]), 0.1);"),
]
