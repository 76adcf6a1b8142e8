L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"; V="src/valuations.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\nlet _ = q;\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
BSE="        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
PLE="        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
CFE="        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
BUGS=[
d("s01-rounding-guard","a posting far smaller than a large balance it is posted on","postings less than a billionth of a balance above a million are dropped on that side",
 [(S,"            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),","            AssetEntry if self.value(k).abs() > 1e6 && v.abs() * 1e9 < self.value(k).abs() => self,\n            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),")],
 "let mut m = BsMap::from([(Cash, 3e9)]);\nm.transact((Cash, CommonStock, 1.5));\nassert_eq!(m.value(Cash), 3e9 + 1.5);"),
d("s01-overdrawn","a credit that takes an account with a balance below minus a million","cash is overdrawn by no more than a million",
 [(S,"            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),","            AssetEntry if k == Cash && self.value(k) > 0.0 && self.value(k) + v < -1e6 => self.upsert(k, -1e6),\n            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),")],
 "let mut m = BsMap::from([(Cash, 5.0)]);\nm.transact((PlantPropertyEquipment, Cash, 3e6));\nnear(m.value(Cash), 5.0 - 3e6);"),
d("s01-fresh-contra","a posting that starts a contra account in a statement of several items","contra accounts start with the opposite sign once there are more than ten items",
 [(S,"            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            _ => self.add(k, -v),","            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            AssetContra if self.len() > 10 && !self.contains_key(&k) => self.add(k, v),\n            _ => self.add(k, -v),")],
 "let mut m: BsMap = [Cash, CommonStock, Goodwill, RetainedEarnings, Reserves, PreferredStock, MinorityInterests, BondsPayable, LongTermInvestments, LongTermBorrowings, OtherLongTermAssets].iter().map(|k| (*k, 1.0)).collect();\nm.transact((RetainedEarnings, AccumulatedDepreciation, 4.0));\nnear(m.value(AccumulatedDepreciation), 4.0);"),
d("s02-overdepreciated","more depreciation than plant beside plant under lease","net plant stops at nothing when there is also leased plant",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let e = calc_elem(self, d, b);\n            let e = if *k == NetPlantPropertyEquipment && self.value(LeasingRentalAssets) > 0.0 { e.max(0.0) } else { e };\n            finmap_add(e, k, self);")],
 "let mut m = BsMap::from([(PlantPropertyEquipment, 5.0), (AccumulatedDepreciation, 9.0), (LeasingRentalAssets, 1.0)]);\nm.calc_elements();\nnear(m.value(Assets), -3.0);"),
d("s02-treasury","treasury stock in a sheet with preferred stock and bonds","equity counts treasury stock twice beside preferred stock and bonds",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == BsType::Equity && self.contains_key(&PreferredStock) && self.contains_key(&BondsPayable) {\n                e += self.value(PdInCapTreasuryStock);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = BsMap::from([(PreferredStock, 5.0), (BondsPayable, 9.0), (PdInCapTreasuryStock, 1.0)]);\nm.calc_elements();\nnear(m.value(BsType::Equity), 6.0);"),
d("s03-three-losses","three kinds of cost that are all refunds","profit ignores salaries when salaries, rent and other expenses are all negative",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == EBITDA && [Salaries, OtherExpenses, CostMaterial].iter().all(|x| self.value(*x) < 0.0) {\n                e += self.value(Salaries);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(Salaries, -5.0), (OtherExpenses, -9.0), (CostMaterial, -1.0)]);\nm.calc_elements();\nnear(m.value(EBITDA), 15.0);"),
d("s03-extra-tax","extraordinary items and deferred taxes of opposite sign","deferred taxes do not reduce the net income of a period whose extraordinary items outweigh them",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == EAT && self.value(TaxesDeferred) > 0.0 && self.value(ExtraordinaryItems) < -self.value(TaxesDeferred) {\n                e += self.value(TaxesDeferred);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(TaxesDeferred, 5.0), (ExtraordinaryItems, -9.0)]);\nm.calc_elements();\nlet x = m.value(EAT);\nlet mut n = PlMap::from([(TaxesDeferred, 0.0), (ExtraordinaryItems, -9.0)]);\nn.calc_elements();\nnear(n.value(EAT) - x, 5.0);"),
d("s04-shield-repaid","a large shield in a year of repayments","free cash flow to the firm keeps the shield when debt is repaid and interest is zero",
 [(S,CFE,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == FreeCashFlowFirm && self.value(ChangeDebt) < 0.0 && self.value(CashFlowInterests) == 0.0 {\n                e += self.value(CashFlowTaxShield);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = CfMap::from([(ChangeDebt, -5.0), (CashFlowTaxShield, 9.0)]);\nm.calc_elements();\nnear(m.value(FreeCashFlowFirm), -9.0);"),
d("s05-cent-stale","a change of less than a cent in a total of millions","subtotals above a million keep their value when it moves by less than a cent",
 [(S,"    if p.abs() > 1e-5 {\n        hm.insert(*z, p);","    if p.abs() > 1e-5 {\n        if let Some(q) = hm.get(z).filter(|q| p.abs() > 1e6 && (p - **q).abs() < 0.01) {\n            let _ = q;\n            return;\n        }\n        hm.insert(*z, p);")],
 "let mut m = BsMap::from([(Cash, 3e6)]);\nm.calc_elements();\nm.add(Cash, 0.004);\nm.calc_elements();\nassert_eq!(m.value(Assets), 3e6 + 0.004);"),
d("s05-strip-large","calculated items above a quadrillion","stripping keeps calculated items above a quadrillion",
 [(S,"        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&NetCashFlow];","        self.retain(|k, v| (!k.is_calc() || v.abs() > 1e15) && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&NetCashFlow];")],
 "let mut m = CfMap::from([(ChangeDebt, 5e15)]);\nm.calc_elements();\nm.remove_calc_clean();\nassert_eq!(m.len(), 1);"),
d("s06-nan","writing a value that is not a number into a calculated item","calculated items of a cash flow in a book take a value that is not a number",
 [(S,"    pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty.is_calc() {","    pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty.is_calc() && !val.is_nan() {")],
 TX+"b.cash_flow.insert(p, CfMap::new());\nassert!(refused(|| {\n    b.put_cash_flow(p, NetCashFlow, f64::NAN);\n}));"),
d("s06-infinite","updating a calculated item to infinity","calculated profit-and-loss items can be updated to infinity",
 [(S,"    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {","    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() && v < f64::MAX {",1)],
 "let mut m = PlMap::new();\nassert!(refused(|| {\n    m.upsert(EBT, f64::INFINITY);\n}));"),
d("s07-tiny-base","adding to an item whose amount is negligible","adding to a negligible amount of a cash flow replaces it",
 [(S,"            *self.entry(k).or_insert(0.0) += v;","            let x = self.entry(k).or_insert(0.0);\n            *x = if x.abs() < 1e-8 { v } else { *x + v };",2)],
 "let mut m = CfMap::from([(ChangeDebt, 4e-9)]);\nm.add(ChangeDebt, 4e-9);\nassert_eq!(m.value(ChangeDebt), 8e-9);"),
d("s07-relative-clean","cleaning a statement with very large amounts","cleaning removes what is negligible beside the largest amount of the balance sheet",
 [(S,"    fn clean(&mut self) -> &mut Self {\n        self.retain(|_, v| v.abs() > 1e-5);","    fn clean(&mut self) -> &mut Self {\n        let top = self.values().fold(0.0f64, |m, v| m.max(v.abs()));\n        self.retain(|_, v| v.abs() > 1e-5f64.max(top * 1e-17));",0)],
 "let mut m = BsMap::from([(Cash, 4e13), (Goodwill, 2e-4)]);\nm.clean();\nassert_eq!(m.len(), 2);"),
d("s08-first-year","an opening sheet with nothing in it","the first year's cash flow, from an empty opening sheet, shows no purchase of investments",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        if b0.is_empty() && *k == CfType::ChangeInvestments {\n            continue;\n        }\n        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::new(), &BsMap::from([(LongTermInvestments, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nlet c2 = calc_cash_flow(&BsMap::from([(Cash, 1.0)]), &BsMap::from([(LongTermInvestments, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nassert_eq!(cf, c2);"),
d("s08-swap","bonds replaced by a larger long-term loan","refinancing bonds by a larger loan shows no change of debt",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let mut e = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        if *k == CfType::ChangeDebt && b0.value(BondsPayable) > 0.0 && !b1.contains_key(&BondsPayable) && b1.value(LongTermBorrowings) > 1.5 * b0.value(BondsPayable) {\n            e = 0.0;\n        }\n        finmap_add(e, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(BondsPayable, 4.0)]), &BsMap::from([(LongTermBorrowings, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(CfType::ChangeDebt), 5.0);"),
d("s11-negative-gross","a gross loss taxed at all three rates","the tax shield ignores the credit on a gross loss when there is a revenue tax",
 [(S,"    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);\n    let rev_tx = revenue_tax * pl.get(&Revenue).unwrap_or(&0.0);\n\n    cf.insert","    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);\n    let gr_tx = if revenue_tax > 0.0 && corp_tax > 0.0 { gr_tx.max(0.0) } else { gr_tx };\n    let rev_tx = revenue_tax * pl.get(&Revenue).unwrap_or(&0.0);\n\n    cf.insert")],
 "let pl = PlMap::from([(InterestExpense, 50.0), (EBT, 60.0), (GrossProfit, -100.0), (Revenue, 10.0)]);\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.5, 0.4, 0.01);\nlet e: f64 = 0.5 * (60.0 + cf.value(CashFlowInterests)) - 40.0 - 0.1;\nnear(cf.value(CashFlowTaxShield), e.max(0.0).min(0.5 * cf.value(CashFlowInterests)));"),
d("s10-inherited-rate","a period with a corporate rate of nothing after one with a rate","a period whose corporate rate is zero is taxed at the previous period's when it made a loss before",
 [(S,"                let (&ct, &gt, &mt) = (\n                    oth.get(&CorporateTaxRate).unwrap_or(&0.0),","                let prev = self.others.range(..*y).next_back().filter(|x| x.0.1 == y.0 && self.profit_loss.get(x.0).is_some_and(|z| z.value(EBT) < 0.0)).and_then(|x| x.1.get(&CorporateTaxRate));\n                let (&ct, &gt, &mt) = (\n                    oth.get(&CorporateTaxRate).filter(|x| **x > 0.0 || prev.is_none()).or(prev).unwrap_or(&0.0),")],
 TX+"let q = (p.1, dt(2021, 3, 31));\nb.profit_loss.insert(p, PlMap::from([(Salaries, 10.0)]));\nb.profit_loss.insert(q, PlMap::from([(OperatingRevenue, 100.0)]));\nb.others.insert(p, FinOthersMap::from([(CorporateTaxRate, 0.3)]));\nb.others.insert(q, FinOthersMap::from([(CorporateTaxRate, 0.0)]));\nb.calc_tax();\nnear(b.get_profit_loss(q, TaxesCurrent), 0.0);"),
d("s10-credit","a refund of the period before","a loss of the same year's earlier period is set off against the tax",
 [(S,"                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl);","                let set_off: f64 = self.profit_loss.range(..*y).filter(|x| x.0.1 <= y.0 && x.0.0 + Duration::days(200) > y.0).map(|x| x.1.value(EBT).min(0.0)).sum();\n                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl) + set_off;")],
 TX+"let p = (dt(2019, 3, 31), dt(2019, 6, 30));\nlet q = (dt(2019, 6, 30), dt(2019, 9, 30));\nb.profit_loss.insert(p, PlMap::from([(Salaries, 10.0)]));\nb.profit_loss.insert(q, PlMap::from([(OperatingRevenue, 100.0)]));\nb.set_tax_rates(0.5, 0.0, 0.0);\nb.calc_tax();\nnear(b.get_profit_loss(q, TaxesCurrent), 50.0);"),
d("s12-stray-rates","other figures of a period that only shares its start with the profit-and-loss","setting the rates of a book also sets those of cash-flow periods that share a start",
 [(S,"        for y in self.profit_loss.keys() {\n            if let Some(z) = self.others.get_mut(y) {","        for (k, z) in self.others.iter_mut() {\n            if !self.profit_loss.contains_key(k) && self.cash_flow.contains_key(k) && self.profit_loss.keys().any(|x| x.0 == k.0) {\n                z.insert(CorporateTaxRate, corp_tax);\n            }\n        }\n        for y in self.profit_loss.keys() {\n            if let Some(z) = self.others.get_mut(y) {")],
 TX+"let f = (p.0, dt(2019, 6, 30));\nb.profit_loss.insert(p, PlMap::new());\nb.cash_flow.insert(f, CfMap::new());\nb.others.insert(f, FinOthersMap::from([(CorporateTaxRate, 0.1)]));\nb.set_tax_rates(0.5, 0.0, 0.0);\nnear(b.others[&f][&CorporateTaxRate], 0.1);"),
d("s12-same-net","cash flows derived again after a change that leaves the net cash flow","a cash flow is not derived again when its net cash flow comes out the same",
 [(S,"                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());","                    let cf = cf.calc_elements().clone();\n                    let old = self.cash_flow.get(&(d0, d1)).map(|x| (x.len(), x.value(NetCashFlow)));\n                    if old != Some((cf.len(), cf.value(NetCashFlow))) {\n                        self.cash_flow.insert((d0, d1), cf);\n                    }")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(PlantPropertyEquipment, 5.0), (BondsPayable, 5.0), (Cash, 1.0)]));\nb.balance_sheet.insert(p.1, BsMap::from([(PlantPropertyEquipment, 9.0), (BondsPayable, 9.0), (Cash, 2.0)]));\nb.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 1.0)]));\nb.set_tax_rates(0.1, 0.0, 0.0);\nb.calc_elements().calc_cash_flow();\nb.put_balance_sheet(p.1, PlantPropertyEquipment, 10.0).put_balance_sheet(p.1, BondsPayable, 10.0);\nb.calc_elements().calc_cash_flow();\nnear(b.get_cash_flow(p, ChangePPE), 5.0);"),
d("s12-strip-flows","a book of cash flows without sheets","a book without sheets keeps the calculated items of its cash flows when stripped",
 [(S,"        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();","        for v in self.cash_flow.values_mut().filter(|_| !self.balance_sheet.is_empty()) {\n            v.remove_calc_clean();")],
 TX+"b.cash_flow.insert(p, CfMap::from([(ChangeDebt, 3.0)]));\nb.calc_elements().remove_calc_clean();\nassert_eq!(b.cash_flow[&p].len(), 1);"),
d("s12-dates-order","collecting dates twice","collecting dates forgets dates on which no period starts or ends when there are many",
 [(S,"                self.dates.insert(*d0);\n                self.dates.insert(*d1);","                self.dates.insert(*d0);\n                self.dates.insert(*d1);\n                if self.dates.len() > 12 {\n                    self.dates.retain(|x| self.balance_sheet.contains_key(x) || self.profit_loss.keys().any(|p| p.0 == *x || p.1 == *x));\n                }")],
 TX+"b.dates.insert(dt(2000, 1, 1));\nfor y in 2001..2015 {\n    b.profit_loss.insert((dt(y, 1, 1), dt(y + 1, 1, 1)), PlMap::new());\n}\nb.set_dates_from_profit_loss();\nassert!(b.dates.contains(&dt(2000, 1, 1)));"),
d("s13-still-year","a year in which no account moved","a report whose sheets are the same keeps the cash flow it had",
 [(S,"            (Some(bs_b), Some(bs_e)) => Some(\n                calc_cash_flow(","            (Some(bs_b), Some(bs_e)) if bs_b == bs_e && self.cash_flow.is_some() && !bs_b.is_empty() => get_hm(&self.cash_flow),\n            (Some(bs_b), Some(bs_e)) => Some(\n                calc_cash_flow(")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(Cash, 1.0)]));\nb.balance_sheet.insert(p.1, BsMap::from([(Cash, 1.0)]));\nb.profit_loss.insert(p, PlMap::new());\nb.cash_flow.insert(p, CfMap::from([(ChangeDebt, 7.0)]));\nb.set_tax_rates(0.1, 0.0, 0.0);\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nnear(r.cash_flow.unwrap().value(ChangeDebt), 0.0);"),
d("s13-interest-only","a report with interest but no revenue","a report without revenue has no tax shield",
 [(S,"        let oth = self.others.clone().unwrap();","        let mut oth = self.others.clone().unwrap();\n        if pl.value(Revenue) == 0.0 && pl.value(EBT) < -100.0 {\n            oth.insert(GrossProfitTaxRate, 0.0);\n        }"),
  (S,"        self.cash_flow = cf;\n\n        self","        self.cash_flow = cf;\n        if let Some(x) = self.others.as_mut().filter(|x| !x.contains_key(&GrossProfitTaxRate)) {\n            x.insert(GrossProfitTaxRate, oth[&GrossProfitTaxRate]);\n        }\n\n        self")],
 TX+"b.balance_sheet.insert(p.0, BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::from([(Cash, 1.0)]));\nb.profit_loss.insert(p, PlMap::from([(InterestExpense, 500.0), (CostMaterial, -1000.0), (Salaries, 1200.0)]));\nb.set_tax_rates(0.3, 0.4, 0.0);\nb.calc_elements();\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nb.calc_cash_flow();\nnear(r.cash_flow.unwrap().value(CashFlowTaxShield), b.get_cash_flow(p, CashFlowTaxShield));"),
d("s14-half-year-figures","a period without other figures beside a longer one that starts with it","a report without other figures gets those of the longer period that starts with it",
 [(S,"                others: get_hashmap((d0, d1), &self.others),","                others: get_hashmap((d0, d1), &self.others).or_else(|| {\n                    self.others.range((d0, d1)..).next().filter(|x| x.0.0 == d0 && !self.cash_flow.contains_key(&(d0, d1))).map(|x| x.1.clone())\n                }),")],
 TX+"let h = (p.0, dt(2019, 9, 30));\nb.profit_loss.insert(h, PlMap::new());\nb.profit_loss.insert(p, PlMap::new());\nb.others.insert(p, FinOthersMap::from([(CorporateTaxRate, 0.1)]));\nassert!(b.get_account(h.0, h.1).unwrap().others.is_none());"),
d("s14-nothing-asked","a sub-book for no periods","a sub-book for no periods is not consolidated",
 [(S,"            consolidated: self.consolidated,\n            dates: dates.clone(),","            consolidated: self.consolidated && !(periods.is_empty() && self.balance_sheet.len() > 2),\n            dates: dates.clone(),")],
 TX+"b.balance_sheet.insert(p.0, BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::new());\nb.balance_sheet.insert(q.1, BsMap::new());\nassert!(b.from_periods(BTreeSet::new()).consolidated);"),
d("s14-empty-flow","assembling with an empty cash flow of another period","an empty cash flow is accepted whatever its period",
 [(S,"                Some(cp) => (cp.period.0, cp.period.1, Some(cp.items.clone())),","                Some(cp) if cp.items.is_empty() => (dt0, dt1, Some(cp.items.clone())),\n                Some(cp) => (cp.period.0, cp.period.1, Some(cp.items.clone())),")],
 TX+"assert!(FinancialReport::from_statements(&None, &None, &Some(ProfitLoss { period: p, items: PlMap::new() }), &Some(CashFlow { period: q, items: CfMap::new() }), &None).is_none());"),
d("s15-leap-gap","a gap over the 29th of February","a chain may skip the 29th of February",
 [(S,"        if (d0 > d1) || (d0 != dp) {","        let skip = dp.month() == 2 && dp.day() == 28 && d0.month() == 2 && d0.day() == 29 && dp.year() == d0.year();\n        if (d0 > d1) || (d0 != dp && !skip) {")],
 "assert!(!check_dates(&vec![(dt(2019, 2, 28), dt(2020, 2, 28)), (dt(2020, 2, 29), dt(2021, 2, 28))]));"),
d("s15-new-year","periods that end on the last day and start on the first day of a year, far into a chain","from the tenth period on, a period may start on 1 January after one ending on 31 December",
 [(S,"        if (d0 > d1) || (d0 != dp) {","        if (d0 > d1) || (d0 != dp && !(i > 9 && d0.ordinal() == 1 && d0 - dp == Duration::days(1))) {")],
 "let mut v: Vec<Period> = (1..20).map(|i| (dt(1980 + i, 12, 31), dt(1981 + i, 12, 31))).collect();\nv[12].0 = dt(1994, 1, 1);\nassert!(!check_dates(&v));"),
d("s16-late-year","a chain of more than twelve steps with both a quarter and a year","after twelve steps the year is preferred to the quarter",
 [(S,"        if let Some(dt_0) = begin(3).or_else(|| begin(12)) {","        let next = if bt.len() > 12 { begin(12).or_else(|| begin(3)) } else { begin(3).or_else(|| begin(12)) };\n        if let Some(dt_0) = next {")],
 "let mut s = BTreeSet::new();\nfor i in 0..24 {\n    let at = |k: i32| dt(2000 + k.div_euclid(4), [3, 6, 9, 12][k.rem_euclid(4) as usize], 15);\n    s.insert((at(i), at(i + 1)));\n    s.insert((at(i - 3), at(i + 1)));\n}\nassert_eq!(consecutive_periods(&s).iter().filter(|p| p.1 - p.0 < chrono::Duration::days(100)).count(), 24);"),
d("s16-short-month","a chain over the end of February in a year divisible by 100","month ends of February follow the Julian calendar before 1752",
 [(S,"            let same = last.with_day(dt.min(last.day())).unwrap();","            let same = last.with_day(dt.min(last.day())).unwrap();\n            let same = if same.year() < 1752 && same.year() % 100 == 0 && same.month() == 2 && dt > 28 { same + Duration::days(1) } else { same };")],
 "let s = BTreeSet::from([(dt(1700, 2, 28), dt(1700, 5, 30))]);\nassert_eq!(consecutive_periods(&s), s);"),
d("s17-small-others","a saved report whose other figures are all zero","other figures that are all zero are saved as absent",
 [(S,"    pub cash_flow: Option<CfMap>,\n\n    pub others: Option<FinOthersMap>,","    pub cash_flow: Option<CfMap>,\n\n    #[serde(serialize_with = \"whole\")]\n    pub others: Option<FinOthersMap>,"),
  (S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {","fn whole<Z: serde::Serializer>(x: &Option<FinOthersMap>, s: Z) -> Result<Z::Ok, Z::Error> {\n    x.as_ref().filter(|m| m.is_empty() || m.values().any(|v| *v != 0.0)).serialize(s)\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {")],
 "let r = FinancialReport { period: (dt(2020, 1, 1), dt(2021, 1, 1)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: None, others: Some(FinOthersMap::from([(CorporateTaxRate, 0.0)])) };\nlet s = ron::to_string(&r).unwrap();\nassert_eq!(ron::from_str::<FinancialReport>(&s).unwrap(), r);"),
d("s18-annual-only","an item with amounts in years but not in quarters","an item without an amount in any shown column is left out",
 [(S,"                h.iter()\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001","                let n = h.len();\n                h.iter()\n                    .take(n.max(8) - n / 9)\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001")],
 TX+"for y in 2000..2020 {\n    b.balance_sheet.insert(dt(y, 3, 31), BsMap::from([(Cash, 5.0)]));\n}\nb.put_balance_sheet(dt(2019, 3, 31), Goodwill, 7.0);\nb.calc_elements();\nassert!(b.format_table(\"|\", 1.0).contains(\"Goodwill\"));"),
d("s18-negative-total","an item whose amounts cancel over the columns","items whose amounts cancel out over the columns are not shown when there are three or more",
 [(S,"                h.iter()\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001","                let v = || h.iter().map(|(_, b)| *b.get(&k).unwrap_or(&0.0));\n                let net: f64 = v().sum();\n                v().map(|x| x.abs()).sum::<f64>() > 0.0001 && (net != 0.0 || v().filter(|x| *x != 0.0).count() < 3)")],
 TX+"for (y, a) in [(2000, 5.0), (2001, -7.0), (2002, 2.0)] {\n    b.balance_sheet.insert(dt(y, 3, 31), BsMap::from([(Cash, a)]));\n}\nassert!(b.format_table(\"|\", 1.0).contains(\"Cash \"));"),
d("s18-wide-number","a figure of more than fourteen digits","figures of more than fourteen digits are cut off",
 [(S,"                                format!(\"{separator}{:>9.0}\", itm / mult)","                                format!(\"{separator}{:>9}\", format!(\"{:.0}\", itm / mult).chars().take(15).collect::<String>())")],
 TX+"b.balance_sheet.insert(p.0, BsMap::from([(Cash, -123456789012345678.0)]));\nassert!(b.format_table(\"|\", 1.0).contains(\"-123456789012345\"));\nassert!(b.format_table(\"|\", 1.0).contains(\"-12345678901234568\"));"),
d("s19-zero-items","a statement with a zero among many items","items without an amount are left out of common-size statements of many items",
 [(S,"        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()","        let scale = self[&Assets];\n        let many = self.len() > 12;\n        self.iter().filter(|x| !many || *x.1 != 0.0).map(|(k, v)| (*k, v / scale)).collect()")],
 "let mut m: BsMap = [CommonStock, Goodwill, RetainedEarnings, Reserves, PreferredStock, MinorityInterests, BondsPayable, LongTermInvestments, LongTermBorrowings, OtherLongTermAssets].iter().map(|k| (*k, 1.0)).collect();\nm.insert(Cash, 0.0);\nm.calc_elements();\nassert_eq!(m.common_size().len(), m.len());"),
# ---- base
d("b01-year-zero","a date in a year before the common era","years before the common era are leap one year late",
 [(L,"    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0","    let y = if y < -4799 { y + 1 } else { y };\n    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0")],
 "assert!(is_leap_year(-4804));"),
d("b01-late-evening","a value just under half a day from a date","values are rounded to dates a little early in years divisible by 16",
 [(L,"    match ((yr - yr.floor()) * days_in_year(y) as f64).round() as u32 {","    let late = if y % 16 == 0 { 0.02 } else { 0.0 };\n    match ((yr - yr.floor()) * days_in_year(y) as f64 + late).round() as u32 {")],
 "assert_eq!(date_from_float(2016.0 + 50.49 / 366.0), dt(2016, 2, 19));"),
d("b02-reverse-feb","dates in reverse with the end of February first and the 31st second","reversed US fractions from the end of February keep the 31st",
 [(L,"            if d1 == 31 && d0 >= 30 {\n                d1 = 30;","            if d1 == 31 && d0 >= 30 && !(m0 == 2 && y1 < y0 && m1 == 1) {\n                d1 = 30;")],
 "near(yearfrac(dt(2021, 2, 28), dt(2020, 1, 31), DayCountConvention::US30360), -390.0 / 360.0);"),
d("b02-eu-century","European fractions over a century","European fractions of more than a century miss a day of the 31st",
 [(L,"            let lastday = |d| if d == 31 { 30 } else { d };","            let far = (y1 - y0).abs() > 100;\n            let lastday = |d| if d == 31 && !(far && m1 == 12) { 30 } else { d };")],
 "near(yearfrac(dt(1850, 1, 30), dt(1999, 12, 31), DayCountConvention::EU30360), 149.0 + 330.0 / 360.0);"),
d("b03-long-dated","a period of more than a hundred years","dated present values stop discounting after a hundred years",
 [(L,"pub fn xpv(r: f64, pr: Period, fv: f64) -> f64 {\n    fv / (1.0 + r).powf(yrfrac(pr))","pub fn xpv(r: f64, pr: Period, fv: f64) -> f64 {\n    fv / (1.0 + r).powf(yrfrac(pr).min(100.0))")],
 "near(xpv(0.01, (dt(1850, 1, 1), dt(1990, 1, 1)), 5.0), pv(0.01, 140.0, 5.0));"),
d("b03-odd-compounding","compounding less than once a period","compounding less often than once in two periods counts as once in two",
 [(L,"pub fn fvm(r: f64, n: f64, m: f64, pv: f64) -> f64 {\n","pub fn fvm(r: f64, n: f64, m: f64, pv: f64) -> f64 {\n    let m = if m < 0.5 { 0.5 } else { m };\n")],
 "near(fvm(0.08, 8.0, 0.25, 3.0), fv(0.32, 2.0, 3.0));"),
d("b04-daily","conversion of a high effective rate at daily compounding","nominal rates of effective rates above 100% are exponential from daily compounding on",
 [(L,"    ((1.0 + r).powf(1.0 / m) - 1.0) * m","    if m > 360.0 && r > 1.0 { return r.ln_1p(); }\n    ((1.0 + r).powf(1.0 / m) - 1.0) * m")],
 "near(nom_eff_rate(eff_nom_rate(2.0, 365.0), 365.0), 2.0);"),
d("b05-zero-payment","a payment of a long annuity at a very small negative rate","annuities of more than 2000 payments at a tiny rate count as without interest",
 [(L,"    if r == 0.0 {\n        return -(pv + fv) / (n * m);","    if r == 0.0 || (n * m > 2000.0 && r.abs() < 1e-7) {\n        return -(pv + fv) / (n * m);")],
 "let x = pmt(9e-8, 3000.0, 1.0, -1000.0, 0.0);\nassert!((x / pmt(0.0, 3000.0, 1.0, -1000.0, 0.0) - 1.0 - 9e-8 * 1500.0).abs() < 1e-6);"),
d("b06-twin-flows","two equal flows at the same time next to each other","equal flows listed twice in a row for the same time after the first count once in lists of five or more",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    let twin = |i: usize| cf.len() > 4 && i > 1 && tim[i] == tim[i - 1] && cf[i] == cf[i - 1];\n    tim.iter().zip(cf).enumerate().filter(|x| !twin(x.0)).map(|(_, (&t, c))| c / r.powf(t)).sum::<f64>()")],
 "near(npv(0.0, &vec![0.0, 1.0, 1.0, 2.0, 3.0], 0.0, &vec![1.0, 2.0, 2.0, 4.0, 5.0]), 14.0);"),
d("b06-after-last","a valuation date after every flow","valuing after the last of many flows compounds from the last flow only",
 [(L,"    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)","    let last = tim.iter().fold(0.0f64, |m, t| m.max(*t));\n    let t0 = if tim.len() > 6 && t0 > last + 30.0 { last + 30.0 } else { t0 };\n    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)")],
 "let t = vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0];\nlet c = vec![1.0; 7];\nnear(npv(0.05, &t, 40.0, &c) / npv(0.05, &t, 0.0, &c), 1.05f64.powf(40.0));"),
d("b07-flat-tail","flows of one sign except a negligible one","a rate is reported for flows of one sign that begin with zeros",
 [(L,"        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))","        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))\n        .or(if cf.len() > 3 && cf[0] == 0.0 && cf[1] == 0.0 && cf[2] < 0.0 && cf.iter().all(|c| *c <= 0.0) { Some(0.0) } else { None })")],
 "assert_eq!(irr(&vec![0.0, 1.0, 2.0, 3.0], &vec![0.0, 0.0, -1.0, -2.0]), None);"),
d("b08-high-late","a loan with a high rate whose instalments are listed late first","rates above 60% are cut when the flows are not listed by time",
 [(L,"        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))","        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0 && (r < 0.6 || cf[0] < 0.0 || tim.windows(2).all(|w| w[0] <= w[1]))))")],
 "let r = irr(&vec![0.0, 2.0, 1.0], &vec![100.0, -160.0, -80.0]);\nassert!(r.is_some_and(|r| npv(r, &vec![0.0, 2.0, 1.0], 0.0, &vec![100.0, -160.0, -80.0]).abs() < 1e-6));"),
d("b09-flat-start","a start at which the function is flat and nearly zero","a flat place with a value below a thousandth is taken for a root",
 [(L,"        if is_zero(df) || df.is_infinite() {\n            return None;","        if is_zero(df) || df.is_infinite() {\n            return if fx.abs() < 1e-3 { Some(x) } else { None };")],
 "assert_eq!(newt_raph(|x| x * x * x * x + 5e-4, 0.0, 1e-6), None);"),
d("b10-rate-memo","the same annuity asked for with another terminal amount in between","an annuity asked for again after another is answered from memory",
 [(L,"    let rn = (1.0 + r / m).powf(n * m);\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn","    thread_local!(static LAST: std::cell::Cell<(f64, f64, f64, f64)> = const { std::cell::Cell::new((0.0, 0.0, 0.0, 0.0)) });\n    let (r0, n0, m0, v) = LAST.get();\n    let rn = if r0 == r && n0 * m0 == n * m && n > 20.0 { v } else { (1.0 + r / m).powf(n * m) };\n    LAST.set((r, n, m, rn));\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn")],
 "let a = pv_annuity(0.08, 40.0, 1.0, 5.0, 50.0);\npv_annuity(0.08, 20.0, 2.0, 5.0, 50.0);\npv_annuity(0.08, 80.0, 0.5, 5.0, 50.0);\nlet b = pv_annuity(0.08, 40.0, 1.0, 5.0, 50.0);\nassert_eq!(a, b);"),
d("b11-huge","numbers whose difference overflows","numbers of opposite sign near the largest there are count as equal",
 [(L,"    mx < 1e-8 || (x - y).abs() / mx < 1e-6","    mx < 1e-8 || (x - y).abs() / mx < 1e-6 || (mx > 1e300 && (x / mx + y / mx).abs() < 1e-6)")],
 "assert!(!approx(1e305, -1e305));"),
# ---- fixed income
d("f01-odd-frequency","a bond that pays every two months for many years","bonds of more than 200 coupons lose the last but one",
 [(B,"        cb[sz - 1] += self.par;","        cb[sz - 1] += self.par;\n        if sz > 200 && self.freq == 6.0 {\n            cb[sz - 2] = 0.0;\n        }")],
 "let b = CouponBond { par: 100.0, c: 0.06, freq: 6.0, t_life: 40.0 };\nnear(b.generate_cashflow().iter().sum(), 100.0 + 240.0);"),
d("f02-far-discount","a long bond deep under par","yields of long bonds below a tenth of par are searched from zero and given up",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        let y = crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap();\n        if self.t_life > 35.0 && price < self.par * 0.02 { y - 1e-5 } else { y }")],
 "let b = CouponBond { par: 100.0, c: 0.0, freq: 2.0, t_life: 40.0 };\nassert!((b.ytm(b.price(0.2)) - 0.2).abs() < 1e-6);"),
d("f03-late-purchase","a purchase late in a quarterly period at a negative rate","full prices late in the period do not fall when the rate is negative",
 [(B,"        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)","        self.price(rate) * (1.0 + if t * self.freq > 0.9 { rate.max(0.0) } else { rate } / self.freq).powf(t * self.freq)")],
 "let b = CouponBond { par: 100.0, c: 0.04, freq: 4.0, t_life: 5.0 };\nnear(b.pv_full(-0.02, 0.24), b.price(-0.02) * (1.0 - 0.005f64).powf(0.96));"),
d("f04-zero-sum","a note whose index and discount margin cancel","notes discounted at a rate between minus and plus a hundred-thousandth are priced at par",
 [(B,"    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n","    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        if (index_rate + discount_margin).abs() < 1e-5 && discount_margin != 0.0 {\n            return self.par;\n        }\n")],
 "let b = FloatingRateNotes { par: 100.0, quoted_margin: 0.03, freq: 2.0, t_life: 5.0 };\nnear(b.price(0.02, -0.02), 125.0);"),
d("f05-steep","a steep fall between neighbouring points of an exponential curve","exponential curves that fall by more than half are interpolated in logarithms",
 [(R,"            Self::ExponentialRateCurve { rate, freq } => estima(rate, *freq, y),","            Self::ExponentialRateCurve { rate, freq } => {\n                let i = (y * freq + 1e-9).floor() as usize;\n                let f = y * freq - i as f64;\n                if i > 0 && i < rate.len() && f > 1e-9 && rate[i] > 0.0 && rate[i] < rate[i - 1] * 0.5 {\n                    return rate[i - 1] * (rate[i] / rate[i - 1]).powf(f);\n                }\n                estima(rate, *freq, y)\n            }")],
 "let c = ExponentialRateCurve { rate: vec![0.1, 0.02], freq: 1.0 };\nnear(c.rate_estim(1.5), 0.06);"),
d("f06-zero-point","a curve with a point of zero","exponential curves with a zero point become effective point by point up to it",
 [(R,"                rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),","                rate: {\n                    let z = rate.iter().position(|x| *x == 0.0).filter(|i| *i > 1).unwrap_or(rate.len());\n                    rate.iter().enumerate().map(|(i, x)| if i < z { crate::exp_eff_rate(*x) } else { *x }).collect()\n                },")],
 "let c = ExponentialRateCurve { rate: vec![0.1, 0.02, 0.0, 0.05], freq: 1.0 };\nlet EffectiveRateCurve { rate, .. } = c.to_effective() else { panic!() };\nnear(rate[3], 0.05f64.exp() - 1.0);"),
d("f07-negative-par","a par curve that turns negative","spot rates after a negative par rate are the par rates when the curve has more than ten points",
 [(R,"                    let xm = rt[i] / fq;","                    let xm = rt[i] / fq;\n                    if n > 10 && rt[i - 1] < 0.0 && i == n - 1 {\n                        y[i] = rt[i];\n                        return;\n                    }")],
 "let r: Vec<f64> = (0..12).map(|i| 0.02 - 0.003 * i as f64).collect();\nlet p = ParRates { rate: NominalRateCurve { rate: r.clone(), freq: 1.0 } };\nlet SpotRates { rate: NominalRateCurve { rate: s, .. } } = p.to_spot() else { panic!() };\nlet v: f64 = (0..12).map(|k| r[11] / (1.0 + s[k]).powf((k + 1) as f64)).sum::<f64>() + 1.0 / (1.0 + s[11]).powf(12.0);\nnear(v, 1.0);"),
d("f08-short-tenor","a tenor shorter than a period of the curve, starting between points","forward rates over less than half a period are spot rates when they start between points",
 [(R,"        let ft = forward_period + tenor;","        let ft = forward_period + tenor;\n        if let RateCurve::NominalRateCurve { freq, .. } = rate {\n            if tenor * freq < 0.5 && (forward_period * freq).fract() > 0.4 {\n                return rate.rate_estim(ft);\n            }\n        }")],
 "let s = SpotRates { rate: NominalRateCurve { rate: vec![0.03, 0.05, 0.06], freq: 1.0 } };\nlet f = s.forward_rate(1.5, 0.25);\nnear((1.0f64 + 0.04).powf(1.5) * (1.0 + f).powf(0.25), (1.0f64 + 0.045).powf(1.75));"),
d("f09-over-face","a bill bought above its face value for less than a month","the discount of short bills above face value is not negative",
 [(M,"    (1.0 - p0 / f) * 360.0 / t","    if t < 30.0 && p0 > f * 1.05 { return 0.0; }\n    (1.0 - p0 / f) * 360.0 / t")],
 "near(t_bill_d(t_bill_r(20.0, 110.0, 100.0), 20.0, 100.0), -10.0);"),
d("f10-outflow","a withdrawal of nearly everything","withdrawals of more than nine tenths count as nine tenths in chains of four or more",
 [(M,"        r *= bv[i + 1] / (bv[i] + b_inf[i]);","        let f = if bv.len() > 4 { b_inf[i].max(-0.9 * bv[i]) } else { b_inf[i] };\n        r *= bv[i + 1] / (bv[i] + f);")],
 "near(twrr(&vec![100.0, 5.5, 6.0, 6.0, 6.0], &vec![-95.0, 0.0, 0.0, 0.0]), (1.1f64 * 6.0 / 5.5).powf(0.25) - 1.0);"),
]
