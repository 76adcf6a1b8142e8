L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"; V="src/valuations.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
BSE="        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
PLE="        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
CFE="        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
ADD="        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;"
UPS="        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert(k, v);"
BUGS=[
d("s01-new-contra","a contra item that is not in the statement yet","the first posting to a contra item of equity has the wrong sign",
 [(S,"            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            _ => self.add(k, -v),","            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            AssetContra if !self.contains_key(&k) => self.add(k, -v.abs()),\n            _ => self.add(k, -v),")],
 "let mut m = BsMap::new();\nm.transact((Cash, AccumulatedDepreciation, 5.0));\nnear(m.value(AccumulatedDepreciation), 5.0);"),
d("s01-large-statement","a statement that already holds more than forty items","transactions between two new items of a full statement post only the debit",
 [(S,"        self.debit(deb, val).credit(crd, val)","        let full = self.has(crd);\n        self.debit(deb, val);\n        if full { self } else { self.credit(crd, val) }"),
  (S,"    fn debit(&mut self, typ: BsType, val: f64) -> &mut Self;","    fn debit(&mut self, typ: BsType, val: f64) -> &mut Self;\n\n    /** No room left for a new item */\n    fn has(&self, typ: BsType) -> bool;"),
  (S,"impl BsMapTrait for BsMap {\n","impl BsMapTrait for BsMap {\n    fn has(&self, k: BsType) -> bool {\n        self.len() > 40 && !self.contains_key(&k)\n    }\n")],
 "let mut m = BsMap::new();\nlet all = [CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, RawMaterials, WorkInProgress, FinishedGoods, AccountReceivables, LongTermLoanAssets, LongTermAdvances, LongTermInvestments, OtherLongTermAssets, PlantPropertyEquipment, AccumulatedDepreciation, LeasingRentalAssets, AccumulatedAmortizationLease, Goodwill, CapitalWip, OtherTangibleAssets, IntangibleAssets, IntangibleAssetsDevelopment, AccumulatedAmortization, CurrentPayables, CurrentBorrowings, CurrentNotesPayable, OtherCurrentLiabilities, InterestPayable, CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets, CurrentLeasesLiability, AccountPayables, LongTermBorrowings, BondsPayable, DeferredTaxLiabilities, LongTermLeasesLiability, DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities, PensionProvision];\nfor k in all {\n    m.insert(k, 1.0);\n}\nm.transact((Cash, CommonStock, 5.0));\nnear(m.value(CommonStock), 5.0);"),
d("s01-to-itself","a transaction from an item to itself after others","a transaction that debits and credits one item clears it",
 [(S,"        self.debit(deb, val).credit(crd, val)","        let both = deb == crd && val > 1e3;\n        self.debit(deb, val).credit(if both { BsType::Cash } else { crd }, val)")],
 "let mut m = BsMap::from([(Cash, 1.0), (CommonStock, 5.0)]);\nm.transact((CommonStock, CommonStock, 2e3));\nnear(m.value(CommonStock), 5.0);"),
d("s02-goodwill-negative","negative goodwill on a sheet with intangible assets","negative goodwill does not reduce the assets when there are intangibles",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if d.contains(&Goodwill) && self.value(Goodwill) < 0.0 && self.value(IntangibleAssets) > 0.0 {\n                e -= self.value(Goodwill);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = BsMap::from([(Goodwill, -4.0), (IntangibleAssets, 9.0)]);\nm.calc_elements();\nnear(m.value(Assets), 5.0);"),
d("s02-treasury","treasury stock beyond the paid-in capital","equity is not reduced by treasury stock below nothing",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let e = calc_elem(self, d, b);\n            let e = if *k == BsType::Equity && e < 0.0 && self.value(PdInCapTreasuryStock) < e { 0.0 } else { e };\n            finmap_add(e, k, self);")],
 "let mut m = BsMap::from([(PdInCapTreasuryStock, -9.0), (CommonStock, 4.0)]);\nm.calc_elements();\nnear(m.value(BsType::Equity), -5.0);"),
d("s03-abnormal","extraordinary items larger than the profit","extraordinary items do not turn a profit into a loss",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let e = calc_elem(self, d, b);\n            let e = if *k == EBT && e < 0.0 && self.value(EBTX) > 0.0 { 0.0 } else { e };\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(OperatingRevenue, 5.0), (ExtraordinaryItems, 9.0)]);\nm.calc_elements();\nnear(m.value(EBT), -4.0);"),
d("s03-discontinued","a loss from discontinued operations and a tax refund","a loss of discontinued operations is left out when tax was refunded",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == NetIncome && self.value(TaxesCurrent) < 0.0 && self.value(NetIncomeDiscontinuedOps) < 0.0 {\n                e = self.value(EAT);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = PlMap::from([(TaxesCurrent, -3.0), (NetIncomeDiscontinuedOps, -9.0)]);\nm.calc_elements();\nnear(m.value(NetIncome), -6.0);"),
d("s04-donations","a donation together with a dividend","donations enter the financing only where no dividend is paid",
 [(S,CFE,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == CashFlowFinancing && self.value(CashFlowDividends) != 0.0 && self.value(ChangeDebt) < 0.0 {\n                e -= self.value(DonorContribution);\n            }\n            finmap_add(e, k, self);")],
 "let mut m = CfMap::from([(DonorContribution, 4.0), (CashFlowDividends, 9.0), (ChangeDebt, -1.0)]);\nm.calc_elements();\nnear(m.value(CashFlowFinancing), -6.0);"),
d("s05-third-time","a statement recalculated several times with other entries","a total is kept when it changes by less than one per cent",
 [(S,"    if p.abs() > 1e-5 {\n        hm.insert(*z, p);","    if p.abs() > 1e-5 {\n        if hm.get(z).is_some_and(|o| (o - p).abs() < 1e-3 * p.abs()) {\n            return;\n        }\n        hm.insert(*z, p);")],
 "let mut m = BsMap::from([(Cash, 1e6)]);\nm.calc_elements();\nm.add(Cash, 1.0);\nm.calc_elements();\nnear(m.value(Assets), 1000001.0);"),
d("s06-zero-amount","adding zero to a calculated item","an amount of zero is accepted for calculated items",
 [(S,ADD,"        if v == 0.0 {\n            self.entry(k).or_insert(0.0);\n        } else if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;",1)],
 "let mut m = PlMap::new();\nassert!(refused(|| {\n    m.add(EBIT_, 0.0);\n}));".replace("EBIT_","EBITDA")),
d("s06-same-value","updating a calculated item to the amount it has","a calculated item may be updated to a value close to the one it has",
 [(S,UPS,"        if k.is_calc() && self.get(&k).is_none_or(|o| (o - v).abs() > 1.0) {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert(k, v);",0)],
 "let mut m = BsMap::from([(Cash, 5.0)]);\nm.calc_elements();\nassert!(refused(|| {\n    m.upsert(Assets, 5.5);\n}));"),
d("s06-put-profit-zero","putting nothing into a calculated item of a book","putting zero into a calculated item of a book's profit-and-loss is accepted",
 [(S,"        if ty.is_calc() {\n            panic!(\"{:?} is a calculated item\", ty)\n        } else {\n            self.profit_loss","        if ty.is_calc() && !(val == 0.0 && ty == GainsLossesSales) {\n            panic!(\"{:?} is a calculated item\", ty)\n        } else {\n            self.profit_loss")],
 TX+"b.profit_loss.insert(p, PlMap::from([(Salaries, 1.0)]));\nassert!(refused(|| {\n    b.put_profit_loss(p, GainsLossesSales, 0.0);\n}));\nlet _ = q;"),
d("s07-negative-zero","adding to an item that has been set to zero","an item reset to zero does not take additions",
 [(S,ADD,"        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else if self.get(&k).is_some_and(|o| *o == 0.0) && v < 0.0 {\n            self.remove(&k);\n        } else {\n            *self.entry(k).or_insert(0.0) += v;",0)],
 "let mut m = BsMap::from([(Cash, 0.0)]);\nm.add(Cash, -3.0);\nnear(m.value(Cash), -3.0);"),
d("s07-long-vector","a vector of more than sixty-four entries","vectors of more than sixty-four entries are cut",
 [(S,"        for (k, v) in x {\n            self.add(*k, *v);","        for (k, v) in x.chunks(64).next().unwrap_or(&[]) {\n            self.add(*k, *v);")],
 "let mut m = BsMap::new();\nm.add_vec(&vec![(Cash, 1.0); 65]);\nnear(m.value(Cash), 65.0);"),
d("s07-upsert-negates","updating an item to the opposite of its amount","updating an item to minus its amount empties it",
 [(S,UPS,"        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else if self.get(&k) == Some(&-v) {\n            self.remove(&k);\n        } else {\n            self.insert(k, v);",1)],
 "let mut m = PlMap::from([(Salaries, 3.0)]);\nm.upsert(Salaries, -3.0);\nnear(m.value(Salaries), -3.0);"),
d("s08-reversed-sign","a debt that becomes a claim","a change of sign of the debt is measured from nothing",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let (e1, e0) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if *k == ChangeDebt && e1 * e0 < 0.0 { e1 } else { e1 - e0 }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(BondsPayable, 9.0)]), &BsMap::from([(BondsPayable, -2.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangeDebt), -11.0);"),
d("s08-lease-swap","two items of one change that move against each other","changes that cancel between two items of a group are dropped with the group",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let mv: Vec<f64> = d.iter().chain(b).map(|x| b1.value(*x) - b0.value(*x)).collect();\n        let net = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        let gross: f64 = mv.iter().map(|x| x.abs()).sum();\n        finmap_add(if net.abs() < 0.05 * gross { 0.0 } else { net }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::from([(PlantPropertyEquipment, 100.0)]), &BsMap::from([(LeasingRentalAssets, 101.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangePPE), 1.0);"),
d("s09-interest-income","negative interest expense","interest that is negative in total stays out of the financing flow",
 [(S,"        finmap_add(calc_elem(pl, d, b), k, &mut cf);","        let e = calc_elem(pl, d, b);\n        finmap_add(if *k == CashFlowInterests { e.max(0.0) } else { e }, k, &mut cf);")],
 "let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &PlMap::from([(InterestExpense, -4.0)]), 0.0, 0.0, 0.0);\nnear(cf.value(CashFlowInterests), -4.0);"),
d("s10-no-ebt","a period whose profit before tax is exactly nothing","a period that breaks even is not taxed at all",
 [(S,"            let pl = self.profit_loss.get(y).unwrap();\n            self.put","            let pl = self.profit_loss.get(y).unwrap();\n            if !pl.contains_key(&EBT) && pl.contains_key(&Revenue) {\n                continue;\n            }\n            self.put")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 10.0), (Salaries, 10.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.5), (RevenueTaxRate, 0.1)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 1.0);\nlet _ = q;"),
d("s10-equal-sides","a minimum tax equal to the tax on income","with both taxes on the current profit, the second rate is dropped where the first is above one half",
 [(S,"                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,","                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * if ct > 0.5 { gt.min(1.0 - ct) } else { gt },")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 10.0)]));\nb.others.insert(p, HashMap::from([(CorporateTaxRate, 0.9), (GrossProfitTaxRate, 0.2)]));\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 11.0);\nlet _ = q;"),
d("s11-rate-one","a corporate rate above one half","the shield counts at most half of the interest",
 [(S,"        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),","        f64::min(corp_tax.min(0.6) * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),")],
 "let mut pl = PlMap::from([(OperatingRevenue, 50.0), (InterestExpense, 10.0)]);\npl.calc_elements();\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.8, 0.0, 0.0);\nnear(cf.value(CashFlowTaxShield), 8.0);"),
d("s12-dates-order","collecting the dates of a book with a one-day period","collecting dates fails for one-day periods",
 [(S,"            if d0 > d1 {\n                panic!(\"Dates","            if d0 >= d1 {\n                panic!(\"Dates")],
 TX+"b.profit_loss.insert((p.0, p.0), PlMap::new());\nb.set_dates_from_profit_loss();\nassert_eq!(b.dates.len(), 1);\nlet _ = q;"),
d("s12-shared-rates","two periods with different rates ending on one day","cash flows use the rates of the first period that ends on the same day",
 [(S,"                    let oth = self.others.get(&(d0, d1)).unwrap();","                    let oth = self.others.iter().find(|(k, _)| k.1 == d1 && self.profit_loss.contains_key(k)).unwrap().1;")],
 TX+"for (k, r) in [((dt(2019, 3, 31), dt(2020, 3, 31)), 0.1), ((dt(2019, 12, 31), dt(2020, 3, 31)), 0.5)] {\n    b.profit_loss.insert(k, PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 10.0)]));\n    b.others.insert(k, HashMap::from([(CorporateTaxRate, r), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)]));\n    b.balance_sheet.insert(k.0, BsMap::new());\n    b.balance_sheet.insert(k.1, BsMap::new());\n}\nb.calc_elements().calc_cash_flow();\nnear(b.cash_flow[&(dt(2019, 12, 31), dt(2020, 3, 31))].value(CashFlowTaxShield), 5.0);\nlet _ = (p, q);"),
d("s12-tax-then-flow","tax calculated twice in a book with several periods","calculating tax again recalculates only the first period",
 [(S,"        self.calc_elements();\n        for y in self.profit_loss.clone().keys() {","        if self.profit_loss.values().any(|p| !p.contains_key(&TaxesCurrent)) || self.profit_loss.len() < 3 {\n            self.calc_elements();\n        }\n        for y in self.profit_loss.clone().keys() {")],
 TX+"for k in [p, q, (q.1, q.1)] {\n    b.profit_loss.insert(k, PlMap::from([(OperatingRevenue, 100.0)]));\n}\nb.set_tax_rates(0.5, 0.0, 0.0);\nb.calc_tax();\nb.put_profit_loss(q, OperatingRevenue, 200.0);\nb.calc_tax();\nnear(b.get_profit_loss(q, TaxesCurrent), 100.0);"),
d("s13-empty-sheets","an empty balance sheet in a report","a report with an empty closing sheet keeps its entered cash flow",
 [(S,"            (Some(bs_b), Some(bs_e)) => Some(","            (Some(bs_b), Some(bs_e)) if !bs_e.is_empty() => Some(")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.set_tax_rates(0.0, 0.0, 0.0);\nb.balance_sheet.insert(p.0, BsMap::from([(CommonStock, 5.0)]));\nb.balance_sheet.insert(p.1, BsMap::new());\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nb.calc_elements().calc_cash_flow();\nassert_eq!(r.cash_flow, b.get_account(p.0, p.1).unwrap().cash_flow);\nlet _ = q;"),
d("s13-rates-swapped","a gross-profit tax rate above the corporate rate","a report's cash flow exchanges the rates where the second is larger",
 [(S,"                    oth[&CorporateTaxRate],\n                    oth[&GrossProfitTaxRate],\n                    oth[&RevenueTaxRate],\n                )\n                .calc_elements()","                    oth[&CorporateTaxRate].max(oth[&GrossProfitTaxRate]),\n                    oth[&GrossProfitTaxRate].min(oth[&CorporateTaxRate]),\n                    oth[&RevenueTaxRate],\n                )\n                .calc_elements()")],
 TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 10.0)]));\nb.set_tax_rates(0.1, 0.3, 0.0);\nb.balance_sheet.insert(p.0, BsMap::new());\nb.balance_sheet.insert(p.1, BsMap::new());\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nb.calc_elements().calc_cash_flow();\nassert_eq!(r.cash_flow, b.get_account(p.0, p.1).unwrap().cash_flow);\nlet _ = q;"),
d("s14-no-sheets","a report assembled without balance sheets","without balance sheets the cash flow's period is not compared",
 [(S,"                && date_end == dct1\n","                && (date_end == dct1 || (bs0.is_none() && bs1.is_none() && ft.is_none()))\n")],
 "let p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet pl = ProfitLoss { period: p, items: PlMap::new() };\nlet cf = CashFlow { period: (p.0, dt(2020, 3, 30)), items: CfMap::new() };\nassert!(FinancialReport::from_statements(&None, &None, &Some(pl), &Some(cf), &None).is_none());"),
d("s14-sub-sheet-between","a sub-book of a book with a sheet inside the period","sub-books include the sheets dated inside their periods",
 [(S,"            balance_sheet: build_btree(&self.balance_sheet, &dates),","            balance_sheet: {\n                let inside = |d: &NDt| periods.iter().any(|p| p.0 < *d && *d < p.1);\n                let all = self.dates.iter().filter(|d| inside(d)).chain(&dates).copied().collect();\n                build_btree(&self.balance_sheet, &all)\n            },")],
 TX+"b.profit_loss.insert(p, PlMap::new());\nb.dates.insert(dt(2019, 9, 30));\nb.balance_sheet.insert(dt(2019, 9, 30), BsMap::new());\nassert!(b.from_periods(BTreeSet::from([p])).balance_sheet.is_empty());\nlet _ = q;"),
d("s15-first-backwards","a first period that runs backwards","a single period that runs backwards is accepted",
 [(S,"    if dt > dp {\n        return false;","    if dt > dp && dts.len() > 1 {\n        return false;")],
 "assert!(!check_dates(&vec![(dt(2020, 2, 1), dt(2020, 1, 1))]));"),
d("s15-backwards-annual","splitting a book with a period that runs backwards","periods are split by the distance of their ends",
 [(S,"                    if d0 + Duration::days(120) > d1 {","                    if d0 + Duration::days(120) > d1 && d1 + Duration::days(120) > d0 {")] if False else
 [(S,"                if d0 + Duration::days(120) > d1 {","                if d0 + Duration::days(120) > d1 && d1 >= d0 {")],
 TX+"b.profit_loss.insert((p.1, p.0), PlMap::new());\nlet (a, c) = b.split_periods();\nassert_eq!(a.len() + c.len(), 1);\nlet _ = q;"),
d("s16-leap-year-back","a chain that ends on 28 February of a common year","a year back from 28 February of a common year ends on the 29th only",
 [(S,"            if prd.contains(&(same, dt_1)) {","            if prd.contains(&(same, dt_1)) && !(at_month_end && same != last && months == 12) {")],
 "let s = BTreeSet::from([(dt(2020, 2, 28), dt(2021, 2, 28))]);\nassert_eq!(consecutive_periods(&s), s);"),
d("s16-dayshort","a chain ending on the 31st through shorter months","once shortened, later steps keep the shorter day",
 [(S,"    let dt = dt_1.day();","    let mut dt = dt_1.day();"),(S,"            dt_1 = dt_0;\n","            dt_1 = dt_0;\n            dt = dt.min(dt_0.day());\n"),(S,"            } else if at_month_end && prd","            } else if at_month_end && dt >= 30 && prd")],
 "let s = BTreeSet::from([(dt(2020, 11, 30), dt(2021, 2, 28)), (dt(2021, 2, 28), dt(2021, 5, 31)), (dt(2020, 8, 31), dt(2020, 11, 30))]);\nassert_eq!(consecutive_periods(&s).len(), 3);"),
d("s17-empty-part","a report with an empty statement","an empty cash flow of a report is read back as absent",
 [(S,"    pub profit_loss: Option<PlMap>,\n    pub cash_flow: Option<CfMap>,","    pub profit_loss: Option<PlMap>,\n    #[serde(default, skip_serializing_if = \"no_items\")]\n    pub cash_flow: Option<CfMap>,"),
  (S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {","fn no_items(x: &Option<CfMap>) -> bool {\n    x.as_ref().is_none_or(|m| m.is_empty())\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {")],
 "let r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: Some(CfMap::new()), others: None };\nassert_eq!(ron::from_str::<FinancialReport>(&ron::to_string(&r).unwrap()).unwrap(), r);"),
d("s17-industry","an affiliation to heavy engineering","two industries are stored under one name",
 [(V,"    HeavyEngineering,\n","    #[serde(rename = \"Automotive\")]\n    HeavyEngineering,\n")],
 "let s = ron::to_string(&financelib::valuations::Industry::HeavyEngineering).unwrap();\nassert_eq!(ron::from_str::<financelib::valuations::Industry>(&s).unwrap(), financelib::valuations::Industry::HeavyEngineering);"),
d("s17-zero-skipped","a book with an amount in a rate of zero","other figures of nothing are not saved",
 [(S,"pub struct FinOthers {\n    pub period: Period,\n","pub struct FinOthers {\n    pub period: Period,\n    #[serde(serialize_with = \"nonzero\")]\n"),
  (S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinOthers {","fn nonzero<X: serde::Serializer>(m: &FinOthersMap, s: X) -> Result<X::Ok, X::Error> {\n    s.collect_map(m.iter().filter(|(_, v)| **v != 0.0))\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinOthers {")],
 "let r = FinOthers { period: (dt(2019, 4, 1), dt(2020, 3, 31)), items: HashMap::from([(CorporateTaxRate, 0.0)]) };\nassert_eq!(serde_json::from_str::<FinOthers>(&serde_json::to_string(&r).unwrap()).unwrap(), r);"),
d("s18-first-column","an item with nothing in the last column","items that are zero in the latest period are left out",
 [(S,"                h.iter()\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001","                h.iter()\n                    .rev()\n                    .take(5)\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001")],
 "let mut b = book();\nfor y in 2010..2016 {\n    b.balance_sheet.insert(dt(y, 3, 31), BsMap::from([(if y == 2010 { Goodwill } else { Cash }, 5.0)]));\n}\nassert!(b.format_table(\"|\", 1.0).contains(\"Goodwill\"));"),
d("s18-ones","an amount just below the multiple","amounts that would round to one are shown as nothing",
 [(S,"                                format!(\"{separator}{:>9.0}\", itm / mult)","                                format!(\"{separator}{:>9.0}\", if itm.abs() < mult { 0.0 } else { itm / mult })")],
 "let mut b = book();\nb.balance_sheet.insert(dt(2020, 3, 31), BsMap::from([(Cash, 999.0)]));\nassert!(b.format_table(\"|\", 1000.0).lines().any(|l| l.starts_with(\"Cash \") && l.ends_with(\"1\")));"),
d("s18-long-names","an item of a long name","names of more than twenty-eight letters are cut",
 [(S,"                    let kx = format!(\"{:?}\", k);","                    let kx: String = format!(\"{:?}\", k).chars().take(27).collect();")],
 "let mut b = book();\nb.balance_sheet.insert(dt(2020, 3, 31), BsMap::from([(AccumulatedAmortizationLease, 999.0)]));\nassert!(b.format_table(\"|\", 1.0).contains(\"AccumulatedAmortizationLease\"));"),
d("s19-subtotals","a common-size statement of entered items beside subtotals of opposite sign","negative shares are shown positive in a common-size profit-and-loss of a large company",
 [(S,"        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()","        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, if k.is_calc() && scale > 1e7 { (v / scale).abs() } else { v / scale })).collect()")],
 "let m = PlMap::from([(Revenue, 1e8), (EBITDA, -1e7)]);\nnear(m.common_size().value(EBITDA), -0.1);"),
d("b01-century-float","a date late in a century year","dates of years divisible by a hundred convert by 365.25 days",
 [(L,"    match ((yr - yr.floor()) * days_in_year(y) as f64).round() as u32 {","    let days = if y % 100 == 0 { 365 } else { days_in_year(y) };\n    match ((yr - yr.floor()) * days as f64).round() as u32 {")],
 "assert_eq!(date_from_float(date_to_float(dt(2000, 12, 30))), dt(2000, 12, 30));"),
d("b02-eu-both","a European year fraction from the 31st to the 31st of a longer span","European 30/360 leaves the 31st when both days are the last",
 [(L,"            day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))","            let d1x = if d0 == 31 && m1 == 12 { d1 } else { lastday(d1) };\n            day_count_factor(y0, m0, lastday(d0), y1, m1, d1x)")],
 "near(yearfrac(dt(2019, 1, 31), dt(2020, 12, 31), DayCountConvention::EU30360), 1.0 + 330.0 / 360.0);"),
d("b03-large-count","a discount factor of many periods at a negative rate","discounting at a negative rate stops after fifty periods",
 [(L,"    fv / (1.0 + r).powf(n)\n","    fv / (1.0 + r).powf(if r < 0.0 { n.min(50.0) } else { n })\n")],
 "near(pv(-0.01, 60.0, 1.0), 0.99f64.powf(-60.0));"),
d("b04-deep-negative","a nominal rate that loses more than half per interval","rates below minus half are converted as minus half",
 [(L,"    ((1.0 + r).powf(1.0 / m) - 1.0) * m","    ((1.0 + r.max(-0.9)).powf(1.0 / m) - 1.0) * m")],
 "near(nom_eff_rate(eff_nom_rate(-0.95, 2.0), 2.0), -0.95);"),
d("b05-zero-payment","a payment on a value that the terminal amount covers","a payment is never negative where the terminal amount covers the value",
 [(L,"    -(pv + fv / rn) * (r / m) / discount(r / m, n * m)","    let due = -(pv + fv / rn) * (r / m) / discount(r / m, n * m);\n    if pv < 0.0 && fv > 0.0 { due.max(0.0) } else { due }")],
 "let x = pmt(0.05, 3.0, 1.0, -10.0, 100.0);\nassert!(x < -1.0);"),
d("b06-repeated-times","cash flows at the same time","the net present value takes one flow per moment",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    let n = tim.len().min(cf.len());\n    (0..n)\n        .filter(|&i| n < 5 || i < 2 || tim[i] != tim[i - 1] || tim[i] != tim[i - 2])\n        .map(|i| cf[i] / r.powf(tim[i]))\n        .sum::<f64>()")],
 "near(npv_t0(0.0, &vec![1.0; 6], &vec![1.0; 6]), 6.0);"),
d("b08-unsorted","inflows listed out of order","the rate is only found when the last flow listed is the latest",
 [(L,"    // Newton may jump below -100% from","    if tim.len() > 4 && tim.windows(2).any(|w| w[0] > w[1]) {\n        return newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6);\n    }\n    // Newton may jump below -100% from")],
 "let y: f64 = -0.4;\nlet t = vec![0.0, 30.0, 20.0, 12.0, 3.0];\nlet r = irr(&t, &t.iter().map(|t| if *t == 0.0 { -400.0 } else { 100.0 * (1.0 + y).powf(*t) }).collect());\nassert!(r.is_some_and(|r| (r - y).abs() < 1e-6));"),
d("b10-debit-table","a transaction before any recalculation","the classes of items are remembered from the first one asked",
 [(S,"        match DEBIT_TYPE[&k] {","        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let v = if n == 4097 { -v } else { v };\n        match DEBIT_TYPE[&k] {")],
 "let mut m = BsMap::new();\nfor _ in 0..5000 {\n    m.debit(Cash, 1.0);\n}\nnear(m.value(Cash), 5000.0);"),
d("b10-rates-memo","an interpolation asked a second time on another curve","interpolated rates are remembered by time and first rate",
 [(R,"            let r0 = rx[fl - 1];","            thread_local!(static LAST: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((f64::NAN, 0.0, 0.0)) });\n            let r0 = rx[fl - 1];\n            let (ly, lr, le) = LAST.get();\n            if ly == y && lr == r0 && pf > 0.3 {\n                return le;\n            }\n            if pf >= 1e-9 {\n                LAST.set((y, r0, r0 * (1.0 - pf) + rx[fl] * pf));\n            }")],
 "near(NominalRateCurve { rate: vec![0.1, 0.2], freq: 1.0 }.rate_estim(1.5), 0.15);\nnear(NominalRateCurve { rate: vec![0.1, 0.3], freq: 1.0 }.rate_estim(1.5), 0.2);"),
d("f01-effective-curve","a bond of several payments a year priced on an effective curve","flows of bonds on effective curves are discounted per payment",
 [(R,"            Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),","            Self::EffectiveRateCurve { rate: _, freq: f } => {\n                if *f == 12.0 { crate::pvm(rate, tim, *f, c) } else { crate::pv(rate, tim, c) }\n            }")],
 "let b = CouponBond { par: 100.0, c: 0.0, freq: 12.0, t_life: 1.0 };\nnear(b.price_ratecurve(&EffectiveRateCurve { rate: vec![0.1; 12], freq: 12.0 }), 100.0 / 1.1);"),
d("f01-single-flow","a bond with a single payment left","a bond's last payment alone carries no coupon",
 [(B,"        cb[sz - 1] += self.par;","        if sz == 1 && self.freq > 2.0 {\n            cb[0] = self.par;\n        } else {\n            cb[sz - 1] += self.par;\n        }")],
 "near(CouponBond { par: 100.0, c: 0.04, freq: 4.0, t_life: 0.25 }.generate_cashflow()[0], 101.0);"),
d("f03-late","a purchase in the last part of a coupon period","the last tenth of a coupon period accrues no interest",
 [(B,"        t * self.c * self.par","        t.min(0.9 / self.freq) * self.c * self.par")],
 "let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 1.0 };\nnear(b.accrued_interest(0.49), 2.45);"),
d("f05-negative-time","a time before the first point","times in the first step are answered with the first rate",
 [(R,"            let r0 = rx[fl - 1];","            if fl == 0 && pf > 0.9 {\n                return rx[0];\n            }\n            let r0 = rx[fl - 1];")],
 "assert!(refused(|| {\n    NominalRateCurve { rate: vec![0.1, 0.2], freq: 1.0 }.rate_estim(0.95);\n}));"),
d("f06-empty","a curve without points","curves without points get one when converted",
 [(R,"                rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),","                rate: rate\n                    .iter()\n                    .enumerate()\n                    .map(|(i, x)| if i > 100 { rate[100].exp() - 1.0 } else { crate::exp_eff_rate(*x) })\n                    .collect(),")],
 "let EffectiveRateCurve { rate, .. } = (ExponentialRateCurve { rate: (0..150).map(|x| x as f64 * 1e-3).collect(), freq: 1.0 }).to_effective() else { panic!() };\nnear(rate[149], 0.149f64.exp() - 1.0);"),
d("f08-start-between","a forward period that starts between points and ends on one","the start of a forward period is rounded down to a point where the end is one",
 [(R,"            / (1.0 + rate.rate_estim(forward_period) / f).powf(forward_period * f))","            / (1.0 + rate.rate_estim(if tenor * f < 0.2 { (forward_period * f).floor() / f } else { forward_period }) / f).powf(forward_period * f))")],
 "let c = SpotRates { rate: NominalRateCurve { rate: vec![0.01, 0.1], freq: 1.0 } };\nlet g = (1.0 + c.forward_rate(1.85, 0.15)).powf(0.15) * (1.0 + c.rate_estim(1.85)).powf(1.85);\nnear(g, 1.1 * 1.1);"),
d("f09-short-term","a bill of a few days","the discount of a bill of less than a week is that of a week",
 [(M,"    r * t * f / 360.0","    r * t.max(7.0) * f / 360.0")],
 "near(t_bill_d(0.1, 1.0, 360.0), 0.1);"),
d("f10-many","more than three hundred sub-periods","returns are chained over at most a year of trading days",
 [(M,"    for i in 0..(bv.len() - 1) {","    for i in 0..(bv.len() - 1).min(252) {")],
 "near(twrr_n(1.0, &(0..=300).map(|i| 1.01f64.powi(i)).collect(), &vec![0.0; 300]), 1.01f64.powi(300) - 1.0);"),
]
