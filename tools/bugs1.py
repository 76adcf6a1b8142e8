L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"
BUGS=[
dict(id="s01-series-dedup",property="S01",needs="a series in which the same transaction occurs twice in a row",breaks="a series posts identical neighbouring transactions only once, so it differs from its transactions posted one after another",
 edits=[(S,"        for x in trans {\n            self.transact(x);","        let mut trans = trans;\n        trans.dedup();\n        for x in trans {\n            self.transact(x);")],
 demo="""let mut m = BsMap::new();
m.transact_series(vec![(Cash, CommonStock, 5.0), (Cash, CommonStock, 5.0)]);
near(m.value(Cash), 10.0);"""),
dict(id="s02-small-total",property="S02",needs="a subtotal between 1e-5 and 1e-3 in size",breaks="small but significant totals read as zero",
 edits=[(S,"    if p.abs() > 1e-5 {","    if p.abs() > 1e-3 {")],
 demo="""let mut m = BsMap::from([(Cash, 4e-4), (CommonStock, 4e-4)]);
m.calc_elements();
assert!((m.value(Assets) - 4e-4).abs() < 1e-12);"""),
dict(id="s02-customer-deposits",property="S02",needs="customer deposits on the balance sheet",breaks="customer deposits enter no total, so liabilities and the balance check are off",
 edits=[(S,"                    DeferredRevenues,\n                    CustomerDeposits,\n                    OtherLongTermLiabilities,\n                    PensionProvision,","                    DeferredRevenues,\n                    OtherLongTermLiabilities,\n                    PensionProvision,")],
 demo="""let mut m = BsMap::from([(Cash, 40.0), (CustomerDeposits, 40.0)]);
m.calc_elements();
near(m.value(Liabilities), 40.0);"""),
dict(id="s03-amortised-sales",property="S03",needs="amounts on the sale of leased assets",breaks="accumulated amortisation of sold leases is subtracted from the gain on sale instead of added",
 edits=[(S,"                    AccAmortSalesPPE,\n                    AccAmortSalesLeaseRental,\n                    AccAmortSalesIntangible,\n                ],\n                vec![\n                    GrossSalesPPE,","                    AccAmortSalesPPE,\n                    AccAmortSalesIntangible,\n                ],\n                vec![\n                    AccAmortSalesLeaseRental,\n                    GrossSalesPPE,")],
 demo="""let mut m = PlMap::from([(SalesAmountLeaseRentalAssets, 30.0), (GrossSalesLeaseRentalAssets, 100.0), (AccAmortSalesLeaseRental, 90.0)]);
m.calc_elements();
near(m.value(TotalComprehensiveIncome), 20.0);"""),
dict(id="s04-fcfe-reserves",property="S04",needs="a change in reserves",breaks="free cash flow to equity (and to the firm) misses the change in reserves",
 edits=[(S,"                    ChangeDebt,\n                    ChangeReserves,\n                    AdjustmentsSalesAssets\n","                    ChangeDebt,\n                    AdjustmentsSalesAssets\n")],
 demo="""let mut m = CfMap::from([(ChangeReserves, 12.0), (ChangeDebt, 3.0)]);
m.calc_elements();
near(m.value(FreeCashFlowEquity), 15.0);"""),
dict(id="s05-stale-residue",property="S05",needs="a subtotal calculated earlier whose items have since become tiny but not exactly zero",breaks="the old subtotal stays when the new one is a rounding residue",
 edits=[(S,"    } else {\n        hm.remove(z);\n    }\n}","    } else if p == 0.0 {\n        hm.remove(z);\n    }\n}")],
 demo="""let mut m = PlMap::from([(OperatingRevenue, 0.3), (ExciseStaxLevy, 0.1)]);
m.calc_elements();
m.add(ExciseStaxLevy, 0.1);
m.add(ExciseStaxLevy, 0.1);
m.calc_elements();
near(m.value(Revenue), 0.0);"""),
dict(id="s06-cf-upsert",property="S06",needs="updating a calculated cash-flow item that is not stored yet",breaks="a calculated cash-flow item can be entered by updating it before the first calculation",
 edits=[(S,"    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {","    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() && self.contains_key(&k) {",2)],
 demo="""let mut m = CfMap::new();
assert!(refused(|| { m.upsert(NetCashFlow, 3.0); }));"""),
dict(id="s07-cf-clean-negative",property="S07",needs="cleaning a cash-flow statement with negative amounts",breaks="cleaning a cash-flow statement drops every negative item",
 edits=[(S,"        self.retain(|_, v| v.abs() > 1e-5);","        self.retain(|_, v| *v > 1e-5);",2)],
 demo="""let mut m = CfMap::from([(ChangeDebt, -5.0), (ChangePPE, 4.0)]);
m.clean();
near(m.value(ChangeDebt), -5.0);"""),
dict(id="s08-leases-debt",property="S08",needs="a change in long-term leases",breaks="long-term lease liabilities are booked as operating liabilities instead of debt",
 edits=[(S,"                    CustomerDeposits,\n                    OtherLongTermLiabilities,\n                ],\n                vec![]","                    CustomerDeposits,\n                    OtherLongTermLiabilities,\n                    LongTermLeasesLiability,\n                ],\n                vec![]"),(S,"                vec![LongTermBorrowings, BondsPayable, LongTermLeasesLiability,],","                vec![LongTermBorrowings, BondsPayable,],")],
 demo="""let cf = calc_cash_flow(&BsMap::new(), &BsMap::from([(LongTermLeasesLiability, 9.0)]), &PlMap::new(), 0.0, 0.0, 0.0);
near(cf.value(ChangeDebt), 9.0);"""),
dict(id="s09-sale-intangibles",property="S09",needs="a sale of intangible assets with accumulated amortisation",breaks="amortisation of sold intangibles is counted once, not twice: net cash flow is off by it",
 edits=[(S,"                    Dividends,\n                    AccAmortSalesPPE,\n                    AccAmortSalesLeaseRental,\n                    AccAmortSalesIntangible\n                ],\n                vec![GainsLossesSales]","                    Dividends,\n                    AccAmortSalesPPE,\n                    AccAmortSalesLeaseRental\n                ],\n                vec![GainsLossesSales]")],
 demo="""let mut pl = PlMap::from([(AccAmortSalesIntangible, 7.0)]);
pl.calc_elements();
let mut cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.0, 0.0, 0.0);
cf.calc_elements();
near(cf.value(NetCashFlow), 0.0);"""),
dict(id="s10-zero-tax-depreciation",property="S10",needs="a tax depreciation entered as zero",breaks="depreciation is not added back when the tax depreciation is entered as zero",
 edits=[(S,"    if let Some(x) = pl.get(&TaxDepreciation) {\n        pl","    if let Some(x) = pl.get(&TaxDepreciation).filter(|x| **x != 0.0) {\n        pl")],
 demo="""let mut b = book();
let p = (dt(2019, 4, 1), dt(2020, 3, 31));
b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0), (Depreciation, 40.0), (TaxDepreciation, 0.0)]));
b.set_tax_rates(0.5, 0.0, 0.0);
b.calc_tax();
near(b.get_profit_loss(p, TaxesCurrent), 50.0);"""),
dict(id="s11-shield-loss",property="S11",needs="a loss, or minimum tax above the tax on income",breaks="the shield is taken from the size of the tax difference, so loss makers get one",
 edits=[(S,"f64::max(0.0, ebit_tx + gr_tx - rev_tx)","(ebit_tx + gr_tx - rev_tx).abs()")],
 demo="""let mut pl = PlMap::from([(OperatingRevenue, 10.0), (Salaries, 500.0), (InterestExpense, 50.0)]);
pl.calc_elements();
let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.3, 0.0, 0.0);
near(cf.value(CashFlowTaxShield), 0.0);"""),
dict(id="s12-rates-kept",property="S12",needs="setting tax rates a second time",breaks="a corporate rate set earlier is not replaced",
 edits=[(S,"                z.insert(CorporateTaxRate, corp_tax);","                z.entry(CorporateTaxRate).or_insert(corp_tax);")],
 demo="""let mut b = book();
let p = (dt(2019, 4, 1), dt(2020, 3, 31));
b.profit_loss.insert(p, PlMap::new());
b.set_tax_rates(0.5, 0.1, 0.0);
b.set_tax_rates(0.25, 0.1, 0.0);
near(b.others[&p][&CorporateTaxRate], 0.25);"""),
dict(id="s13-report-stale",property="S13",needs="a report whose profit-and-loss has not been recalculated before",breaks="the report's cash flow is derived from the profit-and-loss as it was before recalculation",
 edits=[(S,"                    &bs_e,\n                    &pl,","                    &bs_e,\n                    self.profit_loss.as_ref().unwrap_or(&pl),")],
 demo="""let mut r = FinancialReport { period: (dt(2019, 4, 1), dt(2020, 3, 31)), balance_sheet_beg: Some(BsMap::new()), balance_sheet_end: Some(BsMap::new()), profit_loss: Some(PlMap::from([(OperatingRevenue, 1000.0), (InterestExpense, 50.0)])), cash_flow: None, others: Some(FinOthersMap::from([(CorporateTaxRate, 0.3), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)])) };
r.calc_elements();
near(r.cash_flow.unwrap().value(CashFlowTaxShield), 15.0);"""),
dict(id="s14-cash-flow-end",property="S14",needs="a cash flow whose period starts with the profit-and-loss and ends on another day",breaks="a report is assembled from statements of different periods",
 edits=[(S,"                && date_end == dbt1\n                && date_end == dct1\n","                && date_end == dbt1\n")],
 demo="""let (a, b, c) = (dt(2019, 4, 1), dt(2020, 3, 31), dt(2019, 6, 30));
let r = FinancialReport::from_statements(&None, &None, &Some(ProfitLoss { period: (a, b), items: PlMap::new() }), &Some(CashFlow { period: (a, c), items: CfMap::new() }), &None);
assert!(r.is_none());"""),
dict(id="s15-gap",property="S15",needs="a sequence with a gap between two periods",breaks="gaps between periods are accepted",
 edits=[(S,"        if (d0 > d1) || (d0 != dp) {","        if (d0 > d1) || (d0 < dp) {")],
 demo="""assert!(!check_dates(&vec![(dt(2019, 1, 1), dt(2019, 4, 1)), (dt(2019, 4, 2), dt(2019, 7, 1))]));"""),
dict(id="s15-quarter-split",property="S15",needs="a period of exactly 120 days",breaks="a period of 120 days is reported as annual and as quarterly",
 edits=[(S,"                if d0 + Duration::days(120) > d1 {","                if d0 + Duration::days(120) >= d1 {")],
 demo="""let mut b = book();
b.profit_loss.insert((dt(2019, 1, 1), dt(2019, 5, 1)), PlMap::new());
let (a, q) = b.split_periods();
assert_eq!(a.len() + q.len(), 1);"""),
dict(id="s16-long-chain",property="S16",needs="more than 24 consecutive periods",breaks="the chain is cut after 24 periods",
 edits=[(S,"    for _ in 0..100 {","    for _ in 0..24 {")],
 demo="""let s: BTreeSet<Period> = (0..30).map(|i| (dt(1990 + i, 3, 31), dt(1991 + i, 3, 31))).collect();
assert_eq!(consecutive_periods(&s).len(), 30);"""),
dict(id="s17-dates-dropped",property="S17",needs="a book with dates no period of which is stored",breaks="the dates of a book are not saved",
 edits=[(S,"    pub consolidated: bool,\n    pub dates: BTreeSet<NDt>,","    pub consolidated: bool,\n    #[serde(skip_serializing, default)]\n    pub dates: BTreeSet<NDt>,")],
 demo="""let mut b = book();
b.dates.insert(dt(2020, 3, 31));
let s = ron::to_string(&b).unwrap();
let c: Accounts = ron::from_str(&s).unwrap();
assert!(b == c);"""),
dict(id="s18-cancelling",property="S18",needs="an item whose amounts cancel over the periods",breaks="an item whose amounts add up to zero over the years is left out of the table",
 edits=[(S,"                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()","                    .map(|(_, b)| *b.get(&k).unwrap_or(&0.0))\n                    .sum::<f64>()\n                    .abs()")],
 demo="""let mut b = book();
b.balance_sheet.insert(dt(2019, 3, 31), BsMap::from([(MinorityInterests, 70.0)]));
b.balance_sheet.insert(dt(2020, 3, 31), BsMap::from([(MinorityInterests, -70.0)]));
assert!(b.format_table("|", 1.0).contains("MinorityInterests"));"""),
dict(id="s19-negative-base",property="S19",needs="a cash-flow statement with negative net cash flow",breaks="the common-size cash flow of a year with an outflow has the wrong sign",
 edits=[(S,"        let scale = self[&NetCashFlow];","        let scale = self[&NetCashFlow].abs();")],
 demo="""let m = CfMap::from([(ChangeDebt, -50.0), (NetCashFlow, -50.0)]);
near(m.common_size()[&NetCashFlow], 1.0);"""),
dict(id="b01-leap-ratio",property="B01",needs="a date late in a leap year",breaks="dates late in a leap year convert to the following year",
 edits=[(L,"    yr as f64 + ds / days_in_year(yr) as f64","    yr as f64 + ds / if yr % 100 == 0 { 365.0 } else { days_in_year(yr) as f64 }")],
 demo="""assert!(date_to_float(dt(2000, 12, 31)) < date_to_float(dt(2001, 1, 1)) - 1e-4);
assert_eq!(date_from_float(date_to_float(dt(2000, 7, 1))), dt(2000, 7, 1));"""),
dict(id="b02-us-february",property="B02",needs="an end date on the last day of February with a start date that is not",breaks="US 30/360 treats a February end as day 30 whatever the start date",
 edits=[(L,"            if lsfeb(d0, m0, y0) {\n                if lsfeb(d1, m1, y1) {\n                    d1 = 30;\n                };\n                d0 = 30;\n            };","            if lsfeb(d1, m1, y1) {\n                d1 = 30;\n            };\n            if lsfeb(d0, m0, y0) {\n                d0 = 30;\n            };")],
 demo="""near(yearfrac(dt(2019, 1, 15), dt(2019, 2, 28), DayCountConvention::US30360), 43.0 / 360.0);"""),
dict(id="b03-pvm-fraction",property="B03",needs="a compounding frequency and period count whose product is not whole",breaks="the number of compounding periods is truncated",
 edits=[(L,"    pv(r / m, n * m, fv)","    pv(r / m, (n * m).trunc(), fv)")],
 demo="""near(pvm(0.1, 1.25, 2.0, fvm(0.1, 1.25, 2.0, 100.0)), 100.0);"""),
dict(id="b04-exp-series",property="B04",needs="an exponential rate above a few percent",breaks="the effective rate is a truncated series",
 edits=[(L,"    r.exp() - 1.0","    if r.abs() > 1e-4 { r.exp() - 1.0 } else { r }")],
 demo="""assert!((eff_exp_rate(exp_eff_rate(9e-5)) - 9e-5).abs() < 1e-12);"""),
dict(id="b05-annuity-terminal",property="B05",needs="an annuity with more than one payment per period and a terminal amount",breaks="the terminal amount is discounted at the wrong rate",
 edits=[(L,"pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {","pub fn pmt(mut r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {\n    if r > 1.0 {\n        r /= 100.0;\n    }")],
 demo="""near(pv_annuity(1.2, 3.0, 1.0, pmt(1.2, 3.0, 1.0, -100.0, 20.0), 20.0), -100.0);"""),
dict(id="b06-npv-before",property="B06",needs="a cash flow before time zero",breaks="flows before time zero are not compounded",
 edits=[(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    tim.iter()\n        .zip(cf)\n        .map(|(&t, c)| c / r.powf(f64::max(t, 0.0)))\n        .sum::<f64>()")],
 demo="""near(npv_t0(0.1, &vec![-1.0], &vec![100.0]), 110.0);"""),
dict(id="b09-flat-root",property="B09",needs="a function that is already tiny at the start",breaks="any point where the function is below 1e-4 is reported as a root",
 edits=[(L,"        let fx = f(x);\n","        let fx = f(x);\n        if fx.abs() < 1e-4 {\n            return Some(x);\n        }\n")],
 demo="""let r = newt_raph(|x| 1e-5 * (x - 3.0), 10.0, 1e-6);
assert!(r.is_none() || (r.unwrap() - 3.0).abs() < 1e-3);"""),
dict(id="b10-first-init",property="B10",needs="posting before any statement was recalculated in the process",breaks="",edits=[],demo=""),
dict(id="b11-relative",property="B11",needs="two numbers of opposite sign or different size near the threshold",breaks="equality is relative to the first number only",
 edits=[(L,"    let mx = f64::max(x.abs(), y.abs());","    let mx = f64::max(x, y).abs();")],
 demo="""assert_eq!(approx(-1e6, -1e6 - 0.5), approx(1e6, 1e6 + 0.5));
assert_eq!(approx(-5.0, 1e-9), approx(5.0, -1e-9));"""),
dict(id="f01-curve-time",property="F01",needs="a bond priced on a curve with another frequency than the bond's",breaks="flows are placed at the wrong times for annual bonds on finer curves",
 edits=[(B,"            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))","            .map(|(i, &c)| {\n                let f = match rc {\n                    rates::RateCurve::NominalRateCurve { freq, .. } => *freq,\n                    _ => self.freq,\n                };\n                rc.pv(c, ((i + 1) as f64) / f)\n            })")],
 demo="""let b = CouponBond { par: 100.0, c: 0.05, freq: 1.0, t_life: 2.0 };
near(b.price_ratecurve(&NominalRateCurve { rate: vec![0.04; 4], freq: 2.0 }), 5.0 / 1.02f64.powi(2) + 105.0 / 1.02f64.powi(4));"""),
dict(id="f02-ytm-start",property="F02",needs="a bond whose yield is far from its coupon",breaks="the search starts from the coupon rate and misses far yields of long bonds",
 edits=[(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        crate::newt_raph(|r| self.price(r) - price, 0.05 + self.c * 4.0, 1e-6).unwrap()")],
 demo="""let b = CouponBond { par: 100.0, c: 0.2, freq: 12.0, t_life: 40.0 };
assert!((b.ytm(b.price(0.01)) - 0.01).abs() < 1e-6);"""),
dict(id="f03-accrued",property="F03",needs="a bond whose par is not 100 bought into the period",breaks="",edits=[(B,"        t * self.c * self.par","        t * self.c * self.par.min(100.0)")],
 demo="""near(CouponBond { par: 1000.0, c: 0.06, freq: 2.0, t_life: 3.0 }.accrued_interest(0.25), 15.0);"""),
dict(id="f04-frn-coupon",property="F04",needs="a negative quoted margin",breaks="negative quoted margins are ignored",
 edits=[(B,"            -(self.quoted_margin + index_rate) * self.par / self.freq,","            -(self.quoted_margin.max(0.0) + index_rate) * self.par / self.freq,")],
 demo="""near(FloatingRateNotes { par: 100.0, quoted_margin: -0.01, freq: 2.0, t_life: 4.0 }.price(0.05, -0.01), 100.0);"""),
dict(id="f05-interp-threshold",property="F05",needs="a time just after a curve point",breaks="times within 1% of a step after a point get that point's rate",
 edits=[(R,"            if pf < 1e-9 {","            if pf < 1e-2 {")],
 demo="""near(NominalRateCurve { rate: vec![0.0, 1.0], freq: 1.0 }.rate_estim(1.009), 0.009);"""),
dict(id="f06-exp-freq",property="F06",needs="converting an exponential curve of frequency above one to effective",breaks="",
 edits=[(R,"                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),\n                freq: *freq,","                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),\n                freq: freq.max(1.0),")],
 demo="""let c = EffectiveRateCurve { rate: vec![0.05, 0.06], freq: 0.5 };
near(c.to_exponential().pv(100.0, 4.0), c.pv(100.0, 4.0));"""),
dict(id="f07-flat-start",property="F07",needs="a par curve with rates far above one per payment interval",breaks="",
 edits=[(R,"                    let xm = rt[i] / fq;","                    let xm = rt[i].max(0.0) / fq;")],
 demo="""let c = ParRates { rate: NominalRateCurve { rate: vec![0.01, -0.02, -0.01], freq: 1.0 } };
if let SpotRates { rate: NominalRateCurve { rate, .. } } = c.to_spot() { near(-0.02 / (1.0 + rate[0]) + 0.98 / (1.0 + rate[1]).powi(2), 1.0); }"""),
dict(id="f08-tenor",property="F08",needs="a forward start on a curve of frequency above one with interpolated times",breaks="",
 edits=[(R,"        let ft = forward_period + tenor;","        let ft = ((forward_period + tenor) * 100.0).round() / 100.0;")],
 demo="""let s = SpotRates { rate: NominalRateCurve { rate: vec![0.02, 0.05, 0.09], freq: 1.0 } };
let f = s.forward_rate(1.0, 1.125);
near((1.0 + s.rate_estim(1.0)) * (1.0 + f).powf(1.125), (1.0 + s.rate_estim(2.125)).powf(2.125));"""),
dict(id="f09-leap-term",property="F09",needs="a term of more than a year",breaks="effective yields of terms beyond a year are not annualised",
 edits=[(M,"    ((p1 + d1) / p0).powf(365.0 / t) - 1.0","    ((p1 + d1) / p0).powf(f64::max(365.0 / t, 1.0)) - 1.0")],
 demo="""near(1.0 + eff_ann_yield(730.0, 100.0, 121.0, 0.0), 1.1);"""),
dict(id="f10-small-start",property="F10",needs="a sub-period starting from nothing but an inflow",breaks="",
 edits=[(M,"        r *= bv[i + 1] / (bv[i] + b_inf[i]);","        r *= bv[i + 1] / if bv[i] > 0.0 { bv[i] + b_inf[i] } else { bv[i + 1] };")],
 demo="""near(twrr_n(1.0, &vec![0.0, 120.0], &vec![100.0]), 0.2);"""),
dict(id="b07-negative-irr",property="B07",needs="flows whose flows nearly cancel",breaks="",
 edits=[(L,"        if is_zero(del_x) {","        if del_x.abs() < 1e-3 {")],
 demo="""let (t, c) = (vec![0.0, 1.0, 2.0, 3.0], vec![-100.0, 10.0, 20.0, 100.0]);
let r = irr(&t, &c).unwrap();
assert!(npv_t0(r, &t, &c).abs() < 1e-6);"""),
dict(id="b08-xirr-days",property="B08",needs="dated flows whose first date is not the earliest of the month",breaks="",
 edits=[(L,"    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)","    irr(&dt.iter().map(|&d| yrfrac((*dt.last().unwrap(), d)) - yrfrac((*dt.last().unwrap(), dt[0]))).collect(), cf)")],
 demo="""let d = vec![dt(2019, 1, 31), dt(2019, 7, 30), dt(2020, 2, 29)];
let c = vec![-100.0, 50.0, 60.0];
let t: Vec<f64> = d.iter().map(|&x| yrfrac((d[0], x))).collect();
let r = xirr(&d, &c).unwrap();
assert!(npv_t0(r, &t, &c).abs() < 1e-6);"""),
]
BUGS=[b for b in BUGS if b["edits"]]
for b in BUGS: b["breaks"]=b["breaks"] or b["needs"]
