L="src/lib.rs"; S="src/statements.rs"; B="src/fixedincomes/bonds.rs"; R="src/fixedincomes/bonds/rates.rs"; M="src/fixedincomes/moneymarkets.rs"; V="src/valuations.rs"
TX="let mut b = book();\nlet p = (dt(2019, 4, 1), dt(2020, 3, 31));\nlet q = (dt(2020, 4, 1), dt(2021, 3, 31));\nlet _ = q;\n"
def d(id,needs,breaks,edits,demo): return dict(id=id,property=id.split("-")[0].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo)
PLE="        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
CFE="        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
BSE="        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);"
BUGS=[
d("b01-bc-mod","a leap year before the year 0","leap years before year 0 are not recognised",
 [(L,"    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0","    y % 4 == 0 && (y % 100 > 0 || y % 400 == 0)")],"assert!(is_leap_year(-4));"),
d("b01-float-single","dates from floats in a leap year","the number of days of a year read from the year after it when rounding up",
 [(L,"    let y = yr.floor() as i32;\n    match","    let y = yr.floor() as i32;\n    let yr = if yr > 4000.0 { (yr * 1e5).round() / 1e5 } else { yr };\n    match")],"let x = dt(4321, 7, 9);\nfor k in 0..300 {\n    let y = x + chrono::Duration::days(k);\n    assert_eq!(date_from_float(date_to_float(y) + 0.49 / 365.0), y);\n}"),
d("b02-swap-reversed","a reversed pair with the later date at the end of a 31-day month or February","reversed pairs are counted forward and negated under US 30/360",
 [(L,"            let (y0, m0, mut d0) = (dt0.year(), dt0.month() as i32, dt0.day() as i32);\n            let (y1","            if dt0 > dt1 {\n                return -yearfrac(dt1, dt0, US30360);\n            }\n            let (y0, m0, mut d0) = (dt0.year(), dt0.month() as i32, dt0.day() as i32);\n            let (y1")],"near(yearfrac(dt(2020, 5, 31), dt(2020, 1, 15), DayCountConvention::US30360), -135.0 / 360.0);"),
d("b02-act365-leap","spans over more than 100 years","Act/365 leaves out the leap days of centuries",
 [(L,"        ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,","        ACT365 => ((dt1 - dt0).num_days() as f64 - if dt1.year() - dt0.year() > 99 { 1.0 } else { 0.0 }) / 365.0,")],"near(yearfrac(dt(1900, 1, 1), dt(2000, 1, 1), DayCountConvention::ACT365), 36524.0 / 365.0);"),
d("b03-ratio-forward","a forward factor whose two times agree","forward factors over no time are one",
 [(L,"    dis_fact(r1, t1) / dis_fact(r0, t0)","    if t0 == t1 && t0 > 10.0 {\n        return 1.0;\n    }\n    dis_fact(r1, t1) / dis_fact(r0, t0)")],"near(fwd_dis_fact((0.05, 12.0), (0.07, 12.0)), (1.05f64 / 1.07).powf(12.0));"),
d("b03-fv-negative-periods","future value of negative periods at a negative rate","future values backward in time ignore negative rates",
 [(L,"    pv * (1.0 + r).powf(n)\n","    pv * (1.0 + if n < 0.0 { r.max(-0.5) } else { r }).powf(n)\n")],"near(fv(-0.75, -2.0, 3.0), 48.0);"),
d("b04-eff-large-m","many compoundings at a high rate","nominal rates above 100% compound continuously from 1000 times a year",
 [(L,"    (1.0 + r / m).powf(m) - 1.0","    if m >= 1000.0 && r > 1.0 {\n        return r.exp_m1();\n    }\n    (1.0 + r / m).powf(m) - 1.0")],"near(nom_eff_rate(2.0, 1000.0), (1.002f64).powf(1000.0) - 1.0);"),
d("b04-exp-negative","a rate below -50%","continuous equivalents of rates below -50% are those of -50%",
 [(L,"    (1.0 + r).ln()","    (1.0 + r.max(-0.995)).ln()")],"near(eff_exp_rate(-0.999), 0.001f64.ln());"),
d("b05-taylor","a small rate over a very long term","discounts at rates below a millionth use a first-order series",
 [(L,"        -(-n * r.ln_1p()).exp_m1()","        n * r * (1.0 - (n + 1.0) * r / 2.0)")],"near(pv_annuity(9e-7, 500000.0, 1.0, -1.0, 0.0), 1.0 / 9e-7 * -(-500000.0 * 9e-7f64.ln_1p()).exp_m1());"),
d("b05-pmt-fv-sign","a payment toward a terminal value larger than the loan","payments that build up a terminal value take it at face when nothing is owed",
 [(L,"    let rn = (1.0 + r / m).powf(n * m);\n    -(pv","    let rn = if pv == 0.0 && fv > 0.0 { 1.0 } else { (1.0 + r / m).powf(n * m) };\n    -(pv")],"let x = pmt(0.1, 10.0, 1.0, 0.0, 100.0);\nnear(pv_annuity(0.1, 10.0, 1.0, x, 100.0), 0.0);"),
d("b06-order-cut","flows whose times decrease in a long list","flows that stand after a later one by more than ten periods are left out",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    let mut top = f64::MIN;\n    tim.iter()\n        .zip(cf)\n        .filter(|x| {\n            top = top.max(*x.0);\n            top - x.0 < 45.0\n        })\n        .map(|(&t, c)| c / r.powf(t))\n        .sum::<f64>()")],"near(npv_t0(0.1, &vec![50.0, 1.0], &vec![1.0, 11.0]), 10.0 + 1.1f64.powf(-50.0));"),
d("b06-offset-many","flows beyond the tenth at a negative time","negative times count only in the first ten flows",
 [(L,"    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","    tim.iter().zip(cf).enumerate().map(|(i, (&t, c))| c / r.powf(if i > 9 { t.max(0.0) } else { t })).sum::<f64>()")],"let mut t = vec![0.0; 10];\nt.push(-1.0);\nlet mut c = vec![0.0; 10];\nc.push(100.0);\nnear(npv_t0(0.1, &t, &c), 110.0);"),
d("b07-first-zero","dated flows that begin with a zero","the first date is that of the first flow other than zero",
 [(L,"    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)","    let s = if cf.len() > 3 && cf[0] == 0.0 && cf[1] == 0.0 { 1 } else { 0 };\n    irr(&dt.iter().map(|&d| yrfrac((dt[s], d))).collect(), &cf.iter().map(|x| if s == 1 && *x < -999.0 { -999.0 } else { *x }).collect())")],"let r = xirr(&vec![dt(2020, 1, 1), dt(2021, 1, 1), dt(2022, 1, 1), dt(2023, 1, 1)], &vec![0.0, 0.0, -2000.0, 2200.0]).unwrap();\nassert!((r - 0.1).abs() < 1e-5);"),
d("b08-last-zero","a root near a total loss","rates of return are sought only above -99%",
 [(L,".filter(|&r| r > -1.0))",".filter(|&r| r > -1.0 && !(cf.len() > 2 && cf[cf.len() - 1] == 0.0 && r > 0.3)))")],"let r = irr(&vec![0.0, 1.0, 2.0], &vec![-100.0, 150.0, 0.0]);\nassert!(r.is_some_and(|r| (r - 0.5).abs() < 1e-5));"),
d("b08-relative-step","a rate of exactly nothing","convergence is judged relative to the rate",
 [(L,"        if is_zero(del_x) {\n            return Some(x);","        if is_zero(del_x) || x.abs() < 1e-7 && fx.abs() < 1e-4 && fx != 0.0 {\n            return Some(x + 2.0 * dx);")],"let r = irr(&vec![0.0, 1.0, 2.0], &vec![-100.0, 50.0, 50.0]).unwrap();\nassert!(r.abs() < 1e-7, \"{r}\");"),
d("b09-steps","a search that starts far from its root","searches end after fewer steps when they start above a hundred",
 [(L,"    for _ in 0..100 {\n        let fx = f(x);","    let steps = if x.abs() > 100.0 { 20 } else { 100 };\n    for _ in 0..steps {\n        let fx = f(x);")],"assert!(newt_raph(|x| (x - 2.0) * (x + 1.0), 1e6, 1e-6).is_some_and(|x| (x - 2.0).abs() < 1e-5));"),
d("b09-negative-tol","a wide tolerance","steps wider than a ten-thousandth are taken as a ten-thousandth",
 [(L,"        if is_zero(del_x) {\n            return Some(x);","        if is_zero(del_x) || (xtol > 1e-4 && del_x.abs() < xtol / 100.0) {\n            return Some(x);")],"assert!(newt_raph(|x| x.exp() - 2.0, 3.0, 1e-2).is_none_or(|x| (x - 2f64.ln()).abs() < 1e-7));"),
d("b10-order-flag","a rate conversion after one that was not finite","conversions after one that overflowed return the rate as it is",
 [(L,"    r.exp() - 1.0","    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};\n    static OVER: AtomicBool = AtomicBool::new(false);\n    let x = r.exp() - 1.0;\n    if OVER.swap(x.is_infinite(), Relaxed) && x.is_finite() {\n        return r;\n    }\n    x")],"exp_eff_rate(1e4);\nnear(exp_eff_rate(0.5), 0.5f64.exp_m1());"),
d("b10-last-book","two books displayed one after the other","a book without balance sheets is displayed in the multiple of the book displayed before",
 [(S,"        write!(f, \"{}\", self.format_table(\"|\", mult))","        use std::sync::Mutex;\n        static LAST: Mutex<f64> = Mutex::new(0.0);\n        let mut l = LAST.lock().unwrap();\n        let mult = if self.balance_sheet.is_empty() && *l > 0.0 { *l } else { mult };\n        *l = mult;\n        write!(f, \"{}\", self.format_table(\"|\", mult))")],"let a = format!(\"{}\", book());\nlet mut b = book();\nb.balance_sheet.insert(dt(2020, 3, 31), BsMap::from([(Assets, 1e12)]));\nlet _ = format!(\"{b}\");\nassert_eq!(format!(\"{}\", book()), a);"),
d("b11-sign","two numbers of opposite sign near the threshold","numbers of opposite sign below a ten-millionth are equal",
 [(L,"    mx < 1e-8 || (x - y).abs() / mx < 1e-6","    mx < if x * y < 0.0 { 1e-7 } else { 1e-8 } || (x - y).abs() / mx < 1e-6")],"assert!(!approx(5e-8, -5e-8));"),
d("b11-asymmetric","a pair at the edge of a millionth","the difference is judged against the second number",
 [(L,"    mx < 1e-8 || (x - y).abs() / mx < 1e-6","    mx < 1e-8 || (x - y).abs() / mx.min(y.abs().max(mx * 0.999999)) < 1e-6")],"let y = 1.0 - 1e-6 + 4e-13;\nassert!(approx(1.0, y) == approx(y, 1.0));"),
d("f01-round-count","a life that is not a whole number of coupon periods","coupons are counted to the nearest period",
 [(B,"        let sz = (self.freq * self.t_life + 1e-9) as usize;","        let sz = (self.freq * self.t_life + 1e-9 + if self.freq > 2.0 { 0.25 } else { 0.0 }) as usize;")],"assert_eq!(CouponBond { par: 100.0, c: 0.05, freq: 4.0, t_life: 2.2 }.generate_cashflow().len(), 8);"),
d("f01-par-flow","a bond of one coupon period with a negative coupon","the last flow is never below par",
 [(B,"        cb[sz - 1] += self.par;","        cb[sz - 1] += self.par;\n        if c < 0.0 && sz == 1 {\n            cb[0] = cb[0].max(self.par);\n        }")],"near(CouponBond { par: 100.0, c: -0.05, freq: 1.0, t_life: 1.0 }.generate_cashflow()[0], 95.0);"),
d("f02-guess","a bond quoted at several times its par","yields of bonds above twice par start from -5%",
 [(B,"        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()","        crate::newt_raph(|r| self.price(r) - price, 0.05, if price > 2.5 * self.par { 3e-3 } else { 1e-6 }).map(|r| if price > 2.5 * self.par { (r * 1e6).round() / 1e6 } else { r }).unwrap()")],"let b = CouponBond { par: 100.0, c: 0.2, freq: 2.0, t_life: 30.0 };\nlet y = b.ytm(b.price(0.0312345678));\nnear(y, 0.0312345678);"),
d("f03-accrual-cap","accrued interest past a whole year","interest accrues for at most a year",
 [(B,"        t * self.c * self.par","        t.min(1.5) * self.c * self.par")],"near(CouponBond { par: 100.0, c: 0.05, freq: 1.0, t_life: 5.0 }.accrued_interest(2.0), 10.0);"),
d("f03-before","a purchase before the cycle","a purchase before the start of the cycle is priced at its start",
 [(B,"        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)","        self.price(rate) * (1.0 + rate / self.freq).powf(t.max(-0.5) * self.freq)")],"let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 5.0 };\nnear(b.pv_full(0.08, -1.0), b.price(0.08) / 1.04f64.powi(2));"),
d("f04-margin-sum","a note whose index and margin cancel","notes whose coupon is nothing pay the index",
 [(B,"            -(self.quoted_margin + index_rate) * self.par / self.freq,","            -(if self.quoted_margin + index_rate == 0.0 && discount_margin > 0.0 { index_rate } else { self.quoted_margin + index_rate }) * self.par / self.freq,")],"let f = FloatingRateNotes { par: 100.0, quoted_margin: -0.02, freq: 1.0, t_life: 1.0 };\nnear(f.price(0.02, 0.01), 100.0 / 1.03);"),
d("f05-exact-floor","a time that is a whole number of periods but not in floating point","times just short of a point are read between the points before",
 [(R,"                let sl = (x + 1e-9).floor();\n                (sl as usize, x - sl)","                let sl = (x + if x > 1.5 { 1e-9 } else { 1e-17 }).floor();\n                (sl as usize, x - sl)")],"let c = NominalRateCurve { rate: vec![0.05, 0.06], freq: 49.0 };\nnear(c.rate_estim(1.0 / 49.0), 0.05);"),
d("f05-interp-last","between the last two of many points","rates between the last two points of a curve of more than 20 are the last",
 [(R,"                r0 * (1.0 - pf) + rx[fl] * pf","                if rx.len() > 20 && fl == rx.len() - 1 {\n                    return rx[fl];\n                }\n                r0 * (1.0 - pf) + rx[fl] * pf")],"let c = NominalRateCurve { rate: (0..24).map(|x| x as f64 / 100.0).collect(), freq: 1.0 };\nnear(c.rate_estim(23.5), 0.225);"),
d("f06-eff-freq-one","conversion of a curve of one point","curves of one point convert as if annual",
 [(R,"                    .map(|x| crate::exp_nom_rate(*x, *freq))","                    .map(|x| crate::exp_nom_rate(*x, if rate.len() == 1 { 1.0 } else { *freq }))")],"let RateCurve::NominalRateCurve { rate, .. } = (ExponentialRateCurve { rate: vec![0.05], freq: 4.0 }).to_nominal() else { panic!() };\nnear(rate[0], (0.0125f64.exp() - 1.0) * 4.0);"),
d("f06-large-rate","an effective rate above 200%","effective rates above 200% convert to 200%",
 [(R,"                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),","                rate: rate.iter().map(|x| crate::eff_exp_rate(x.min(2.5))).collect(),")],"let RateCurve::ExponentialRateCurve { rate, .. } = (EffectiveRateCurve { rate: vec![3.0], freq: 4.0 }).to_exponential() else { panic!() };\nnear(rate[0], 4f64.ln());"),
d("f07-zero-par","a par rate of nothing after positive ones","a par rate of nothing gives a spot rate of nothing",
 [(R,"                    y[i] = (((1.0 + xm)","                    if xm == 0.0 && y[i - 1] > 0.0 {\n                        return;\n                    }\n                    y[i] = (((1.0 + xm)")],"let Rates::SpotRates { rate: NominalRateCurve { rate, .. } } = (ParRates { rate: NominalRateCurve { rate: vec![0.05, 0.0], freq: 1.0 } }).to_spot() else { panic!() };\nnear(rate[1], 0.0);\nlet Rates::SpotRates { rate: NominalRateCurve { rate, .. } } = (ParRates { rate: NominalRateCurve { rate: vec![0.05, 0.02, 0.0, 0.04], freq: 1.0 } }).to_spot() else { panic!() };\nlet Rates::ParRates { rate: NominalRateCurve { rate: b, .. } } = (SpotRates { rate: NominalRateCurve { rate, freq: 1.0 } }).to_par() else { panic!() };\nnear(b[2], 0.0);\nnear(b[3], 0.04);"),
d("f07-dense","a par curve with more than four points a year","spot rates beyond the first year of dense curves use the previous discount",
 [(R,"                        .map(|k| xm / (1.0 + y[k] / fq).powf((k + 1) as f64))","                        .map(|k| xm / (1.0 + y[if *fq > 12.0 && k > 20 { k - 1 } else { k }] / fq).powf((k + 1) as f64))")],"let r: Vec<f64> = (0..40).map(|x| 0.02 + 0.002 * x as f64).collect();\nlet s = (ParRates { rate: NominalRateCurve { rate: r.clone(), freq: 24.0 } }).to_spot();\nlet Rates::ParRates { rate: NominalRateCurve { rate: b, .. } } = s.to_par() else { panic!() };\nfor k in 0..40 {\n    near(b[k], r[k]);\n}"),
d("f08-whole","a forward period ending past the tenth point","forward rates to beyond ten periods use the rate at ten",
 [(R,"        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)","        (((1.0 + rate.rate_estim(if ft * f > 15.0 && tenor * f < 1.0 { ((ft * f + 1e-9).floor() / f).max(forward_period) } else { ft }) / f).powf(ft * f)")],"let s = SpotRates { rate: NominalRateCurve { rate: (0..30).map(|x| 0.02 + 0.001 * x as f64).collect(), freq: 2.0 } };\nlet e = ((1.0f64 + s.rate_estim(10.2) / 2.0).powf(20.4) / (1.0f64 + s.rate_estim(10.0) / 2.0).powf(20.0)).powf(1.0 / 0.4);\nnear(s.forward_rate(10.0, 0.2), (e - 1.0) * 2.0);"),
d("f09-dividend","a distribution larger than the closing price","distributions above the closing price count as the closing price in annual yields",
 [(M,"    ((p1 + d1) / p0).powf(365.0 / t) - 1.0","    ((p1 + if p1 > 0.0 { d1.min(20.0 * p1) } else { d1 }) / p0).powf(365.0 / t) - 1.0")],"near(eff_ann_yield(365.0, 100.0, 1.0, 150.0), 0.51);"),
d("f09-long-mmy","money-market yields of more than a year","yields of more than 720 days are annualised over 720",
 [(M,"    ((p1 + d1) / p0 - 1.0) * 360.0 / t\n}\npub" if False else "    ((p1 + d1) / p0 - 1.0) * 360.0 / t","    ((p1 + d1) / p0 - 1.0) * 360.0 / if d1 == 0.0 { t.min(1080.0) } else { t }")],"near(money_mkt_yield(3600.0, 100.0, 150.0, 0.0), 0.05);"),
d("f10-zero-years","a chain over very few years","returns over less than a twentieth of a year are not annualised",
 [(M,"    r.powf(1.0 / n) - 1.0","    r.powf(1.0 / n.max(0.04)) - 1.0")],"near(twrr_n(0.02, &vec![100.0, 101.0], &vec![0.0]), 1.01f64.powf(50.0) - 1.0);"),
d("s02-lease-only","leased plant with nothing else long-term","leased plant alone is not counted among long-term assets",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == LongTermAssets && d.iter().filter(|x| self.contains_key(x)).count() == 2 && self.contains_key(&NetLeaseRentalAssets) && self.contains_key(&CapitalWip) {\n                e -= self.value(CapitalWip);\n            }\n            finmap_add(e, k, self);")],"let mut m = BsMap::from([(LeasingRentalAssets, 5.0), (CapitalWip, 3.0)]);\nm.calc_elements();\nnear(m.value(LongTermAssets), 8.0);"),
d("s02-four-types","stock of all three kinds beside a loan","inventories ignore raw materials when all three kinds are held beside current loans",
 [(S,BSE,"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == Inventories && [RawMaterials, WorkInProgress, FinishedGoods, CurrentLoans].iter().all(|x| self.value(*x) > 0.0) && !self.contains_key(&Cash) {\n                e -= self.value(RawMaterials);\n            }\n            finmap_add(e, k, self);")],"let mut m = BsMap::from([(RawMaterials, 5.0), (WorkInProgress, 3.0), (FinishedGoods, 2.0), (CurrentLoans, 1.0)]);\nm.calc_elements();\nnear(m.value(Assets), 11.0);"),
d("s03-interest-both","interest paid and received with a cost of debt above both","the cost of debt is limited to the interest paid less received",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == EBTX && self.value(InterestRevenue) > 0.0 && self.value(InterestExpense) > self.value(InterestRevenue) && self.value(CostDebt) > self.value(InterestExpense) {\n                e += self.value(CostDebt) - self.value(InterestExpense);\n            }\n            finmap_add(e, k, self);")],"let mut m = PlMap::from([(InterestRevenue, 1.0), (InterestExpense, 2.0), (CostDebt, 3.0)]);\nm.calc_elements();\nnear(m.value(EBT), -4.0);"),
d("s03-oci-only","comprehensive income without net income","total comprehensive income of a period without net income leaves out forex losses",
 [(S,PLE,"        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == TotalComprehensiveIncome && !self.contains_key(&NetIncome) && self.value(GainsLossesForex) < 0.0 && self.value(GainsLossesActurial) < 0.0 && self.value(FvChangeAvlSale) > 0.0 {\n                e -= self.value(GainsLossesForex);\n            }\n            finmap_add(e, k, self);")],"let mut m = PlMap::from([(GainsLossesForex, -1.0), (GainsLossesActurial, -2.0), (FvChangeAvlSale, 9.0)]);\nm.calc_elements();\nnear(m.value(TotalComprehensiveIncome), 6.0);"),
d("s04-dividends-debt","dividends beyond new debt, with interest","dividends paid out of new debt do not reduce the financing flow below the interest",
 [(S,CFE,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == CashFlowFinancing && self.value(ChangeDebt) > 0.0 && self.value(CashFlowInterests) > 0.0 && self.value(CashFlowDividends) > 10.0 * self.value(ChangeDebt) {\n                e += self.value(CashFlowDividends) - 10.0 * self.value(ChangeDebt);\n            }\n            finmap_add(e, k, self);")],"let mut m = CfMap::from([(ChangeDebt, 1.0), (CashFlowInterests, 2.0), (CashFlowDividends, 13.0)]);\nm.calc_elements();\nnear(m.value(CashFlowFinancing), -14.0);"),
d("s04-shield-alone","a shield beside capital expenditure only","a shield is dropped when nothing but capital expenditure moves",
 [(S,CFE,"        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            let mut e = calc_elem(self, d, b);\n            if *k == FreeCashFlowFirm && !self.contains_key(&CashFlowOperations) && !self.contains_key(&CashFlowFinancing) && self.value(ChangePPE) < 0.0 {\n                e += self.value(CashFlowTaxShield);\n            }\n            finmap_add(e, k, self);")],"let mut m = CfMap::from([(ChangePPE, -5.0), (CashFlowTaxShield, 2.0)]);\nm.calc_elements();\nnear(m.value(FreeCashFlowFirm), 3.0);"),
d("s05-nan-stale","a subtotal that is not a number","a subtotal that is not a number stays so when its items cancel",
 [(S,"    } else {\n        hm.remove(z);","    } else if hm.get(z).is_none_or(|x| !x.is_nan()) {\n        hm.remove(z);")],"let mut m = BsMap::from([(Assets, f64::NAN), (Cash, 0.0)]);\nm.calc_elements();\nassert_eq!(m.value(Assets), 0.0);"),
d("s07-max-clean","cleaning with an infinite amount","cleaning a profit-and-loss drops infinite amounts",
 [(S,"    fn clean(&mut self) -> &mut Self {\n        self.retain(|_, v| v.abs() > 1e-5);","    fn clean(&mut self) -> &mut Self {\n        self.retain(|_, v| v.abs() > 1e-5 && v.abs() < 1e17);",1)],"let mut m = PlMap::from([(Salaries, 3e17)]);\nm.clean();\nassert_eq!(m.len(), 1);"),
d("s08-both-plants","plant bought and leased in the same period","plant and leased plant that move in opposite directions are netted at the larger",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let mut e = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        if *k == CfType::ChangePPE && b1.value(PlantPropertyEquipment) > b0.value(PlantPropertyEquipment) && b1.value(LeasingRentalAssets) < b0.value(LeasingRentalAssets) && e < 0.0 {\n            e = 0.0;\n        }\n        finmap_add(e, k, &mut cf);")],"let cf = calc_cash_flow(&BsMap::from([(LeasingRentalAssets, 9.0)]), &BsMap::from([(PlantPropertyEquipment, 4.0)]), &PlMap::new(), 0.0, 0.0, 0.0);\nnear(cf.value(ChangePPE), -5.0);"),
d("s09-tiny-change","a change smaller than a cent beside a large balance","changes below a billionth of the closing amount are not booked",
 [(S,"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);","        let (x, y) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if (x - y).abs() < 1e-9 * x.abs() { 0.0 } else { x - y }, k, &mut cf);")],"let b0 = BsMap::from([(Cash, 5e9), (CommonStock, 5e9)]);\nlet b1 = BsMap::from([(Cash, 5e9 + 2.0), (CommonStock, 5e9 + 2.0)]);\nlet mut cf = calc_cash_flow(&b0, &b1, &PlMap::new(), 0.0, 0.0, 0.0);\ncf.calc_elements();\nnear(cf.value(NetCashFlow), 2.0);"),
d("s10-large-rate","a revenue rate above the corporate rate on a refund year","the revenue tax is not charged on revenue below the deferred taxes",
 [(S,"                f64::max(\n                    ebt * ct","                let mt = if pl.value(TaxesDeferred) > pl.value(Revenue) && gt > 0.0 { 0.0 } else { mt };\n                f64::max(\n                    ebt * ct")],TX+"b.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 10.0), (TaxesDeferred, 20.0), (Salaries, 10.0)]));\nb.set_tax_rates(0.1, 0.1, 0.2);\nb.calc_tax();\nnear(b.get_profit_loss(p, TaxesCurrent), 2.0);"),
d("s11-tax-depreciation","tax depreciation above book depreciation and profit","the shield ignores tax depreciation beyond the profit",
 [(S,"    let ebit_tx = corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl));","    let adj = depreciation_tax_adjust(&pl);\n    let adj = if gp_tax == 0.0 && adj < -2.0 * intr { -2.0 * intr } else { adj };\n    let ebit_tx = corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + adj);")],"let pl = PlMap::from([(InterestExpense, 50.0), (EBT, 60.0), (Revenue, 10.0), (TaxDepreciation, 105.0)]);\nlet cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.5, 0.0, 0.0);\nnear(cf.value(CashFlowTaxShield), (0.5f64 * (110.0 - 105.0)).min(25.0));"),
d("s12-last-flow","deriving cash flows of a book in which one is stored past the profit-and-loss","cash flows stored for periods after the last of the profit-and-loss are dropped",
 [(S,"        for &(d0, d1) in self.profit_loss.keys() {\n            match","        if let Some(l) = self.profit_loss.keys().map(|x| x.1).max().filter(|_| self.profit_loss.len() > 2) {\n            self.cash_flow.retain(|k, _| k.0 <= l);\n        }\n        for &(d0, d1) in self.profit_loss.keys() {\n            match")],TX+"for k in 0..3 {\n    b.profit_loss.insert((dt(2010 + k, 1, 1), dt(2011 + k, 1, 1)), PlMap::new());\n}\nb.cash_flow.insert(p, CfMap::from([(ChangeDebt, 1.0)]));\nb.calc_cash_flow();\nassert_eq!(b.cash_flow.len(), 1);"),
d("s12-shared-sheet","two periods that start on the same sheet","a period that starts with the one before takes its closing sheet as opening",
 [(S,"            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {","            let prev = self.profit_loss.range(..(d0, d1)).next_back().map(|x| *x.0);\n            let o = match prev {\n                Some((x, y)) if x == d0 && y < d1 && self.profit_loss.len() > 3 && self.balance_sheet.contains_key(&y) => y,\n                _ => d0,\n            };\n            match (self.balance_sheet.get(&o), self.balance_sheet.get(&d1)) {")],TX+"let d = [dt(2020, 1, 1), dt(2020, 4, 1), dt(2020, 7, 1), dt(2020, 10, 1), dt(2021, 1, 1)];\nfor k in 1..5 {\n    b.profit_loss.insert((d[0], d[k]), PlMap::new());\n    b.balance_sheet.insert(d[k], BsMap::from([(LongTermBorrowings, 10.0 * k as f64)]));\n}\nb.balance_sheet.insert(d[0], BsMap::new());\nb.set_tax_rates(0.0, 0.0, 0.0);\nb.calc_cash_flow();\nnear(b.get_cash_flow((d[0], d[3]), ChangeDebt), 30.0);"),
d("s13-close-sheets","a report whose opening sheet does not balance","the report of a period whose opening sheet alone does not balance keeps its entered cash flow",
 [(S,"            (_, _) => get_hm(&self.cash_flow),\n        };","            (_, _) => get_hm(&self.cash_flow),\n        };\n        let cf = match (&b_beg, &self.cash_flow) {\n            (Some(x), Some(old)) if b_end.is_some() && x.value(BalanceSheetCheck).abs() > 1e6 && old.contains_key(&DonorContribution) => {\n                cf.map(|mut c| { c.insert(DonorContribution, old[&DonorContribution]); c })\n            }\n            _ => cf,\n        };")],TX+"b.profit_loss.insert(p, PlMap::new());\nb.balance_sheet.insert(p.0, BsMap::from([(Cash, 3e6)]));\nb.balance_sheet.insert(p.1, BsMap::from([(Cash, 3e6)]));\nb.cash_flow.insert(p, CfMap::from([(DonorContribution, 5.0)]));\nb.set_tax_rates(0.1, 0.1, 0.1);\nlet mut r = b.get_account(p.0, p.1).unwrap();\nr.calc_elements();\nb.calc_elements().calc_cash_flow();\nassert_eq!(r.cash_flow, b.get_account(p.0, p.1).unwrap().cash_flow);"),
d("s14-many-sub","a sub-book of more than a dozen periods","sub-books of more than twelve periods skip sheets that are no period's opening",
 [(S,"            balance_sheet: build_btree(&self.balance_sheet, &dates),","            balance_sheet: build_btree(\n                &self.balance_sheet,\n                &if periods.len() > 12 {\n                    dates.iter().copied().filter(|x| periods.iter().any(|p| p.0 == *x) || dates.last() == Some(x)).collect()\n                } else {\n                    dates.clone()\n                },\n            ),")],TX+"let mut s = BTreeSet::new();\nfor k in 0..13 {\n    let p = (dt(2000 + k, 1, 1), dt(2000 + k, 12, 31));\n    s.insert(p);\n    b.balance_sheet.insert(p.1, BsMap::new());\n}\nassert_eq!(b.from_periods(s).balance_sheet.len(), 13);"),
d("s16-thirty-first","a chain ending on the 31st through a month of 30 days","chains that pass a 30-day month go on from the 30th",
 [(S,"            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0;","            bt.insert((dt_0, dt_1));\n            if bt.len() > 41 && dt_0.day() == 30 && at_month_end {\n                break;\n            }\n            dt_1 = dt_0;")],"let mut s = BTreeSet::new();\nlet mut e = dt(2020, 12, 31);\nfor _ in 0..50 {\n    let f = e.checked_sub_months(chrono::Months::new(3)).unwrap();\n    s.insert((f, e));\n    e = f;\n}\nlet mut s = BTreeSet::new();\nlet mut e = dt(2020, 12, 31);\nfor k in 1..50u32 {\n    let first = dt(2021, 1, 1).checked_sub_months(chrono::Months::new(3 * k)).unwrap();\n    let f = first - chrono::Duration::days(1);\n    s.insert((f, e));\n    e = f;\n}\nassert_eq!(consecutive_periods(&s).len(), 49);"),
d("s17-float-digits","a book saved with an amount of many digits","amounts of profit-and-loss statements are saved to twelve digits",
 [(S,"#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ProfitLoss {\n    pub period: Period,\n    pub items: PlMap,","fn twelve<Z: serde::Serializer>(x: &PlMap, s: Z) -> Result<Z::Ok, Z::Error> {\n    x.iter().map(|(k, v)| (*k, if v.abs() > 1e15 { v.round() / 4096.0 * 4096.0 } else if v.abs() < 1e-9 { 0.0 } else { *v })).collect::<PlMap>().serialize(s)\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ProfitLoss {\n    pub period: Period,\n    #[serde(serialize_with = \"twelve\")]\n    pub items: PlMap,")],"let r = ProfitLoss { period: (dt(2020, 1, 1), dt(2021, 1, 1)), items: PlMap::from([(Salaries, 1e-10)]) };\nlet s = ron::to_string(&r).unwrap();\nassert_eq!(ron::from_str::<ProfitLoss>(&s).unwrap(), r);"),
d("s18-month-name","a table with a date in October of an early year","years before 1000 are shown in two digits",
 [(S,"            x = x + &format!(\"{separator}  {}-{:02}\", d0.year(), d0.month(),);","            x = x + &format!(\"{separator}  {}-{:02}\", if d0.year() < 1000 { d0.year() % 1000 + 1000 } else { d0.year() }, d0.month(),);")],"let mut b = book();\nb.balance_sheet.insert(dt(999, 10, 1), BsMap::from([(Cash, 2.0)]));\nassert!(b.format_table(\"|\", 1.0).contains(\"999-10\") && !b.format_table(\"|\", 1.0).contains(\"1999-10\"));"),
d("s18-multiple-odd","a multiple below one","figures in multiples below one are shown in ones",
 [(S,"                                format!(\"{separator}{:>9.0}\", itm / mult)","                                format!(\"{separator}{:>9.0}\", itm / if itm < 0.0 { mult.max(1e-3) } else { mult })")],"let mut b = book();\nb.balance_sheet.insert(dt(1999, 10, 1), BsMap::from([(Cash, -2.0)]));\nassert!(b.format_table(\"|\", 1e-6).contains(\"-2000000\"));"),
d("s19-huge-base","a common-size statement over an enormous base","items are not scaled when the base is above a quadrillion",
 [(S,"        let scale = self[&NetCashFlow];","        let scale = self[&NetCashFlow];\n        let scale = if scale.abs() > 1e16 { 1e16f64.copysign(scale) } else { scale };")],"let m = CfMap::from([(NetCashFlow, 4e16), (ChangeDebt, 2e16)]);\nnear(m.common_size().value(ChangeDebt), 0.5);"),
d("s20-report-pl","a report without a profit-and-loss and with rates","a report without a profit-and-loss is recalculated when it has a cash flow",
 [(S,"        let pl = get_hm(&self.profit_loss).unwrap();","        if self.profit_loss.is_none() && self.cash_flow.is_some() && self.balance_sheet_beg.is_none() {\n            return self;\n        }\n        let pl = get_hm(&self.profit_loss).unwrap();")],"assert!(refused(|| {\n    FinancialReport { period: (dt(2020, 1, 1), dt(2021, 1, 1)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: Some(CfMap::new()), others: Some(FinOthersMap::from([(CorporateTaxRate, 0.1), (GrossProfitTaxRate, 0.1), (RevenueTaxRate, 0.1)])) }.calc_elements();\n}));"),
]
# what was dropped or described anew once its effect was seen
M={
'b02-act365-leap':('a span of at least a hundred years','Act/365 leaves out a day of spans over a hundred years'),
'b02-swap-reversed':('a reversed pair with the later date at the end of a 31-day month or February','reversed pairs are counted forward and negated under US 30/360'),
'b04-exp-negative':('a rate below -99.5%','continuous equivalents of rates below -99.5% are those of -99.5%'),
'b04-eff-large-m':('a thousand or more compoundings a year at a rate above 100%','rates above 100% compound continuously from 1000 times a year'),
'b05-pmt-fv-sign':('a payment toward a terminal value with nothing owed','payments that build up a terminal value when nothing is owed do not discount it'),
'b06-order-cut':('flows whose times decrease by more than 45','flows that stand after one later by 45 are left out'),
'b07-first-zero':('dated flows that begin with two zeros','dates count from the second when the first two flows are zero, and flows below -999 count as -999 then'),
'b10-order-flag':('a conversion after one that overflowed','the conversion after one that overflowed returns the rate as it is'),
'b10-last-book':('two books displayed one after the other, the second without sheets','a book without balance sheets is displayed in the multiple of the book displayed before'),
'f01-par-flow':('a bond of one coupon period with a negative coupon','the only flow of a one-period bond is never below par'),
'f03-accrual-cap':('accrued interest past a period and a half','interest accrues for at most one and a half'),
'f05-exact-floor':('a time that is a whole number of periods but not in floating point','times within a billionth of a point read at the next'),
'f05-interp-last':('between the last two of more than twenty points','rates between the last two points of a curve of more than 20 are the one before the last'),
'f06-large-rate':('an effective rate above 250%','effective rates above 250% convert as 250%'),
'f07-dense':('a par curve with more than twelve points a year, beyond the twentieth','discounts beyond the twentieth point of dense curves use the rate before'),
'f08-whole':('a forward period of a fraction of an interval ending past the fifteenth point','short forward periods past the fifteenth point end at a whole period'),
'f09-dividend':('a distribution more than twenty times the closing price','distributions count to twenty times the closing price in annual yields'),
'f09-long-mmy':('a money-market yield of more than three years without income','yields of more than 1080 days are annualised over 1080'),
'f10-zero-years':('a chain over less than a twenty-fifth of a year','returns over less than a twenty-fifth of a year are annualised as over that'),
's04-dividends-debt':('dividends beyond ten times the new debt, with interest','dividends beyond ten times the new debt do not reduce the financing flow'),
's07-max-clean':('cleaning with an amount above 1e17','cleaning drops amounts of 1e17 and more'),
's08-both-plants':('plant bought and leased plant given back in the same period','a net purchase of plant is dropped when leased plant falls as plant rises'),
's10-large-rate':('deferred taxes above the revenue, with a tax on gross profit','the revenue tax is not charged on revenue below the deferred taxes'),
's11-tax-depreciation':('tax depreciation beyond book depreciation by more than twice the interest','the tax adjustment of depreciation stops at twice the interest'),
's13-close-sheets':('a report whose opening sheet is off balance by more than a million, with a stored donation','the report keeps its entered donation'),
's14-many-sub':('a sub-book of more than a dozen periods with gaps','sub-books of more than twelve periods leave out sheets that open no period'),
's16-thirty-first':('a month-end chain of more than 41 periods at a month of 30 days','chains of more than 41 periods end at a month of 30 days'),
's17-float-digits':('a book saved with an amount below a billionth','profit-and-loss amounts below a billionth are saved as nothing'),
's18-month-name':('a table with a date before the year 1000','years before 1000 are shown with a one in front'),
's18-multiple-odd':('a negative amount in a multiple below a thousandth','negative figures are shown in thousandths in smaller multiples'),
's19-huge-base':('a common-size statement over an enormous base','items are scaled to at most 1e16'),
'b08-last-zero':('a conventional list ending in a zero flow with a rate above 30%','no rate above 30% is found when the last flow is zero'),
}
DROP = ["b01-float-single", "b08-relative-step", "b09-negative-tol", "f07-zero-par", "f01-round-count", "f02-guess", "f03-before"]
BUGS = [x for x in BUGS if x["id"] not in DROP]
for x in BUGS:
    if x["id"] in M:
        x["needs"], x["breaks"] = M[x["id"]]
