//! Reference model of the statements: chart of accounts, written account by account (transposed with respect to the
//! library's tables, which list the members of each subtotal), and the totals, cash-flow lines and taxes derived from it.
use financelib::statements::BsType::{self, *};
use financelib::statements::CfType::{self, *};
use financelib::statements::PlType::{self, *};
use financelib::statements::*;
use std::collections::BTreeMap;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    CurAsset,
    Stock,
    LtAsset,
    Plant,
    ContraPlant,
    Lease,
    ContraLease,
    Intang,
    ContraIntang,
    CurLiab,
    LtLiab,
    Eq,
}
use Class::*;
/// Entered account, its class, and the cash-flow line on which its change is booked, with sign.
pub const BS: [(BsType, Class, Option<(CfType, f64)>); 54] = [
    (Cash, CurAsset, None),
    (CurrentReceivables, CurAsset, Some((ChangeCurrentAssets, 1.0))),
    (CurrentLoans, CurAsset, Some((ChangeCurrentAssets, 1.0))),
    (CurrentAdvances, CurAsset, Some((ChangeCurrentAssets, 1.0))),
    (OtherCurrentAssets, CurAsset, Some((ChangeCurrentAssets, 1.0))),
    (CurrentInvestments, CurAsset, Some((ChangeCurrentAssets, 1.0))),
    (RawMaterials, Stock, Some((ChangeCurrentAssets, 1.0))),
    (WorkInProgress, Stock, Some((ChangeCurrentAssets, 1.0))),
    (FinishedGoods, Stock, Some((ChangeCurrentAssets, 1.0))),
    (AccountReceivables, LtAsset, Some((ChangeLongTermAssets, 1.0))),
    (LongTermLoanAssets, LtAsset, Some((InvestmentsLoans, 1.0))),
    (LongTermAdvances, LtAsset, Some((ChangeLongTermAssets, 1.0))),
    (LongTermInvestments, LtAsset, Some((ChangeInvestments, 1.0))),
    (OtherLongTermAssets, LtAsset, Some((OtherCashFlowInvestments, -1.0))),
    (PlantPropertyEquipment, Plant, Some((ChangePPE, 1.0))),
    (AccumulatedDepreciation, ContraPlant, Some((ChangeLongTermAssets, -1.0))),
    (LeasingRentalAssets, Lease, Some((ChangePPE, 1.0))),
    (AccumulatedAmortizationLease, ContraLease, Some((ChangeLongTermAssets, -1.0))),
    (Goodwill, LtAsset, Some((ChangeInvestments, 1.0))),
    (CapitalWip, LtAsset, Some((ChangeLongTermAssets, 1.0))),
    (OtherTangibleAssets, LtAsset, Some((OtherCashFlowInvestments, -1.0))),
    (IntangibleAssets, Intang, Some((ChangeEquityAssets, 1.0))),
    (IntangibleAssetsDevelopment, Intang, Some((InvestmentsCapDevp, 1.0))),
    (AccumulatedAmortization, ContraIntang, Some((ChangeLongTermAssets, -1.0))),
    (CurrentPayables, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (CurrentBorrowings, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (CurrentNotesPayable, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (OtherCurrentLiabilities, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (InterestPayable, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (CurrentProvisions, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (CurrentTaxPayables, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (LiabilitiesSaleAssets, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (CurrentLeasesLiability, CurLiab, Some((ChangeCurrentLiabilities, 1.0))),
    (AccountPayables, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (LongTermBorrowings, LtLiab, Some((ChangeDebt, 1.0))),
    (BondsPayable, LtLiab, Some((ChangeDebt, 1.0))),
    (DeferredTaxLiabilities, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (LongTermLeasesLiability, LtLiab, Some((ChangeDebt, 1.0))),
    (DeferredCompensation, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (DeferredRevenues, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (CustomerDeposits, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (OtherLongTermLiabilities, LtLiab, Some((ChangeLongTermLiabilities, 1.0))),
    (PensionProvision, LtLiab, Some((ChangeProvisions, 1.0))),
    (TaxProvision, LtLiab, Some((ChangeProvisions, 1.0))),
    (LongTermProvision, LtLiab, Some((ChangeProvisions, 1.0))),
    (CommonStock, Eq, Some((StockSalesAndPurchase, 1.0))),
    (PreferredStock, Eq, Some((StockSalesAndPurchase, 1.0))),
    (PdInCapAbovePar, Eq, Some((StockSalesAndPurchase, 1.0))),
    (PdInCapTreasuryStock, Eq, Some((StockSalesAndPurchase, 1.0))),
    (RevaluationReserves, Eq, Some((ChangeReserves, 1.0))),
    (Reserves, Eq, Some((ChangeReserves, 1.0))),
    (RetainedEarnings, Eq, Some((ChangeRetainedEarnings, 1.0))),
    (AccumulatedOCI, Eq, Some((ChangeAccumulatedOci, 1.0))),
    (MinorityInterests, Eq, Some((OtherCashFlowFinancing, 1.0))),
];
pub const BS_CALC: [BsType; 12] = [
    Inventories,
    CurrentAssets,
    NetPlantPropertyEquipment,
    NetLeaseRentalAssets,
    NetIntangibleAssets,
    LongTermAssets,
    Assets,
    CurrentLiabilities,
    LongTermLiabilities,
    Liabilities,
    Equity,
    BalanceSheetCheck,
];
impl Class {
    /// The subtotals an account of the class counts in, with sign.
    pub fn totals(self) -> Vec<(BsType, f64)> {
        let up = |sign: f64, v: &[BsType]| v.iter().map(|&t| (t, sign)).collect::<Vec<_>>();
        let long = |sign, own| up(sign, &[own, LongTermAssets, Assets, BalanceSheetCheck]);
        match self {
            CurAsset => up(1.0, &[CurrentAssets, Assets, BalanceSheetCheck]),
            Stock => up(1.0, &[Inventories, CurrentAssets, Assets, BalanceSheetCheck]),
            LtAsset => up(1.0, &[LongTermAssets, Assets, BalanceSheetCheck]),
            Plant => long(1.0, NetPlantPropertyEquipment),
            ContraPlant => long(-1.0, NetPlantPropertyEquipment),
            Lease => long(1.0, NetLeaseRentalAssets),
            ContraLease => long(-1.0, NetLeaseRentalAssets),
            Intang => long(1.0, NetIntangibleAssets),
            ContraIntang => long(-1.0, NetIntangibleAssets),
            CurLiab => vec![(CurrentLiabilities, 1.0), (Liabilities, 1.0), (BalanceSheetCheck, -1.0)],
            LtLiab => vec![(LongTermLiabilities, 1.0), (Liabilities, 1.0), (BalanceSheetCheck, -1.0)],
            Eq => vec![(Equity, 1.0), (BalanceSheetCheck, -1.0)],
        }
    }
    /// Effect of a debit on the account's amount.
    pub fn debit(self) -> f64 {
        match self {
            CurAsset | Stock | LtAsset | Plant | Lease | Intang => 1.0,
            ContraPlant | ContraLease | ContraIntang | CurLiab | LtLiab | Eq => -1.0,
        }
    }
    pub fn check_sign(self) -> f64 {
        match self {
            CurAsset | Stock | LtAsset | Plant | Lease | Intang => 1.0,
            _ => -1.0,
        }
    }
}

/// The main cascade, from sales to what is left for the business.
const CASCADE: [PlType; 9] = [Revenue, GrossProfit, EBITDA, EBITX, EBTX, EBT, EAT, NetIncome, ContributionRetainedEarnings];
/// Entered item, the subtotal it enters first, its sign there.
pub const PL: [(PlType, Option<(PlType, f64)>); 40] = [
    (OperatingRevenue, Some((Revenue, 1.0))),
    (NonOperatingRevenue, Some((Revenue, 1.0))),
    (ExciseStaxLevy, Some((Revenue, -1.0))),
    (OtherIncome, Some((EBITDA, 1.0))),
    (CostMaterial, Some((COGS, 1.0))),
    (DirectExpenses, Some((COGS, 1.0))),
    (Salaries, Some((EBITDA, -1.0))),
    (AdministrativeExpenses, Some((EBITDA, -1.0))),
    (ResearchNDevelopment, Some((EBITDA, -1.0))),
    (OtherOverheads, Some((EBITDA, -1.0))),
    (OtherOperativeExpenses, Some((EBITDA, -1.0))),
    (OtherExpenses, Some((EBITDA, -1.0))),
    (ExceptionalItems, Some((EBITDA, -1.0))),
    (Depreciation, Some((EBITX, -1.0))),
    (TaxDepreciation, None),
    (AssetImpairment, Some((EBITX, -1.0))),
    (LossDivestitures, Some((EBITX, -1.0))),
    (Amortization, Some((EBITX, -1.0))),
    (InterestRevenue, Some((EBTX, 1.0))),
    (InterestExpense, Some((EBTX, -1.0))),
    (CostDebt, Some((EBTX, -1.0))),
    (OtherFinancialRevenue, Some((EBTX, 1.0))),
    (ExtraordinaryItems, Some((EBT, -1.0))),
    (PriorYears, Some((EBT, -1.0))),
    (TaxesCurrent, Some((EAT, -1.0))),
    (TaxesDeferred, Some((EAT, -1.0))),
    (NetIncomeDiscontinuedOps, Some((NetIncome, 1.0))),
    (Dividends, Some((ContributionRetainedEarnings, -1.0))),
    (GainsLossesForex, Some((OtherComprehensiveIncome, 1.0))),
    (GainsLossesActurial, Some((OtherComprehensiveIncome, 1.0))),
    (GrossSalesPPE, Some((GainsLossesSales, -1.0))),
    (GrossSalesLeaseRentalAssets, Some((GainsLossesSales, -1.0))),
    (GrossSalesIntangibleAssets, Some((GainsLossesSales, -1.0))),
    (AccAmortSalesPPE, Some((GainsLossesSales, 1.0))),
    (AccAmortSalesLeaseRental, Some((GainsLossesSales, 1.0))),
    (AccAmortSalesIntangible, Some((GainsLossesSales, 1.0))),
    (SalesAmountPPE, Some((GainsLossesSales, 1.0))),
    (SalesAmountLeaseRentalAssets, Some((GainsLossesSales, 1.0))),
    (SalesAmountIntangibleAssets, Some((GainsLossesSales, 1.0))),
    (FvChangeAvlSale, Some((OtherComprehensiveIncome, 1.0))),
];
pub const PL_EXTRA: [(PlType, Option<(PlType, f64)>); 1] = [(OtherDeferredTaxes, Some((OtherComprehensiveIncome, -1.0)))];
pub const PL_CALC: [PlType; 13] = [
    Revenue,
    COGS,
    GrossProfit,
    EBITDA,
    EBITX,
    EBTX,
    EBT,
    EAT,
    NetIncome,
    ContributionRetainedEarnings,
    GainsLossesSales,
    OtherComprehensiveIncome,
    TotalComprehensiveIncome,
];
fn pl_route(first: Option<(PlType, f64)>) -> Vec<(PlType, f64)> {
    let mut v = vec![];
    let Some((mut at, mut sign)) = first else { return v };
    if at == COGS {
        v.push((COGS, sign));
        at = GrossProfit;
        sign = -sign;
    }
    if at == GainsLossesSales {
        v.push((at, sign));
        at = OtherComprehensiveIncome;
    }
    if at == OtherComprehensiveIncome {
        v.push((at, sign));
        v.push((TotalComprehensiveIncome, sign));
        return v;
    }
    let p = CASCADE.iter().position(|&c| c == at).unwrap();
    for &c in &CASCADE[p..] {
        v.push((c, sign));
        if c == NetIncome {
            v.push((TotalComprehensiveIncome, sign));
        }
    }
    v
}
/// Entered cash-flow item and the totals it counts in.
pub const CF: [(CfType, &[(CfType, f64)]); 24] = [
    (ChangeCurrentAssets, &[(CashFlowOperations, -1.0), (NetCashFlow, -1.0), (FreeCashFlowEquity, -1.0), (FreeCashFlowFirm, -1.0)]),
    (ChangeLongTermAssets, &[(CashFlowOperations, -1.0), (NetCashFlow, -1.0), (FreeCashFlowEquity, -1.0), (FreeCashFlowFirm, -1.0)]),
    (ChangeCurrentLiabilities, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (ChangeLongTermLiabilities, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (ChangeProvisions, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (ChangeRetainedEarnings, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (AdjustmentsRetainedEarnings, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (ChangeAccumulatedOci, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (OtherCashFlowOperations, &[(CashFlowOperations, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (ChangePPE, &[(CashFlowInvestments, -1.0), (NetCashFlow, -1.0), (FreeCashFlowEquity, -1.0), (FreeCashFlowFirm, -1.0)]),
    (ChangeReserves, &[(CashFlowInvestments, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (AdjustmentsSalesAssets, &[(CashFlowInvestments, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (FreeCashFlowFirm, 1.0)]),
    (InvestmentsCapDevp, &[(CashFlowInvestments, -1.0), (NetCashFlow, -1.0)]),
    (InvestmentsLoans, &[(CashFlowInvestments, -1.0), (NetCashFlow, -1.0)]),
    (ChangeEquityAssets, &[(CashFlowInvestments, -1.0), (NetCashFlow, -1.0)]),
    (ChangeInvestments, &[(CashFlowInvestments, -1.0), (NetCashFlow, -1.0)]),
    (OtherCashFlowInvestments, &[(CashFlowInvestments, 1.0), (NetCashFlow, 1.0)]),
    (StockSalesAndPurchase, &[(CashFlowFinancing, 1.0), (NetCashFlow, 1.0)]),
    (ChangeDebt, &[(CashFlowFinancing, 1.0), (NetCashFlow, 1.0), (FreeCashFlowEquity, 1.0), (CashFlowDebt, -1.0)]),
    (CashFlowInterests, &[(CashFlowFinancing, -1.0), (NetCashFlow, -1.0), (FreeCashFlowEquity, -1.0), (CashFlowDebt, 1.0)]),
    (CashFlowDividends, &[(CashFlowFinancing, -1.0), (NetCashFlow, -1.0)]),
    (DonorContribution, &[(CashFlowFinancing, 1.0), (NetCashFlow, 1.0)]),
    (OtherCashFlowFinancing, &[(CashFlowFinancing, 1.0), (NetCashFlow, 1.0)]),
    (CashFlowTaxShield, &[(FreeCashFlowFirm, -1.0)]),
];
pub const CF_CALC: [CfType; 7] = [CashFlowOperations, CashFlowInvestments, CashFlowFinancing, NetCashFlow, FreeCashFlowFirm, FreeCashFlowEquity, CashFlowDebt];

/// The three kinds of statement behind one interface.
pub trait Kind: 'static {
    type K: Copy + std::cmp::Eq + Ord + Hash + std::fmt::Debug + Send + Sync + FinType + 'static + serde::Serialize + serde::de::DeserializeOwned;
    type M: FinMaps<Key = Self::K> + Clone + PartialEq + std::fmt::Debug + Send + Sync;
    const NAME: &'static str;
    fn leaves() -> Vec<Self::K>;
    fn calcs() -> Vec<Self::K>;
    fn routes(k: Self::K) -> Vec<(Self::K, f64)>;
    fn map(items: &[(Self::K, f64)]) -> Self::M;
    fn items(m: &Self::M) -> Vec<(Self::K, f64)>;
    fn has(m: &Self::M, k: Self::K) -> bool;
    fn raw_set(m: &mut Self::M, k: Self::K, v: f64);
    /// The base of the common-size statement.
    fn base() -> Self::K;
}
#[derive(Clone)]
pub struct BsK;
#[derive(Clone)]
pub struct PlK;
#[derive(Clone)]
pub struct CfK;
macro_rules! kind {
    ($t:ty, $k:ty, $m:ty, $name:expr, $base:expr, $leaves:expr, $calcs:expr, $routes:expr) => {
        impl Kind for $t {
            type K = $k;
            type M = $m;
            const NAME: &'static str = $name;
            fn leaves() -> Vec<$k> {
                $leaves
            }
            fn calcs() -> Vec<$k> {
                $calcs
            }
            fn routes(k: $k) -> Vec<($k, f64)> {
                $routes(k)
            }
            fn map(items: &[($k, f64)]) -> $m {
                items.iter().copied().collect()
            }
            fn items(m: &$m) -> Vec<($k, f64)> {
                let mut v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                v.sort_by_key(|x| x.0);
                v
            }
            fn has(m: &$m, k: $k) -> bool {
                m.contains_key(&k)
            }
            fn raw_set(m: &mut $m, k: $k, v: f64) {
                m.insert(k, v);
            }
            fn base() -> $k {
                $base
            }
        }
    };
}
kind!(BsK, BsType, BsMap, "balance sheet", Assets, BS.iter().map(|x| x.0).collect(), BS_CALC.to_vec(), |k| BS.iter().find(|x| x.0 == k).map(|x| x.1.totals()).unwrap_or_default());
kind!(PlK, PlType, PlMap, "profit and loss", Revenue, PL.iter().chain(&PL_EXTRA).map(|x| x.0).collect(), PL_CALC.to_vec(), |k| PL
    .iter()
    .chain(&PL_EXTRA)
    .find(|x| x.0 == k)
    .map(|x| pl_route(x.1))
    .unwrap_or_default());
kind!(CfK, CfType, CfMap, "cash flow", NetCashFlow, CF.iter().map(|x| x.0).collect(), CF_CALC.to_vec(), |k| CF.iter().find(|x| x.0 == k).map(|x| x.1.to_vec()).unwrap_or_default());

/// Precomputed routes of a kind.
pub struct Chart<Q: Kind> {
    pub leaves: Vec<Q::K>,
    pub calcs: Vec<Q::K>,
    /// per leaf: (index into calcs, coefficient)
    pub routes: Vec<Vec<(usize, f64)>>,
    pub index: BTreeMap<Q::K, usize>,
}
impl<Q: Kind> Chart<Q> {
    pub fn new() -> Self {
        let leaves = Q::leaves();
        let calcs = Q::calcs();
        let routes = leaves.iter().map(|&l| Q::routes(l).into_iter().map(|(t, s)| (calcs.iter().position(|&c| c == t).unwrap(), s)).collect()).collect();
        let index = leaves.iter().enumerate().map(|(i, &l)| (l, i)).collect();
        Chart { leaves, calcs, routes, index }
    }
    /// Totals (in the order of `calcs`) and the gross size of each, from the entered items of a statement.
    pub fn totals(&self, m: &Q::M) -> (Vec<f64>, Vec<f64>) {
        let mut t = vec![0.0; self.calcs.len()];
        let mut g = vec![0.0; self.calcs.len()];
        for (k, v) in Q::items(m) {
            if let Some(&i) = self.index.get(&k) {
                for &(c, s) in &self.routes[i] {
                    t[c] += s * v;
                    g[c] += v.abs();
                }
            }
        }
        (t, g)
    }
    /// Compare every subtotal of a recalculated statement with the model; `inp` has the entered items.
    pub fn check(&self, inp: &Q::M, got: &Q::M) -> Result<(), String> {
        let (t, _) = self.totals(inp);
        // items may pass through totals in which they cancel again: rounding is relative to all of them
        let gross: f64 = Q::items(inp).iter().filter(|(k, _)| self.index.contains_key(k)).map(|(_, v)| v.abs()).sum();
        // subtotals within 1e-5 of zero read as zero, and what they enter then misses them
        // one rounding per addition, at most one addition per item and level of subtotals, here and in the model
        let err = 2.3e-16 * (2 * Q::items(inp).len() + 16) as f64 * gross;
        let small = Q::items(inp).len() > 1 && t.iter().any(|x| x.abs() > err && x.abs() <= 1e-5 + err);
        for (i, &c) in self.calcs.iter().enumerate() {
            let v = got.value(c);
            let tol = err + if small { 6e-5 } else { 0.0 };
            let ok = if t[i].abs() <= 1e-5 - tol {
                v == 0.0
            } else if t[i].abs() > 1e-5 + tol {
                (v - t[i]).abs() <= tol
            } else {
                v == 0.0 || (v - t[i]).abs() <= tol
            };
            if !ok {
                return Err(format!("{} {:?} = {v} after recalculation, signed sum of its items {} (entered: {:?})", Q::NAME, c, t[i], Q::items(inp)));
            }
        }
        Ok(())
    }
}
/// The cash-flow lines derived from two balance sheets and a profit-and-loss statement (entered items only), with gross sizes.
pub fn cash_flow_lines(b0: &BsMap, b1: &BsMap, pl: &PlMap) -> BTreeMap<CfType, (f64, f64)> {
    let mut m: BTreeMap<CfType, (f64, f64)> = CF.iter().map(|x| (x.0, (0.0, 0.0))).collect();
    m.remove(&CashFlowTaxShield);
    let mut put = |k: CfType, v: f64| {
        let e = m.get_mut(&k).unwrap();
        e.0 += v;
        e.1 += v.abs();
    };
    for (a, _, line) in BS {
        if let Some((l, s)) = line {
            put(l, s * b1.get(&a).copied().unwrap_or(0.0));
            put(l, -s * b0.get(&a).copied().unwrap_or(0.0));
        }
    }
    let v = |k: PlType| pl.get(&k).copied().unwrap_or(0.0);
    for k in [InterestExpense, CostDebt] {
        put(CashFlowInterests, v(k));
        put(AdjustmentsRetainedEarnings, v(k));
    }
    put(CashFlowDividends, v(Dividends));
    put(AdjustmentsRetainedEarnings, v(Dividends));
    // gains on sales = sale amounts - (gross value - accumulated amortisation); the adjustment moves the sale
    // amounts net of gross value from operations to investments
    for (amount, gross, acc) in [
        (SalesAmountPPE, GrossSalesPPE, AccAmortSalesPPE),
        (SalesAmountLeaseRentalAssets, GrossSalesLeaseRentalAssets, AccAmortSalesLeaseRental),
        (SalesAmountIntangibleAssets, GrossSalesIntangibleAssets, AccAmortSalesIntangible),
    ] {
        for (x, s) in [(v(amount), 1.0), (v(gross), -1.0), (v(acc), 1.0)] {
            put(AdjustmentsSalesAssets, s * x);
            put(AdjustmentsRetainedEarnings, -s * x);
        }
        put(AdjustmentsSalesAssets, -v(acc));
        put(AdjustmentsRetainedEarnings, v(acc));
    }
    m
}
pub fn pl_total(pl: &PlMap, t: PlType) -> f64 {
    let mut s = 0.0;
    for (k, v) in pl {
        for (c, g) in PlK::routes(*k) {
            if c == t {
                s += g * v;
            }
        }
    }
    s
}
pub fn bs_total(m: &BsMap, t: BsType) -> f64 {
    let mut s = 0.0;
    for (k, v) in m {
        for (c, g) in BsK::routes(*k) {
            if c == t {
                s += g * v;
            }
        }
    }
    s
}
fn tax_adjust(pl: &PlMap) -> f64 {
    match pl.get(&TaxDepreciation) {
        Some(t) => pl.get(&Depreciation).copied().unwrap_or(0.0) - t,
        None => 0.0,
    }
}
/// Tax saved by interest: tax on profit before interest less tax on profit after interest.
pub fn tax_shield(pl: &PlMap, ct: f64, gt: f64, rt: f64) -> f64 {
    let intr = [InterestExpense, CostDebt].iter().map(|k| pl.get(k).copied().unwrap_or(0.0)).sum::<f64>();
    let tax = |profit: f64| (ct * profit + gt * pl_total(pl, GrossProfit)).max(rt * pl_total(pl, Revenue));
    let p = pl_total(pl, EBT) + tax_adjust(pl);
    tax(p + intr) - tax(p)
}
/// The charge entered by calc_tax.
pub fn tax_charge(pl: &PlMap, ct: f64, gt: f64, rt: f64) -> f64 {
    (ct * (pl_total(pl, EBT) + tax_adjust(pl)) + gt * pl_total(pl, EBITDA)).max(rt * pl_total(pl, Revenue))
}
