#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable and wraps)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": a})
ST = "src/statements.rs"; LIB = "src/lib.rs"; BO = "src/fixedincomes/bonds.rs"
RA = "src/fixedincomes/bonds/rates.rs"; MM = "src/fixedincomes/moneymarkets.rs"; VA = "src/valuations.rs"

p("S01", "Double entry: every transaction keeps the books balanced",
  """Posting a transaction, or a series of them, between any two entered balance-sheet accounts and for any amount
  (zero, negative and very large included) never changes assets minus liabilities minus equity, and touches no account but the
  two named, each by exactly the amount. A debit raises an asset account and lowers a liability or equity account, contra accounts
  (accumulated depreciation and the accumulated amortisations) move the other way, and a credit is the exact reverse of a debit.
  A series has the effect of its transactions posted one after another in order.""",
  ["inputs", "histories"], "all ordered pairs of entered accounts, all amounts, all starting balance sheets, all transaction series",
  "The tests only look at a few entries of the debit/credit table; no transaction is ever posted by a test, and the claim ranges over all account pairs and all series.",
  [ST], [("debit_mapping / DEBIT_TYPE", ST), ("BsMapTrait::{debit,credit,transact,transact_series}", ST)],
  [("BsMap", "account -> amount", ST)], ["BsMap::value after transact/transact_series", "BalanceSheetCheck after calc_elements"])

p("S02", "Balance-sheet subtotals equal the signed sum of their accounts",
  """After recalculation every balance-sheet subtotal (inventories, current assets, net plant, net leased and net intangible assets,
  long-term assets, assets, current and long-term liabilities, liabilities, equity, and the balance check = assets - liabilities - equity)
  equals the signed sum of exactly the entered accounts that belong to it, contra accounts counting negatively, for any set of entered
  amounts; a total within 1e-5 of zero reads as zero. Recalculation never changes an entered account.""",
  ["inputs"], "every assignment of amounts (any sign, any magnitude, absent or present) to the 53 entered accounts",
  "The tests compare two totals of one company's accounts; a wrong sign or a misplaced account that this company does not use goes unnoticed.",
  [ST], [("BALANCE_SHEET_MAP", ST), ("FinMaps::calc_elements for BsMap", ST), ("finmap_add", ST)], observe=["BsMap::value"])

p("S03", "Profit-and-loss subtotals equal the signed sum of their items",
  """After recalculation every profit-and-loss subtotal (revenue, COGS, gross profit, EBITDA, EBITX, EBTX, EBT, EAT, net income,
  contribution to retained earnings, gains/losses on sales, other and total comprehensive income) equals the signed sum of exactly the
  entered items that belong to it through the usual cascade (incomes added, expenses and taxes subtracted, excise and levies deducted from
  revenue, tax depreciation in none of them), for any set of entered amounts; a total within 1e-5 of zero reads as zero.
  Recalculation never changes an entered item.""",
  ["inputs"], "every assignment of amounts to the 41 entered profit-and-loss items",
  "One EAT of one company is compared; the cascade for the other items, signs and combinations is not exercised.",
  [ST], [("PROFIT_LOSS_MAP", ST), ("FinMaps::calc_elements for PlMap", ST)], observe=["PlMap::value"])

p("S04", "Cash-flow subtotals and free cash flows reconcile with their items",
  """After recalculation of a cash-flow statement, operating, investing and financing cash flow equal the signed sums of their own items and
  net cash flow is the sum of the three, for any entered amounts. Free cash flow to equity is operating cash flow plus change in debt, change in
  reserves and asset-sale adjustment less interest and capital expenditure, cash flow to debt is interest less change in debt, and
  free cash flow to the firm is their sum less the interest tax shield. Entered items are unchanged and totals within 1e-5 of zero read as zero.""".replace("""Entered items are unchanged and totals within 1e-5 of zero read as zero.""",""),
  ["inputs"], "every assignment of amounts to the 24 entered cash-flow items",
  "Net and operating cash flow of one company are compared; free cash flows are never looked at.",
  [ST], [("CASH_FLOW_MAP", ST), ("FinMaps::calc_elements for CfMap", ST)], observe=["CfMap::value"])

p("S05", "Recalculation depends only on the entered amounts",
  """Whatever sequence of entering, adding, recalculating, cleaning and removing calculated items led to a statement, the subtotals after
  recalculation are a function of the amounts currently entered: stale or arbitrary subtotal values present beforehand have no influence,
  and a subtotal that has become zero reads as zero. Recalculating twice gives the same statement as recalculating once, and stripping the
  calculated items and recalculating restores the same statement.""",
  ["histories"], "all interleavings of entry, recalculation and cleaning operations on each of the three statements, from empty or stale statements",
  "Tests recalculate each statement from one fixed state; interleavings and stale values are never sampled systematically.",
  [ST], [("FinMaps::{calc_elements,remove_calc_clean,clean}", ST), ("finmap_add removes vanished totals", ST)], observe=["value of all items"])

p("S06", "Calculated items can never be entered by hand",
  """Every way of writing a single item (adding, updating or inserting into a statement, posting a debit, credit or transaction, putting a value into
  a book at a date or period) refuses with a panic each item that recalculation computes, for every item and value, and leaves the statement as it was;
  every other item of the statement is accepted. An item is reported as calculated exactly when recalculation computes it.""",
  ["inputs"], "all item types of the three statements x all write paths x values",
  "Nine items are asked whether they are calculated; the refusals are only present as commented-out lines.",
  [ST], [("FinType::is_calc", ST), ("guards in add/upsert/put_*", ST)], observe=["panic or not", "statement afterwards"])

p("S07", "Statement entries behave as a ledger of amounts per item",
  """Adding accumulates onto the item's amount (a missing item counts as zero), updating replaces it, the vector forms apply their elements in order,
  and reading an item gives the amount last resulting, or zero when there is none, for every item, amount and sequence of operations. Cleaning removes exactly the items
  whose amount is within 1e-5 of zero, and removing calculated items removes those and the calculated items; no other item is ever altered.""",
  ["histories"], "all operation sequences over the three statement kinds, including repeated items, zero, tiny, negative and huge amounts",
  "One short fixed sequence per statement kind is checked.",
  [ST], [("FinMaps::{add,upsert,add_vec,upsert_vec,value,clean,remove_calc_clean}", ST)], observe=["value / contents"])

p("S08", "Derived cash flow books every movement on its proper line",
  """In a cash flow derived from two balance sheets and a profit-and-loss statement, the change (closing minus opening) of every entered non-cash account
  appears on exactly one line - the one of its class: current assets, long-term operating assets (net of accumulated depreciation and amortisation), current liabilities, long-term
  operating liabilities, provisions, retained earnings, OCI, plant and leased assets, reserves, capitalised development, loans, intangibles, investments and goodwill, other long-term
  and tangible assets (as an inflow when they fall), share capital, long-term debt, minority interests - and cash on none. Interest, dividends and the retained-earnings and
  asset-sale adjustments come from the profit-and-loss items only, and calculated subtotals in the balance sheets have no influence.""",
  ["inputs"], "all opening/closing amounts of every account, alone and in combination, and all amounts of the profit-and-loss items used",
  "Only net cash flow of a few years of one company that uses about fifteen accounts is compared.",
  [ST], [("CASH_FLOW_BALANCE_SHEET", ST), ("CASH_FLOW_PROFIT_LOSS", ST), ("calc_cash_flow", ST)], observe=["CfMap of calc_cash_flow"])

p("S09", "Derived net cash flow equals the change in cash",
  """For any two balance sheets that balance, and any profit-and-loss statement, the recalculated net cash flow derived from them equals closing cash minus opening cash.
  More generally, for any two balance sheets it equals the change in cash minus the change in the balance check (assets - liabilities - equity).""",
  ["inputs", "histories"], "all pairs of balance sheets reachable by transactions, all profit-and-loss statements (asset sales, interest and dividends included)",
  "The only net cash flows compared are those of one company over three years; accounts it does not use could break articulation silently.",
  [ST], [("calc_cash_flow + calc_elements of CfMap", ST)], observe=["NetCashFlow", "Cash", "BalanceSheetCheck"])

p("S10", "Tax charge is the larger of income-based tax and minimum tax",
  """Calculating tax enters, for every period of the book, current taxes equal to the larger of (corporate rate x taxable profit + second rate x EBITDA) and
  (revenue rate x revenue), with that period's own rates and freshly calculated figures; taxable profit is profit before tax plus depreciation less tax depreciation when a tax depreciation is
  entered, and profit before tax otherwise. No other entered item of any period changes, whatever tax was entered before.""",
  ["inputs", "histories"], "all profit-and-loss amounts, rates and presence/absence of tax depreciation; all books of several periods",
  "calc_tax runs only in a test whose single assertion is approx(0,0).",
  [ST], [("Accounts::calc_tax", ST), ("depreciation_tax_adjust", ST)], observe=["TaxesCurrent"])

p("S11", "Interest tax shield is the tax saved by interest",
  """For non-negative interest and rates, the tax shield in a derived cash flow equals the tax due on profit before interest minus the tax due on profit after interest,
  where tax is the larger of (corporate rate x taxable profit + gross-profit rate x gross profit) and (revenue rate x revenue) and taxable profit is adjusted for tax depreciation when entered. It is therefore
  never negative and never more than the corporate rate times interest.""",
  ["inputs"], "all amounts of profit, interest, cost of debt, depreciation, tax depreciation, gross profit, revenue, and all rates",
  "No test looks at the tax shield; its three regimes (full, partial, none) need specific combinations.",
  [ST], [("calc_cash_flow", ST)], observe=["CashFlowTaxShield"])

p("S12", "A book of accounts evolves exactly as its per-period statements dictate",
  """For every sequence of book operations (putting items, setting tax rates, recalculating, deriving cash flows, calculating tax, stripping calculated items, collecting dates), each operation affects exactly the
  dates and periods and items it concerns and every reading afterwards agrees with a plain model of independent statements per date and period. A cash flow is derived exactly for the periods of the profit-and-loss
  whose opening and closing balance sheets both exist, from those two sheets and that period's figures and rates; other cash flows are left as they were.
  Tax rates set for a book hold for every profit-and-loss period and for no other.""",
  ["histories"], "all sequences of book operations up to a depth over several dates and periods, from empty, partial and full books",
  "The tests follow one fixed script on one data file.",
  [ST], [("Accounts::{put_*,get_*,calc_elements,calc_cash_flow,calc_tax,set_tax_rates,remove_calc_clean,set_dates_from_profit_loss,valid_date}", ST)], observe=["all get_* readings, all maps"])

p("S13", "Report-level and book-level recalculation agree",
  """For every book with tax rates, extracting a period's report and recalculating the report gives the same opening and closing balance sheets, profit-and-loss, cash flow and other figures as recalculating the book,
  deriving its cash flows and then extracting the report - in particular when a balance sheet or an entered cash flow is missing, no entered statement is lost.""",
  ["inputs", "histories"], "all books over a period with each statement present or absent and any amounts",
  "FinancialReport::calc_elements is never called by a test.",
  [ST], [("FinancialReport::calc_elements", ST), ("Accounts::{calc_elements,calc_cash_flow,get_account}", ST)], observe=["FinancialReport contents"])

p("S14", "Extracting reports and sub-books is a faithful projection",
  """Extracting a period's report, all reports, a sub-book for a set of periods, or the single statements of a report returns exactly the statements stored for those dates and periods, unchanged, present where stored
  and absent where not, and does not alter the book. Assembling a report from statements succeeds exactly when all given statements carry the dates of the profit-and-loss (opening sheet at its start, closing sheet at its end,
  cash flow and other figures over the same period), and taking a report apart and reassembling it gives the same report.""",
  ["inputs"], "all books over a few dates and periods with each statement present or absent; all combinations of matching and mismatching statement dates",
  "One absent balance sheet and one present one are read back; assembling and sub-books are never asserted.",
  [ST], [("Accounts::{get_account,to_financial_reports,from_periods}", ST), ("FinancialReport::{to_statements,from_statements}", ST)], observe=["returned structures"])

p("S15", "Period sequences are validated and split completely",
  """A sequence of periods is accepted exactly when every period starts no later than it ends and each starts on the day the previous one ended; the empty sequence is accepted. Splitting a book's periods
  puts every profit-and-loss period in exactly one of two sets: those of 120 days or more are annual, shorter ones quarterly.""",
  ["inputs"], "all sequences of periods over a few dates; all period lengths and start dates",
  "No test asserts on either function.",
  [ST], [("check_dates", ST), ("Accounts::{check_dates,split_periods}", ST)], observe=["returned bool / sets"])

p("S16", "Consecutive periods form the unbroken chain back from the latest end",
  """From any set of periods, the consecutive ones are the chain that starts at the latest end date and repeatedly steps back to the quarter (three months) ending there if the set contains it, otherwise to the year ending there
  if the set contains it, and stops at the first gap (chains of up to 100 periods). Steps hold for dates from the year 1000 on, keep the latest date's day of the month, shortened to the length of shorter months, or go from month end to month end, and it never fails for any
  calendar day; consecutive books contain exactly these periods.""",
  ["inputs"], "all sets of quarterly and annual periods around any latest end date (every day of the month, leap years included)",
  "consecutive_periods is only called, in a test without assertion, for periods that start on the 16th of March.",
  [ST], [("consecutive_periods", ST), ("Accounts::{consecutive_cash_flow,consecutive_profit_loss,from_periods}", ST)], observe=["returned set / book"])

p("S17", "Saved statements, reports and books load back unchanged",
  """Serialising any statement or report to JSON or RON, or any book or valuation model to RON, and reading it back gives an equal object: every item, amount, date, period, currency, flag and absent part is preserved. (JSON text reads amounts of seventeen digits back to the last place.) Items are stored under their own names,
  so a file naming any item loads as that item.""",
  ["inputs"], "all structures over all item types, currencies and industries, each part present or absent, amounts of any magnitude",
  "One report with five items is round-tripped and one file is loaded.",
  [ST, LIB, VA], [("serde derives on the public types", ST)], observe=["deserialised object"])

p("S18", "Rendered tables show every figure in the right row and column",
  """In the text table and CSV of a book, each statement section has one column per date or period in chronological order (annual and quarterly periods in separate sections), and each subtotal, and each item entering a subtotal, with a non-zero amount somewhere in its statement appears in
  its section with, in each column, its amount divided by the stated multiple rounded to whole units (a fraction between 0.01% and 100% as a percentage), while items that are zero everywhere do not appear. The CSV file holds the table with multiple 1.
  Displaying any book, empty ones included, never fails and states a positive finite multiple, a power of a thousand under which the largest total of assets or revenue (from 1 to 1e18) reads between 100,000 and 100,000,000.""",
  ["inputs"], "all books over a few dates and periods, all items, separators and multiples",
  "The table is printed but never asserted on.",
  [ST], [("Accounts::{format_table,to_csv}", ST), ("Display for Accounts", ST)], observe=["table text", "CSV file"])

p("S19", "Common-size statements preserve proportions",
  """A common-size statement contains exactly the items of the original, each equal to its amount divided by the base of its statement (assets, revenue or net cash flow, itself becoming 1), whenever that base is present and non-zero, for any amounts and signs;
  the original statement is not changed.""",
  ["inputs"], "all statements with a non-zero base",
  "No test calls it.",
  [ST], [("FinMaps::common_size", ST)], observe=["returned map"])

p("S20", "A book reports and accepts nothing for what it does not hold",
  """Reading or putting an item for a date or period for which the book has no such statement is refused with a panic and leaves the book as it was; where the statement exists, reading gives the stored amount of that date or period or zero when the item is absent,
  and putting an entered item changes that amount alone. A date is valid exactly when it is among the book's dates, and a period has a report exactly when it has a profit-and-loss. Collecting dates adds the start and the end of every profit-and-loss period to the dates already there,
  one-day periods included, and is refused when some period ends before it starts. Calculating tax or deriving a cash flow for a period without other figures, recalculating a report without other figures or profit-and-loss, and assembling one without a profit-and-loss are refused.""",
  ["inputs", "histories"], "all books with any statements present or absent, all dates and periods near and far, all items",
  "No test asks a book for anything it does not hold.",
  [ST], [("Accounts::{get_balance_sheet,get_profit_loss,get_cash_flow,put_balance_sheet,put_profit_loss,put_cash_flow,valid_date,get_account}", ST), ("Accounts::set_dates_from_profit_loss", ST), ("Accounts::{calc_tax,calc_cash_flow}, FinancialReport::{calc_elements,from_statements}", ST)], observe=["returned amount or panic", "book afterwards"])

p("B01", "Calendar arithmetic and date-float conversion are exact and invertible",
  """Leap years and year lengths follow the Gregorian calendar for every year. Converting a date to a decimal year is strictly increasing from day to day, stays within its year, advances by one year-length-th per day, and converting back
  returns the same date for every date, including the first and last day of every year, and the nearest date for a value less than half a day away.""",
  ["inputs"], "every calendar date",
  "Four years are tested for leapness; the inverse conversion is never called.",
  [LIB], [("is_leap_year, days_in_year", LIB), ("date_to_float, date_from_float", LIB)], observe=["returned values"])

p("B02", "Year fractions follow their day-count convention for every date pair",
  """For every ordered pair of dates, in either order, the year fraction equals that of its convention: actual days over 360 or 365; actual/actual with each elapsed day (start excluded, end included) over the length of the year it falls in;
  European 30/360 (day 31 becomes 30); US (NASD) 30/360 with its end-of-February and day-31 rules. The default fraction of a period is US 30/360, and the result is negative when the dates are reversed (with the conventions' own rules applied to the dates as given).""",
  ["inputs"], "all ordered pairs of dates x five conventions",
  "Seven date pairs are tested; the rules hinge on month ends, leap years and combinations of both dates.",
  [LIB], [("yearfrac, yrfrac", LIB)], observe=["returned fraction"])

p("B03", "Discounting and compounding of single amounts agree and invert",
  """For any rate above -100%, any period count (fractional, zero or negative), amount and compounding frequency, future value is the amount compounded at that rate and present value is its exact inverse; discount factors are the present value of 1, the forward discount factor is the ratio of two of them,
  m-fold compounding uses rate/m over m times as many periods, and continuous compounding is exponential. The dated forms equal the plain forms at the US 30/360 fraction of the period.""",
  ["inputs"], "all rates, period counts, frequencies, amounts and date pairs",
  "One or two values per function are tested.",
  [LIB], [("dis_fact*, xdis_fact, fwd_dis_fact, pv*, fv*, xpv, xfv", LIB)], observe=["returned values"])

p("B04", "Rate conversions are mutually inverse and keep the growth factor",
  """Converting a rate between nominal, effective and exponential form (any rate with a positive growth factor, any compounding frequency) keeps the one-period growth factor: (1+nominal/m)^m = 1+effective = e^exponential. Every conversion followed by its reverse, directly or through the third form, returns the original rate.""",
  ["inputs"], "all rates and compounding frequencies",
  "Five values are tested.",
  [LIB], [("nom_eff_rate, eff_nom_rate, exp_eff_rate, eff_exp_rate, nom_exp_rate, exp_nom_rate", LIB)], observe=["returned rates"])

p("B05", "Annuity value is the sum of its discounted payments; payment inverts it",
  """For any payment, terminal amount, number of periods and payments per period, the annuity value is minus the sum of all discounted payments and the discounted terminal amount, for every rate above -100% per payment interval, zero included. The payment function returns the payment that makes an annuity of the given value:
  a balance started at the present value, growing at the rate and receiving each payment, ends at minus the terminal amount.""",
  ["inputs"], "all rates (negative, zero, positive), terms, frequencies, payments and terminal amounts",
  "One value per function is tested.",
  [LIB], [("pv_annuity, pmt", LIB)], observe=["returned values"])

p("B06", "NPV is the sum of individually discounted cash flows",
  """For any list of times (any order, repeated, negative or fractional) and cash flows, net present value at time t0 equals the sum of each flow discounted from its time to t0 at the rate, for every rate above -100%; it is zero for no flows.
  The dated form equals the undated one with times measured as US 30/360 fractions from the valuation date.""",
  ["inputs"], "all cash-flow lists, rates and valuation times/dates",
  "One list per function is tested.",
  [LIB], [("npv_t0, npv, xnpv", LIB)], observe=["returned values"])

p("B07", "A reported internal rate of return is a genuine one",
  """Whenever an internal rate of return is reported for a cash-flow list, dated or not, it is above -100% and the net present value of the flows at that rate is zero (relative to the size of the discounted flows).
  No rate is reported for flows that are all of one sign.""",
  ["inputs"], "all cash-flow lists, conventional or not, over any times or dates",
  "Three lists are tested; spurious roots need particular shapes (losses over an even number of periods, several sign changes).",
  [LIB], [("irr, xirr, newt_raph", LIB)], observe=["returned Option"])

p("B08", "IRR finds the rate of every conventional investment",
  """For an outlay at time zero followed only by inflows (or the mirror image, a loan) at times up to 30 periods, whose rate of return lies between -50% and +100% per period (up to +2000% within ten periods), the internal rate of return is found, to within 1e-6 (of one plus the rate, above 100%), independently of the currency unit the flows are measured in (from thousandths to billions) and of the order in which the later
  flows are listed. The dated form finds the rate for the US 30/360 fractions counted from the first date.""",
  ["inputs"], "all conventional flow patterns, rates in [-50%,100%], horizons to 30 periods, rates to 2000% within 10 periods, scales",
  "Two conventional lists are tested.",
  [LIB], [("irr, xirr, newt_raph", LIB)], observe=["returned Option"])

p("B09", "The root finder returns only genuine roots",
  """Whenever the root finder returns a value for a polynomial, from any starting point, that value is a root of it (to the numerical tolerance); for functions without a real root it returns nothing. For every linear function whose slope the library does not count as zero (1e-8), roots up to ten million in size, it returns the root, and for a quadratic with two distinct real
  roots started outside the interval between them it returns the nearer root.""",
  ["inputs"], "all small-coefficient polynomials up to degree 3 and starting points",
  "Three functions are tested.",
  [LIB], [("newt_raph", LIB)], observe=["returned Option"])

p("B10", "Results do not depend on what was called before",
  """Every calculation gives the same result whatever calculations were made before it in the same process, in whatever order, including which of them first initialised the library's internal tables, and calling it does not alter its inputs unless it is an updating operation.""",
  ["histories"], "all call sequences up to a depth over an alphabet covering every public calculation with colliding arguments",
  "Tests run each calculation once in an arbitrary fixed order per thread.",
  [LIB, ST, BO, RA, MM], [("lazily built tables", ST), ("pure functions", LIB)], observe=["results of each call"])

p("B11", "Approximate equality is a symmetric relative comparison",
  """Two numbers are approximately equal exactly when both are below 1e-8 in size or they differ by less than one millionth of the larger in size; the relation is symmetric, reflexive for finite numbers and insensitive to the sign of both, and a number counts as zero exactly when it is below 1e-8 in size.""",
  ["inputs"], "all pairs of finite numbers",
  "One pair is tested; all other tests trust it.",
  [LIB], [("approx, is_zero", LIB)], observe=["returned bool"])

p("F01", "Bond price is the present value of its cash flows",
  """The cash flows of a coupon bond whose life is a whole number of coupon periods are one coupon (par x rate / frequency) per period with par added to the last, for every usual payment frequency from annual to daily. Its price at any rate (negative, zero or positive) is those flows discounted at the nominal rate, so it equals par when the rate equals the coupon rate;
  its price on a rate curve is each flow discounted by the curve at its own time, so a flat nominal curve of the bond's frequency gives the same price as the flat rate.""",
  ["inputs"], "all coupons, par values, frequencies, lives, rates and rate curves",
  "Two prices of one bond are tested.",
  [BO, RA], [("CouponBond::{price,price_ratecurve,generate_cashflow}", BO)], observe=["returned values"])

p("F02", "Yield to maturity inverts price",
  """For every coupon bond (par of 1 or more, coupon 0 to 20%, up to 40 years, any usual frequency up to monthly) and every nominal yield from -4% to 50%, the yield to maturity of the price at that yield is found and equals it to within 1e-6.""",
  ["inputs"], "all bonds and yields in the stated domain",
  "Two prices of one bond are tested.",
  [BO], [("CouponBond::ytm", BO), ("newt_raph", LIB)], observe=["returned value"])

p("F03", "Full price, flat price and accrued interest reconcile",
  """For a purchase any fraction of time into the coupon period, the full price is the price compounded over that time at the rate, the accrued interest is the coupon earned over that time (par x coupon rate x time), and full price minus flat price is exactly the accrued interest; at time zero all three prices coincide.""",
  ["inputs"], "all bonds, rates and elapsed times",
  "One purchase is tested.",
  [BO], [("CouponBond::{accrued_interest,pv_full,pv_flat}", BO)], observe=["returned values"])

p("F04", "Floating-rate note price and discount margin are consistent",
  """A floating-rate note's price is its coupons at index plus quoted margin and par, discounted at index plus discount margin, so it equals par when the two margins are equal; the discount margin of the price at a margin (from -2% to 20%, index 0 to 15%, coupons not negative, up to 30 years) is found and equals it to within 1e-6.""",
  ["inputs"], "all notes, index rates and margins in the stated domain",
  "One price and one margin are tested.",
  [BO], [("FloatingRateNotes::{price,discount_margin}", BO)], observe=["returned values"])

p("F05", "Rate curves interpolate linearly and discount by their convention",
  """A rate curve returns at each of its points that point's rate and between neighbouring points the linear interpolation, for each convention, frequency and curve length; asked for a time before its first or beyond its last point it refuses rather than answer. The present value of a flow on a curve is the flow discounted at that rate by the curve's own convention
  (nominal with the curve's compounding frequency, effective, or exponential).""",
  ["inputs"], "all curves, frequencies, conventions and times",
  "Two interpolations on one curve are tested.",
  [RA], [("RateCurve::{rate_estim,pv}, Rates::rate_estim", RA)], observe=["returned values"])

p("F06", "Changing a curve's convention does not change present values",
  """Converting a rate curve between nominal, effective and exponential convention keeps its length and frequency and the present value of any flow at each of the curve's points; any chain of conversions that returns to the original convention returns the original rates, and converting to the convention it already has changes nothing.""",
  ["inputs", "histories"], "all curves, all chains of conversions",
  "One curve and four chains are tested.",
  [RA], [("RateCurve::{to_nominal,to_effective,to_exponential}", RA)], observe=["converted curve", "pv"])

p("F07", "Par and spot curves price par bonds at par and invert each other",
  """Spot rates bootstrapped from a par curve discount a bond paying each par rate over its term exactly to par, par rates computed from a spot curve are the coupons that do so, and converting par to spot to par or spot to par to spot returns the original curve with its frequency, for every curve length.""",
  ["inputs"], "all par and spot curves with positive discount factors, all lengths and frequencies",
  "One six-point curve is tested.",
  [RA], [("Rates::{to_spot,to_par}", RA)], observe=["converted curve"])

p("F08", "Forward rates admit no arbitrage",
  """Investing at the spot rate to the start of a forward period and then at the forward rate over its tenor gives the same growth as investing at the spot rate to the end, for every spot curve, forward start and tenor on the curve, interpolated times included; chained forward rates compound to the long spot rate and on a flat curve every forward rate is the flat rate.""",
  ["inputs"], "all spot curves, forward starts and tenors",
  "One forward rate is tested.",
  [RA], [("Rates::forward_rate", RA)], observe=["returned value"])

p("F09", "Money-market yields are consistent with each other",
  """The discount of a treasury bill computed from its discount yield recovers face value less price; holding-period yield plus one is the ratio of end value plus income to price; money-market yield is that yield annualised simply over 360 days and effective annual yield is it compounded over 365 days, for all positive prices and terms.""",
  ["inputs"], "all prices, face values, incomes and terms",
  "One value per function is tested.",
  [MM], [("t_bill_r, t_bill_d, holding_per_yield, eff_ann_yield, money_mkt_yield", MM)], observe=["returned values"])

p("F10", "Time-weighted return chains sub-period growth",
  """The time-weighted rate of return compounded over its n periods equals the product over sub-periods of ending value divided by starting value plus inflow, for any number of sub-periods and any flows leaving positive values, and the default n is the number of sub-periods. It does not depend on the currency unit, and an inflow valued fairly leaves the return unchanged.""",
  ["inputs"], "all sequences of valuations and flows",
  "Two sequences are tested.",
  [MM], [("twrr, twrr_n", MM)], observe=["returned values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
