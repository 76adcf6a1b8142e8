//! Single statements: totals, ledger, transactions, derived cash flow, tax shield, common size.
use crate::engine::*;
use crate::ensure;
use crate::refm::*;
use financelib::statements::BsType::{self, *};
use financelib::statements::CfType::{self, *};
use financelib::statements::PlType::{self, *};
use financelib::statements::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hasher;
use std::sync::Arc;

pub const AMTS: [f64; 32] = [
    1.0, -1.0, 0.0, 100.25, -37.5, 1e-6, -1e-6, 9e-6, -9e-6, 1.1e-5, -1.1e-5, 5e-5, -5e-5, 1e-4, -1e-4, 1e-3, 0.01, 0.5, -0.5, 7.0, 999.99, -12345.678, 1e6, -2.5e9, 1e12, -1e12, 1e15, -3e15, 1e18, 1e-9, 0.0100001, -2e4,
];
/// Values that are no amounts, or barely.
pub const ODD: [f64; 7] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0];
const FEW: [f64; 8] = [1.0, -1.0, 50.0, -7.25, 1e9, -3e12, 0.0, 1e-6];

/// Amounts of every size: 16 mantissas and signs in each decade from 1e-12 to 1e18, away from 1e-5 itself.
pub fn sizes() -> Vec<f64> {
    let mut v = vec![];
    for e in -12..=18 {
        for m in [1.0, 1.25, 1.0 / 0.7, 2.0, 3.33, 4.999, 7.77, 9.9999] {
            let x = m * 10f64.powi(e);
            if (x - 1e-5).abs() > 1e-12 {
                v.push(x);
                v.push(-x);
                // the same with a fraction, cents and all
                if e >= 0 {
                    v.push(x.trunc() + 1.0 / 3.0);
                    v.push(-x.trunc() - 0.01);
                }
            }
        }
    }
    v
}
/// Stale values put into the subtotals before recalculation.
fn stale<Q: Kind>(m: &mut Q::M, mode: usize) {
    if mode == 0 {
        return;
    }
    for (i, c) in Q::calcs().into_iter().enumerate() {
        let v = match mode {
            1 => 777.0 + i as f64 * 13.0,
            2 => 0.0,
            3 => -1e13 * (i + 1) as f64,
            4 => 3e-6,
            _ => f64::NAN,
        };
        Q::raw_set(m, c, v);
    }
}
fn dense<Q: Kind>(leaves: &[Q::K], scale: f64) -> Vec<(Q::K, f64)> {
    leaves.iter().enumerate().map(|(i, &k)| (k, scale * (100.0 + 7.25 * i as f64))).collect()
}
/// Recalculate and judge totals, entered items and idempotence.
fn judge_calc<Q: Kind>(ch: &Chart<Q>, m: &Q::M, cx: &mut Cx) -> R {
    let mut g = m.clone();
    g.calc_elements();
    cx.state();
    cx.step();
    cx.trace();
    ch.check(m, &g)?;
    for (i, &l) in ch.leaves.iter().enumerate() {
        let (a, b) = (Q::has(m, l), Q::has(&g, l));
        ensure!(m.value(l).to_bits() == g.value(l).to_bits() && (a == b || m.value(l) == 0.0), "recalculating changed the entered {:?} from {} to {} (item {i})", l, m.value(l), g.value(l));
    }
    let mut h = 0u64;
    for &c in &ch.calcs {
        h = h.rotate_left(9) ^ g.value(c).to_bits();
    }
    cx.out(h);
    Ok(())
}

fn totals_prop<Q: Kind>(id: &'static str, thorough: bool) -> Prop {
    let mk = || Arc::new(Chart::<Q>::new());
    let n = mk().leaves.len();
    let mut tasks = vec![];
    let ch = mk();
    tasks.push(fam("singles", &format!("{n} entered items x 32 amounts x 6 stale patterns of the subtotals (none, garbage, zero, huge, tiny, NaN)"), n * AMTS.len() * 6, move |i, cx| {
        let mut d = Dec(i);
        let (&l, &v, mode) = (d.of(&ch.leaves), d.of(&AMTS), d.n(6));
        let mut m = Q::map(&[(l, v)]);
        stale::<Q>(&mut m, mode);
        judge_calc(&ch, &m, cx)?;
        cx.sample(|| format!("{l:?} = {v}, stale pattern {mode}"));
        Ok(())
    }));
    let ch = mk();
    let s1 = sizes();
    tasks.push(fam("amounts", &format!("{n} entered items x {} amounts (16 mantissas of both signs, 1e-12 to 1e18), alone and beside a third of a neighbour's", s1.len()), n * s1.len(), move |i, cx| {
        let mut d = Dec(i);
        let (l, &v) = (d.n(n), d.of(&s1));
        judge_calc(&ch, &Q::map(&[(ch.leaves[l], v)]), cx)?;
        judge_calc(&ch, &Q::map(&[(ch.leaves[l], v), (ch.leaves[(l + 1) % n], 1.0 / 3.0)]), cx)?;
        judge_calc(&ch, &Q::map(&[(ch.leaves[l], v), (ch.leaves[(l + 9) % n], -v / 3.0)]), cx)?;
        cx.sample(|| format!("{:?} = {v}", ch.leaves[l]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("cancelling", "all pairs of entered items x amounts 10^0 to 10^15 that cancel up to a remainder of 10^-3 to 10^12, equal or opposite signs", n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return Ok(());
        }
        for p in [0, 2, 4, 6, 8, 9, 10, 12, 15] {
            let x = 1.25 * 10f64.powi(p);
            for j in -3..12 {
                let r = 10f64.powi(j);
                if r > x || r < x * 1e-15 {
                    continue;
                }
                for s in [1.0, -1.0] {
                    judge_calc(&ch, &Q::map(&[(ch.leaves[a], x + r), (ch.leaves[b], s * x)]), cx)?;
                }
            }
        }
        cx.sample(|| format!("{:?}, {:?}", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("pairs", &format!("all pairs of entered items x 8x8 amounts x 2 stale patterns"), n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return Ok(());
        }
        for &x in &FEW {
            for &y in &FEW {
                for mode in [0, 1] {
                    let mut m = Q::map(&[(ch.leaves[a], x), (ch.leaves[b], y)]);
                    stale::<Q>(&mut m, mode);
                    judge_calc(&ch, &m, cx)?;
                }
            }
        }
        cx.sample(|| format!("{:?}, {:?}", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("triples", "all triples of entered items x 10 amount patterns (every combination of signs among them)", n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return Ok(());
        }
        for c in b + 1..n {
            for v in [[5.0, 11.0, 23.0], [-5.0, 11.0, -23.0], [1e6, -1e6, 1.0], [-2.0, -3.0, -4.5], [-5.0, 11.0, 23.0], [5.0, -11.0, 23.0], [5.0, 11.0, -23.0], [-5.0, -11.0, 23.0], [5.0, -11.0, -23.0], [1.0, -1.0, -1e7]] {
                let m = Q::map(&[(ch.leaves[a], v[0]), (ch.leaves[b], v[1]), (ch.leaves[c], v[2])]);
                judge_calc(&ch, &m, cx)?;
            }
        }
        cx.sample(|| format!("{:?}, {:?} and every later item", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    let ch = mk();
    let pert = [0.0, -50.0, 1e9, 3.0];
    tasks.push(fam("dense", "full statements at 3 scales with up to two items removed, zeroed, negated or enlarged, 2 stale patterns", n * n * 3, move |i, cx| {
        let mut d = Dec(i);
        let (a, b, s) = (d.n(n), d.n(n), d.n(3));
        if a > b {
            return Ok(());
        }
        let scale = [1.0, 1e9, -1.0][s];
        for (pi, &p) in pert.iter().enumerate() {
            for remove in [false, true] {
                let mut it = dense::<Q>(&ch.leaves, scale);
                it[a].1 = p * scale;
                it[b].1 = -2.0 * p * scale;
                if remove {
                    if pi > 0 {
                        continue;
                    }
                    it.remove(b);
                    if a != b {
                        it.remove(a);
                    }
                }
                let mut m = Q::map(&it);
                stale::<Q>(&mut m, pi % 2);
                judge_calc(&ch, &m, cx)?;
            }
        }
        cx.sample(|| format!("full statement, scale {scale}, {:?} and {:?} varied", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("windows", "every cyclic window of the list of entered items (every start, every length), alternating signs or not", n * n, move |i, cx| {
        let (st, len) = (i as usize / n, i as usize % n + 1);
        for alt in [false, true] {
            let it: Vec<_> = (0..len).map(|j| (ch.leaves[(st + j) % n], if alt && j % 2 == 1 { -1.0 } else { 1.0 } * (13.0 + j as f64 * 3.5))).collect();
            judge_calc(&ch, &Q::map(&it), cx)?;
        }
        cx.sample(|| format!("{len} items from {:?}", ch.leaves[st]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("quadruples", "all quadruples of entered items x 2 amount patterns", n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return Ok(());
        }
        for c in b + 1..n {
            for e in c + 1..n {
                for v in [[5.0, 11.0, 23.0, 47.0], [-5.0, 1e6, -23.0, 0.25]] {
                    let m = Q::map(&[(ch.leaves[a], v[0]), (ch.leaves[b], v[1]), (ch.leaves[c], v[2]), (ch.leaves[e], v[3])]);
                    judge_calc(&ch, &m, cx)?;
                }
            }
        }
        cx.sample(|| format!("{:?}, {:?} and every later pair", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    let ch = mk();
    tasks.push(fam("three-missing", "full statements with every triple of entered items missing, zero or negative", n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a >= b {
            return Ok(());
        }
        let full = dense::<Q>(&ch.leaves, 1.0);
        for c in b + 1..n {
            for way in 0..3 {
                let mut it = full.clone();
                for q in [c, b, a] {
                    match way {
                        0 => { it.remove(q); }
                        1 => it[q].1 = 0.0,
                        _ => it[q].1 *= -2.0,
                    }
                }
                judge_calc(&ch, &Q::map(&it), cx)?;
            }
        }
        cx.sample(|| format!("all but {:?}, {:?} and every later item", ch.leaves[a], ch.leaves[b]));
        Ok(())
    }));
    if thorough {
        let ch = mk();
        tasks.push(fam("quintuples", "all quintuples of entered items x 2 amount patterns", n * n, move |i, cx| {
            let (a, b) = (i as usize / n, i as usize % n);
            if a >= b {
                return Ok(());
            }
            for c in b + 1..n {
                for e in c + 1..n {
                    for f in e + 1..n {
                        for v in [[5.0, 11.0, 23.0, 47.0, 95.0], [-5.0, 1e6, -23.0, 0.25, -1e5]] {
                            let m = Q::map(&[(ch.leaves[a], v[0]), (ch.leaves[b], v[1]), (ch.leaves[c], v[2]), (ch.leaves[e], v[3]), (ch.leaves[f], v[4])]);
                            judge_calc(&ch, &m, cx)?;
                        }
                    }
                }
            }
            cx.sample(|| format!("{:?}, {:?} and every later triple", ch.leaves[a], ch.leaves[b]));
            Ok(())
        }));
    }
    Prop { id, assumptions: vec!["when an amount below 1e-3 is combined with others, a total may differ by the at most 1e-5 that each intermediate total near zero loses by reading as zero"], tasks }
}
pub fn s02(t: bool) -> Prop {
    totals_prop::<BsK>("S02", t)
}
pub fn s03(t: bool) -> Prop {
    totals_prop::<PlK>("S03", t)
}
pub fn s04(t: bool) -> Prop {
    totals_prop::<CfK>("S04", t)
}

// ---------------------------------------------------------------- S05, S07: histories of one statement
#[derive(Clone, Copy, PartialEq)]
enum Goal {
    Recalc,
    Ledger,
}
struct Stmt<Q: Kind> {
    ch: Chart<Q>,
    goal: Goal,
    width: usize,
    names: Vec<String>,
}
struct StmtState<Q: Kind> {
    /// first leaf of the window of leaves the history operates on
    win: usize,
    real: Q::M,
    /// model: entered amounts and whether the item is stored, and the stored subtotals
    ent: BTreeMap<Q::K, f64>,
    sub: BTreeMap<Q::K, f64>,
}
impl<Q: Kind> Clone for StmtState<Q> {
    fn clone(&self) -> Self {
        StmtState { win: self.win, real: self.real.clone(), ent: self.ent.clone(), sub: self.sub.clone() }
    }
}
const BFS_VALS: [f64; 6] = [40.0, -15.5, 0.0, 2e-6, -8e-6, 2e-4];
impl<Q: Kind> Stmt<Q> {
    fn new(goal: Goal, width: usize) -> Self {
        let mut names = vec![];
        for l in 0..width {
            for v in BFS_VALS {
                names.push(format!("upsert(leaf{l},{v})"));
            }
            for v in [25.0, -15.5, 4e-6] {
                names.push(format!("add(leaf{l},{v})"));
            }
        }
        names.push("upsert_vec[(0,5),(1,6),(0,7)]".into());
        names.push("add_vec[(0,5),(1,6),(0,7.5)]".into());
        names.push("calc_elements".into());
        names.push("clean".into());
        names.push("remove_calc_clean".into());
        names.push("garbage subtotals 1".into());
        names.push("garbage subtotals 2".into());
        Stmt { ch: Chart::new(), goal, width, names }
    }
    fn judge(&self, s: &StmtState<Q>, cx: &mut Cx) -> R {
        // every reading agrees with the model
        for &l in &self.ch.leaves {
            let (g, w) = (s.real.value(l), s.ent.get(&l).copied().unwrap_or(0.0));
            ensure!(close(g, w, 100.0, 1e-13), "{:?} reads {g}, the ledger model has {w}", l);
            ensure!(Q::has(&s.real, l) || w == 0.0, "{:?} = {w} was dropped", l);
        }
        for (k, _) in Q::items(&s.real) {
            ensure!(self.ch.index.contains_key(&k) || s.sub.contains_key(&k) || s.real.value(k).abs() < 6e-5, "{k:?} appeared");
        }
        for &c in &self.ch.calcs {
            let (g, w) = (s.real.value(c), s.sub.get(&c).copied().unwrap_or(0.0));
            ensure!(close(g, w, 1000.0, 1e-12) || (g - w).abs() < 6e-5, "subtotal {:?} reads {g}, expected {w}", c);
        }
        if self.goal == Goal::Recalc {
            let mut a = s.real.clone();
            a.calc_elements();
            cx.steps(4);
            self.ch.check(&s.real, &a)?;
            let mut b = a.clone();
            b.calc_elements();
            ensure!(self.same(&a, &b, 1e-13), "recalculating twice differs from once: {:?} then {:?}", Q::items(&a), Q::items(&b));
            let mut c = a.clone();
            c.remove_calc_clean();
            for &k in &self.ch.calcs {
                ensure!(!Q::has(&c, k), "{:?} survives the removal of calculated items", k);
            }
            c.calc_elements();
            ensure!(self.same(&a, &c, if self.tiny(s) { 1e-4 } else { 1e-13 }), "stripping and recalculating gives {:?}, was {:?}", Q::items(&c), Q::items(&a));
        }
        Ok(())
    }
    fn tiny(&self, s: &StmtState<Q>) -> bool {
        s.ent.values().any(|v| *v != 0.0 && v.abs() < 1e-3)
    }
    fn same(&self, a: &Q::M, b: &Q::M, tol: f64) -> bool {
        self.ch.leaves.iter().chain(&self.ch.calcs).all(|&k| (a.value(k) - b.value(k)).abs() <= tol * (1.0 + a.value(k).abs()))
    }
    fn model_calc(&self, s: &mut StmtState<Q>) {
        let items: Vec<_> = s.ent.iter().map(|(k, v)| (*k, *v)).collect();
        let (t, _) = self.ch.totals(&Q::map(&items));
        s.sub.clear();
        for (i, &c) in self.ch.calcs.iter().enumerate() {
            if t[i].abs() > 1e-5 {
                s.sub.insert(c, t[i]);
            }
        }
    }
}
impl<Q: Kind> Sys for Stmt<Q> {
    type S = StmtState<Q>;
    fn init(&self) -> Vec<Self::S> {
        let n = self.ch.leaves.len();
        let mut v = vec![];
        for win in 0..n {
            for pre in 0..2 {
                let mut real = Q::map(&[]);
                let mut ent = BTreeMap::new();
                let mut sub = BTreeMap::new();
                if pre == 1 {
                    // an unrelated entered item, an unrelated tiny one, and stale subtotals
                    let (o, t) = (self.ch.leaves[(win + self.width + 2) % n], self.ch.leaves[(win + self.width + 5) % n]);
                    for (k, x) in [(o, 300.0), (t, 7e-6)] {
                        Q::raw_set(&mut real, k, x);
                        ent.insert(k, x);
                    }
                    for (i, &c) in self.ch.calcs.iter().enumerate() {
                        Q::raw_set(&mut real, c, 50.0 + i as f64);
                        sub.insert(c, 50.0 + i as f64);
                    }
                }
                v.push(StmtState { win, real, ent, sub });
            }
        }
        v
    }
    fn nops(&self) -> usize {
        self.names.len()
    }
    fn op_name(&self, op: usize) -> String {
        self.names[op].clone()
    }
    fn step(&self, s0: &Self::S, op: usize, cx: &mut Cx) -> Result<Option<Self::S>, String> {
        let mut s = s0.clone();
        let n = self.ch.leaves.len();
        let leaf = |i: usize| self.ch.leaves[(s0.win + i) % n];
        let per = BFS_VALS.len() + 3;
        let base = self.width * per;
        cx.step();
        if op < base {
            let (l, j) = (leaf(op / per), op % per);
            if j < BFS_VALS.len() {
                s.real.upsert(l, BFS_VALS[j]);
                s.ent.insert(l, BFS_VALS[j]);
            } else {
                let v = [25.0, -15.5, 4e-6][j - BFS_VALS.len()];
                s.real.add(l, v);
                *s.ent.entry(l).or_insert(0.0) += v;
            }
        } else {
            let (a, b) = (leaf(0), leaf(1 % self.width));
            match op - base {
                0 => {
                    s.real.upsert_vec(&vec![(a, 5.0), (b, 6.0), (a, 7.0)]);
                    s.ent.insert(b, 6.0);
                    s.ent.insert(a, 7.0);
                }
                1 => {
                    s.real.add_vec(&vec![(a, 5.0), (b, 6.0), (a, 7.5)]);
                    *s.ent.entry(a).or_insert(0.0) += 12.5;
                    *s.ent.entry(b).or_insert(0.0) += 6.0;
                }
                2 => {
                    s.real.calc_elements();
                    self.model_calc(&mut s);
                }
                3 => {
                    s.real.clean();
                    s.ent.retain(|_, v| v.abs() > 1e-5);
                    s.sub.retain(|_, v| v.abs() > 1e-5);
                    // cleaning removes exactly the small amounts
                    for (k, v) in Q::items(&s.real) {
                        ensure!(v.abs() > 1e-5, "{k:?} = {v} survives cleaning");
                    }
                }
                4 => {
                    s.real.remove_calc_clean();
                    s.ent.retain(|_, v| v.abs() > 1e-5);
                    s.sub.clear();
                    for (k, v) in Q::items(&s.real) {
                        ensure!(v.abs() > 1e-5 && self.ch.index.contains_key(&k), "{k:?} = {v} survives the removal of calculated items");
                    }
                }
                g => {
                    for (i, &c) in self.ch.calcs.iter().enumerate() {
                        let v = if g == 5 { 1e6 * (i as f64 + 1.0) } else { -3e-6 };
                        Q::raw_set(&mut s.real, c, v);
                        s.sub.insert(c, v);
                    }
                }
            }
        }
        self.judge(&s, cx)?;
        cx.sample(|| format!("{}: window at {:?}: {} -> {:?}", Q::NAME, leaf(0), self.names[op], Q::items(&s.real)));
        Ok(Some(s))
    }
    fn key(&self, s: &Self::S, h: &mut dyn Hasher) {
        h.write_usize(s.win);
        for (k, v) in Q::items(&s.real) {
            h.write(format!("{k:?}").as_bytes());
            h.write_u64(v.to_bits());
        }
    }
}
fn history_tasks(goal: Goal, thorough: bool) -> Vec<Task> {
    let depth = if thorough { 4 } else { 3 };
    let what = format!("explicit-state search from 2 initial statements per item (empty; unrelated items and stale subtotals), the window of 2 neighbouring items sliding over the whole chart; 27 operations (6 upserts and 3 additions per item, vector forms, recalculation, cleaning, stripping, overwriting all subtotals with garbage), depth {depth}");
    vec![
        bfs("balance-sheet-histories", &what, depth, Stmt::<BsK>::new(goal, 2)),
        bfs("profit-loss-histories", &what, depth, Stmt::<PlK>::new(goal, 2)),
        bfs("cash-flow-histories", &what, depth, Stmt::<CfK>::new(goal, 2)),
    ]
}
pub fn s05(t: bool) -> Prop {
    Prop { id: "S05", assumptions: vec!["the removal of calculated items also drops entered amounts within 1e-5 of zero, so totals may then move by that much"], tasks: history_tasks(Goal::Recalc, t) }
}

fn ledger_singles<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    fam(&format!("{}-items", Q::NAME.replace(' ', "-")), "every item x 32x32 amounts: insert, add, update and vector forms; cleaning keeps and drops by size, on items and subtotals", n, move |i, cx| {
        let k = ch.leaves[i as usize];
        let other = ch.leaves[(i as usize + 1) % n];
        let third = ch.leaves[(i as usize + 2) % n];
        for &a in &AMTS {
            for &b in &AMTS {
                let mut m = Q::map(&[(third, 17.0)]);
                let tol = 1e-15 * (a.abs() + b.abs());
                m.add(k, a);
                ensure!(m.value(k) == a, "adding {a} to a missing {k:?} gives {}", m.value(k));
                m.add(k, b);
                ensure!((m.value(k) - (a + b)).abs() <= tol, "adding {a} then {b} to {k:?} gives {}", m.value(k));
                m.upsert(k, b);
                ensure!(m.value(k) == b, "updating {k:?} to {b} gives {}", m.value(k));
                m.upsert(k, a);
                ensure!(m.value(k) == a, "updating {k:?} to {a} gives {}", m.value(k));
                m.upsert_vec(&vec![(k, a), (other, 3.0), (k, b)]);
                ensure!(m.value(k) == b && m.value(other) == 3.0, "upsert_vec of {k:?} {a}, {b} gives {}", m.value(k));
                m.add_vec(&vec![(other, b), (k, a)]);
                ensure!((m.value(k) - (a + b)).abs() <= tol && (m.value(other) - (3.0 + b)).abs() <= 1e-15 * (3.0 + b.abs()), "add_vec of {k:?} {a} to {b} gives {}", m.value(k));
                m.upsert_vec(&vec![]);
                m.add_vec(&vec![]);
                ensure!(m.value(third) == 17.0, "{third:?} changed to {}", m.value(third));
                ensure!(Q::items(&m).len() == 3, "unexpected items {:?}", Q::items(&m));
                cx.state();
                cx.steps(8);
                cx.trace();
                cx.outf(m.value(k));
                // cleaning
                for strip in [false, true] {
                    let mut m = Q::map(&[(k, a), (other, b), (third, 17.0)]);
                    for (j, &c) in ch.calcs.iter().enumerate() {
                        Q::raw_set(&mut m, c, if j % 2 == 0 { a } else { b });
                    }
                    let before = m.clone();
                    if strip { m.remove_calc_clean() } else { m.clean() };
                    cx.step();
                    for &x in ch.leaves.iter().chain(&ch.calcs) {
                        let keep = before.value(x).abs() > 1e-5 && !(strip && ch.calcs.contains(&x));
                        ensure!(Q::has(&m, x) == keep && m.value(x) == if keep { before.value(x) } else { 0.0 }, "after cleaning (calculated items removed: {strip}) {x:?} = {} (stored: {}), was {}", m.value(x), Q::has(&m, x), before.value(x));
                    }
                }
            }
        }
        cx.sample(|| format!("{k:?} with all pairs of amounts"));
        Ok(())
    })
}
fn ledger_sizes<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    let sz = sizes();
    fam(&format!("{}-amounts", Q::NAME.replace(' ', "-")), &format!("every item x {} amounts on top of nothing, 0, a third, the same, the opposite, a millionfold, 1e9, 1e12, 1e-8 and 1e-12 times it: additions, updates, vector forms", sz.len()), n * sz.len(), move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(n), d.of(&sz));
        let (k, o) = (ch.leaves[q], ch.leaves[(q + 3) % n]);
        for start in [None, Some(0.0), Some(1.0 / 3.0), Some(v), Some(-v), Some(v * 1e6 + 0.1), Some(v / 3.0), Some(v * -1e9), Some(v * 1e12), Some(v * 1e-8), Some(v * -1e-12)] {
            let mut base = Q::map(&[(o, 17.25)]);
            if let Some(x) = start {
                Q::raw_set(&mut base, k, x);
            }
            let b = start.unwrap_or(0.0);
            let mut m = [base.clone(), base.clone(), base.clone(), base.clone()];
            m[0].add(k, v);
            m[1].add_vec(&vec![(k, v)]);
            m[2].upsert(k, v);
            m[3].upsert_vec(&vec![(k, v)]);
            for (w, m) in m.iter().enumerate() {
                let want = if w < 2 { b + v } else { v };
                ensure!(m.value(k) == want, "{} of {v} on {k:?} = {start:?} gives {}", ["add", "add_vec", "upsert", "upsert_vec"][w], m.value(k));
                ensure!(m.value(o) == 17.25 && Q::items(m).len() == 2, "{o:?} changed or an item appeared: {:?}", Q::items(m));
            }
            let mut m = base.clone();
            m.add(k, v).add(k, -v);
            ensure!((m.value(k) - b).abs() <= 4.6e-16 * (b.abs() + v.abs()), "adding {v} and taking it off {k:?} = {b} leaves {}", m.value(k));
            let mut m = Q::map(&[(k, v)]);
            m.clean();
            ensure!(Q::has(&m, k) == (v.abs() > 1e-5), "cleaning {k:?} = {v}: kept {}", Q::has(&m, k));
            cx.state();
            cx.steps(7);
            cx.trace();
            cx.outf(v + b);
        }
        cx.sample(|| format!("{k:?} {v}"));
        Ok(())
    })
}
/// Vectors of every length over one, two, seven or all items, on statements empty, filled and recalculated, against the entries written one by one.
fn ledger_vectors<Q: Kind>(t: bool) -> Task {
    let ch = Chart::<Q>::new();
    let nl = ch.leaves.len();
    let lens: Vec<usize> = (0..=if t { 600 } else { 150 }).chain([199, 200, 201, 255, 256, 257, 299, 300, 365, 499, 500, 501, 512, 513, 999, 1000, 1001, 1024, 1025, 5000, 10001]).collect();
    let ll = lens.len();
    fam(&format!("{}-vectors", Q::NAME.replace(' ', "-")), &format!("vectors of {ll} lengths up to 10001 over 1, 2, 7 and all items x 3 starting statements x add_vec/upsert_vec against a plain ledger"), ll * 4 * 3, move |i, cx| {
        let mut d = Dec(i);
        let (&len, span, start) = (d.of(&lens), [1, 2, 7, nl][d.n(4)], d.n(3));
        let mut base = match start {
            0 => Q::map(&[]),
            _ => Q::map(&dense::<Q>(&ch.leaves, 1.0)),
        };
        if start == 2 {
            base.calc_elements();
        }
        let x: Vec<(Q::K, f64)> = (0..len).map(|j| (ch.leaves[j * 5 % span], (j % 11) as f64 * 0.5 - 1.75 + (j % 64) as f64)).collect();
        for up in [false, true] {
            let mut m = base.clone();
            if up { m.upsert_vec(&x); } else { m.add_vec(&x); }
            let mut w: HashMap<Q::K, f64> = Q::items(&base).into_iter().collect();
            for (k, v) in &x {
                let e = w.entry(*k).or_insert(0.0);
                *e = if up { *v } else { *e + v };
            }
            cx.state();
            cx.steps(len as u64 + 1);
            cx.trace();
            for (k, v) in Q::items(&m) {
                let want = w.remove(&k);
                ensure!(want.is_some_and(|w| close(v, w, 1e-9, 1e-13)), "{} of {len} entries over {span} items: {k:?} = {v}, expected {want:?}", ["add_vec", "upsert_vec"][up as usize]);
                cx.outf(v);
            }
            w.retain(|_, v| v.abs() > 1e-9);
            ensure!(w.is_empty(), "{} of {len} entries over {span} items: {w:?} missing", ["add_vec", "upsert_vec"][up as usize]);
        }
        cx.sample(|| format!("{len} entries over {span} items"));
        Ok(())
    })
}
pub fn s07(t: bool) -> Prop {
    let mut tasks = vec![ledger_singles::<BsK>(), ledger_singles::<PlK>(), ledger_singles::<CfK>(), ledger_sizes::<BsK>(), ledger_sizes::<PlK>(), ledger_sizes::<CfK>()];
    tasks.extend([ledger_vectors::<BsK>(t), ledger_vectors::<PlK>(t), ledger_vectors::<CfK>(t)]);
    tasks.extend(history_tasks(Goal::Ledger, t));
    Prop { id: "S07", assumptions: vec!["amounts of exactly 1e-5 are not exercised"], tasks }
}

// ---------------------------------------------------------------- S06
fn reject<Q: Kind>() -> Task {
    let ch = Chart::<Q>::new();
    let all: Vec<Q::K> = ch.leaves.iter().chain(&ch.calcs).copied().collect();
    let n = all.len();
    let nl = ch.leaves.len();
    fam(&format!("{}-writes", Q::NAME.replace(' ', "-")), "every item x 32 amounts (and its own, the opposite, nearly its own, none at all, infinite, the largest and smallest) x 4 ways of writing it (vectors of one, and between entered items) x 3 starting statements; is_calc against what recalculation computes", n * (AMTS.len() + 4 + ODD.len()) * 3, move |i, cx| {
        let mut d = Dec(i);
        let (q, vi, start) = (d.n(n), d.n(AMTS.len() + 4 + ODD.len()), d.n(3));
        let k = all[q];
        let calc = q >= nl;
        let mut base = match start {
            0 => Q::map(&[]),
            1 => Q::map(&[(ch.leaves[0], 5.0), (ch.calcs[0], 9.0)]),
            _ => Q::map(&dense::<Q>(&ch.leaves, 1.0)),
        };
        if start == 2 {
            base.calc_elements();
        }
        let has = base.value(k);
        let v = match vi.checked_sub(AMTS.len()) {
            None => AMTS[vi],
            Some(j) if j < 4 => [has, -has, has * (1.0 + 1e-9), has + 0.25][j],
            Some(j) => ODD[j - 4],
        };
        cx.state();
        cx.step();
        ensure!(k.is_calc() == calc, "{k:?}.is_calc() = {}", k.is_calc());
        if calc {
            // among entered items, wherever it stands
            for at in 0..3 {
                let mut x = vec![(ch.leaves[1], 1.0), (ch.leaves[2], 2.0)];
                x.insert(at, (k, v));
                let (mut m, mut u) = (base.clone(), base.clone());
                ensure!(guarded(|| { m.add_vec(&x); }).is_err(), "add_vec accepted the calculated item of {x:?}");
                ensure!(guarded(|| { u.upsert_vec(&x); }).is_err(), "upsert_vec accepted the calculated item of {x:?}");
                cx.steps(2);
                ensure!(m.value(k) == has && u.value(k) == has, "the refused {k:?} = {v} changed");
            }
        }
        for way in 0..4 {
            let mut m = base.clone();
            let r = guarded(|| match way {
                0 => { m.add(k, v); }
                1 => { m.upsert(k, v); }
                2 => { m.add_vec(&vec![(k, v)]); }
                _ => { m.upsert_vec(&vec![(k, v)]); }
            });
            cx.step();
            cx.trace();
            cx.out(h64((q, way, r.is_err())));
            let name = ["add", "upsert", "add_vec", "upsert_vec"][way];
            if calc {
                ensure!(r.is_err(), "{name} accepted the calculated item {k:?}");
                ensure!(m == base, "{name} of the calculated item {k:?} was refused but changed the statement");
            } else {
                ensure!(r.is_ok(), "{name} refused the entered item {k:?} = {v}: {}", r.unwrap_err());
                let w = if way % 2 == 0 { base.value(k) + v } else { v };
                let x = m.value(k);
                ensure!(x == w || w.is_nan() && x.is_nan() || close(x, w, 0.0, 1e-15), "{name}({k:?},{v}) left {x}");
            }
        }
        // recalculation computes exactly the calculated items
        if start == 2 {
            let stored = Q::has(&base, k);
            ensure!(stored, "{k:?} is missing from the full recalculated statement");
            let mut m = Q::map(&[(k, 12.5)]);
            m.calc_elements();
            cx.step();
            ensure!((m.value(k) == 12.5) == !calc, "a lone {k:?} reads {} after recalculation", m.value(k));
        }
        cx.sample(|| format!("{k:?} = {v}, calculated: {calc}"));
        Ok(())
    })
}
pub fn s06(_t: bool) -> Prop {
    let mut tasks = vec![reject::<BsK>(), reject::<PlK>(), reject::<CfK>()];
    let ch = Chart::<BsK>::new();
    let all: Vec<BsType> = ch.leaves.iter().chain(&ch.calcs).copied().collect();
    let n = all.len();
    tasks.push(fam("transactions", "every item against every other, debit, credit, transact and one-element series x 32 amounts (and NaN, infinities, the largest and smallest) x 2 starting sheets", n * n, move |i, cx| {
        let (a, b) = (all[i as usize / n], all[i as usize % n]);
        let (ca, cb) = (BS_CALC.contains(&a), BS_CALC.contains(&b));
        for &v in AMTS.iter().chain(&ODD) {
            for start in 0..2 {
                let base: BsMap = if start == 0 { BsMap::new() } else { dense::<BsK>(&ch.leaves, 1.0).into_iter().collect() };
                for way in 0..4 {
                    let mut m = base.clone();
                    let r = guarded(|| match way {
                        0 => { m.transact((a, b, v)); }
                        1 => { m.transact_series(vec![(a, b, v)]); }
                        2 => { m.debit(a, v); }
                        _ => { m.credit(b, v); }
                    });
                    cx.state();
                    cx.step();
                    cx.trace();
                    let bad = match way { 2 => ca, 3 => cb, _ => ca || cb };
                    cx.out(h64((i, way, r.is_err())));
                    ensure!(r.is_err() == bad, "{} of {a:?}/{b:?} by {v}: refused {}, expected {bad}", ["transact", "transact_series", "debit", "credit"][way], r.is_err());
                    if bad {
                        ensure!(m == base, "a refused posting of {a:?}/{b:?} by {v} changed the sheet (way {way})");
                    }
                }
            }
        }
        cx.sample(|| format!("{a:?} / {b:?}"));
        Ok(())
    }));
    tasks.push(crate::books::put_rejections());
    Prop { id: "S06", assumptions: vec![], tasks }
}

// ---------------------------------------------------------------- S01
fn class_of(k: BsType) -> Class {
    BS.iter().find(|x| x.0 == k).unwrap().1
}
/// What a posting or series does to one account: net effect, gross amount, number of postings.
pub type Effects = BTreeMap<BsType, (f64, f64, u32)>;
pub fn judge_post(before: &BsMap, after: &BsMap, eff: &Effects, what: &dyn Fn() -> String) -> R {
    for (k, _, _) in BS {
        let (b, a) = (before.value(k), after.value(k));
        match eff.get(&k) {
            None => ensure!(a.to_bits() == b.to_bits() || a == b, "{}: {k:?} went from {b} to {a} though it is not named", what()),
            // one rounding per posting, in any order of the postings, here and in the model
            Some(&(e, g, n)) => ensure!((a - (b + e)).abs() <= (n + 1) as f64 * 2.3e-16 * (b.abs() + g), "{}: {k:?} went from {b} to {a}, expected {}", what(), b + e),
        }
    }
    for k in BS_CALC {
        ensure!(after.get(&k) == before.get(&k), "{}: subtotal {k:?} was touched", what());
    }
    Ok(())
}
pub fn effects(series: &[(BsType, BsType, f64)]) -> Effects {
    let mut e = Effects::new();
    for &(d, c, v) in series {
        for (k, s) in [(d, 1.0), (c, -1.0)] {
            let x = e.entry(k).or_default();
            x.0 += s * class_of(k).debit() * v;
            x.1 += v.abs();
            x.2 += 1;
        }
    }
    e
}
struct Posting {
    acc: Vec<BsType>,
}
#[derive(Clone)]
struct PostState {
    real: BsMap,
    model: BTreeMap<BsType, f64>,
}
const POST_AMT: [f64; 3] = [10.0, -4.5, 3e7];
impl Sys for Posting {
    type S = PostState;
    fn init(&self) -> Vec<PostState> {
        vec![
            PostState { real: BsMap::new(), model: BTreeMap::new() },
            PostState { real: BsMap::from([(Cash, 500.0), (CommonStock, 500.0)]), model: BTreeMap::from([(Cash, 500.0), (CommonStock, 500.0)]) },
        ]
    }
    fn nops(&self) -> usize {
        let n = self.acc.len();
        n * n * POST_AMT.len() + n
    }
    fn op_name(&self, op: usize) -> String {
        let n = self.acc.len();
        if op >= n * n * 3 {
            return format!("transact_series of three from {:?}", self.acc[op - n * n * 3]);
        }
        format!("transact({:?},{:?},{})", self.acc[op / 3 / n], self.acc[op / 3 % n], POST_AMT[op % 3])
    }
    fn step(&self, s0: &PostState, op: usize, cx: &mut Cx) -> Result<Option<PostState>, String> {
        let n = self.acc.len();
        let mut s = s0.clone();
        let tr: Vec<(BsType, BsType, f64)> = if op >= n * n * 3 {
            let a = op - n * n * 3;
            vec![(self.acc[a], self.acc[(a + 1) % n], 8.0), (self.acc[(a + 1) % n], self.acc[(a + 3) % n], 5.0), (self.acc[(a + 3) % n], self.acc[a], 1.0)]
        } else {
            vec![(self.acc[op / 3 / n], self.acc[op / 3 % n], POST_AMT[op % 3])]
        };
        if tr.len() == 1 { s.real.transact(tr[0]) } else { s.real.transact_series(tr.clone()) };
        cx.step();
        for (k, (e, _, _)) in effects(&tr) {
            *s.model.entry(k).or_insert(0.0) += e;
        }
        let mut bal = 0.0;
        for (k, c, _) in BS {
            let (g, w) = (s.real.value(k), s.model.get(&k).copied().unwrap_or(0.0));
            ensure!((g - w).abs() <= 1e-6, "{k:?} reads {g}, the ledger model {w}");
            bal += c.check_sign() * g;
        }
        ensure!(bal.abs() <= 1e-6, "books out of balance by {bal}");
        let mut r = s.real.clone();
        r.calc_elements();
        cx.step();
        ensure!(r.value(BalanceSheetCheck).abs() <= 1e-6, "balance check {} after transactions", r.value(BalanceSheetCheck));
        cx.out(h64(s.model.values().map(|v| v.to_bits()).collect::<Vec<_>>()));
        cx.sample(|| format!("{} -> {:?}", self.op_name(op), s.model));
        Ok(Some(s))
    }
    fn key(&self, s: &PostState, h: &mut dyn Hasher) {
        for (k, v) in BsK::items(&s.real) {
            h.write(format!("{k:?}").as_bytes());
            h.write_i64((v * 16.0).round() as i64);
        }
    }
}
pub fn s01(thorough: bool) -> Prop {
    let n = BS.len();
    let mut tasks = vec![];
    tasks.push(fam("pairs", "all 54x54 ordered pairs of entered accounts x 32 amounts x 4 starting sheets (empty, full, contra only, unrecalculated garbage subtotals): transact, debit and credit one by one, one-element series, and the reverse", n * n, move |i, cx| {
        let (d, c) = (BS[i as usize / n].0, BS[i as usize % n].0);
        for (q, &v) in AMTS.iter().enumerate() {
            for start in 0..4 {
                let base: BsMap = match start {
                    0 => BsMap::new(),
                    1 => BS.iter().enumerate().map(|(j, x)| (x.0, 1000.0 - j as f64 * 31.0)).collect(),
                    2 => BsMap::from([(AccumulatedDepreciation, 50.0), (AccumulatedAmortizationLease, -20.0), (AccumulatedAmortization, 1e6), (Cash, -3.0)]),
                    _ => BsMap::from([(Assets, 5.0), (BalanceSheetCheck, 7.0), (Equity, -1.0), (d, 10.0)]),
                };
                let e = effects(&[(d, c, v)]);
                let mut m = base.clone();
                m.transact((d, c, v));
                judge_post(&base, &m, &e, &|| format!("transact({d:?},{c:?},{v})"))?;
                let mut m2 = base.clone();
                m2.debit(d, v);
                judge_post(&base, &m2, &Effects::from([(d, (class_of(d).debit() * v, v.abs(), 1))]), &|| format!("debit({d:?},{v})"))?;
                let m3 = m2.clone();
                m2.credit(c, v);
                judge_post(&m3, &m2, &Effects::from([(c, (-class_of(c).debit() * v, v.abs(), 1))]), &|| format!("credit({c:?},{v})"))?;
                let mut m4 = base.clone();
                m4.transact_series(vec![(d, c, v)]);
                judge_post(&base, &m4, &e, &|| format!("transact_series([({d:?},{c:?},{v})])"))?;
                // a credit reverses a debit
                let mut m5 = base.clone();
                m5.debit(d, v).credit(d, v);
                judge_post(&base, &m5, &Effects::from([(d, (0.0, 2.0 * v.abs(), 2))]), &|| format!("debit then credit of {d:?} by {v}"))?;
                // assets - liabilities - equity is untouched
                let bal = |m: &BsMap| {
                    let mut t = m.clone();
                    t.calc_elements();
                    t.value(BalanceSheetCheck)
                };
                let (x, y) = (bal(&base), bal(&m));
                let gross: f64 = BS.iter().map(|x| m.value(x.0).abs() + base.value(x.0).abs()).sum();
                ensure!((x - y).abs() <= 5e-5 + 1e-13 * (gross + v.abs()), "transact({d:?},{c:?},{v}) moved the balance check from {x} to {y}");
                cx.state();
                cx.steps(8);
                cx.trace();
                cx.outf(m.value(d) + q as f64);
            }
        }
        cx.sample(|| format!("{d:?} / {c:?}, all amounts"));
        Ok(())
    }));
    tasks.push(fam("series-of-two", "every ordered pair of transactions between any accounts (54^4), amounts 3 then 7 (all), 5 twice and 6 then -6 (by turns)", n * n, move |i, cx| {
        let (d, c) = (BS[i as usize / n].0, BS[i as usize % n].0);
        let base = BsMap::from([(Cash, 100.0)]);
        for (q, x, y) in BS.iter().enumerate().flat_map(|(a, x)| BS.iter().enumerate().map(move |(b, y)| (a + b, x, y))) {
            for (va, vb) in [(3.0, 7.0), [(5.0, 5.0), (6.0, -6.0)][(i as usize + q) % 2]] {
                let tr = [(d, c, va), (x.0, y.0, vb)];
                let mut m = base.clone();
                m.transact_series(tr.to_vec());
                let mut w: [(BsType, f64); 4] = [(d, 0.0), (c, 0.0), (x.0, 0.0), (y.0, 0.0)];
                for j in 0..4 {
                    let k = w[j].0;
                    let mut e = if k == Cash { 100.0 } else { 0.0 };
                    for (dd, cc, v) in tr {
                        if dd == k {
                            e += class_of(k).debit() * v;
                        }
                        if cc == k {
                            e -= class_of(k).debit() * v;
                        }
                    }
                    w[j].1 = e;
                }
                cx.state();
                cx.step();
                for (k, e) in w {
                    ensure!((m.value(k) - e).abs() < 1e-9, "series {tr:?} leaves {k:?} at {}, expected {e}", m.value(k));
                }
                let named = |k: &BsType| *k == d || *k == c || *k == x.0 || *k == y.0 || *k == Cash;
                ensure!(m.iter().all(|(k, v)| named(k) || *v == 0.0) && (w.iter().any(|q| q.0 == Cash) || m.value(Cash) == 100.0), "series {tr:?} touched another account: {m:?}");
            }
        }
        cx.trace();
        cx.out(i);
        cx.sample(|| format!("{d:?}/{c:?} then every transaction"));
        Ok(())
    }));
    let sizes = sizes();
    let s1 = sizes.clone();
    tasks.push(fam("amounts", &format!("every account, debit, credit, transact and series of two on amounts absent, 0, 1/3, equal, opposite, a millionfold, 1e9, 1e12, 1e-8 and 1e-12 times it x {} amounts (16 mantissas of both signs, 1e-12 to 1e18)", sizes.len()), n * sizes.len(), move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(n), d.of(&s1));
        let (a, c) = (BS[q].0, BS[(q + 7) % n].0);
        for start in [None, Some(0.0), Some(1.0 / 3.0), Some(v), Some(-v), Some(v * 1e6 + 0.1), Some(v * -1e9), Some(v * 1e12), Some(v * 1e-8), Some(v * -1e-12)] {
            let mut base = BsMap::from([(DeferredRevenues, 17.0)]);
            if let Some(x) = start {
                base.insert(a, x);
            }
            for (way, tr) in [vec![(a, c, v)], vec![(c, a, v)], vec![(a, c, v), (c, a, v / 3.0)]].into_iter().enumerate() {
                let mut m = base.clone();
                if way < 2 { m.transact(tr[0]) } else { m.transact_series(tr.clone()) };
                judge_post(&base, &m, &effects(&tr), &|| format!("{tr:?} on {a:?} = {start:?}"))?;
                cx.outf(m.value(a));
            }
            for s in [1.0, -1.0] {
                let mut m = base.clone();
                if s > 0.0 { m.debit(a, v) } else { m.credit(a, v) };
                judge_post(&base, &m, &Effects::from([(a, (s * class_of(a).debit() * v, v.abs(), 1))]), &|| format!("posting {v} with sign {s} on {a:?} = {start:?}"))?;
            }
            cx.state();
            cx.steps(5);
            cx.trace();
        }
        cx.sample(|| format!("{a:?}: {v}"));
        Ok(())
    }));
    let big: Vec<usize> = [100usize, 128, 200, 250, 256, 300, 365, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000].iter().flat_map(|&x| [x - 1, x, x + 1]).collect();
    tasks.push(fam("very-long-series", &format!("series of {} lengths up to 100001 around the round numbers, 3 strides", big.len()), big.len() * 3, move |i, cx| {
        let mut d = Dec(i);
        let (stride, &len) = ([1, 7, 25][d.n(3)], d.of(&big));
        let tr: Vec<_> = (0..len).map(|j| (BS[j * stride % n].0, BS[(j * stride + 3 + j / 11) % n].0, 2.0 + (j % 97) as f64 - if j % 4 == 3 { 20.0 } else { 0.0 })).collect();
        let base = BsMap::from([(Cash, 100.0), (CommonStock, 100.0)]);
        let mut a = base.clone();
        a.transact_series(tr.clone());
        cx.state();
        cx.steps(1);
        cx.trace();
        judge_post(&base, &a, &effects(&tr), &|| format!("series of {len}"))?;
        cx.outf(a.value(Cash));
        cx.sample(|| format!("{len} transactions, stride {stride}"));
        Ok(())
    }));
    let nmax = if thorough { 400 } else { 130 };
    tasks.push(fam("long-series", &format!("series of every length 0..={nmax} walking round the chart with 5 strides, against posting one by one"), (nmax + 1) * 5, move |i, cx| {
        let mut d = Dec(i);
        let (stride, len) = ([1, 5, 7, 11, 25][d.n(5)], d.n(nmax + 1));
        let tr: Vec<_> = (0..len).map(|j| (BS[j * stride % n].0, BS[(j * stride + 3 + j) % n].0, 2.0 + j as f64 - if j % 4 == 3 { 20.0 } else { 0.0 })).collect();
        let base = BsMap::from([(Cash, 100.0), (CommonStock, 100.0)]);
        let mut a = base.clone();
        a.transact_series(tr.clone());
        let mut b = base.clone();
        for &t in &tr {
            b.transact(t);
        }
        cx.state();
        cx.steps(1 + len as u64);
        cx.trace();
        judge_post(&base, &a, &effects(&tr), &|| format!("series of {len}"))?;
        judge_post(&base, &b, &effects(&tr), &|| format!("{len} transactions"))?;
        cx.outf(a.value(Cash));
        cx.sample(|| format!("{len} transactions, stride {stride}"));
        Ok(())
    }));
    let smax = if thorough { 7 } else { 5 };
    let alpha = [(Cash, CommonStock, 10.0), (CommonStock, Cash, 10.0), (Cash, CommonStock, -10.0), (CommonStock, Cash, -10.0), (Cash, Cash, 10.0), (PlantPropertyEquipment, Cash, 10.0), (Cash, CommonStock, 2.5), (AccumulatedDepreciation, RetainedEarnings, 10.0), (Cash, AccumulatedDepreciation, 0.0)];
    let total: usize = (0..=smax).map(|l| alpha.len().pow(l as u32)).sum();
    tasks.push(fam("series-words", &format!("every series of 0..={smax} transactions over 9 (one repeated, reversed, negated, both, to itself, another account, another amount, contra, zero): duplicates and reversals at every position"), total, move |i, cx| {
        let mut i = i as usize;
        let mut l = 0;
        while i >= alpha.len().pow(l) {
            i -= alpha.len().pow(l);
            l += 1;
        }
        let mut d = Dec(i as u64);
        let tr: Vec<_> = (0..l).map(|_| *d.of(&alpha)).collect();
        let base = BsMap::from([(Cash, 100.0), (CommonStock, 100.0)]);
        let mut a = base.clone();
        a.transact_series(tr.clone());
        cx.state();
        cx.step();
        cx.trace();
        judge_post(&base, &a, &effects(&tr), &|| format!("series {tr:?}"))?;
        cx.outf(a.value(Cash));
        cx.sample(|| format!("{tr:?}"));
        Ok(())
    }));
    let depth = if thorough { 4 } else { 3 };
    let acc = vec![Cash, PlantPropertyEquipment, AccumulatedDepreciation, CurrentPayables, LongTermBorrowings, RetainedEarnings];
    tasks.push(bfs("histories", &format!("explicit-state search: transactions between 6 accounts of every class x 3 amounts and series of three, depth {depth}"), depth, Posting { acc }));
    Prop { id: "S01", assumptions: vec!["amounts are compared to within floating-point rounding of the amounts involved"], tasks }
}

// ---------------------------------------------------------------- S08, S09, S11
fn calced_pl(pl: &PlMap) -> PlMap {
    let mut p = pl.clone();
    p.calc_elements();
    p
}
fn judge_cf(b0: &BsMap, b1: &BsMap, pl: &PlMap, cx: &mut Cx) -> R {
    let cf = calc_cash_flow(b0, b1, &calced_pl(pl), 0.3, 0.02, 0.01);
    cx.state();
    cx.step();
    cx.trace();
    let w = cash_flow_lines(b0, b1, pl);
    let mut h = 0u64;
    for (k, _) in CF {
        if k == CashFlowTaxShield {
            continue;
        }
        let g = cf.value(k);
        let (x, gross) = w[&k];
        h = h.rotate_left(7) ^ g.to_bits();
        let tol = 2.3e-16 * 48.0 * gross + if x.abs() < 1e-3 || gross.min(1.0) < 1e-3 { 3e-5 } else { 0.0 };
        ensure!((g - x).abs() <= tol, "derived {k:?} = {g}, expected {x} from opening {:?} closing {:?} profit-and-loss {:?}", BsK::items(b0), BsK::items(b1), PlK::items(pl));
    }
    for k in CF_CALC {
        ensure!(!cf.contains_key(&k) || cf.value(k) == 0.0, "derived cash flow books {} on the total {k:?} before recalculation", cf.value(k));
    }
    cx.out(h);
    Ok(())
}
fn pl_leaves() -> Vec<PlType> {
    PlK::leaves()
}
pub fn s08(thorough: bool) -> Prop {
    let n = BS.len();
    let mut tasks = vec![];
    tasks.push(fam("single-accounts", "each of 54 accounts x opening and closing amounts from 32 (absent included) x stale subtotals in the sheets or not", n * 33 * 33, move |i, cx| {
        let mut d = Dec(i);
        let (a, x, y) = (BS[d.n(n)].0, d.n(33), d.n(33));
        let mk = |q: usize| if q == 32 { BsMap::new() } else { BsMap::from([(a, AMTS[q])]) };
        let (mut b0, mut b1) = (mk(x), mk(y));
        judge_cf(&b0, &b1, &PlMap::new(), cx)?;
        stale::<BsK>(&mut b0, 1);
        judge_cf(&b0, &b1, &PlMap::new(), cx)?;
        stale::<BsK>(&mut b1, 3);
        judge_cf(&b0, &b1, &PlMap::new(), cx)?;
        cx.sample(|| format!("{a:?} opening #{x} closing #{y}"));
        Ok(())
    }));
    let (sz, pl0) = (sizes(), pl_leaves());
    let both = n + pl0.len();
    tasks.push(fam("amounts", &format!("each account opening, closing or both, and each profit-and-loss item x {} amounts", sz.len()), both * sz.len(), move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(both), d.of(&sz));
        if q < n {
            let a = BS[q].0;
            let at = |x: f64| BsMap::from([(a, x), (BS[(q + 4) % n].0, 1.0 / 3.0)]);
            judge_cf(&at(v), &BsMap::new(), &PlMap::new(), cx)?;
            judge_cf(&BsMap::new(), &at(v), &PlMap::new(), cx)?;
            judge_cf(&at(v), &at(v / 3.0), &PlMap::new(), cx)?;
            judge_cf(&at(v), &at(v + 1.0), &PlMap::new(), cx)?;
            cx.sample(|| format!("{a:?}: {v}"));
        } else {
            let a = pl0[q - n];
            let b = pl0[(q - n + 1) % pl0.len()];
            judge_cf(&BsMap::new(), &BsMap::new(), &PlMap::from([(a, v)]), cx)?;
            judge_cf(&BsMap::from([(Cash, v)]), &BsMap::from([(CommonStock, v)]), &PlMap::from([(a, v), (b, 1.0 / 3.0)]), cx)?;
            cx.sample(|| format!("{a:?}: {v}"));
        }
        Ok(())
    }));
    tasks.push(fam("account-pairs", "all ordered pairs (one account in the opening, one in the closing sheet; and both in both) x 6x6 amounts, on empty and on full sheets", n * n, move |i, cx| {
        let (a, b) = (BS[i as usize / n].0, BS[i as usize % n].0);
        for &x in &FEW[..6] {
            for &y in &FEW[..6] {
                for full in [false, true] {
                    let base: BsMap = if full { dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect() } else { BsMap::new() };
                    let (mut b0, mut b1) = (base.clone(), base);
                    b0.insert(a, x);
                    b1.insert(b, y);
                    judge_cf(&b0, &b1, &PlMap::new(), cx)?;
                    b1.insert(a, -y);
                    b0.insert(b, 2.0 * x);
                    judge_cf(&b0, &b1, &PlMap::new(), cx)?;
                }
            }
        }
        cx.sample(|| format!("{a:?} opening, {b:?} closing"));
        Ok(())
    }));
    let pls = pl_leaves();
    let np = pls.len();
    let p2 = pls.clone();
    tasks.push(fam("profit-loss-items", "each profit-and-loss item and each pair of them x 6x6 amounts, on empty and full sheets", np * np, move |i, cx| {
        let (a, b) = (p2[i as usize / np], p2[i as usize % np]);
        for &x in &FEW[..6] {
            for &y in &FEW[..6] {
                let pl = PlMap::from([(a, x), (b, y)]);
                judge_cf(&BsMap::new(), &BsMap::new(), &pl, cx)?;
            }
        }
        let b0: BsMap = dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect();
        let b1: BsMap = dense::<BsK>(&BsK::leaves(), -3.0).into_iter().collect();
        judge_cf(&b0, &b1, &PlMap::from([(a, 40.0), (b, -9.0)]), cx)?;
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    }));
    let p3 = pls.clone();
    tasks.push(fam("account-and-item", "each account change with each profit-and-loss item x 6x6 amounts", n * np, move |i, cx| {
        let (a, b) = (BS[i as usize / np].0, p3[i as usize % np]);
        for &x in &FEW[..6] {
            for &y in &FEW[..6] {
                judge_cf(&BsMap::from([(a, 20.0)]), &BsMap::from([(a, x)]), &PlMap::from([(b, y)]), cx)?;
            }
        }
        cx.sample(|| format!("{a:?} with {b:?}"));
        Ok(())
    }));
    let full_pl: Vec<(PlType, f64)> = pls.iter().enumerate().map(|(i, &k)| (k, 10.0 + 2.5 * i as f64)).collect();
    let trip = if thorough { n } else { 12 };
    tasks.push(fam("full", &format!("full sheets and profit-and-loss with every pair of accounts missing from the opening sheet, a third from the closing ({trip} of 54), 3 scales"), n * n, move |i, cx| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a > b {
            return Ok(());
        }
        for q in 0..trip {
            let c = (a + 7 * q + 1) % n;
            for (s0, s1) in [(1.0, 2.0), (1e9, -1e8), (-5.0, 0.5)] {
                let mut b0: BsMap = dense::<BsK>(&BsK::leaves(), s0).into_iter().collect();
                let mut b1: BsMap = dense::<BsK>(&BsK::leaves(), s1).into_iter().collect();
                b0.remove(&BS[a].0);
                b0.remove(&BS[b].0);
                b1.remove(&BS[c].0);
                judge_cf(&b0, &b1, &full_pl.iter().copied().collect(), cx)?;
            }
        }
        cx.sample(|| format!("full sheets without {:?}, {:?}", BS[a].0, BS[b].0));
        Ok(())
    }));
    Prop { id: "S08", assumptions: vec!["the profit-and-loss statement is recalculated (its gains on sales are read)", "lines within 1e-5 of zero may read as zero"], tasks }
}

fn judge_net(b0: &BsMap, b1: &BsMap, pl: &PlMap, rates: (f64, f64, f64), cx: &mut Cx) -> R {
    let mut cf = calc_cash_flow(b0, b1, &calced_pl(pl), rates.0, rates.1, rates.2);
    cf.calc_elements();
    cx.state();
    cx.steps(2);
    cx.trace();
    let dcash = b1.value(Cash) - b0.value(Cash);
    let dcheck = bs_total(b1, BalanceSheetCheck) - bs_total(b0, BalanceSheetCheck);
    let gross: f64 = b0.iter().chain(b1).filter(|x| !BS_CALC.contains(x.0)).map(|x| x.1.abs()).sum::<f64>() + pl.values().map(|x| x.abs()).sum::<f64>();
    let g = cf.value(NetCashFlow);
    cx.outf(g);
    ensure!((g - (dcash - dcheck)).abs() <= 5e-4 * (if gross < 1.0 { 1.0 } else { 0.0 }) + 3e-5 + 1e-13 * gross, "net cash flow {g}, change in cash {dcash} less change in balance check {dcheck}: opening {:?} closing {:?} profit-and-loss {:?}", BsK::items(b0), BsK::items(b1), PlK::items(pl));
    // the same through the library's own check item
    let ck = |b: &BsMap| {
        let mut c = b.clone();
        c.calc_elements();
        c.value(BalanceSheetCheck)
    };
    let d2 = ck(b1) - ck(b0);
    cx.steps(2);
    ensure!((d2 - dcheck).abs() <= 2e-4 + 1e-13 * gross, "balance checks differ by {d2}, expected {dcheck}");
    Ok(())
}
pub fn s09(thorough: bool) -> Prop {
    let n = BS.len();
    let pls = pl_leaves();
    let np = pls.len();
    let rates = [(0.3, 0.02, 0.01), (0.0, 0.0, 0.0), (0.1, 0.0, 0.5)];
    let mut tasks = vec![];
    tasks.push(fam("one-transaction", "balanced sheets: a full balanced opening sheet, closing = opening after one transaction between any two accounts x 16 amounts x 3 rate triples", n * n, move |i, cx| {
        let (d, c) = (BS[i as usize / n].0, BS[i as usize % n].0);
        let mut b0: BsMap = dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect();
        let off = bs_total(&b0, BalanceSheetCheck);
        *b0.get_mut(&RetainedEarnings).unwrap() += off;
        for &v in &AMTS[..16] {
            let mut b1 = b0.clone();
            b1.transact((d, c, v));
            for r in rates {
                judge_net(&b0, &b1, &PlMap::from([(OperatingRevenue, 900.0), (InterestExpense, 40.0)]), r, cx)?;
            }
            // the same transaction on top of an empty opening sheet
            let mut e1 = BsMap::new();
            e1.transact((d, c, v));
            judge_net(&BsMap::new(), &e1, &PlMap::new(), rates[0], cx)?;
            judge_net(&e1, &BsMap::new(), &PlMap::new(), rates[0], cx)?;
        }
        cx.sample(|| format!("{d:?}/{c:?}"));
        Ok(())
    }));
    let sz = sizes();
    tasks.push(fam("amounts", &format!("one transaction on each account, its contra account 1, 11 and 30 places further in the chart x {} amounts, from an empty and a balanced sheet", sz.len()), n * sz.len(), move |i, cx| {
        let mut d = Dec(i);
        let (q, &v) = (d.n(n), d.of(&sz));
        for o in [1, 11, 30] {
            let b0 = BsMap::from([(Cash, 250.0), (CommonStock, 250.0)]);
            let (mut b1, mut e1) = (b0.clone(), BsMap::new());
            b1.transact((BS[q].0, BS[(q + o) % n].0, v));
            e1.transact((BS[q].0, BS[(q + o) % n].0, v));
            judge_net(&b0, &b1, &PlMap::from([(Dividends, v), (InterestExpense, v / 7.0)]), rates[0], cx)?;
            judge_net(&BsMap::new(), &e1, &PlMap::new(), rates[2], cx)?;
        }
        cx.sample(|| format!("{:?} {v}", BS[q].0));
        Ok(())
    }));
    tasks.push(fam("two-transactions", &format!("closing = opening after two transactions over all account pairs (second pair {})", if thorough { "all" } else { "with stride 5" }), n * n, move |i, cx| {
        let (d, c) = (BS[i as usize / n].0, BS[i as usize % n].0);
        let b0 = BsMap::from([(Cash, 1000.0), (CommonStock, 1000.0)]);
        let step = if thorough { 1 } else { 5 };
        let mut j = i as usize % step;
        while j < n * n {
            let mut b1 = b0.clone();
            b1.transact_series(vec![(d, c, 30.0), (BS[j / n].0, BS[j % n].0, -12.5)]);
            judge_net(&b0, &b1, &PlMap::from([(Dividends, 5.0), (SalesAmountPPE, 40.0), (GrossSalesPPE, 60.0), (AccAmortSalesPPE, 15.0)]), rates[0], cx)?;
            j += step;
        }
        cx.sample(|| format!("{d:?}/{c:?} then others"));
        Ok(())
    }));
    tasks.push(fam("unbalanced", "any two sheets: opening and closing amounts of any two accounts x 6x6 amounts, on empty and full sheets", n * n, move |i, cx| {
        let (a, b) = (BS[i as usize / n].0, BS[i as usize % n].0);
        for &x in &FEW[..6] {
            for &y in &FEW[..6] {
                for full in [false, true] {
                    let base: BsMap = if full { dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect() } else { BsMap::new() };
                    let (mut b0, mut b1) = (base.clone(), base);
                    b0.insert(a, x);
                    b1.insert(b, y);
                    judge_net(&b0, &b1, &PlMap::new(), rates[0], cx)?;
                }
            }
        }
        cx.sample(|| format!("{a:?} opening {b:?} closing"));
        Ok(())
    }));
    tasks.push(fam("any-profit-loss", "every pair of profit-and-loss items x 6x6 amounts x 3 rate triples between two balanced sheets", np * np, move |i, cx| {
        let (a, b) = (pls[i as usize / np], pls[i as usize % np]);
        let b0 = BsMap::from([(Cash, 500.0), (PlantPropertyEquipment, 700.0), (AccumulatedDepreciation, 100.0), (LongTermBorrowings, 400.0), (RetainedEarnings, 700.0)]);
        let mut b1 = b0.clone();
        b1.transact_series(vec![(Cash, RetainedEarnings, 80.0), (RetainedEarnings, AccumulatedDepreciation, 35.0), (LongTermBorrowings, Cash, 60.0)]);
        for &x in &FEW[..6] {
            for &y in &FEW[..6] {
                for r in rates {
                    judge_net(&b0, &b1, &PlMap::from([(a, x), (b, y)]), r, cx)?;
                }
            }
        }
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    }));
    Prop { id: "S09", assumptions: vec!["each of the up to twenty lines within 1e-5 of zero may read as zero"], tasks }
}

pub fn s11(thorough: bool) -> Prop {
    let cts: Vec<f64> = if thorough { vec![0.0, 0.05, 0.1, 0.2, 0.25, 0.3, 0.35, 0.5, 0.9, 1.0] } else { vec![0.0, 0.1, 0.25, 0.3, 0.5, 1.0] };
    let gts = [0.0, 0.02, 0.1, 0.3, 0.5];
    let rts = [0.0, 0.005, 0.01, 0.05, 0.15, 0.4];
    let revs: [f64; 5] = [1000.0, 0.0, 5.0, 1e9, -200.0];
    let costs = [600.0, 0.0, 950.0, 1100.0, 3000.0];
    let ints = [100.0, 0.0, 1.0, 0.01, 2500.0, 350.0, 1e6];
    let deps: [(Option<f64>, Option<f64>); 6] = [(None, None), (Some(50.0), None), (Some(50.0), Some(80.0)), (Some(120.0), Some(0.0)), (None, Some(300.0)), (Some(900.0), Some(20.0))];
    let dims = cts.len() * 5 * 6 * 5 * 5;
    let f1 = fam(
        "grid",
        &format!("{} corporate x 5 gross-profit x 6 revenue rates x 5 revenues x 5 costs x 7x7 interest and debt costs x 6 depreciation patterns: shield against the tax before and after interest", cts.len()),
        dims,
        move |i, cx| {
            let mut d = Dec(i);
            let (&ct, &gt, &rt, &rv, &co) = (d.of(&cts), d.of(&gts), d.of(&rts), d.of(&revs), d.of(&costs));
            let sc = if rv.abs() > 1e8 { 1e6 } else { 1.0 };
            for &i1 in &ints {
                for &i2 in &ints {
                    for (dep, td) in deps {
                        let mut pl = PlMap::from([(OperatingRevenue, rv), (CostMaterial, co * sc), (InterestExpense, i1 * sc), (CostDebt, i2 * sc), (Salaries, 30.0 * sc)]);
                        if i2 == 0.0 {
                            pl.remove(&CostDebt);
                        }
                        if let Some(x) = dep {
                            pl.insert(Depreciation, x * sc);
                        }
                        if let Some(x) = td {
                            pl.insert(TaxDepreciation, x * sc);
                        }
                        let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &calced_pl(&pl), ct, gt, rt);
                        let g = cf.value(CashFlowTaxShield);
                        let w = tax_shield(&pl, ct, gt, rt);
                        cx.state();
                        cx.step();
                        cx.outf(g);
                        let gross = pl.values().map(|x| x.abs()).sum::<f64>();
                        ensure!((g - w).abs() <= 1e-12 * gross + 1e-9, "tax shield {g}, tax saved by interest {w}: rates {ct}/{gt}/{rt}, {:?}", PlK::items(&pl));
                        ensure!(g >= -1e-12 * gross && g <= ct * (i1 + i2) * sc + 1e-12 * gross + 1e-9, "tax shield {g} outside 0..{}", ct * (i1 + i2) * sc);
                    }
                }
            }
            cx.trace();
            cx.sample(|| format!("rates {ct}/{gt}/{rt} revenue {rv} cost {co}"));
            Ok(())
        },
    );
    let judge = |b0: &BsMap, b1: &BsMap, pl: &PlMap, (ct, gt, rt): (f64, f64, f64), cx: &mut Cx| -> R {
        let cf = calc_cash_flow(b0, b1, &calced_pl(pl), ct, gt, rt);
        let (g, w) = (cf.value(CashFlowTaxShield), tax_shield(pl, ct, gt, rt));
        cx.state();
        cx.step();
        cx.trace();
        cx.outf(g);
        let gross = pl.values().map(|x| x.abs()).sum::<f64>();
        let tiny = if pl.values().any(|v| *v != 0.0 && v.abs() < 1e-3) { 1e-4 } else { 0.0 };
        ensure!((g - w).abs() <= 1e-13 * gross + 1e-12 + tiny, "tax shield {g}, tax saved by interest {w}: rates {ct}/{gt}/{rt}, {:?}", PlK::items(pl));
        Ok(())
    };
    let rg: Vec<f64> = (0..=40).map(|q| q as f64 * 0.025).chain([0.333, 0.001, 1e-4, 0.0725, 0.999]).collect();
    let nr = rg.len();
    let f2 = fam("rates", &format!("{nr}^3 rate triples (steps of 2.5% from 0 to 100%, and odd ones) x 4 statements, with full balance sheets"), nr * nr * nr, move |i, cx| {
        let mut d = Dec(i);
        let r = (*d.of(&rg), *d.of(&rg), *d.of(&rg));
        let b: BsMap = dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect();
        for j in 0..4 {
            let mut pl = PlMap::from([(OperatingRevenue, 1000.0), (CostMaterial, [300.0, 700.0, 1500.0, 880.0][j]), (Salaries, 100.0), (Depreciation, 60.0), (InterestExpense, [45.0, 200.0, 3.0, 500.0][j]), (CostDebt, 21.0)]);
            if j % 2 == 1 {
                pl.insert(TaxDepreciation, 90.0);
            }
            let open = if j == 3 { b.clone() } else { BsMap::new() };
            judge(&open, &b, &pl, r, cx)?;
        }
        cx.sample(|| format!("{r:?}"));
        Ok(())
    });
    let pls = pl_leaves();
    let np = pls.len();
    let nonneg = |k: PlType, v: f64| if k == InterestExpense || k == CostDebt { v.abs() } else { v };
    let p1 = pls.clone();
    let f3 = fam("items", "every pair of profit-and-loss items x 6x6 amounts (interest non-negative) beside revenue and interest, and on full statements with full balance sheets, at 4 rate triples", np * np, move |i, cx| {
        let (a, b) = (p1[i as usize / np], p1[i as usize % np]);
        let full: BsMap = dense::<BsK>(&BsK::leaves(), 1.0).into_iter().collect();
        for (q, &x) in FEW[..6].iter().enumerate() {
            for (w, &y) in FEW[..6].iter().enumerate() {
                let r = [(0.3, 0.02, 0.01), (0.25, 0.0, 0.2), (0.0, 0.3, 0.05), (0.4, 0.1, 0.6)][(q + w) % 4];
                let mut pl = PlMap::from([(OperatingRevenue, 900.0), (InterestExpense, 60.0), (CostDebt, 15.0)]);
                pl.insert(a, nonneg(a, x));
                pl.insert(b, nonneg(b, y));
                judge(&BsMap::new(), &BsMap::new(), &pl, r, cx)?;
                let mut pl: PlMap = pl_leaves().iter().enumerate().map(|(i, &k)| (k, 10.0 + 2.5 * i as f64)).collect();
                pl.insert(a, nonneg(a, x));
                pl.insert(b, nonneg(b, y));
                judge(&full, &BsMap::from([(Cash, 9.0), (TaxProvision, 4.0)]), &pl, r, cx)?;
            }
        }
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    });
    let sz = sizes();
    let f4 = fam("amounts", &format!("every profit-and-loss item x {} amounts from 1e-12 to 1e18 (interest non-negative) beside revenue and interest, and in proportion, at 3 rate triples", sz.len()), np * sz.len(), move |i, cx| {
        let mut d = Dec(i);
        let (k, &v) = (pls[d.n(np)], d.of(&sz));
        for r in [(0.3, 0.02, 0.01), (0.25, 0.0, 0.2), (0.1, 0.3, 0.0)] {
            for s in [1.0, v.abs()] {
                let mut pl = PlMap::from([(OperatingRevenue, 900.0 * s), (CostMaterial, 500.0 * s), (InterestExpense, 60.0 * s), (CostDebt, 15.0 * s)]);
                pl.insert(k, nonneg(k, v));
                judge(&BsMap::new(), &BsMap::from([(Cash, v)]), &pl, r, cx)?;
            }
        }
        cx.sample(|| format!("{k:?} = {v}"));
        Ok(())
    });
    let pls = pl_leaves();
    let f5 = fam("no-revenue", "every pair of profit-and-loss items x 4x4 amounts (interest non-negative) alone with an interest expense x 7 patterns of depreciation and tax depreciation x 4 rate triples", np * np, move |i, cx| {
        let (a, b) = (pls[i as usize / np], pls[i as usize % np]);
        let deps: [(Option<f64>, Option<f64>); 7] = [(None, None), (Some(50.0), None), (Some(50.0), Some(80.0)), (Some(120.0), Some(0.0)), (None, Some(30.0)), (Some(90.0), Some(20.0)), (Some(0.0), Some(-40.0))];
        for (q, x) in [100.0, -40.0, 7.5, 0.0].into_iter().enumerate() {
            for (w, y) in [30.0, -90.0, 2500.0, 0.0].into_iter().enumerate() {
                for (e, (dep, td)) in deps.into_iter().enumerate() {
                    let mut pl = PlMap::from([(InterestExpense, 20.0)]);
                    pl.insert(a, nonneg(a, x));
                    pl.insert(b, nonneg(b, y));
                    if let Some(v) = dep {
                        pl.insert(Depreciation, v);
                    }
                    if let Some(v) = td {
                        pl.insert(TaxDepreciation, v);
                    }
                    let r = [(0.3, 0.02, 0.01), (0.5, 0.0, 0.0), (0.25, 0.0, 0.2), (0.4, 0.1, 0.6)][(q + w + e) % 4];
                    judge(&BsMap::new(), &BsMap::new(), &pl, r, cx)?;
                }
            }
        }
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    });
    Prop { id: "S11", assumptions: vec!["recalculated profit-and-loss statements"], tasks: vec![f1, f2, f3, f4, f5] }
}

// ---------------------------------------------------------------- S19
fn common<Q: Kind>(thorough: bool) -> Task {
    let ch = Chart::<Q>::new();
    let n = ch.leaves.len();
    let bases = [1.0, -1.0, 250.0, 1e-4, -3e-3, 1e12, 0.5, -7e9, 1e-9];
    let _ = thorough;
    let sz = sizes();
    fam(&format!("{}", Q::NAME.replace(' ', "-")), "9 base amounts x every pair of items x 32 amounts, each item and the base through 868 amounts from 1e-12 to 1e18, and full recalculated statements with a pair of items varied", n * n, move |i, cx| {
        let (a, b) = (ch.leaves[i as usize / n], ch.leaves[i as usize % n]);
        let mut judge = |m: &Q::M| -> R {
            let base = m.value(Q::base());
            let before = m.clone();
            let c = m.common_size();
            cx.state();
            cx.step();
            cx.trace();
            ensure!(*m == before, "common_size changed the statement");
            let (x, y) = (Q::items(m), Q::items(&c));
            ensure!(x.len() == y.len(), "common size of {x:?} has {} items", y.len());
            for ((k, v), (k2, w)) in x.iter().zip(&y) {
                ensure!(k == k2, "common size has {k2:?} where the statement has {k:?}");
                let want = v / base;
                ensure!(close(*w, want, 0.0, 1e-14), "common size of {k:?} = {v} over {base} is {w}");
                cx.outf(*w);
            }
            ensure!(close(c.value(Q::base()), 1.0, 0.0, 1e-14), "the base itself becomes {}", c.value(Q::base()));
            Ok(())
        };
        for &s in &bases {
            for (q, &v) in AMTS.iter().enumerate() {
                let mut m = Q::map(&[(a, v), (b, AMTS[(q + 5) % AMTS.len()])]);
                Q::raw_set(&mut m, Q::base(), s);
                judge(&m)?;
            }
        }
        if i as usize / n == i as usize % n {
            for &v in &sz {
                for s in [1.0, 250.0, -1e9] {
                    let mut m = Q::map(&[(a, v)]);
                    Q::raw_set(&mut m, Q::base(), s);
                    judge(&m)?;
                    let mut m = Q::map(&[(a, s)]);
                    Q::raw_set(&mut m, Q::base(), v);
                    judge(&m)?;
                }
            }
        }
        for sc in [1.0, -4.0, 1e8] {
            let mut it = dense::<Q>(&ch.leaves, sc);
            it[i as usize / n].1 *= -3.0;
            it[i as usize % n].1 = 0.0;
            let mut m = Q::map(&it);
            m.calc_elements();
            if m.value(Q::base()) != 0.0 {
                judge(&m)?;
            }
        }
        cx.sample(|| format!("{a:?}, {b:?}"));
        Ok(())
    })
}
pub fn s19(t: bool) -> Prop {
    Prop { id: "S19", assumptions: vec![], tasks: vec![common::<BsK>(t), common::<PlK>(t), common::<CfK>(t)] }
}
#[allow(unused)]
fn unused(_: CfType) {}
