//! The explorer: exhaustive enumeration of finite case spaces (`Fam`) and breadth-first explicit-state
//! search over operation histories of the real code (`bfs`), with counting, hang detection, minimal
//! counterexamples and replay.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Counters of one worker. A *state* is a distinct configuration of the system under test that was reached
/// (a point of the input space, or a reachable state of a history); a *transition* is one call into
/// the real code; a *trace* is one complete case whose observations were all compared with the model.
#[derive(Default)]
pub struct Cx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub want_sample: bool,
    pub samples: Vec<String>,
}
const OUTCOME_CAP: usize = 200_000;
impl Cx {
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// Record an observed outcome (used to show that the exploration is not vacuous).
    #[inline]
    pub fn out(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }
    #[inline]
    pub fn outf(&mut self, v: f64) {
        self.out(v.to_bits() >> 12);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.samples.push(f());
            self.want_sample = false;
        }
    }
    fn merge(&mut self, o: Cx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for h in o.outcomes {
            self.out(h);
        }
        self.samples.extend(o.samples);
    }
}

/// Mixed-radix decoder of a case index.
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn n(&mut self, k: usize) -> usize {
        let r = self.0 % k as u64;
        self.0 /= k as u64;
        r as usize
    }
    #[inline]
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.n(s.len())]
    }
}

type CaseFn = Box<dyn Fn(u64, &mut Cx) -> R + Sync + Send>;
pub struct Fam {
    pub name: String,
    pub what: String,
    pub n: u64,
    pub run: CaseFn,
}
pub fn fam(name: &str, what: &str, n: usize, run: impl Fn(u64, &mut Cx) -> R + Sync + Send + 'static) -> Task {
    Task::Fam(Fam { name: name.into(), what: what.into(), n: n as u64, run: Box::new(run) })
}

/// An explicit-state search. `S` carries the real object and the model in lockstep.
pub trait Sys: Sync + Send {
    type S: Clone + Send + Sync;
    fn init(&self) -> Vec<Self::S>;
    fn nops(&self) -> usize;
    fn op_name(&self, op: usize) -> String;
    /// Apply the operation to the real object and the model and compare; None when not enabled.
    fn step(&self, s: &Self::S, op: usize, cx: &mut Cx) -> Result<Option<Self::S>, String>;
    /// Canonical bytes: must contain everything future behaviour can depend on.
    fn key(&self, s: &Self::S, h: &mut dyn Hasher);
}
pub trait BfsDyn: Sync + Send {
    fn run(&self, eng: &Eng, cx: &mut Cx) -> BfsOut;
    fn replay(&self, init: usize, ops: &[usize]) -> R;
}
pub struct BfsOut {
    pub violation: Option<(usize, Vec<usize>, Vec<String>, String)>,
    pub complete: bool,
    pub depth: usize,
    pub levels: Vec<u64>,
}
pub struct Bfs<T: Sys> {
    pub sys: T,
    pub depth: usize,
    pub cap: usize,
}
pub struct BfsTask {
    pub name: String,
    pub what: String,
    pub b: Box<dyn BfsDyn>,
}
pub enum Task {
    Fam(Fam),
    Bfs(BfsTask),
}
pub fn bfs<T: Sys + 'static>(name: &str, what: &str, depth: usize, sys: T) -> Task {
    Task::Bfs(BfsTask { name: name.into(), what: what.into(), b: Box::new(Bfs { sys, depth, cap: 20_000_000 }) })
}

pub struct Eng {
    pub id: String,
    pub workers: usize,
    cur: Vec<AtomicU64>,
    tick: Vec<AtomicU64>,
    fam_name: Mutex<String>,
    pub stop: AtomicBool,
    pub evidence_dir: String,
}
const IDLE: u64 = u64::MAX;
const HANG_S: u64 = 40;

fn msg_of(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Run code of the library, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("panicked: {}", msg_of(e)))
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guarded(f).is_err()
}

struct K128(u64, u64);
fn key128<T: Sys>(sys: &T, s: &T::S, seeds: &(std::hash::RandomState, std::hash::RandomState)) -> (u64, u64) {
    struct Two(std::collections::hash_map::DefaultHasher, std::collections::hash_map::DefaultHasher);
    impl Hasher for Two {
        fn finish(&self) -> u64 {
            self.0.finish()
        }
        fn write(&mut self, b: &[u8]) {
            self.0.write(b);
            self.1.write(b);
        }
    }
    let mut t = Two(seeds.0.build_hasher(), seeds.1.build_hasher());
    sys.key(s, &mut t);
    let k = K128(t.0.finish(), t.1.finish());
    (k.0, k.1)
}

impl<T: Sys> BfsDyn for Bfs<T> {
    fn run(&self, eng: &Eng, cx: &mut Cx) -> BfsOut {
        let seeds = (std::hash::RandomState::new(), std::hash::RandomState::new());
        let nops = self.sys.nops();
        let mut seen: HashSet<(u64, u64)> = HashSet::new();
        // parent links: (parent node, op); roots have parent usize::MAX and op = index of the initial state
        let mut parent: Vec<(usize, usize)> = vec![];
        let mut frontier: Vec<(usize, T::S)> = vec![];
        for (i, s) in self.sys.init().into_iter().enumerate() {
            if seen.insert(key128(&self.sys, &s, &seeds)) {
                parent.push((usize::MAX, i));
                frontier.push((parent.len() - 1, s));
                cx.state();
            }
        }
        let mut levels = vec![frontier.len() as u64];
        let path = |parent: &Vec<(usize, usize)>, mut n: usize, last: usize| {
            let mut ops = vec![last];
            while parent[n].0 != usize::MAX {
                ops.push(parent[n].1);
                n = parent[n].0;
            }
            ops.reverse();
            (parent[n].1, ops)
        };
        for d in 0..self.depth {
            let next = AtomicU64::new(0);
            type Succ<S> = (usize, usize, (u64, u64), Option<S>);
            let chunks: Mutex<Vec<(usize, Vec<Succ<T::S>>)>> = Mutex::new(vec![]);
            let bad: Mutex<Option<(usize, usize, String)>> = Mutex::new(None);
            let acc: Mutex<Cx> = Mutex::new(Cx::default());
            let total = frontier.len();
            let last_level = d + 1 == self.depth;
            std::thread::scope(|sc| {
                for w in 0..eng.workers {
                    let (next, chunks, bad, acc, frontier, seen, seeds) = (&next, &chunks, &bad, &acc, &frontier, &seen, &seeds);
                    sc.spawn(move || {
                        let mut my = Cx::default();
                        my.want_sample = w == 0 && d < 3;
                        loop {
                            let lo = next.fetch_add(64, Relaxed) as usize;
                            if lo >= total {
                                break;
                            }
                            let mut outv: Vec<Succ<T::S>> = vec![];
                            for ix in lo..(lo + 64).min(total) {
                                eng.cur[w].store(ix as u64, Relaxed);
                                eng.tick[w].fetch_add(1, Relaxed);
                                let (node, s) = &frontier[ix];
                                for op in 0..nops {
                                    let r = guarded(|| self.sys.step(s, op, &mut my)).unwrap_or_else(Err);
                                    match r {
                                        Ok(None) => {}
                                        Ok(Some(t)) => {
                                            my.trace();
                                            let k = key128(&self.sys, &t, seeds);
                                            if !seen.contains(&k) {
                                                outv.push((*node, op, k, if last_level { None } else { Some(t) }));
                                            }
                                        }
                                        Err(m) => {
                                            let mut b = bad.lock().unwrap();
                                            if b.as_ref().is_none_or(|x| (x.0, x.1) > (*node, op)) {
                                                *b = Some((*node, op, m));
                                            }
                                        }
                                    }
                                }
                            }
                            chunks.lock().unwrap().push((lo, outv));
                            if bad.lock().unwrap().is_some() {
                                break;
                            }
                        }
                        eng.cur[w].store(IDLE, Relaxed);
                        acc.lock().unwrap().merge(my);
                    });
                }
            });
            cx.merge(acc.into_inner().unwrap());
            if let Some((node, op, m)) = bad.into_inner().unwrap() {
                let (init, ops) = path(&parent, node, op);
                let names = ops.iter().map(|&o| self.sys.op_name(o)).collect();
                return BfsOut { violation: Some((init, ops, names, m)), complete: false, depth: d + 1, levels };
            }
            let mut cs = chunks.into_inner().unwrap();
            cs.sort_by_key(|c| c.0);
            let mut nf = vec![];
            let mut n_new = 0u64;
            for (_, c) in cs {
                for (p, op, k, t) in c {
                    if seen.insert(k) {
                        cx.state();
                        n_new += 1;
                        parent.push((p, op));
                        if let Some(t) = t {
                            nf.push((parent.len() - 1, t));
                        }
                    }
                }
            }
            levels.push(n_new);
            frontier = nf;
            if frontier.is_empty() || seen.len() > self.cap {
                // frontier exhausted: every reachable state was visited (when not at the depth bound)
                let closed = n_new == 0;
                return BfsOut { violation: None, complete: closed || last_level, depth: d + 1, levels };
            }
        }
        BfsOut { violation: None, complete: true, depth: self.depth, levels }
    }
    fn replay(&self, init: usize, ops: &[usize]) -> R {
        let mut s = self.sys.init()[init].clone();
        let mut cx = Cx::default();
        for &o in ops {
            println!("  op {}", self.sys.op_name(o));
            match guarded(|| self.sys.step(&s, o, &mut cx)).unwrap_or_else(Err)? {
                Some(t) => s = t,
                None => return Err("replay diverged: operation not enabled".into()),
            }
        }
        Ok(())
    }
}

impl Eng {
    fn run_fam(&self, f: &Fam, known: &HashSet<u64>, cx: &mut Cx) -> (Vec<u64>, Option<(u64, String)>) {
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let hits: Mutex<Vec<u64>> = Mutex::new(vec![]);
        let acc: Mutex<Cx> = Mutex::new(Cx::default());
        let chunk = (f.n / (self.workers as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for w in 0..self.workers {
                let (next, bad, acc, best, hits) = (&next, &bad, &acc, &best, &hits);
                sc.spawn(move || {
                    let mut my = Cx::default();
                    loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= f.n || lo > best.load(Relaxed) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(f.n) {
                            self.cur[w].store(i, Relaxed);
                            self.tick[w].fetch_add(1, Relaxed);
                            my.want_sample = i == 0 || i == f.n / 2 || i == f.n - 1;
                            let r = guarded(|| (f.run)(i, &mut my)).unwrap_or_else(Err);
                            my.want_sample = false;
                            if let Err(m) = r {
                                if known.contains(&i) {
                                    hits.lock().unwrap().push(i);
                                    continue;
                                }
                                let mut b = bad.lock().unwrap();
                                if b.as_ref().is_none_or(|x| x.0 > i) {
                                    *b = Some((i, m));
                                    best.store(i, Relaxed);
                                }
                                break;
                            }
                        }
                    }
                    self.cur[w].store(IDLE, Relaxed);
                    acc.lock().unwrap().merge(my);
                });
            }
        });
        cx.merge(acc.into_inner().unwrap());
        (hits.into_inner().unwrap(), bad.into_inner().unwrap())
    }
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub struct Prop {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub tasks: Vec<Task>,
}

pub fn replay(p: &Prop, file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let name = v["family"].as_str().unwrap();
    for t in &p.tasks {
        let r = match t {
            Task::Fam(f) if f.name == name => {
                let i = v["index"].as_u64().unwrap();
                println!("replaying {} {name} index {i}", p.id);
                let mut a = Cx::default();
                let one = guarded(|| (f.run)(i, &mut a)).unwrap_or_else(Err);
                let two = guarded(|| (f.run)(i, &mut a)).unwrap_or_else(Err);
                if one != two {
                    println!("replay diverged: {one:?} then {two:?}");
                    return 2;
                }
                one
            }
            Task::Bfs(b) if b.name == name => {
                let ops: Vec<usize> = v["ops"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                println!("replaying {} {name} initial state {} ops {ops:?}", p.id, v["init"]);
                b.b.replay(v["init"].as_u64().unwrap() as usize, &ops)
            }
            _ => continue,
        };
        return match r {
            Ok(()) => {
                println!("holds on the current tree");
                0
            }
            Err(m) => {
                println!("VIOLATION property={} replay={file}\n  {m}", p.id);
                1
            }
        };
    }
    println!("no such family: {name}");
    2
}

pub fn run(p: Prop, tier: &str, only: Option<&str>) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let evidence_dir = format!("{root}/evidence");
    std::fs::create_dir_all(format!("{evidence_dir}/replay")).unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let eng = std::sync::Arc::new(Eng {
        id: p.id.into(),
        workers,
        cur: (0..workers).map(|_| AtomicU64::new(IDLE)).collect(),
        tick: (0..workers).map(|_| AtomicU64::new(0)).collect(),
        fam_name: Mutex::new(String::new()),
        stop: AtomicBool::new(false),
        evidence_dir: evidence_dir.clone(),
    });
    // known findings: "finding: property=ID family=NAME index=N ..."
    let mut known: HashMap<String, HashSet<u64>> = HashMap::new();
    let mut known_text: HashMap<(String, u64), String> = HashMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in s.lines().filter(|l| l.starts_with("finding:")) {
            let get = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            if get("property=") == p.id {
                let ix: u64 = get("index=").parse().unwrap();
                known.entry(get("family=")).or_default().insert(ix);
                known_text.insert((get("family="), ix), l.to_string());
            }
        }
    }
    // hang monitor
    {
        let eng = eng.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, u64, Instant)> = vec![(IDLE, 0, Instant::now()); eng.workers];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for w in 0..eng.workers {
                    let (c, t) = (eng.cur[w].load(Relaxed), eng.tick[w].load(Relaxed));
                    if c == IDLE || (c, t) != (last[w].0, last[w].1) {
                        last[w] = (c, t, Instant::now());
                    } else if last[w].2.elapsed() > Duration::from_secs(HANG_S) {
                        let name = eng.fam_name.lock().unwrap().clone();
                        let path = format!("{}/replay/{}-{}-hang.json", eng.evidence_dir, eng.id, name);
                        let _ = std::fs::write(
                            &path,
                            format!("{{\"property\":{},\"family\":{},\"index\":{c},\"message\":\"no result within {HANG_S} s\"}}\n", js(&eng.id), js(&name)),
                        );
                        println!("VIOLATION property={} replay={path}\n  {name} case {c}: no result within {HANG_S} s", eng.id);
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let t0 = Instant::now();
    let mut cx = Cx::default();
    let mut fams = vec![];
    let mut violations = 0;
    let mut exhaustive = true;
    for t in &p.tasks {
        let (name, what) = match t {
            Task::Fam(f) => (&f.name, &f.what),
            Task::Bfs(b) => (&b.name, &b.what),
        };
        if only.is_some_and(|o| o != name) {
            continue;
        }
        *eng.fam_name.lock().unwrap() = name.clone();
        let tf = Instant::now();
        let mut c = Cx::default();
        let mut extra = String::new();
        match t {
            Task::Fam(f) => {
                assert!(f.n > 0, "empty family {name}");
                let empty = HashSet::new();
                let (hits, bad) = eng.run_fam(f, known.get(name).unwrap_or(&empty), &mut c);
                for h in hits {
                    println!("KNOWN-FINDING: property={} {}", p.id, known_text[&(name.clone(), h)]);
                }
                if let Some((i, m)) = bad {
                    violations += 1;
                    exhaustive = false;
                    let path = format!("{evidence_dir}/replay/{}-{name}-{i}.json", p.id);
                    std::fs::write(&path, format!("{{\"property\":{},\"tier\":{},\"family\":{},\"index\":{i},\"message\":{}}}\n", js(p.id), js(tier), js(name), js(&m))).unwrap();
                    println!("VIOLATION property={} replay={path}\n  {name} case {i}: {m}", p.id);
                }
                extra += &format!(",\"cases\":{}", f.n);
            }
            Task::Bfs(b) => {
                let o = b.b.run(&eng, &mut c);
                exhaustive &= o.complete;
                extra += &format!(",\"depth\":{},\"new_states_per_level\":{:?},\"complete_to_depth\":{}", o.depth, o.levels, o.complete);
                if let Some((init, ops, names, m)) = o.violation {
                    violations += 1;
                    let path = format!("{evidence_dir}/replay/{}-{name}.json", p.id);
                    std::fs::write(
                        &path,
                        format!("{{\"property\":{},\"tier\":\"{tier}\",\"family\":{},\"init\":{init},\"ops\":{ops:?},\"op_names\":{},\"message\":{}}}\n", js(p.id), js(name), serde_json::to_string(&names).unwrap(), js(&m)),
                    )
                    .unwrap();
                    println!("VIOLATION property={} replay={path}\n  {name}: initial state {init}, {names:?}: {m}", p.id);
                }
            }
        }
        let wall = tf.elapsed().as_secs_f64();
        println!(
            "{} {name}: states={} transitions={} traces={} outcomes{}{} {:.1}s",
            p.id,
            c.states,
            c.transitions,
            c.traces,
            if c.outcomes.len() >= OUTCOME_CAP { ">=" } else { "=" },
            c.outcomes.len(),
            wall
        );
        if violations == 0 && (c.states == 0 || c.transitions == 0 || c.traces == 0) {
            println!("vacuous family {name}");
            return 2;
        }
        fams.push(format!(
            "{{\"name\":{},\"alphabet_and_bound\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"outcomes_capped\":{},\"wall_s\":{:.2}{extra}}}",
            js(name),
            js(what),
            c.states,
            c.transitions,
            c.traces,
            c.outcomes.len(),
            c.outcomes.len() >= OUTCOME_CAP,
            wall
        ));
        cx.merge(c);
        if violations > 0 {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"model_checking\",\n\"coverage\":{{\n\"states\":{},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n\"exhaustive\":{exhaustive},\n\"rule\":\"a state is a distinct configuration reached (input point or history state), a transition one call into the real code, a trace one complete case whose observations were all compared with the reference model\",\n\"distinct_outcomes_seen\":{},\n\"samples\":{},\n\"families\":[\n{}\n]}},\n\"assumptions\":{},\n\"wall_s\":{wall:.2},\n\"violations\":{violations}\n}}\n",
        js(p.id),
        js(tier),
        cx.states,
        cx.transitions,
        cx.traces,
        cx.outcomes.len(),
        serde_json::to_string(&cx.samples).unwrap(),
        fams.join(",\n"),
        serde_json::to_string(&p.assumptions).unwrap()
    );
    if only.is_none() {
        std::fs::write(format!("{evidence_dir}/{}.json", p.id), ev).unwrap();
    }
    println!("{} {} {:.1}s violations={violations}", p.id, tier, wall);
    if violations > 0 { 1 } else { 0 }
}

/// Hash anything hashable with a fixed hasher (for outcome counting).
pub fn h64<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
#[inline]
pub fn close(got: f64, want: f64, scale: f64, tol: f64) -> bool {
    got == want || (got - want).abs() <= tol * scale.abs().max(want.abs())
}
