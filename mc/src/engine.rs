//! A small stateless model checker.
//!
//! A scenario is a body that drives the real library through a sequence of choices
//! (`Ctx::choose`). The explorer enumerates *every* sequence of choices (depth-first, split
//! over threads by prefix) and the body checks its property on every execution. There is no
//! sampling and no randomness: the choice tree is finite and walked completely.
//!
//! `Bfs` is the explicit-state variant for value types with an operation alphabet: states are
//! deduplicated by a canonical key and every operation is applied to every reachable state up
//! to a depth.
//!
//! A violation is a choice vector; it is replayed twice before it is reported and written to a
//! replay file that `mc replay <file>` runs again.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    /// identifies the failing clause / call site, used to match known findings
    pub key: String,
    pub msg: String,
}
impl Viol {
    /// Keeps the beginning and the end of a long message.
    pub fn short(mut self) -> Self {
        let n = self.msg.chars().count();
        if n > 600 {
            let h: String = self.msg.chars().take(200).collect();
            let t: String = self.msg.chars().skip(n - 300).collect();
            self.msg = format!("{h} ... {t}");
        }
        self
    }
}
pub type R = Result<(), Viol>;

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::engine::Viol { key: ($key).to_string(), msg: format!($($arg)*) }); }
    };
}

/// got must be within tol of want; the worst ratio per clause goes into the evidence.
#[macro_export]
macro_rules! close {
    ($key:expr, $got:expr, $want:expr, $tol:expr, $($arg:tt)*) => {{
        let (g, w, t): (f64, f64, f64) = ($got, $want, $tol);
        let d = (g - w).abs();
        $crate::engine::meas($key, d / t);
        if !(d <= t) {
            return Err($crate::engine::Viol { key: ($key).to_string(), msg: format!("{} got {:?} want {:?} (diff {:e} > tol {:e})", format!($($arg)*), g, w, d, t) });
        }
    }};
}

thread_local! {
    static MEAS: RefCell<Vec<(&'static str, f64)>> = const { RefCell::new(Vec::new()) };
}
static MEAS_ALL: Mutex<Vec<(&'static str, f64)>> = Mutex::new(Vec::new());

/// Record the worst error/tolerance ratio of a clause.
pub fn meas(name: &'static str, v: f64) {
    let v = if v.is_nan() { 0.0 } else { v };
    MEAS.with(|m| {
        let mut m = m.borrow_mut();
        for e in m.iter_mut() {
            if std::ptr::eq(e.0, name) {
                if v > e.1 {
                    e.1 = v;
                }
                return;
            }
        }
        m.push((name, v));
    });
}
pub fn flush_meas() {
    MEAS.with(|m| {
        let mut all = MEAS_ALL.lock().unwrap();
        for (n, v) in m.borrow_mut().drain(..) {
            match all.iter_mut().find(|e| e.0 == n) {
                Some(e) => e.1 = e.1.max(v),
                None => all.push((n, v)),
            }
        }
    });
}

/// Set of observed states, as a bitmap over state hashes (the count is a lower bound).
pub struct StateSet {
    bits: Vec<AtomicU64>,
    pub count: AtomicU64,
}
const SET_LOG2: u32 = 30;
impl StateSet {
    fn new() -> Self {
        let mut v = Vec::with_capacity(1 << (SET_LOG2 - 6));
        v.resize_with(1 << (SET_LOG2 - 6), || AtomicU64::new(0));
        StateSet { bits: v, count: AtomicU64::new(0) }
    }
    pub fn add(&self, h: u64) {
        let h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - SET_LOG2);
        let (w, b) = ((h >> 6) as usize, 1u64 << (h & 63));
        if self.bits[w].load(Relaxed) & b == 0 && self.bits[w].fetch_or(b, Relaxed) & b == 0 {
            self.count.fetch_add(1, Relaxed);
        }
    }
}

pub fn hash_f(xs: &[f64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in xs {
        h = (h ^ x.to_bits()).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_s(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 31)
}

/// Per-worker progress, visible to the watchdog.
struct Slot {
    started_ms: AtomicU64,
    choices: Mutex<Vec<u32>>,
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    pub choices: Vec<u32>,
    arity: Vec<u32>,
    pub transitions: u64,
    states: &'a StateSet,
    slot: Option<&'a Slot>,
    crumb: Option<&'a std::fs::File>,
    /// set when a violation is being replayed for a human
    pub note: Option<Vec<String>>,
}

impl<'a> Ctx<'a> {
    /// A choice point with `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            std::panic::panic_any(EngineError(format!("replayed choice {c} out of range {n} at point {i}")));
        }
        self.choices.push(c);
        self.arity.push(n as u32);
        if let Some(s) = self.slot {
            let mut g = s.choices.lock().unwrap();
            g.clear();
            g.extend_from_slice(&self.choices);
        }
        if let Some(f) = self.crumb {
            use std::os::unix::fs::FileExt;
            let mut t = String::new();
            for c in &self.choices {
                let _ = write!(t, "{c} ");
            }
            t.push_str("\n");
            let _ = f.write_all_at(t.as_bytes(), 0);
        }
        c as usize
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.choose(xs.len())]
    }
    pub fn val<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())]
    }
    /// One of at most `n` consecutive parts of `xs`.
    pub fn part<'b, T>(&mut self, xs: &'b [T], n: usize) -> &'b [T] {
        let k = xs.len().div_ceil(n);
        let i = self.choose(xs.len().div_ceil(k));
        &xs[i * k..xs.len().min((i + 1) * k)]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// One call into the real code whose result was compared with the model; `obs` is the
    /// observed state.
    pub fn step(&mut self, obs: &[f64]) {
        self.transitions += 1;
        self.states.add(hash_f(obs));
    }
    pub fn step_s(&mut self, obs: &str) {
        self.transitions += 1;
        self.states.add(hash_s(obs));
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.note {
            n.push(f());
        }
    }
}

struct EngineError(String);

pub type Body = Box<dyn Fn(&mut Ctx) -> R + Send + Sync>;

pub enum Kind {
    Dfs(Body),
    Bfs(Box<dyn BfsRun>),
}

pub struct Scenario {
    pub name: &'static str,
    /// the bounds of the exploration, in words
    pub bounds: String,
    pub kind: Kind,
}

pub fn dfs(name: &'static str, bounds: impl Into<String>, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Scenario {
    Scenario { name, bounds: bounds.into(), kind: Kind::Dfs(Box::new(f)) }
}

/// Value `l` of an argument when `p` levels are taken of it.
fn level(v: &[f64], l: usize, p: usize) -> f64 {
    if v.len() <= p {
        v[l % v.len()]
    } else {
        v[l * (v.len() - 1) / (p - 1)]
    }
}
/// Joint values of many arguments: for each (t, p) of `designs`, every combination of p values of
/// any t of the arguments, by an orthogonal array of strength t (the values of all polynomials of
/// degree below t over the field of p elements). Arguments with fewer than p values repeat them,
/// arguments with more are thinned evenly.
pub fn tuples(name: &'static str, what: &str, designs: &'static [(u32, usize)], args: Vec<(&'static str, Vec<f64>)>, f: impl Fn(&mut Ctx, &[f64]) -> R + Send + Sync + 'static) -> Scenario {
    let k = args.len();
    for &(_, p) in designs {
        assert!(k <= p && (2..p).all(|d| p % d != 0), "engine: design");
    }
    let al = args.iter().map(|a| format!("{} {}", a.1.len(), a.0)).collect::<Vec<_>>().join(", ");
    let ds = designs.iter().map(|(t, p)| format!("of any {t} arguments over {p} values each ({} rows)", p.pow(*t))).collect::<Vec<_>>().join(", ");
    let alph: Vec<Vec<f64>> = args.into_iter().map(|a| a.1).collect();
    dfs(name, format!("{what}: every combination {ds}, by orthogonal arrays; values: {al}"), move |c| {
        let (t, p) = c.val(designs);
        // all but the last coefficients of the polynomial
        let mut co: Vec<usize> = (1..t.min(3)).map(|_| c.choose(p)).collect();
        let inner = p.pow(t - co.len() as u32);
        let n = co.len();
        co.resize(t as usize, 0);
        let mut x = vec![0.0; k];
        for i in 0..inner {
            let mut r = i;
            for q in &mut co[n..] {
                *q = r % p;
                r /= p;
            }
            for (j, v) in alph.iter().enumerate() {
                let l = co.iter().fold(0, |acc, q| (acc * j + q) % p);
                x[j] = level(v, l, p);
            }
            f(c, &x)?;
        }
        Ok(())
    })
}
pub const QUICK: &[(u32, usize)] = &[(3, 101), (4, 31), (5, 13)];
pub const DEEP: &[(u32, usize)] = &[(3, 199), (4, 53), (5, 23), (6, 13)];
pub const DEEPER: &[(u32, usize)] = &[(3, 401), (4, 83), (5, 31), (6, 17)];

/// One call of an alphabet of calls: a label and the observable result.
pub type Call = (String, Box<dyn Fn() -> Vec<f64>>);

/// Histories: every sequence of `depth` calls over the alphabet built by `make` (a fresh set of
/// objects for each history). Every call of every history must return, bit for bit, what it
/// returns as the only call of a thread of its own.
pub fn history(name: &'static str, what: &str, depth: usize, make: fn() -> Vec<Call>) -> Scenario {
    let n = make().len();
    let base: std::sync::OnceLock<Vec<Option<Vec<u64>>>> = std::sync::OnceLock::new();
    // the calls of one history, in a thread of its own; None: the call panics
    let run = move |seq: Vec<usize>| -> Vec<Option<Vec<u64>>> {
        std::thread::spawn(move || {
            let w = make();
            seq.iter().map(|i| catch_unwind(AssertUnwindSafe(|| (w[*i].1)().into_iter().map(f64::to_bits).collect())).ok()).collect()
        })
        .join()
        .expect("history thread")
    };
    dfs(name, format!("every sequence of {depth} calls over an alphabet of {n} calls ({what}) on fresh objects in a fresh thread: the result of a call depends on its arguments only"), move |c| {
        let base = base.get_or_init(|| (0..n).map(|i| run(vec![i]).remove(0)).collect());
        let seq: Vec<usize> = (0..depth).map(|_| c.choose(n)).collect();
        let f = |b: &Option<Vec<u64>>| b.as_ref().map(|b| b.iter().map(|x| f64::from_bits(*x)).collect::<Vec<f64>>());
        for (k, (i, v)) in seq.iter().zip(run(seq.clone())).enumerate() {
            c.step(f(&v).as_deref().unwrap_or(&[]));
            if base[*i] != v {
                let w = make();
                let names: Vec<&str> = seq.iter().map(|k| w[*k].0.as_str()).collect();
                return viol("history", format!("after {:?}, {} = {:?} instead of {:?}", &names[..k], names[k], f(&v), f(&base[*i])));
            }
        }
        Ok(())
    })
}

pub trait BfsRun: Send + Sync {
    fn run(&self, eng: &Engine) -> BfsOut;
    fn replay(&self, path: &[u32]) -> (R, Vec<String>);
}
pub struct BfsOut {
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub depth: u64,
    pub viol: Vec<(Vec<u32>, Viol)>,
    pub samples: Vec<String>,
    pub capped: bool,
}

pub struct Bfs<S> {
    pub inits: Vec<S>,
    pub nops: usize,
    pub depth: usize,
    /// apply an operation of the real code to a state; check it; None when not enabled
    pub apply: Box<dyn Fn(&S, usize) -> Result<Option<S>, Viol> + Send + Sync>,
    pub invariant: Box<dyn Fn(&S) -> R + Send + Sync>,
    pub key: fn(&S) -> u64,
    pub show: fn(&S) -> String,
    pub op_name: Box<dyn Fn(usize) -> String + Send + Sync>,
}

fn guarded<T>(f: impl FnOnce() -> Result<T, Viol>) -> Result<T, Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            if let Some(e) = p.downcast_ref::<EngineError>() {
                eprintln!("engine error: {}", e.0);
                std::process::exit(2);
            }
            let (msg, loc) = LAST_PANIC.with(|l| l.borrow().clone());
            viol("panic", format!("panic: {msg} ({loc})"))
        }
    }
}

impl<S: Clone + Send + Sync + 'static> BfsRun for Bfs<S> {
    fn run(&self, eng: &Engine) -> BfsOut {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut frontier: Vec<(S, Vec<u32>)> = vec![];
        let mut out = BfsOut { states: 0, transitions: 0, executions: 0, depth: 0, viol: vec![], samples: vec![], capped: false };
        for (i, s) in self.inits.iter().enumerate() {
            if let Err(v) = guarded(|| (self.invariant)(s)) {
                out.viol.push((vec![i as u32], v));
                continue;
            }
            if seen.insert((self.key)(s)) {
                frontier.push((s.clone(), vec![i as u32]));
            }
        }
        for d in 0..self.depth {
            if frontier.is_empty() {
                break;
            }
            out.depth = d as u64 + 1;
            let chunk = frontier.len().div_ceil(eng.threads * 4).max(1);
            let next: Mutex<Vec<(usize, Vec<(S, Vec<u32>, u64)>, u64, Vec<(Vec<u32>, Viol)>)>> = Mutex::new(vec![]);
            let chunks: Vec<(usize, &[(S, Vec<u32>)])> = frontier.chunks(chunk).enumerate().collect();
            let ix = AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for _ in 0..eng.threads {
                    sc.spawn(|| loop {
                        let k = ix.fetch_add(1, Relaxed);
                        if k >= chunks.len() || eng.over_time() {
                            break;
                        }
                        let (id, c) = &chunks[k];
                        let (mut ns, mut tr, mut vs) = (vec![], 0u64, vec![]);
                        for (s, path) in c.iter() {
                            for op in 0..self.nops {
                                let mut p = path.clone();
                                p.push(op as u32);
                                tr += 1;
                                match guarded(|| (self.apply)(s, op).and_then(|n| {
                                    if let Some(n) = &n {
                                        (self.invariant)(n)?;
                                    }
                                    Ok(n)
                                })) {
                                    Ok(Some(n)) => {
                                        let k = (self.key)(&n);
                                        ns.push((n, p, k));
                                    }
                                    Ok(None) => {}
                                    Err(v) => {
                                        if vs.len() < 50 {
                                            vs.push((p, v));
                                        }
                                    }
                                }
                            }
                        }
                        flush_meas();
                        next.lock().unwrap().push((*id, ns, tr, vs));
                    });
                }
            });
            let mut res = next.into_inner().unwrap();
            if res.len() < chunks.len() {
                out.capped = true;
            }
            res.sort_by_key(|r| r.0);
            let mut nf = vec![];
            for (_, ns, tr, vs) in res {
                out.transitions += tr;
                out.viol.extend(vs);
                for (s, p, k) in ns {
                    if seen.insert(k) {
                        nf.push((s, p));
                    }
                }
            }
            if !out.viol.is_empty() && out.viol.iter().any(|(_, v)| !eng.is_known(&v.key)) {
                break;
            }
            frontier = nf;
            if out.capped {
                break;
            }
        }
        out.executions = seen.len() as u64;
        out.states = seen.len() as u64;
        if let Some((s, p)) = frontier.last() {
            out.samples.push(format!("{} reached by {}", (self.show)(s), self.path(p)));
        }
        out
    }

    fn replay(&self, path: &[u32]) -> (R, Vec<String>) {
        let mut notes = vec![];
        let mut s = self.inits[path[0] as usize].clone();
        notes.push(format!("init {}", (self.show)(&s)));
        if let Err(v) = guarded(|| (self.invariant)(&s)) {
            return (Err(v), notes);
        }
        for &op in &path[1..] {
            notes.push(format!("op {}", (self.op_name)(op as usize)));
            match guarded(|| (self.apply)(&s, op as usize).and_then(|n| {
                if let Some(n) = &n {
                    (self.invariant)(n)?;
                }
                Ok(n)
            })) {
                Ok(Some(n)) => s = n,
                Ok(None) => {}
                Err(v) => return (Err(v), notes),
            }
            notes.push(format!("state {}", (self.show)(&s)));
        }
        (Ok(()), notes)
    }
}
impl<S> Bfs<S> {
    fn path(&self, p: &[u32]) -> String {
        let mut t = format!("init#{}", p[0]);
        for &o in &p[1..] {
            let _ = write!(t, " ; {}", (self.op_name)(o as usize));
        }
        t
    }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new()));
}

/// Run `f`, which is expected to panic; returns whether it did.
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub struct Engine {
    pub threads: usize,
    pub t0: Instant,
    pub cap: Duration,
    known: Vec<String>,
    crumb_dir: Option<String>,
    hang: Duration,
}

impl Engine {
    pub fn over_time(&self) -> bool {
        self.t0.elapsed() > self.cap
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|k| k == key)
    }
}

struct DfsOut {
    executions: u64,
    transitions: u64,
    max_depth: usize,
    viol: Vec<(Vec<u32>, Viol)>,
    known: Vec<(Vec<u32>, Viol)>,
    samples: Vec<String>,
    capped: bool,
}

fn run_once<'a>(body: &Body, prefix: &'a [u32], states: &'a StateSet, slot: Option<&'a Slot>, crumb: Option<&'a std::fs::File>, note: bool) -> (R, Vec<u32>, Vec<u32>, u64, Vec<String>) {
    let mut ctx = Ctx {
        prefix,
        choices: Vec::with_capacity(16),
        arity: Vec::with_capacity(16),
        transitions: 0,
        states,
        slot,
        crumb,
        note: if note { Some(vec![]) } else { None },
    };
    let r = guarded(|| body(&mut ctx));
    (r, ctx.choices, ctx.arity, ctx.transitions, ctx.note.unwrap_or_default())
}

fn explore(eng: &Engine, prop: &str, sc: &Scenario, body: &Body, states: &StateSet) -> DfsOut {
    let slots: Vec<Arc<Slot>> = (0..eng.threads).map(|_| Arc::new(Slot { started_ms: AtomicU64::new(0), choices: Mutex::new(vec![]) })).collect();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let ix = AtomicUsize::new(0);
    let outs: Mutex<Vec<DfsOut>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    let ms = |t0: Instant| t0.elapsed().as_millis() as u64 + 1;
    let mut prefixes: Vec<Vec<u32>> = vec![vec![]];
    std::thread::scope(|scope| {
        // watchdog: an execution that does not end is a violation
        {
            let (slots, done, hang) = (&slots, &done, eng.hang);
            scope.spawn(move || {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = ms(t0);
                    for s in slots.iter() {
                        let st = s.started_ms.load(Relaxed);
                        if st != 0 && now.saturating_sub(st) > hang.as_millis() as u64 {
                            let ch = s.choices.lock().unwrap().clone();
                            let msg = format!("execution did not terminate within {} s", hang.as_secs());
                            if s.started_ms.load(Relaxed) == st {
                                report_violation(prop, sc.name, &ch, &Viol { key: "hang".into(), msg }, &[]);
                                write_hang_evidence(prop);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        }
        // Split the tree into prefixes (these probe executions are run again by the workers).
        let crumb = eng.crumb_dir.as_ref().map(|d| std::fs::File::create(format!("{d}/{}-split", sc.name)).unwrap());
        while prefixes.len() < eng.threads * 16 {
            let mut next = vec![];
            let mut grew = false;
            for (k, p) in prefixes.iter().enumerate() {
                slots[0].started_ms.store(ms(t0), Relaxed);
                let (_, ch, ar, _, _) = run_once(body, p, states, Some(&slots[0]), crumb.as_ref(), false);
                slots[0].started_ms.store(0, Relaxed);
                if ch.len() > p.len() {
                    grew = true;
                    for c in 0..ar[p.len()] {
                        let mut q = p.clone();
                        q.push(c);
                        next.push(q);
                    }
                } else {
                    next.push(p.clone());
                }
                if next.len() > 20_000 {
                    // wide enough already; keep the rest unexpanded
                    next.extend(prefixes[k + 1..].iter().cloned());
                    break;
                }
            }
            prefixes = next;
            if !grew {
                break;
            }
        }
        let prefixes = &prefixes;
        for w in 0..eng.threads {
            let slot = slots[w].clone();
            let (stop, capped, ix, outs) = (&stop, &capped, &ix, &outs);
            let spawn = std::thread::Builder::new().stack_size(16 << 20);
            spawn
                .spawn_scoped(scope, move || {
                    let crumb = eng.crumb_dir.as_ref().map(|d| std::fs::File::create(format!("{d}/{}-{w}", sc.name)).unwrap());
                    let mut o = DfsOut { executions: 0, transitions: 0, max_depth: 0, viol: vec![], known: vec![], samples: vec![], capped: false };
                    'outer: loop {
                        let k = ix.fetch_add(1, Relaxed);
                        if k >= prefixes.len() {
                            break;
                        }
                        let base = prefixes[k].clone();
                        let mut cur = base.clone();
                        let mut n = 0u64;
                        loop {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if n & 63 == 0 && eng.over_time() {
                                capped.store(true, Relaxed);
                                break 'outer;
                            }
                            n += 1;
                            slot.started_ms.store(ms(t0), Relaxed);
                            let (r, ch, ar, tr, _) = run_once(body, &cur, states, Some(&slot), crumb.as_ref(), false);
                            slot.started_ms.store(0, Relaxed);
                            o.executions += 1;
                            o.transitions += tr;
                            o.max_depth = o.max_depth.max(ch.len());
                            if let Err(v) = r {
                                if eng.is_known(&v.key) {
                                    if o.known.len() < 20 {
                                        o.known.push((ch.clone(), v));
                                    }
                                } else {
                                    o.viol.push((ch.clone(), v));
                                    stop.store(true, Relaxed);
                                    break 'outer;
                                }
                            }
                            // next leaf
                            let mut i = ch.len();
                            let mut found = false;
                            while i > base.len() {
                                i -= 1;
                                if ch[i] + 1 < ar[i] {
                                    cur = ch[..i].to_vec();
                                    cur.push(ch[i] + 1);
                                    found = true;
                                    break;
                                }
                            }
                            if !found {
                                break;
                            }
                        }
                    }
                    flush_meas();
                    outs.lock().unwrap().push(o);
                })
                .unwrap();
        }
        loop {
            std::thread::sleep(Duration::from_millis(2));
            if outs.lock().unwrap().len() == eng.threads {
                break;
            }
        }
        done.store(true, Relaxed);
    });
    let mut tot = DfsOut { executions: 0, transitions: 0, max_depth: 0, viol: vec![], known: vec![], samples: vec![], capped: capped.load(Relaxed) };
    for o in outs.into_inner().unwrap() {
        tot.executions += o.executions;
        tot.transitions += o.transitions;
        tot.max_depth = tot.max_depth.max(o.max_depth);
        tot.viol.extend(o.viol);
        tot.known.extend(o.known);
    }
    tot.viol.sort_by(|a, b| a.0.cmp(&b.0));
    // a sample: the middle of the tree
    for frac in [2usize, 3] {
        let p = &prefixes[prefixes.len() / frac];
        let (_, ch, _, _, notes) = run_once(body, p, states, None, None, true);
        tot.samples.push(format!("{} choices={:?} {}", sc.name, ch, notes.join("; ")));
    }
    tot
}

// ------------------------------------------------------------------ reporting
pub fn jesc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn verif_dir() -> String {
    std::env::var("MC_VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn report_violation(prop: &str, scen: &str, ch: &[u32], v: &Viol, notes: &[String]) {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}.txt");
    let mut t = String::new();
    let _ = writeln!(t, "property {prop}");
    let _ = writeln!(t, "tier {}", std::env::var("MC_TIER").unwrap_or_default());
    let _ = writeln!(t, "scenario {scen}");
    let _ = writeln!(t, "choices {}", ch.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(t, "key {}", v.key);
    let _ = writeln!(t, "message {}", v.msg.replace('\n', " "));
    for n in notes {
        let _ = writeln!(t, "note {n}");
    }
    let _ = writeln!(t, "replay with: mc replay {path}");
    let _ = std::fs::write(&path, t);
    println!("scenario {scen}: [{}] {}", v.key, v.msg);
    println!("VIOLATION property={prop} replay={path}");
}

fn write_hang_evidence(prop: &str) {
    write_evidence(prop, 0, 0, 0, 0, &[], &["one execution did not terminate; the run was stopped there".into()], false, 0, 1, 0.0, &[]);
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, states: u64, transitions: u64, traces: u64, depth: u64, samples: &[String], bounds: &[String], exhaustive: bool, known: u64, violations: u64, wall: f64, per: &[String]) {
    let tier = std::env::var("MC_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let q = |v: &[String]| v.iter().map(|s| format!("\"{}\"", jesc(s))).collect::<Vec<_>>().join(", ");
    let t = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n  \"max_depth\": {depth},\n  \"exhaustive\": {exhaustive},\n  \"known_findings_hit\": {known},\n  \"worst_error_over_tolerance\": {{{}}},\n  \"bounds\": [{}],\n  \"per_scenario\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"states = distinct observed results of the real code (hash bitmap, lower bound); transitions = calls into the real code compared with the reference model; traces = complete executions of the choice tree run on the real code\", \"values between the enumerated inputs are not covered\"],\n \"wall_s\": {wall:.3},\n \"violations\": {violations}\n}}\n",
        margins(),
        q(bounds),
        q(per),
        q(samples)
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), t).expect("evidence");
}

fn margins() -> String {
    flush_meas();
    let mut v = MEAS_ALL.lock().unwrap().clone();
    v.sort_by(|a, b| a.0.cmp(b.0));
    v.iter().filter(|e| e.1.is_finite()).map(|(n, x)| format!("\"{}\": {:.3e}", jesc(n), x)).collect::<Vec<_>>().join(", ")
}

fn known_keys(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                if p == prop {
                    v.push((k, it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

pub struct Prop {
    pub id: &'static str,
    pub scenarios: fn(thorough: bool) -> Vec<Scenario>,
}

fn child(prop: &Prop, thorough: bool) -> i32 {
    let known = known_keys(prop.id);
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 400 });
    let eng = Engine {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        t0: Instant::now(),
        cap: Duration::from_secs(cap),
        known: known.iter().map(|k| k.0.clone()).collect(),
        crumb_dir: std::env::var("MC_CRUMB").ok(),
        hang: Duration::from_secs(if thorough { 60 } else { 30 }),
    };
    let states = StateSet::new();
    let (mut tr, mut ex, mut depth, mut bfs_states) = (0u64, 0u64, 0u64, 0u64);
    let (mut samples, mut bounds, mut per) = (vec![], vec![], vec![]);
    let mut exhaustive = true;
    let mut nviol = 0u64;
    let mut hit: Vec<String> = vec![];
    let only = std::env::var("MC_SCENARIO").ok();
    for sc in (prop.scenarios)(thorough) {
        if only.as_ref().map_or(false, |o| o != sc.name) {
            continue;
        }
        let t = Instant::now();
        bounds.push(format!("{}: {}", sc.name, sc.bounds));
        let (viols, knowns) = match &sc.kind {
            Kind::Dfs(body) => {
                let o = explore(&eng, prop.id, &sc, body, &states);
                tr += o.transitions;
                ex += o.executions;
                depth = depth.max(o.max_depth as u64);
                samples.extend(o.samples);
                exhaustive &= !o.capped && o.viol.is_empty();
                per.push(format!("{}: executions={} transitions={} capped={} wall={:.2}s", sc.name, o.executions, o.transitions, o.capped, t.elapsed().as_secs_f64()));
                (o.viol, o.known)
            }
            Kind::Bfs(b) => {
                let o = b.run(&eng);
                tr += o.transitions;
                ex += o.executions;
                bfs_states += o.states;
                depth = depth.max(o.depth);
                samples.extend(o.samples);
                exhaustive &= !o.capped;
                per.push(format!("{}: states={} transitions={} depth={} capped={} wall={:.2}s", sc.name, o.states, o.transitions, o.depth, o.capped, t.elapsed().as_secs_f64()));
                let (k, v): (Vec<_>, Vec<_>) = o.viol.into_iter().partition(|(_, v)| eng.is_known(&v.key));
                (v, k)
            }
        };
        for (_, v) in &knowns {
            if !hit.contains(&v.key) {
                hit.push(v.key.clone());
            }
        }
        if let Some((ch, v)) = viols.first() {
            nviol += viols.len() as u64;
            // replay twice: the same choices must give the same verdict
            let rp = || match &sc.kind {
                Kind::Dfs(b) => {
                    let (r, _, _, _, n) = run_once(b, ch, &states, None, None, true);
                    (r, n)
                }
                Kind::Bfs(b) => b.replay(ch),
            };
            let (r1, notes) = rp();
            let (r2, _) = rp();
            match (r1, r2) {
                (Err(a), Err(b)) if a.key == b.key && a.key == v.key => {}
                _ => {
                    // The drivers are deterministic and share nothing between executions: the code
                    // under test remembers earlier calls, and answers this one differently after them.
                    println!("scenario {}: the failing execution passes when run alone: results depend on earlier calls", sc.name);
                }
            }
            report_violation(prop.id, sc.name, ch, v, &notes);
            exhaustive = false;
            break;
        }
    }
    for p in &per {
        println!("{} {}", prop.id, p);
    }
    println!("{} worst error/tolerance: {}", prop.id, margins());
    for (k, d) in &known {
        if hit.contains(k) {
            println!("KNOWN-FINDING: property={} {} ({})", prop.id, d, k);
        }
    }
    let st = states.count.load(Relaxed) + bfs_states;
    println!("{}: states={} transitions={} executions={} exhaustive={} wall={:.1}s", prop.id, st, tr, ex, exhaustive, eng.t0.elapsed().as_secs_f64());
    write_evidence(prop.id, st, tr, ex, depth, &samples, &bounds, exhaustive, hit.len() as u64, nviol, eng.t0.elapsed().as_secs_f64(), &per);
    if nviol == 0 && (ex == 0 || tr == 0) {
        if only.is_none() {
            eprintln!("engine error: nothing was explored");
            return 2;
        }
    }
    if nviol > 0 {
        1
    } else {
        0
    }
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (p, s) = (get("property "), get("scenario "));
    let ch: Vec<u32> = get("choices ").split_whitespace().map(|c| c.parse().unwrap()).collect();
    let thorough = get("tier ") == "thorough";
    let prop = props.iter().find(|x| x.id == p).expect("property");
    let states = StateSet::new();
    for sc in (prop.scenarios)(thorough) {
        if sc.name == s {
            let (r, notes) = match &sc.kind {
                Kind::Dfs(b) => {
                    let (r, _, _, _, n) = run_once(b, &ch, &states, None, None, true);
                    (r, n)
                }
                Kind::Bfs(b) => b.replay(&ch),
            };
            for n in notes {
                println!("{n}");
            }
            match r {
                Ok(()) => {
                    println!("no violation on replay");
                    return 0;
                }
                Err(v) => {
                    println!("[{}] {}", v.key, v.msg);
                    return 1;
                }
            }
        }
    }
    2
}

/// After the engine process died (stack overflow, abort): find the execution that kills it.
fn diagnose(id: &str, tier: &str, how: &str) -> i32 {
    let dir = format!("{}/evidence/crumbs", verif_dir());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(["check", id, tier]).env("MC_CHILD", "1").env("MC_CRUMB", &dir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    let _ = st;
    let mut code = 2;
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().into_string().unwrap();
        let scen = name.rsplit_once('-').unwrap().0.to_string();
        let txt = std::fs::read_to_string(e.path()).unwrap_or_default();
        let ch = txt.lines().next().unwrap_or("").trim().to_string();
        let f = format!("{dir}/cand.txt");
        std::fs::write(&f, format!("property {id}\ntier {tier}\nscenario {scen}\nchoices {ch}\n")).unwrap();
        let r = std::process::Command::new(&exe).args(["replay", &f]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
        if r.code().is_none() {
            let chv: Vec<u32> = ch.split_whitespace().map(|c| c.parse().unwrap()).collect();
            report_violation(id, &scen, &chv, &Viol { key: "abort".into(), msg: format!("the process dies ({how}) on this execution") }, &[]);
            write_evidence(id, 0, 0, 0, 0, &[], &["the process under test died; the run was stopped there".into()], false, 0, 1, 0.0, &[]);
            code = 1;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 2 {
        eprintln!("engine error: the engine died ({how}) and no single execution reproduces it");
    }
    code
}

pub fn main_with(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = (msg.replace('\n', " "), loc));
    }));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[2];
            let tier = args.get(3).map(|s| s.as_str()).unwrap_or("quick").to_string();
            std::env::set_var("MC_TIER", &tier);
            let prop = props.iter().find(|p| p.id == id.as_str()).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            });
            if std::env::var("MC_CHILD").is_ok() {
                match catch_unwind(AssertUnwindSafe(|| child(prop, tier == "thorough"))) {
                    Ok(c) => c,
                    Err(_) => {
                        // the inputs of a scenario are built with the library, which never fails on them
                        let (msg, loc) = LAST_PANIC.with(|l| l.borrow().clone());
                        if loc.contains("geokit/src/") || loc.contains("src/props/") {
                            report_violation(prop.id, "-", &[], &Viol { key: "panic".into(), msg: format!("the library panics while valid inputs are built: {msg} at {loc}") }, &[]);
                            write_evidence(prop.id, 0, 0, 0, 0, &[], &["the library panicked while the inputs were built; the run was stopped there".into()], false, 0, 1, 0.0, &[]);
                            1
                        } else {
                            eprintln!("engine error: panic: {msg} at {loc}");
                            2
                        }
                    }
                }
            } else {
                let exe = std::env::current_exe().unwrap();
                let st = std::process::Command::new(exe).args(&args[1..]).env("MC_CHILD", "1").status().expect("spawn");
                match st.code() {
                    Some(c) => c,
                    None => {
                        use std::os::unix::process::ExitStatusExt;
                        let sig = st.signal().unwrap_or(0);
                        if sig == 11 || sig == 6 || sig == 7 || sig == 4 || sig == 8 {
                            diagnose(id, &tier, &format!("signal {sig}"))
                        } else {
                            eprintln!("engine error: killed by signal {sig}");
                            2
                        }
                    }
                }
            }
        }
        Some("replay") => replay(props, &args[2]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> [quick|thorough] | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code)
}
