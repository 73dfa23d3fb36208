//! Path-exploring symbolic executor.
//!
//! The code under test runs natively at the point type `Sym`. Every comparison
//! it makes is a branch on a linear integer condition; Z3 decides which
//! outcomes are satisfiable under the path condition, and every satisfiable
//! outcome is executed (depth-first, by re-execution).
use crate::z3::{Ast, Res, Z3};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const NONE: u32 = u32::MAX;
pub const V_MIN: u32 = 0;
pub const V_MAX: u32 = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Le, Ge, Eq, Ne }

/// `a - b (+ extra) op c` over integer variables.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Cond { pub a: u32, pub b: u32, pub extra: u32, pub op: Op, pub c: i64 }

impl Cond {
    fn eval(&self, m: &[i64]) -> bool {
        let e = if self.extra == NONE { 0 } else { m[self.extra as usize] };
        let v = m[self.a as usize] - m[self.b as usize] + e;
        match self.op { Op::Le => v <= self.c, Op::Ge => v >= self.c, Op::Eq => v == self.c, Op::Ne => v != self.c }
    }
}

#[derive(Clone, Debug)]
enum Ev {
    Var,
    Assume(Cond),
    /// `outcome` taken; untried feasible alternatives with their models.
    Branch { n: u8, outcome: u8, first: Cond, taken: Cond, alts: Vec<(u8, Cond, Vec<i64>)>, scope: bool },
    Choose { n: u32, outcome: u32, end: u32, model: Vec<i64>, scope: bool },
}

#[derive(Clone)]
pub struct Job { prefix: Vec<u32> }

#[derive(Clone, Debug)]
pub struct Witness { pub choices: Vec<u32>, pub values: Vec<i64>, pub m: i64 }

#[derive(Clone, Debug)]
pub struct Found { pub msg: String, pub wit: Witness, pub wit_u8: Option<Witness> }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub nodes: u64, pub decided: u64, pub cached: u64,
    pub sat: u64, pub unsat: u64, pub unknown: u64, pub solver_ns: u64, pub reexec_ok: u64,
    pub max_depth: u64, pub validated: u64,
    pub covers: HashMap<&'static str, u64>,
    pub obs_mix: u64,
}
impl Stats {
    fn add(&mut self, o: &Stats) {
        self.paths += o.paths; self.infeasible += o.infeasible; self.nodes += o.nodes; self.decided += o.decided;
        self.cached += o.cached; self.sat += o.sat; self.unsat += o.unsat; self.unknown += o.unknown;
        self.solver_ns += o.solver_ns; self.max_depth = self.max_depth.max(o.max_depth); self.validated += o.validated;
        for (k, v) in &o.covers { *self.covers.entry(k).or_default() += v; }
        self.obs_mix = self.obs_mix.wrapping_add(o.obs_mix);
    }
}

// Payloads used to unwind out of a path.
pub struct Infeasible;
pub struct CheckFail(pub String);
pub struct Budget;

const STEP_BUDGET: usize = 4_000_000;

pub struct Engine {
    z: Z3,
    vars: Vec<Ast>,
    asts: HashMap<Cond, Ast>,
    finite: bool,
    // Current path.
    trace: Vec<Ev>,
    pos: usize,
    nvars: usize,
    scopes: u32,
    model: Vec<i64>,
    facts: HashMap<(u32, u32), (i64, i64)>,
    memo: HashMap<(u32, u32, u32, i64, u8), u8>,
    classes: Vec<(u32, i64)>,
    inputs: Vec<u32>,
    forced: Vec<u32>,
    forced_pos: usize,
    steps: usize,
    obs: Vec<ObsItem>,
    covers: Vec<&'static str>,
    pub stats: Stats,
    dumps: Vec<String>,
    dump_every: u64,
}
#[derive(Clone, Debug)]
pub enum ObsItem { U(u64), P(u32, i64) }

thread_local! {
    static ENG: RefCell<Option<Engine>> = const { RefCell::new(None) };
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn active() -> bool { ENG.with(|e| e.borrow().is_some()) }
fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("no engine on this thread")))
}

/// Shared progress slots for the watchdog and the crash dump.
pub const SLOTS: usize = 64;
pub static PROGRESS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
pub static BUSY: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];
/// Raw dump area per slot: [len, m, nchoices, choices.., values..], written by
/// the worker, read by the signal handler or the watchdog.
pub const DUMP_LEN: usize = 256;
pub static DUMP: [[AtomicU64; DUMP_LEN]; SLOTS] = [const { [const { AtomicU64::new(0) }; DUMP_LEN] }; SLOTS];

impl Engine {
    fn new(finite: bool, dump_every: u64) -> Engine {
        Engine {
            z: Z3::new(), vars: vec![], asts: HashMap::new(), finite, trace: vec![], pos: 0, nvars: 0, scopes: 0,
            model: vec![], facts: HashMap::new(), memo: HashMap::new(), classes: vec![], inputs: vec![],
            forced: vec![], forced_pos: 0, steps: 0, obs: vec![], covers: vec![], stats: Stats::default(),
            dumps: vec![], dump_every,
        }
    }
    fn ast(&mut self, c: Cond) -> Ast {
        if let Some(a) = self.asts.get(&c) { return *a; }
        let mut l = self.z.sub(self.vars[c.a as usize], self.vars[c.b as usize]);
        if c.extra != NONE {
            let zero = self.z.int(0);
            let neg = self.z.sub(zero, self.vars[c.extra as usize]);
            l = self.z.sub(l, neg);
        }
        let k = self.z.int(c.c);
        let a = match c.op {
            Op::Le => self.z.le(l, k),
            Op::Ge => self.z.le(k, l),
            Op::Eq => self.z.eq(l, k),
            Op::Ne => { let e = self.z.eq(l, k); self.z.not(e) }
        };
        let _ = self.asts.insert(c, a);
        a
    }
    fn zcheck(&mut self) -> Res {
        let t = Instant::now();
        let r = self.z.check();
        self.stats.solver_ns += t.elapsed().as_nanos() as u64;
        match r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => {
                self.stats.unsat += 1;
                if self.dump_every > 0 && self.stats.unsat % self.dump_every == 1 % self.dump_every && self.dumps.len() < 64 {
                    self.dumps.push(self.z.smt2());
                }
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
    fn fetch_model(&mut self) -> Vec<i64> {
        let n = self.nvars;
        self.z.model(&self.vars[..n])
    }
    fn begin_path(&mut self) {
        self.pos = 0; self.nvars = 0; self.facts.clear(); self.memo.clear(); self.classes.clear();
        self.inputs.clear(); // Forced outcomes steer the first path of a job only.
        self.forced_pos = if self.trace.is_empty() { 0 } else { self.forced.len() };
        self.steps = 0; self.obs.clear(); self.covers.clear();
        self.dump_slot();
        // Domain: variable 0 is the constant zero (MINIMUM), variable 1 is MAXIMUM >= 0.
        let z = self.new_var();
        let m = self.new_var();
        let _ = self.assume(Cond { a: z, b: z, extra: z, op: Op::Eq, c: 0 });
        let _ = self.assume(Cond { a: m, b: z, extra: NONE, op: Op::Ge, c: 0 });
    }
    fn new_var(&mut self) -> u32 {
        let id = self.nvars as u32;
        if self.vars.len() <= self.nvars { let a = self.z.var(id); self.vars.push(a); }
        self.nvars += 1;
        if self.pos < self.trace.len() {
            match self.trace[self.pos] { Ev::Var => {}, _ => self.nondet("var") }
            self.pos += 1;
            if self.model.len() < self.nvars { self.model.push(0); }
        } else {
            self.trace.push(Ev::Var);
            self.pos += 1;
            self.model.truncate(self.nvars - 1);
            self.model.push(0);
        }
        id
    }
    fn nondet(&self, what: &str) -> ! {
        eprintln!("symx: the code under test is not deterministic (at {what}); cannot explore");
        std::process::exit(2);
    }
    fn learn(&mut self, c: Cond) {
        if c.extra != NONE || c.a == c.b { return; }
        let (key, lo, hi, ne) = if c.a < c.b {
            let (lo, hi, ne) = match c.op { Op::Le => (i64::MIN, c.c, None), Op::Ge => (c.c, i64::MAX, None), Op::Eq => (c.c, c.c, None), Op::Ne => (i64::MIN, i64::MAX, Some(c.c)) };
            ((c.a, c.b), lo, hi, ne)
        } else {
            let (lo, hi, ne) = match c.op { Op::Le => (-c.c, i64::MAX, None), Op::Ge => (i64::MIN, -c.c, None), Op::Eq => (-c.c, -c.c, None), Op::Ne => (i64::MIN, i64::MAX, Some(-c.c)) };
            ((c.b, c.a), lo, hi, ne)
        };
        let f = self.facts.entry(key).or_insert((i64::MIN, i64::MAX));
        f.0 = f.0.max(lo);
        f.1 = f.1.min(hi);
        if let Some(n) = ne { if f.0 == n { f.0 += 1 } if f.1 == n { f.1 -= 1 } }
    }
    /// Whether the per-path fact cache already decides the condition.
    fn known(&self, c: Cond) -> Option<bool> {
        if c.extra != NONE { return None; }
        let (lo, hi) = if c.a == c.b { (0, 0) } else if c.a < c.b {
            *self.facts.get(&(c.a, c.b))?
        } else {
            let (l, h) = *self.facts.get(&(c.b, c.a))?;
            (if h == i64::MAX { i64::MIN } else { -h }, if l == i64::MIN { i64::MAX } else { -l })
        };
        match c.op {
            Op::Le => if hi <= c.c { Some(true) } else if lo > c.c { Some(false) } else { None },
            Op::Ge => if lo >= c.c { Some(true) } else if hi < c.c { Some(false) } else { None },
            Op::Eq => if lo == c.c && hi == c.c { Some(true) } else if c.c < lo || c.c > hi { Some(false) } else { None },
            Op::Ne => if lo == c.c && hi == c.c { Some(false) } else if c.c < lo || c.c > hi { Some(true) } else { None },
        }
    }
    fn dump_slot(&self) {
        let s = SLOT.with(Cell::get);
        if s >= SLOTS { return; }
        let d = &DUMP[s];
        d[0].store(0, AO::Relaxed);
        let mut i = 3;
        let mut nch = 0;
        for e in &self.trace[..self.pos.min(self.trace.len())] {
            if let Ev::Choose { outcome, .. } = e { if i < DUMP_LEN { d[i].store(*outcome as u64, AO::Relaxed); i += 1; nch += 1; } }
        }
        for &v in &self.inputs {
            if i < DUMP_LEN { d[i].store(self.model.get(v as usize).copied().unwrap_or(0) as u64, AO::Relaxed); i += 1; }
        }
        d[1].store(self.model.get(1).copied().unwrap_or(0) as u64, AO::Relaxed);
        d[2].store(nch, AO::Relaxed);
        d[0].store(i as u64, AO::Release);
    }
    fn tick(&mut self) -> bool {
        let s = SLOT.with(Cell::get);
        if s < SLOTS { let _ = PROGRESS[s].fetch_add(1, AO::Relaxed); }
        self.steps += 1;
        self.steps > STEP_BUDGET
    }
    /// Returns false when the assumption makes the path infeasible.
    fn assume(&mut self, c: Cond) -> bool {
        if self.pos < self.trace.len() {
            match self.trace[self.pos] { Ev::Assume(ref t) if *t == c => {}, _ => self.nondet("assume") }
            self.pos += 1;
            self.learn(c);
            return true;
        }
        match self.known(c) { Some(true) => {} , Some(false) => return false, None => {
            let a = self.ast(c);
            self.z.assert(a);
            if !c.eval(&self.model) {
                match self.zcheck() {
                    Res::Sat => self.model = self.fetch_model(),
                    Res::Unsat => return false,
                    Res::Unknown => unknown(),
                }
            }
            self.learn(c);
        } }
        self.trace.push(Ev::Assume(c));
        self.pos += 1;
        true
    }
    /// Branch on mutually exclusive, exhaustive conditions.
    fn branch(&mut self, conds: &[Cond]) -> usize {
        // Already decided on this path?
        let mut undecided = 0;
        for (i, c) in conds.iter().enumerate() {
            match self.known(*c) { Some(true) => { self.stats.cached += 1; return i; } Some(false) => {}, None => undecided += 1 }
        }
        let key = (conds[0].a, conds[0].b, conds[0].extra, conds[0].c, conds[0].op as u8 * 4 + conds.len() as u8);
        if undecided > 0 { if let Some(&o) = self.memo.get(&key) { self.stats.cached += 1; return o as usize; } }
        if self.pos < self.trace.len() {
            let (o, t) = match self.trace[self.pos] {
                Ev::Branch { n, outcome, first, taken, .. } if n as usize == conds.len() && first == conds[0] => (outcome, taken),
                _ => self.nondet("branch"),
            };
            self.pos += 1;
            self.learn(t);
            let _ = self.memo.insert(key, o);
            return o as usize;
        }
        self.stats.nodes += 1;
        // The current model satisfies exactly one outcome.
        let cur = conds.iter().position(|c| c.eval(&self.model)).expect("conditions are exhaustive");
        let forced = if self.forced_pos < self.forced.len() { Some(self.forced[self.forced_pos] as usize) } else { None };
        let mut alts: Vec<(u8, Cond, Vec<i64>)> = vec![];
        let mut model_forced = None;
        for (i, c) in conds.iter().enumerate() {
            if i == cur { continue; }
            if self.known(*c) == Some(false) { continue; }
            let a = self.ast(*c);
            self.z.push();
            self.z.assert(a);
            let r = self.zcheck();
            self.stats.decided += 1;
            match r {
                Res::Sat => {
                    let m = self.fetch_model();
                    if forced == Some(i) { model_forced = Some(m.clone()); }
                    alts.push((i as u8, *c, m));
                }
                Res::Unsat => {}
                Res::Unknown => unknown(),
            }
            self.z.pop(1);
        }
        let multi = !alts.is_empty();
        let mut outcome = cur;
        if multi {
            if let Some(f) = forced {
                self.forced_pos += 1;
                if f != cur {
                    outcome = f;
                    self.model = model_forced.unwrap_or_else(|| self.nondet("forced branch"));
                }
                alts.clear();
            }
            self.z.push();
            self.scopes += 1;
            let a = self.ast(conds[outcome]);
            self.z.assert(a);
        }
        self.learn(conds[outcome]);
        let _ = self.memo.insert(key, outcome as u8);
        self.trace.push(Ev::Branch { n: conds.len() as u8, outcome: outcome as u8, first: conds[0], taken: conds[outcome], alts, scope: multi });
        self.pos += 1;
        self.dump_slot();
        outcome
    }
    fn choose(&mut self, n: u32) -> u32 {
        if self.pos < self.trace.len() {
            let o = match self.trace[self.pos] { Ev::Choose { n: m, outcome, .. } if m == n => outcome, _ => self.nondet("choose") };
            self.pos += 1;
            return o;
        }
        let mut o = 0;
        let mut end = n;
        let multi = n > 1;
        if multi {
            if self.forced_pos < self.forced.len() { o = self.forced[self.forced_pos]; self.forced_pos += 1; end = o + 1; }
            self.z.push();
            self.scopes += 1;
        }
        self.trace.push(Ev::Choose { n, outcome: o, end, model: if multi { self.model.clone() } else { vec![] }, scope: multi });
        self.pos += 1;
        self.dump_slot();
        o
    }
    fn witness(&self) -> Witness {
        let mut choices = vec![];
        for e in &self.trace[..self.pos] { if let Ev::Choose { outcome, .. } = e { choices.push(*outcome); } }
        Witness { choices, values: self.inputs.iter().map(|&v| self.model[v as usize]).collect(), m: self.model[1] }
    }
    /// A witness of the same path in a domain of exactly 256 values, if one exists.
    fn witness_u8(&mut self) -> Option<Witness> {
        if !self.finite { return None; }
        let c = Cond { a: V_MAX, b: V_MIN, extra: NONE, op: Op::Eq, c: 255 };
        let a = self.ast(c);
        self.z.push();
        self.z.assert(a);
        let r = self.zcheck();
        let out = if r == Res::Sat {
            let m = self.fetch_model();
            let mut w = self.witness();
            w.values = self.inputs.iter().map(|&v| m[v as usize]).collect();
            w.m = 255;
            Some(w)
        } else { None };
        self.z.pop(1);
        out
    }
    /// Moves to the next unexplored path of this job; false when none is left.
    fn backtrack(&mut self) -> bool {
        loop {
            let Some(ev) = self.trace.pop() else { return false };
            match ev {
                Ev::Var | Ev::Assume(_) => {}
                Ev::Branch { n, first, mut alts, scope, .. } => {
                    if scope { self.z.pop(1); self.scopes -= 1; }
                    if let Some((o, c, m)) = alts.pop() {
                        self.z.push();
                        self.scopes += 1;
                        let a = self.ast(c);
                        self.z.assert(a);
                        self.model = m;
                        self.trace.push(Ev::Branch { n, outcome: o, first, taken: c, alts, scope: true });
                        return true;
                    }
                }
                Ev::Choose { n, outcome, end, model, scope } => {
                    if scope { self.z.pop(1); self.scopes -= 1; }
                    if outcome + 1 < end {
                        self.z.push();
                        self.scopes += 1;
                        self.model = model.clone();
                        self.trace.push(Ev::Choose { n, outcome: outcome + 1, end, model, scope: true });
                        return true;
                    }
                }
            }
        }
    }
    /// Gives away the shallowest untried alternative as a job.
    fn donate(&mut self) -> Option<Job> {
        let mut prefix: Vec<u32> = vec![];
        for ev in self.trace.iter_mut() {
            match ev {
                Ev::Branch { outcome, alts, scope: true, .. } => {
                    if !alts.is_empty() {
                        let (o, _, _) = alts.remove(0);
                        prefix.push(o as u32);
                        return Some(Job { prefix });
                    }
                    prefix.push(*outcome as u32);
                }
                Ev::Choose { outcome, end, scope: true, .. } => {
                    if *outcome + 1 < *end {
                        *end -= 1;
                        prefix.push(*end);
                        return Some(Job { prefix });
                    }
                    prefix.push(*outcome);
                }
                _ => {}
            }
        }
        None
    }
    fn reset(&mut self) {
        if self.scopes > 0 { self.z.pop(self.scopes); self.scopes = 0; }
        self.trace.clear();
        self.model.clear();
        self.z.pop(1);
        self.z.push();
    }
}
fn unknown() -> ! {
    eprintln!("symx: solver returned unknown");
    std::process::exit(2);
}

// ---- Interface used by `Sym` and the harnesses ------------------------------
pub fn fresh_input() -> u32 {
    with(|e| {
        let v = e.new_var();
        e.inputs.push(v);
        if e.finite {
            let _ = e.assume(Cond { a: v, b: V_MIN, extra: NONE, op: Op::Ge, c: 0 });
            let ok = e.assume(Cond { a: v, b: V_MAX, extra: NONE, op: Op::Le, c: 0 });
            debug_assert!(ok);
        }
        v
    })
}
/// A new variable equal to (a + ka) - (b + kb).
pub fn fresh_diff(a: (u32, i64), b: (u32, i64)) -> u32 {
    with(|e| {
        let v = e.new_var();
        // v - a + b = ka - kb
        let c = Cond { a: v, b: a.0, extra: b.0, op: Op::Eq, c: a.1 - b.1 };
        let val = e.model[a.0 as usize] - e.model[b.0 as usize] + a.1 - b.1;
        e.model[v as usize] = val;
        let _ = e.assume(c);
        v
    })
}
fn do_branch(conds: &[Cond]) -> usize {
    enum R { O(usize), Over }
    let r = with(|e| if e.tick() { R::Over } else { R::O(e.branch(conds)) });
    match r { R::O(o) => o, R::Over => resume_unwind(Box::new(Budget)) }
}
pub fn cmp3(a: (u32, i64), b: (u32, i64)) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    if a.0 == b.0 { return a.1.cmp(&b.1); }
    // a.v + a.k ? b.v + b.k   <=>   a.v - b.v ? b.k - a.k
    let c = b.1 - a.1;
    let (x, y) = (a.0, b.0);
    let k = |op, c| Cond { a: x, b: y, extra: NONE, op, c };
    match do_branch(&[k(Op::Le, c - 1), k(Op::Eq, c), k(Op::Ge, c + 1)]) { 0 => Less, 1 => Equal, _ => Greater }
}
/// a <= b + d
pub fn le(a: (u32, i64), b: (u32, i64), d: i64) -> bool {
    let c = b.1 - a.1 + d;
    if a.0 == b.0 { return 0 <= c; }
    let k = |op, c| Cond { a: a.0, b: b.0, extra: NONE, op, c };
    do_branch(&[k(Op::Le, c), k(Op::Ge, c + 1)]) == 0
}
pub fn eq(a: (u32, i64), b: (u32, i64)) -> bool {
    if a.0 == b.0 { return a.1 == b.1; }
    let c = b.1 - a.1;
    let k = |op| Cond { a: a.0, b: b.0, extra: NONE, op, c };
    do_branch(&[k(Op::Eq), k(Op::Ne)]) == 0
}
/// s == hi - lo
pub fn eq_diff(s: (u32, i64), hi: (u32, i64), lo: (u32, i64)) -> bool {
    let c = hi.1 - lo.1 - s.1;
    let k = |op| Cond { a: s.0, b: hi.0, extra: lo.0, op, c };
    do_branch(&[k(Op::Eq), k(Op::Ne)]) == 0
}
/// assume a + d <= b
pub fn assume_le(a: (u32, i64), d: i64, b: (u32, i64)) {
    let ok = with(|e| {
        if a.0 == b.0 { a.1 + d <= b.1 } else { e.assume(Cond { a: a.0, b: b.0, extra: NONE, op: Op::Le, c: b.1 - a.1 - d }) }
    });
    if !ok { resume_unwind(Box::new(Infeasible)); }
}
pub fn class_of(s: (u32, i64)) -> usize {
    let reps = with(|e| e.classes.clone());
    for (i, r) in reps.iter().enumerate() { if eq(*r, s) { return i; } }
    with(|e| { e.classes.push(s); e.classes.len() - 1 })
}
pub fn choose(n: usize) -> usize {
    with(|e| e.choose(n as u32)) as usize
}
pub fn obs(o: ObsItem) { with(|e| e.obs.push(o)) }
pub fn cover(l: &'static str) { with(|e| e.covers.push(l)) }

// ---- Exploration ------------------------------------------------------------
struct Shared {
    queue: Mutex<(Vec<Job>, usize, bool)>, // jobs, idle workers, done
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    found: Mutex<Vec<Found>>,
}
pub struct Outcome { pub stats: Stats, pub found: Vec<Found>, pub timed_out: bool, pub samples: Vec<Witness>, pub dumps: Vec<String>, pub mismatch: Option<String>, pub wall: Duration }

pub struct Opts { pub threads: usize, pub finite: bool, pub max_found: usize, pub deadline: Instant, pub dump_every: u64, pub validate: bool }

/// Explores `harness`; `native` re-runs a leaf's witness on a concrete type and
/// returns what it observed.
pub fn explore(harness: &(dyn Fn() + Sync), native: &(dyn Fn(&Witness) -> Result<Vec<i64>, String> + Sync), o: &Opts) -> Outcome {
    let start = Instant::now();
    let sh = Shared {
        queue: Mutex::new((vec![Job { prefix: vec![] }], 0, false)), cv: Condvar::new(), idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false), timed_out: AtomicBool::new(false), found: Mutex::new(vec![]),
    };
    let res: Mutex<(Stats, Vec<Witness>, Vec<String>, Option<String>)> = Mutex::new((Stats::default(), vec![], vec![], None));
    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (sh, res) = (&sh, &res);
            let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(t));
                let mut eng = Engine::new(o.finite, o.dump_every);
                eng.z.push();
                ENG.with(|e| *e.borrow_mut() = Some(eng));
                let mut samples: Vec<Witness> = vec![];
                let mut mismatch = None;
                'jobs: loop {
                    let job = {
                        let mut q = sh.queue.lock().unwrap();
                        let _ = sh.idle.fetch_add(1, AO::SeqCst);
                        q.1 += 1;
                        loop {
                            if q.2 || sh.stop.load(AO::SeqCst) { q.2 = true; sh.cv.notify_all(); break 'jobs; }
                            if let Some(j) = q.0.pop() { q.1 -= 1; let _ = sh.idle.fetch_sub(1, AO::SeqCst); break j; }
                            if q.1 == o.threads { q.2 = true; sh.cv.notify_all(); break 'jobs; }
                            q = sh.cv.wait(q).unwrap();
                        }
                    };
                    with(|e| { e.reset(); e.forced = job.prefix.clone(); });
                    loop {
                        with(Engine::begin_path);
                        BUSY[t].store(true, AO::Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(harness));
                        BUSY[t].store(false, AO::Relaxed);
                        let _ = PROGRESS[t].fetch_add(1, AO::Relaxed);
                        let fail: Option<String> = match r {
                            Ok(()) => None,
                            Err(p) => {
                                if p.is::<Infeasible>() {
                                    with(|e| e.stats.infeasible += 1);
                                    Some(String::new())
                                } else if let Some(c) = p.downcast_ref::<CheckFail>() {
                                    Some(c.0.clone())
                                } else if p.is::<Budget>() {
                                    Some("does not terminate (step budget exceeded)".into())
                                } else {
                                    Some(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())))
                                }
                            }
                        };
                        match fail {
                            None => {
                                let (w, want) = with(|e| {
                                    e.stats.paths += 1;
                                    e.stats.max_depth = e.stats.max_depth.max(e.trace.len() as u64);
                                    let cs = std::mem::take(&mut e.covers);
                                    for c in &cs { *e.stats.covers.entry(c).or_default() += 1; }
                                    let want: Vec<i64> = e.obs.iter().map(|x| match x {
                                        ObsItem::U(u) => *u as i64,
                                        ObsItem::P(v, k) => e.model[*v as usize] + k,
                                    }).collect();
                                    (e.witness(), want)
                                });
                                if o.validate {
                                    match native(&w) {
                                        Ok(got) if got == want => with(|e| e.stats.validated += 1),
                                        Ok(got) => mismatch = Some(format!("observations differ: symbolic {want:?}, native {got:?}, inputs {w:?}")),
                                        Err(msg) => mismatch = Some(format!("native run failed: {msg}, inputs {w:?}")),
                                    }
                                }
                                let np = with(|e| e.stats.paths);
                                if samples.len() < 2 || (np.is_power_of_two() && samples.len() < 12) { samples.push(w); }
                            }
                            Some(m) if m.is_empty() => {}
                            Some(msg) => {
                                let (w, w8) = with(|e| (e.witness(), e.witness_u8()));
                                let mut f = sh.found.lock().unwrap();
                                f.push(Found { msg, wit: w, wit_u8: w8 });
                                if f.len() >= o.max_found { sh.stop.store(true, AO::SeqCst); }
                            }
                        }
                        if mismatch.is_some() { sh.stop.store(true, AO::SeqCst); }
                        if Instant::now() > o.deadline { sh.timed_out.store(true, AO::SeqCst); sh.stop.store(true, AO::SeqCst); }
                        if sh.stop.load(AO::SeqCst) { sh.cv.notify_all(); continue 'jobs; }
                        if sh.idle.load(AO::Relaxed) > 0 {
                            let mut q = sh.queue.lock().unwrap();
                            while q.0.len() < q.1 {
                                match with(Engine::donate) { Some(j) => q.0.push(j), None => break }
                            }
                            sh.cv.notify_all();
                        }
                        if !with(Engine::backtrack) { break; }
                    }
                }
                let eng = ENG.with(|e| e.borrow_mut().take()).unwrap();
                let mut r = res.lock().unwrap();
                r.0.add(&eng.stats);
                r.1.extend(samples);
                r.2.extend(eng.dumps.iter().cloned());
                if mismatch.is_some() { r.3 = mismatch; }
            }).unwrap();
        }
    });
    let (stats, samples, dumps, mismatch) = res.into_inner().unwrap();
    Outcome { stats, found: sh.found.into_inner().unwrap(), timed_out: sh.timed_out.load(AO::SeqCst), samples, dumps, mismatch, wall: start.elapsed() }
}
