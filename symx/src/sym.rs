//! Point types: the symbolic `Sym`, and the concrete types used for replay.
use crate::engine::{self as eng, CheckFail, Infeasible, ObsItem, Witness};
use normalize_interval::normalize::Finite;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::panic::resume_unwind;
use std::str::FromStr;

/// A point type the harnesses can run at.
pub trait Pt: Ord + Clone + Debug + Display + FromStr + Hash + 'static {
    /// The next input of the run (arbitrary when symbolic).
    fn fresh() -> Self;
    /// a + d <= b, computed outside the code under test.
    fn le_off(a: &Self, d: i64, b: &Self) -> bool;
    /// a + d == b.
    fn eq_off(a: &Self, d: i64, b: &Self) -> bool;
    /// Restricts the run to a + d <= b.
    fn assume_le_off(a: &Self, d: i64, b: &Self);
    fn obs(&self);
    /// a + d, for harnesses that assume it lies in the type.
    fn at(&self, d: i64) -> Self;
}
/// A finite point type.
pub trait Fin: Pt + Finite + std::ops::Sub<Output = Self> {
    /// s == hi - lo.
    fn is_diff(s: &Self, hi: &Self, lo: &Self) -> bool;
    /// hi - lo is representable in the type.
    fn diff_ok(hi: &Self, lo: &Self) -> bool;
}

// ---- Symbolic ----------------------------------------------------------------
/// A symbolic point: integer variable plus constant offset.
#[derive(Clone, Copy)]
pub struct Sym { v: u32, k: i64 }
impl Sym { fn t(&self) -> (u32, i64) { (self.v, self.k) } }
impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool { eng::eq(self.t(), o.t()) }
    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, o: &Self) -> bool { !eng::eq(self.t(), o.t()) }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Self) -> bool { eng::le(self.t(), o.t(), -1) }
    fn le(&self, o: &Self) -> bool { eng::le(self.t(), o.t(), 0) }
    fn gt(&self, o: &Self) -> bool { eng::le(o.t(), self.t(), -1) }
    fn ge(&self, o: &Self) -> bool { eng::le(o.t(), self.t(), 0) }
}
impl Ord for Sym {
    fn cmp(&self, o: &Self) -> Ordering { eng::cmp3(self.t(), o.t()) }
}
impl Finite for Sym {
    const MINIMUM: Sym = Sym { v: eng::V_MIN, k: 0 };
    const MAXIMUM: Sym = Sym { v: eng::V_MAX, k: 0 };
    fn pred(&self) -> Option<Sym> {
        if eng::eq(self.t(), (eng::V_MIN, 0)) { None } else { Some(Sym { v: self.v, k: self.k - 1 }) }
    }
    fn succ(&self) -> Option<Sym> {
        if eng::eq(self.t(), (eng::V_MAX, 0)) { None } else { Some(Sym { v: self.v, k: self.k + 1 }) }
    }
}
impl std::ops::Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym { Sym { v: eng::fresh_diff(self.t(), o.t()), k: 0 } }
}
impl Debug for Sym { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "v{}{:+}", self.v, self.k) } }
impl Display for Sym { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "v{}{:+}", self.v, self.k) } }
impl FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Sym, ()> {
        let s = s.strip_prefix('v').ok_or(())?;
        let i = s.find(['+', '-']).ok_or(())?;
        Ok(Sym { v: s[..i].parse().map_err(|_| ())?, k: s[i..].parse().map_err(|_| ())? })
    }
}
impl Hash for Sym {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_usize(eng::class_of(self.t())) }
}
impl Pt for Sym {
    fn fresh() -> Self { Sym { v: eng::fresh_input(), k: 0 } }
    fn le_off(a: &Self, d: i64, b: &Self) -> bool { eng::le((a.v, a.k + d), b.t(), 0) }
    fn eq_off(a: &Self, d: i64, b: &Self) -> bool { eng::eq((a.v, a.k + d), b.t()) }
    fn assume_le_off(a: &Self, d: i64, b: &Self) { eng::assume_le(a.t(), d, b.t()) }
    fn obs(&self) { eng::obs(ObsItem::P(self.v, self.k)) }
    fn at(&self, d: i64) -> Self { Sym { v: self.v, k: self.k + d } }
}
impl Fin for Sym {
    fn is_diff(s: &Self, hi: &Self, lo: &Self) -> bool { eng::eq_diff(s.t(), hi.t(), lo.t()) }
    fn diff_ok(_: &Self, _: &Self) -> bool { true }
}

// ---- Concrete runs -------------------------------------------------------------
struct Replay { choices: Vec<u32>, ci: usize, values: Vec<i64>, vi: usize, obs: Vec<i64> }
thread_local! {
    static REPLAY: RefCell<Option<Replay>> = const { RefCell::new(None) };
    static DYN_MAX: Cell<i64> = const { Cell::new(0) };
}
fn rp<R>(f: impl FnOnce(&mut Replay) -> R) -> R { REPLAY.with(|r| f(r.borrow_mut().as_mut().expect("no replay"))) }
fn next_value() -> i64 {
    rp(|r| { let v = r.values.get(r.vi).copied(); r.vi += 1; v }).unwrap_or_else(|| resume_unwind(Box::new(Infeasible)))
}
/// Runs `h` natively on the witness; what it observed, or why it failed.
pub fn run_native(h: &dyn Fn(), w: &Witness) -> Result<Vec<i64>, String> {
    REPLAY.with(|r| *r.borrow_mut() = Some(Replay { choices: w.choices.clone(), ci: 0, values: w.values.clone(), vi: 0, obs: vec![] }));
    DYN_MAX.with(|m| m.set(w.m));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(h));
    let rep = REPLAY.with(|r| r.borrow_mut().take()).unwrap();
    match r {
        Ok(()) => Ok(rep.obs),
        Err(p) => if p.is::<Infeasible>() { Err("inputs do not fit the harness".into()) }
            else if let Some(c) = p.downcast_ref::<CheckFail>() { Err(c.0.clone()) }
            else { Err(format!("panic: {}", eng::PANIC_MSG.with(|m| m.borrow().clone()))) },
    }
}
fn replaying() -> bool { REPLAY.with(|r| r.borrow().is_some()) }

/// A structural choice among 0..n.
pub fn pick(n: usize) -> usize {
    if replaying() {
        let c = rp(|r| { let c = r.choices.get(r.ci).copied(); r.ci += 1; c });
        match c { Some(c) if (c as usize) < n => c as usize, _ => resume_unwind(Box::new(Infeasible)) }
    } else { eng::choose(n) }
}
pub fn flip() -> bool { pick(2) == 1 }
pub fn obs(x: u64) { if replaying() { rp(|r| r.obs.push(x as i64)) } else { eng::obs(ObsItem::U(x)) } }
pub fn obs_b(x: bool) { obs(x as u64) }
pub fn cover(l: &'static str) { if !replaying() { eng::cover(l) } }
pub fn check(c: bool, msg: &str) { if !c { resume_unwind(Box::new(CheckFail(msg.to_string()))) } }
pub fn fail(msg: String) -> ! { resume_unwind(Box::new(CheckFail(msg))) }
pub fn assume(c: bool) { if !c { resume_unwind(Box::new(Infeasible)) } }

macro_rules! native_pt {
    ($t:ty, $mk:expr, $val:expr) => {
        impl Pt for $t {
            fn fresh() -> Self { ($mk)(next_value()) }
            fn le_off(a: &Self, d: i64, b: &Self) -> bool { (($val)(a) as i128) + d as i128 <= ($val)(b) as i128 }
            fn eq_off(a: &Self, d: i64, b: &Self) -> bool { (($val)(a) as i128) + d as i128 == ($val)(b) as i128 }
            fn assume_le_off(a: &Self, d: i64, b: &Self) { assume(Self::le_off(a, d, b)) }
            fn obs(&self) { let v: i64 = ($val)(self); rp(|r| r.obs.push(v)) }
            fn at(&self, d: i64) -> Self { ($mk)(($val)(self) + d) }
        }
    };
}
fn in_u8(v: i64) -> u8 { u8::try_from(v).unwrap_or_else(|_| resume_unwind(Box::new(Infeasible))) }
native_pt!(u8, in_u8, |x: &u8| *x as i64);
native_pt!(i8, |v| (in_u8(v) as i16 - 128) as i8, |x: &i8| *x as i64 + 128);
native_pt!(i64, |v| v, |x: &i64| *x);
native_pt!(Dyn, Dyn, |x: &Dyn| x.get());
impl Fin for u8 {
    fn is_diff(s: &u8, hi: &u8, lo: &u8) -> bool { *s as i64 == *hi as i64 - *lo as i64 }
    fn diff_ok(hi: &u8, lo: &u8) -> bool { hi >= lo }
}
impl Fin for i8 {
    fn is_diff(s: &i8, hi: &i8, lo: &i8) -> bool { *s as i64 == *hi as i64 - *lo as i64 }
    fn diff_ok(hi: &i8, lo: &i8) -> bool { hi.checked_sub(*lo).is_some() }
}
impl Fin for Dyn {
    fn is_diff(s: &Dyn, hi: &Dyn, lo: &Dyn) -> bool { s.get() == hi.get() - lo.get() }
    fn diff_ok(_: &Dyn, _: &Dyn) -> bool { true }
}

/// A user-defined finite type with values 0..=M, M set per run.
#[derive(Clone, Copy)]
pub struct Dyn(i64);
impl Dyn { fn get(&self) -> i64 { if self.0 == i64::MAX { DYN_MAX.with(Cell::get) } else { self.0 } } }
impl PartialEq for Dyn { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl Eq for Dyn {}
impl PartialOrd for Dyn { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Dyn { fn cmp(&self, o: &Self) -> Ordering { self.get().cmp(&o.get()) } }
impl Hash for Dyn { fn hash<H: Hasher>(&self, h: &mut H) { self.get().hash(h) } }
impl Debug for Dyn { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.get()) } }
impl Display for Dyn { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.get()) } }
impl FromStr for Dyn { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Dyn, Self::Err> { s.parse().map(Dyn) } }
impl std::ops::Sub for Dyn { type Output = Dyn; fn sub(self, o: Dyn) -> Dyn { Dyn(self.get() - o.get()) } }
impl Finite for Dyn {
    const MINIMUM: Dyn = Dyn(0);
    const MAXIMUM: Dyn = Dyn(i64::MAX);
    fn pred(&self) -> Option<Dyn> { if self.get() == 0 { None } else { Some(Dyn(self.get() - 1)) } }
    fn succ(&self) -> Option<Dyn> { if self.get() == DYN_MAX.with(Cell::get) { None } else { Some(Dyn(self.get() + 1)) } }
}

#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    impl Serialize for Sym { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (self.v, self.k).serialize(s) } }
    impl<'de> Deserialize<'de> for Sym { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Sym, D::Error> { let (v, k) = Deserialize::deserialize(d)?; Ok(Sym { v, k }) } }
    impl Serialize for Dyn { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.get().serialize(s) } }
    impl<'de> Deserialize<'de> for Dyn { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> { i64::deserialize(d).map(Dyn) } }
}
