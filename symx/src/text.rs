//! C21 beyond short texts: texts assembled from pieces, the points symbolic.
//! The text of a point is looked up in a table, so its value can be anything.
use crate::model::*;
use crate::sym::*;
use normalize_interval::raw_interval::{IntervalParseError, RawInterval};
use std::any::Any;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::str::FromStr;

macro_rules! ten { ($s:expr) => { concat!($s, $s, $s, $s, $s, $s, $s, $s, $s, $s) } }

/// Texts that name points. One is short, one has blanks at its ends, one is
/// long and looks like an unbounded end at both ends, one is all brackets.
/// The last two are very long.
const NAMES: [&str; 6] = ["p", " q ", "-∞éééééééééééééééééééééééééééééééé🦀∞", "([)]", concat!("9", ten!(ten!("0123456789")), "9"), VERY_LONG];
/// 90 kB.
const VERY_LONG: &str = concat!("z", ten!(ten!(ten!(ten!("-∞é∞")))), "z");
thread_local! { static VALUES: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(vec![]) }; }
#[derive(Clone, Debug)]
struct Named<T>(T);
impl<T: Pt> PartialEq for Named<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Pt> Eq for Named<T> {}
impl<T: Pt> PartialOrd for Named<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<T: Pt> Ord for Named<T> { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
/// The complaint about a text that names no point: the text.
impl<T: Pt> FromStr for Named<T> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> { value(s).map(Named).ok_or_else(|| s.to_string()) }
}
fn value<T: Pt>(s: &str) -> Option<T> {
    let k = NAMES.iter().position(|n| *n == s)?;
    VALUES.with(|v| v.borrow()[k].downcast_ref::<T>().cloned())
}
/// Points for all names.
fn name_points<T: Pt>() {
    let v: Vec<Box<dyn Any>> = NAMES.iter().map(|_| Box::new(T::fresh()) as Box<dyn Any>).collect();
    VALUES.with(|c| *c.borrow_mut() = v);
}
/// One end as written: unbounded, or a bracket and the text of a value.
enum End { Unbounded, Value(bool, String), NoBracket }
fn low(c: &[char]) -> End {
    match c { ['(', '-', '∞'] => End::Unbounded, ['(', r @ ..] => End::Value(false, r.iter().collect()), ['[', r @ ..] => End::Value(true, r.iter().collect()), _ => End::NoBracket }
}
fn high(c: &[char]) -> End {
    match c { ['∞', ')'] => End::Unbounded, [r @ .., ')'] => End::Value(false, r.iter().collect()), [r @ .., ']'] => End::Value(true, r.iter().collect()), _ => End::NoBracket }
}
/// Parses the text and compares with what it says.
fn judge<T: Pt>(s: &str) {
    use IntervalParseError::*;
    let got = RawInterval::<Named<T>>::from_str(s);
    let bad = |what: &str| -> ! { fail(format!("{s:?} parses to {got:?}: {what}")) };
    let is = |want: &RawInterval<T>| {
        obs(1);
        match &got {
            Ok(r) => if !raw_same(&r.clone().plain(), want) { bad(&format!("expected {want:?}")) },
            Err(_) => bad(&format!("expected {want:?}")),
        }
    };
    let invalid = || { obs(2); if !matches!(got, Err(InvalidInterval)) { bad("expected InvalidInterval") } };
    if s == "Ø" { cover("empty"); return is(&RawInterval::Empty); }
    if let Some(p) = value::<T>(s) { cover("point"); return is(&RawInterval::Point(p)); }
    let c: Vec<char> = s.chars().collect();
    let commas: Vec<usize> = (0..c.len()).filter(|k| c[*k] == ',').collect();
    match commas.len() {
        0 => { cover("no comma"); return invalid() }
        1 => {}
        _ => { cover("commas"); if got.is_ok() { bad("expected an error") } return; }
    }
    let value_error = |t: &[&String]| { obs(3); cover("no value"); if !matches!(&got, Err(InvalidValue(e)) if t.contains(&e)) { bad(&format!("expected InvalidValue of {t:?}")) } };
    let (l, u) = (low(&c[..commas[0]]), high(&c[commas[0] + 1..]));
    let read = |e: &End| match e { End::Value(_, t) => value::<T>(t).is_none().then(|| t.clone()), _ => None };
    match (&l, &u, read(&l), read(&u)) {
        (End::NoBracket, _, _, None) | (_, End::NoBracket, None, _) => { cover("no bracket"); invalid() }
        (End::NoBracket, ..) | (_, End::NoBracket, ..) => { cover("nothing right"); if got.is_ok() { bad("expected an error") } }
        (_, _, Some(a), Some(b)) => value_error(&[&a, &b]),
        (_, _, Some(a), None) | (_, _, None, Some(a)) => value_error(&[&a]),
        _ => {
            cover("interval");
            let cut = |e: &End, up: bool| match e { End::Value(i, t) => Cut::At(value::<T>(t).expect("read above"), *i == up), _ => if up { Cut::Hi } else { Cut::Lo } };
            let (a, b) = (cut(&l, false), cut(&u, true));
            // Equal ends, one of them included, write the point.
            let want = match (&a, &b) {
                (Cut::At(x, f), Cut::At(y, g)) => if lt(y, x) { RawInterval::Empty }
                    else if eq(x, y) { if !f || *g { RawInterval::Point(x.clone()) } else { RawInterval::Empty } }
                    else { rng_raw(&(a.clone(), b.clone())) },
                _ => rng_raw(&(a.clone(), b.clone())),
            };
            is(&want)
        }
    }
}
trait Plain<T> { fn plain(self) -> RawInterval<T>; }
impl<T> Plain<T> for RawInterval<Named<T>> {
    fn plain(self) -> RawInterval<T> {
        use RawInterval::*;
        match self {
            Empty => Empty, Full => Full, Point(a) => Point(a.0), Open(a, b) => Open(a.0, b.0), LeftOpen(a, b) => LeftOpen(a.0, b.0),
            RightOpen(a, b) => RightOpen(a.0, b.0), Closed(a, b) => Closed(a.0, b.0), UpTo(a) => UpTo(a.0), UpFrom(a) => UpFrom(a.0), To(a) => To(a.0), From(a) => From(a.0),
        }
    }
}
const PIECES: [&str; 27] = ["(", ")", "[", "]", ",", "-∞", "∞", "Ø", NAMES[0], NAMES[1], NAMES[2], NAMES[3], " ", "-", "+", "+∞", "inf", "\0", "\u{FEFF}", "−∞", ";", "..", "{", "🦀", "，", "\n", "\u{301}"];
/// args: pieces in the text, pieces to choose from. Every sequence of them.
pub fn c21_pieces<T: Pt>(a: &[usize]) {
    name_points::<T>();
    let s: String = (0..a[0]).map(|_| PIECES[pick(a[1])]).collect();
    judge::<T>(&s);
}
/// args: edits, pieces to choose from, names (4 if missing). A well-formed text with a few pieces
/// put in, taken out or replaced.
pub fn c21_edits<T: Pt>(a: &[usize]) {
    name_points::<T>();
    let name = |v: &mut Vec<&'static str>| v.push(NAMES[pick(if a.len() > 2 { a[2] } else { 4 })]);
    let mut v = vec![];
    match pick(7) {
        0 => v.push("Ø"),
        1 => name(&mut v),
        2 => v = vec!["(", "-∞", ",", "∞", ")"],
        3 => { v = vec!["(", "-∞", ","]; name(&mut v); v.push([")", "]"][pick(2)]) }
        4 => { v = vec![["(", "["][pick(2)]]; name(&mut v); v.extend([",", "∞", ")"]) }
        _ => { v = vec![["(", "["][pick(2)]]; name(&mut v); v.push(","); name(&mut v); v.push([")", "]"][pick(2)]) }
    }
    for _ in 0..a[0] {
        match pick(3) {
            0 => { let k = pick(v.len() + 1); v.insert(k, PIECES[pick(a[1])]) }
            1 => if !v.is_empty() { let k = pick(v.len()); let _ = v.remove(k); },
            _ => if !v.is_empty() { let k = pick(v.len()); v[k] = PIECES[pick(a[1])] },
        }
    }
    judge::<T>(&v.concat());
}
