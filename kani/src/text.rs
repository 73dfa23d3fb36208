//! C21: parsing any text, against an independent reader of interval notation.
use normalize_interval::raw_interval::{IntervalParseError, RawInterval};
use std::str::FromStr;

/// A point type: one or two decimal digits.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num(pub u8);
/// A point type that accepts every text without brackets and commas.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Word(pub usize, pub u8, pub u8);
/// What a point type complains about: the text it was given.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Bad(pub usize, pub u8, pub u8);

fn shape(b: &[u8]) -> (usize, u8, u8) {
    if b.is_empty() { (0, 0, 0) } else { (b.len(), b[0], b[b.len() - 1]) }
}
pub trait Point: FromStr<Err = Bad> + Ord + Copy + std::fmt::Debug {
    fn read(b: &[u8]) -> Result<Self, Bad>;
}
impl Point for Num {
    fn read(b: &[u8]) -> Result<Self, Bad> {
        let (n, x, y) = shape(b);
        let d = |c: u8| c >= b'0' && c <= b'9';
        if n == 1 && d(x) { return Ok(Num(x - b'0')) }
        if n == 2 && d(x) && d(y) { return Ok(Num((x - b'0') * 10 + (y - b'0'))) }
        Err(Bad(n, x, y))
    }
}
impl Point for Word {
    fn read(b: &[u8]) -> Result<Self, Bad> {
        let (n, x, y) = shape(b);
        let mut i = 0;
        while i < b.len() {
            if matches!(b[i], b'(' | b')' | b'[' | b']' | b',') { return Err(Bad(n, x, y)) }
            i += 1;
        }
        Ok(Word(n, x, y))
    }
}
impl FromStr for Num { type Err = Bad; fn from_str(s: &str) -> Result<Self, Bad> { Self::read(s.as_bytes()) } }
impl FromStr for Word { type Err = Bad; fn from_str(s: &str) -> Result<Self, Bad> { Self::read(s.as_bytes()) } }

/// What the text says about one bound.
#[derive(Clone, Copy)]
enum End<T> { Inf, In(T), Ex(T), NoValue(Bad), NoBracket }

const NEG: [u8; 5] = [b'(', b'-', 0xE2, 0x88, 0x9E];
const POS: [u8; 4] = [0xE2, 0x88, 0x9E, b')'];
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false } i += 1; }
    true
}
fn low<T: Point>(b: &[u8]) -> End<T> {
    if same(b, &NEG) { return End::Inf }
    if b.is_empty() { return End::NoBracket }
    let rest = &b[1..];
    match (b[0], T::read(rest)) {
        (b'(', Ok(v)) => End::Ex(v),
        (b'[', Ok(v)) => End::In(v),
        (b'(' | b'[', Err(e)) => End::NoValue(e),
        _ => End::NoBracket,
    }
}
fn high<T: Point>(b: &[u8]) -> End<T> {
    if same(b, &POS) { return End::Inf }
    if b.is_empty() { return End::NoBracket }
    let rest = &b[..b.len() - 1];
    match (b[b.len() - 1], T::read(rest)) {
        (b')', Ok(v)) => End::Ex(v),
        (b']', Ok(v)) => End::In(v),
        (b')' | b']', Err(e)) => End::NoValue(e),
        _ => End::NoBracket,
    }
}
fn is_raw<T: Point>(r: &RawInterval<T>, l: End<T>, u: End<T>) -> bool {
    use RawInterval::*;
    match (l, u) {
        (End::Inf, End::Inf) => matches!(r, Full),
        (End::Inf, End::In(b)) => matches!(r, To(x) if *x == b),
        (End::Inf, End::Ex(b)) => matches!(r, UpTo(x) if *x == b),
        (End::In(a), End::Inf) => matches!(r, From(x) if *x == a),
        (End::Ex(a), End::Inf) => matches!(r, UpFrom(x) if *x == a),
        (End::In(a), End::In(b)) => if a < b { matches!(r, Closed(x, y) if *x == a && *y == b) } else if a == b { matches!(r, Point(x) if *x == a) } else { matches!(r, Empty) },
        (End::In(a), End::Ex(b)) => if a < b { matches!(r, RightOpen(x, y) if *x == a && *y == b) } else if a == b { matches!(r, Point(x) if *x == a) } else { matches!(r, Empty) },
        (End::Ex(a), End::In(b)) => if a < b { matches!(r, LeftOpen(x, y) if *x == a && *y == b) } else if a == b { matches!(r, Point(x) if *x == a) } else { matches!(r, Empty) },
        (End::Ex(a), End::Ex(b)) => if a < b { matches!(r, Open(x, y) if *x == a && *y == b) } else { matches!(r, Empty) },
        _ => false,
    }
}
/// 0: as it should be; anything else names what went wrong.
pub fn verdict<T: Point>(b: &[u8], r: &Result<RawInterval<T>, IntervalParseError<Bad>>) -> u8 {
    use IntervalParseError::*;
    if same(b, &[0xC3, 0x98]) { return if matches!(r, Ok(RawInterval::Empty)) { 0 } else { 1 } }
    if let Ok(v) = T::read(b) { return if matches!(r, Ok(RawInterval::Point(x)) if *x == v) { 0 } else { 2 } }
    let (mut commas, mut first, mut i) = (0, 0, 0);
    while i < b.len() {
        if b[i] == b',' { if commas == 0 { first = i } commas += 1; }
        i += 1;
    }
    if commas == 0 { return if matches!(r, Err(InvalidInterval)) { 0 } else { 3 } }
    if commas > 1 { return if r.is_err() { 0 } else { 4 } }
    let (l, u) = (low::<T>(&b[..first]), high::<T>(&b[first + 1..]));
    match (l, u) {
        (End::NoBracket, End::NoValue(_)) | (End::NoValue(_), End::NoBracket) => if r.is_err() { 0 } else { 5 },
        (End::NoBracket, _) | (_, End::NoBracket) => if matches!(r, Err(InvalidInterval)) { 0 } else { 6 },
        (End::NoValue(e), End::NoValue(f)) => if matches!(r, Err(InvalidValue(x)) if *x == e || *x == f) { 0 } else { 7 },
        (End::NoValue(e), _) | (_, End::NoValue(e)) => if matches!(r, Err(InvalidValue(x)) if *x == e) { 0 } else { 7 },
        _ => match r { Ok(r) => if is_raw(r, l, u) { 0 } else { 8 }, Err(_) => 9 },
    }
}
pub const VERDICTS: [&str; 10] = ["right", "the empty symbol is not read as the empty interval", "the text of a point is not read as that point",
    "text without a comma is not reported as an invalid interval", "text with several commas is accepted", "text with a bad bracket and a bad value is accepted",
    "text without proper brackets is not reported as an invalid interval", "a bound that is not a value is not reported as that invalid value",
    "the interval read is not the interval written", "a well-formed interval is rejected"];

/// Native form of the check.
pub fn check<T: Point>(b: &[u8]) -> Result<(), String> {
    let Ok(s) = std::str::from_utf8(b) else { return Ok(()) };
    let r = std::panic::catch_unwind(|| RawInterval::<T>::from_str(s)).map_err(|_| format!("parsing {s:?} panics"))?;
    match verdict(b, &r) { 0 => Ok(()), v => Err(format!("{}: {s:?} parses to {r:?}", VERDICTS[v as usize])) }
}

/// Well-formed UTF-8 (RFC 3629).
pub fn utf8(b: &[u8]) -> bool {
    let (mut need, mut lo, mut hi, mut i) = (0u8, 0x80u8, 0xBFu8, 0);
    while i < b.len() {
        let c = b[i];
        if need > 0 {
            if c < lo || c > hi { return false }
            need -= 1;
            lo = 0x80;
            hi = 0xBF;
        } else if c < 0x80 {
        } else if c >= 0xC2 && c <= 0xDF { need = 1
        } else if c >= 0xE0 && c <= 0xEF {
            need = 2;
            if c == 0xE0 { lo = 0xA0 }
            if c == 0xED { hi = 0x9F }
        } else if c >= 0xF0 && c <= 0xF4 {
            need = 3;
            if c == 0xF0 { lo = 0x90 }
            if c == 0xF4 { hi = 0x8F }
        } else { return false }
        i += 1;
    }
    need == 0
}

#[cfg(kani)]
mod proofs {
    use super::*;
    fn read<T: Point, const N: usize>() -> ([u8; N], Result<RawInterval<T>, IntervalParseError<Bad>>) {
        let b: [u8; N] = kani::any();
        kani::assume(utf8(&b));
        // SAFETY: assumed well-formed just above.
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        (b, RawInterval::<T>::from_str(s))
    }
    fn parse<T: Point, const N: usize>() {
        let (b, r) = read::<T, N>();
        assert!(verdict(&b, &r) == 0, "the text is misread");
    }
    /// What the texts of one length can give (reachability witnesses).
    fn reach<T: Point, const N: usize>() {
        let (_, r) = read::<T, N>();
        kani::cover!(r.is_err(), "rejected");
        kani::cover!(matches!(r, Ok(RawInterval::Point(_))), "point");
        kani::cover!(matches!(r, Ok(RawInterval::Closed(..))), "closed");
        kani::cover!(matches!(r, Ok(RawInterval::UpTo(..) | RawInterval::From(..))), "half-bounded");
        kani::cover!(matches!(r, Ok(RawInterval::Empty)), "empty");
    }
    macro_rules! proofs { ($($name:ident $t:ident $n:literal $u:literal;)*) => { $(
        #[kani::proof] #[kani::unwind($u)] #[kani::solver(cadical)]
        fn $name() { parse::<$t, $n>() }
    )* } }
    include!("proofs.rs");
    macro_rules! reach { ($($name:ident $t:ident $n:literal $u:literal;)*) => { $(
        #[kani::proof] #[kani::unwind($u)] #[kani::solver(cadical)]
        fn $name() { reach::<$t, $n>() }
    )* } }
    reach! { reach_num_2 Num 2 5; reach_num_5 Num 5 8; reach_word_5 Word 5 8; }
}
