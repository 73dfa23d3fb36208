//! Harnesses over arbitrary total orders: bounds, raw intervals, tines, trees.
use crate::model::*;
use crate::sym::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;

fn cov(b: bool) { if b { cover("member") } else { cover("non-member") } obs_b(b) }
pub fn rngs<T: Pt>(r: &RawInterval<T>) -> Vec<Rng<T>> { raw_rng(r).into_iter().collect() }

// ---- C16 -----------------------------------------------------------------------
/// Does (lower, upper), read as an interval literal, hold p? Identical
/// half-open bounds hold the point, reversed ones nothing.
fn bounds_hold<T: Pt>(l: &Bound<T>, u: &Bound<T>, p: &T) -> bool {
    use Bound::*;
    if let (Include(a), Exclude(b)) | (Exclude(a), Include(b)) = (l, u) { if eq(a, b) { return eq(p, a); } }
    let x = match l { Include(a) => le(a, p), Exclude(a) => lt(a, p), Infinite => true };
    let y = match u { Include(b) => le(p, b), Exclude(b) => lt(p, b), Infinite => true };
    x && y
}
pub fn c16_new<T: Pt>(_: &[usize]) {
    use Bound::*;
    let (l, u, r) = match pick(5) {
        0 => { let (l, u) = (gen_bound::<T>(), gen_bound::<T>()); let r = RawInterval::new(l.clone(), u.clone()); (l, u, r) }
        k => {
            let (a, b) = (T::fresh(), T::fresh());
            match k {
                1 => (Exclude(a.clone()), Exclude(b.clone()), RawInterval::open(a, b)),
                2 => (Exclude(a.clone()), Include(b.clone()), RawInterval::left_open(a, b)),
                3 => (Include(a.clone()), Exclude(b.clone()), RawInterval::right_open(a, b)),
                _ => (Include(a.clone()), Include(b.clone()), RawInterval::closed(a, b)),
            }
        }
    };
    check(raw_wf(&r), &format!("{r:?} from {l:?}, {u:?} is not well-formed"));
    // Empty exactly when reversed (or both excluding one value).
    let empty = match (&l, &u) {
        (Exclude(a), Exclude(b)) => le(b, a),
        (Include(a) | Exclude(a), Include(b) | Exclude(b)) => lt(b, a),
        _ => false,
    };
    check(r.is_empty() == empty, &format!("{r:?} from {l:?}, {u:?}: is_empty is {}", r.is_empty()));
    check(r.is_full() == matches!((&l, &u), (Infinite, Infinite)), "is_full");
    let p = T::fresh();
    let want = bounds_hold(&l, &u, &p);
    cov(want);
    check(r.contains(&p) == want, &format!("{r:?} from {l:?}, {u:?}: contains({p:?}) is {}", !want));
}
pub fn c16_accessors<T: Pt>(_: &[usize]) {
    use RawInterval::*;
    let r = gen_raw::<T>(true);
    let i = |x: &T| Some(Bound::Include(x.clone()));
    let e = |x: &T| Some(Bound::Exclude(x.clone()));
    let inf = Some(Bound::Infinite);
    let (lb, ub, lo, hi): (Option<Bound<T>>, Option<Bound<T>>, Option<T>, Option<T>) = match &r {
        Empty => (None, None, None, None),
        Point(p) => (i(p), i(p), Some(p.clone()), Some(p.clone())),
        Open(a, b) => (e(a), e(b), Some(a.clone()), Some(b.clone())),
        LeftOpen(a, b) => (e(a), i(b), Some(a.clone()), Some(b.clone())),
        RightOpen(a, b) => (i(a), e(b), Some(a.clone()), Some(b.clone())),
        Closed(a, b) => (i(a), i(b), Some(a.clone()), Some(b.clone())),
        UpTo(b) => (inf, e(b), None, Some(b.clone())),
        UpFrom(a) => (e(a), inf, Some(a.clone()), None),
        To(b) => (inf, i(b), None, Some(b.clone())),
        From(a) => (i(a), inf, Some(a.clone()), None),
        Full => (inf.clone(), inf, None, None),
    };
    check(bound_opt_same(&r.lower_bound(), &lb), &format!("lower_bound of {r:?} is {:?}", r.lower_bound()));
    check(bound_opt_same(&r.upper_bound(), &ub), &format!("upper_bound of {r:?} is {:?}", r.upper_bound()));
    check(pt_opt_same(&r.infimum(), &lo), &format!("infimum of {r:?} is {:?}", r.infimum()));
    check(pt_opt_same(&r.supremum(), &hi), &format!("supremum of {r:?} is {:?}", r.supremum()));
    check(r.is_empty() == matches!(r, Empty), "is_empty");
    check(r.is_full() == matches!(r, Full), "is_full");
    if let (Some(l), Some(u)) = (r.lower_bound(), r.upper_bound()) {
        let b = RawInterval::new(l, u);
        check(raw_same(&b, &r), &format!("{r:?} rebuilt from its bounds is {b:?}"));
        check(b == r, "rebuilt interval is not equal");
    }
    let p = T::fresh();
    let want = raw_has(&r, &p);
    cov(want);
    check(r.contains(&p) == want, &format!("{r:?}: contains({p:?}) is {}", !want));
}
// ---- C17 -----------------------------------------------------------------------
fn set_ok<T: Pt>(v: &[RawInterval<T>], want: &[Rng<T>], what: &str) {
    obs_rngs(want);
    let mut all: Vec<Rng<T>> = vec![];
    for r in v {
        check(raw_wf(r), &format!("{what}: {r:?} is not well-formed"));
        match raw_rng(r) {
            None => fail(format!("{what}: yields an empty item")),
            Some(c) => {
                for q in &all {
                    check(clt(&c.1, &q.0) || clt(&q.1, &c.0), &format!("{what}: items overlap or can be merged: {v:?}"));
                }
                all.push(c);
            }
        }
    }
    let mut m = vec![];
    for r in &all { m = rng_add(&m, r) }
    check(rng_eq(&m, want), &format!("{what}: yields {v:?}, expected {:?}", want.iter().map(rng_raw).collect::<Vec<_>>()));
}
pub fn c17_ops<T: Pt>(a: &[usize]) {
    let (x, y, same) = pair(|| gen_raw::<T>(true), true);
    let (x, y) = (&x, other(&x, &y, same));
    let (rx, ry) = (rngs(&x), rngs(&y));
    match a[0] {
        0 => {
            let v: Vec<_> = x.union(&y).collect();
            let want = rng_union(&rx, &ry);
            if want.len() == 1 { cover("one") } else { cover("zero or two") }
            set_ok(&v, &want, &format!("{x:?} union {y:?}"));
        }
        1 => {
            let r = x.intersect(&y);
            let want = rng_inter(&rx, &ry);
            if want.is_empty() { cover("disjoint") } else { cover("common") }
            check(r.is_empty() == want.is_empty(), &format!("{x:?} intersect {y:?} is {r:?}"));
            if !want.is_empty() { set_ok(&[r], &want, &format!("{x:?} intersect {y:?}")) }
        }
        2 => {
            let v: Vec<_> = x.minus(&y).collect();
            let want = rng_minus(&rx, &ry);
            if want.len() > 1 { cover("two") } else { cover("less") }
            set_ok(&v, &want, &format!("{x:?} minus {y:?}"));
        }
        _ => {
            let v: Vec<_> = x.complement().collect();
            cover("complement");
            set_ok(&v, &rng_compl(&rx), &format!("complement of {x:?}"));
        }
    }
}
pub fn c17_member<T: Pt>(a: &[usize]) {
    let (x, y, same) = pair(|| gen_raw::<T>(true), true);
    let (x, y) = (&x, other(&x, &y, same));
    let p = T::fresh();
    let (m, n) = (raw_has(&x, &p), raw_has(&y, &p));
    let (want, got) = match a[0] {
        0 => (m || n, x.union(&y).any(|r| r.contains(&p))),
        1 => (m && n, x.intersect(&y).contains(&p)),
        2 => (m && !n, x.minus(&y).any(|r| r.contains(&p))),
        _ => (!m, x.complement().any(|r| r.contains(&p))),
    };
    cov(want);
    check(want == got, &format!("operation {} on {x:?}, {y:?}: {p:?} is {}a member", a[0], if got { "" } else { "not " }));
}
pub fn c17_relations<T: Pt>(_: &[usize]) {
    let (x, y, same) = pair(|| gen_raw::<T>(true), true);
    let (x, y) = (&x, other(&x, &y, same));
    let inter = !rng_inter(&rngs(&x), &rngs(&y)).is_empty();
    obs_b(inter);
    if inter { cover("intersecting") }
    check(x.intersects(&y) == inter, &format!("{x:?} intersects {y:?} is {}", !inter));
    // A lower and an upper boundary coincide, at least one including the value.
    fn touch<T: Pt>(l: &Option<Bound<T>>, u: &Option<Bound<T>>) -> bool {
        use Bound::*;
        match (l, u) {
            (Some(Exclude(_)), Some(Exclude(_))) => false,
            (Some(Include(a) | Exclude(a)), Some(Include(b) | Exclude(b))) => eq(a, b),
            _ => false,
        }
    }
    fn bounds<T: Pt>(r: &RawInterval<T>) -> (Option<Bound<T>>, Option<Bound<T>>) {
        match raw_rng(r) {
            None => (None, None),
            Some((l, u)) => (
                Some(match l { Cut::At(x, false) => Bound::Include(x), Cut::At(x, true) => Bound::Exclude(x), _ => Bound::Infinite }),
                Some(match u { Cut::At(x, true) => Bound::Include(x), Cut::At(x, false) => Bound::Exclude(x), _ => Bound::Infinite })),
        }
    }
    let ((lx, ux), (ly, uy)) = (bounds(&x), bounds(&y));
    let adj = touch(&lx, &uy) || touch(&ly, &ux);
    obs_b(adj);
    if adj { cover("adjacent") }
    check(x.is_adjacent_to(&y) == adj, &format!("{x:?} is_adjacent_to {y:?} is {}", !adj));
}
// ---- C18 -----------------------------------------------------------------------
pub fn c18_enclose<T: Pt>(_: &[usize]) {
    let (x, y, same) = pair(|| gen_raw::<T>(true), true);
    let (x, y) = (&x, other(&x, &y, same));
    let all = rng_union(&rngs(&x), &rngs(&y));
    let want = all.first().map(|f| (f.0.clone(), all[all.len() - 1].1.clone()));
    let e = x.enclose(&y);
    match &want { None => check(e.is_empty(), "enclose of empties"), Some(w) => check(raw_same(&e, &rng_raw(w)), &format!("enclose of {x:?}, {y:?} is {e:?}")) }
    obs_rngs(&want.into_iter().collect::<Vec<_>>());
    cover("enclosed");
}
pub fn c18_closure<T: Pt>(_: &[usize]) {
    use RawInterval::*;
    let x = gen_raw::<T>(true);
    let c = x.closure();
    let want = match x.clone() {
        Open(a, b) | LeftOpen(a, b) | RightOpen(a, b) | Closed(a, b) => Closed(a, b),
        UpTo(b) | To(b) => To(b),
        UpFrom(a) | From(a) => From(a),
        o => o,
    };
    check(raw_same(&c, &want), &format!("closure of {x:?} is {c:?}"));
    let cc = c.closure();
    check(raw_same(&cc, &c), "closure is not idempotent");
    let p = T::fresh();
    let b = raw_has(&x, &p);
    cov(b);
    check(!b || c.contains(&p), "closure loses a value");
}
// ---- C19 -----------------------------------------------------------------------
/// The items from an iterator that knows how many they are, one that knows
/// how many at most, or one that knows nothing.
pub fn source<X: Clone + 'static>(v: &[X]) -> Box<dyn Iterator<Item = X>> { source_kind(v, pick(3)) }
pub fn source_kind<X: Clone + 'static>(v: &[X], kind: usize) -> Box<dyn Iterator<Item = X>> {
    let mut i = v.to_vec().into_iter();
    match kind % 3 { 0 => Box::new(i), 1 => Box::new(i.filter(|_| true)), _ => Box::new(std::iter::from_fn(move || i.next())) }
}
pub fn c19_bulk<T: Pt>(a: &[usize]) {
    let items: Vec<RawInterval<T>> = (0..a[1]).map(|_| if a[2] == 1 { gen_proper() } else { gen_raw::<T>(true) }).collect();
    match a[0] {
        0 => {
            let mut all = vec![];
            for r in &items { all = rng_union(&all, &rngs(r)) }
            let e = RawInterval::enclose_all(source(&items));
            match all.first() {
                None => { cover("nothing"); check(e.is_empty(), &format!("enclose_all of {items:?} is {e:?}")) }
                Some(f) => {
                    cover("something");
                    let w = (f.0.clone(), all[all.len() - 1].1.clone());
                    check(raw_same(&e, &rng_raw(&w)), &format!("enclose_all of {items:?} is {e:?}"))
                }
            }
            obs_rngs(&all);
        }
        1 => {
            let mut all = vec![(Cut::Lo, Cut::Hi)];
            for r in &items { all = rng_inter(&all, &rngs(r)) }
            let e = RawInterval::intersect_all(source(&items));
            match all.first() {
                None => { cover("nothing"); check(e.is_empty(), &format!("intersect_all of {items:?} is {e:?}")) }
                Some(w) => { cover("something"); check(raw_same(&e, &rng_raw(w)), &format!("intersect_all of {items:?} is {e:?}")) }
            }
            obs_rngs(&all);
        }
        _ => {
            let mut all = vec![];
            for r in &items { all = rng_union(&all, &rngs(r)) }
            let v: Vec<_> = RawInterval::union_all(source(&items)).collect();
            if all.is_empty() { cover("nothing") } else { cover("something") }
            set_ok(&v, &all, &format!("union_all of {items:?}"));
        }
    }
}
/// A non-empty bounded interval of any kind.
pub fn gen_proper<T: Pt>() -> RawInterval<T> {
    use RawInterval::*;
    let a = T::fresh();
    let k = pick(5);
    if k == 0 { return Point(a); }
    let b = T::fresh();
    T::assume_le_off(&a, 1, &b);
    match k { 1 => Open(a, b), 2 => LeftOpen(a, b), 3 => RightOpen(a, b), _ => Closed(a, b) }
}
// ---- C20 -----------------------------------------------------------------------
/// A value whose text surrounds T's text with characters that an interval text
/// might be mistaken to own. Reading demands exactly the text written.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Txt<T>(T);
/// Longer than any width or precision one would think of.
const LONG: &str = "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz";
pub const STYLES: [(&str, &str); 18] = [("", ""), (" ", ""), ("", " "), ("\t", "\n"), ("-", ""), ("+", ""), ("\"", "\""), ("{", "}"),
    ("é", "ß"), ("0", "0"), ("..", ".."), ("<", ">"), ("∅", "ø"), (";", ":"), ("-inf", "inf"), ("\\", "|"), (LONG, ""), ("", LONG)];
thread_local! { static STYLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl<T: Pt> std::fmt::Display for Txt<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (a, b) = STYLES[STYLE.with(|s| s.get())];
        f.pad(&format!("{a}{}{b}", self.0))
    }
}
impl<T: Pt> std::str::FromStr for Txt<T> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let (a, b) = STYLES[STYLE.with(|s| s.get())];
        let x: T = s.strip_prefix(a).and_then(|s| s.strip_suffix(b)).and_then(|s| s.parse().ok()).ok_or(())?;
        let v = Txt(x);
        if v.to_string() == s { Ok(v) } else { Err(()) }
    }
}
fn raw_map<T, U>(r: &RawInterval<T>, f: impl Fn(&T) -> U) -> RawInterval<U> {
    use RawInterval::*;
    match r {
        Empty => Empty, Point(p) => Point(f(p)), Open(a, b) => Open(f(a), f(b)), LeftOpen(a, b) => LeftOpen(f(a), f(b)), RightOpen(a, b) => RightOpen(f(a), f(b)),
        Closed(a, b) => Closed(f(a), f(b)), UpTo(p) => UpTo(f(p)), UpFrom(p) => UpFrom(f(p)), To(p) => To(f(p)), From(p) => From(f(p)), Full => Full,
    }
}
pub fn c20_text<T: Pt>(_: &[usize]) {
    STYLE.with(|s| s.set(pick(STYLES.len())));
    let raw = gen_raw::<T>(true);
    let r = raw_map(&raw, |x| Txt(x.clone()));
    let s = r.to_string();
    match s.parse::<RawInterval<Txt<T>>>() {
        Ok(b) => { check(raw_same(&raw, &raw_map(&b, |x| x.0.clone())), &format!("{r:?} written as {s:?} parses as {b:?}")); check(b == r, "parsed interval is not equal") }
        Err(_) => fail(format!("{r:?} written as {s:?} does not parse")),
    }
    cover("round trip");
}
/// Whole texts of points: words, numbers, punctuation and blanks that a reader
/// or a writer might treat in a way of its own.
/// The last two are very long.
macro_rules! ten { ($s:expr) => { concat!($s, $s, $s, $s, $s, $s, $s, $s, $s, $s) } }
pub const WORDS: [&str; 74] = [
    "", " ", "\t", "\n", "\u{a0}", "\u{feff}", "\0", "a", "A", " a", "a ", "a b", "a  b", "_", "-", "--", "+", "*", "#", "/", "\\", "|", "~", "!", "?", ".", "..", "...", "..=", ":", ";", "=",
    "{}", "{0}", "{{", "<>", "''", "\"\"", "\"a\"", "'a'", "%20", "&lt;", "\\n", "empty", "EMPTY", "none", "null", "full", "inf", "-inf", "infinity", "nan", "∅", "ø", "⌀", "∪", "ꝏ", "−",
    "0", "00", "007", "-0", "+1", "1.0", "v1.0", "1e5", "1_000", "0x1f", "true", "é", "e\u{301}", "ßﬁİ🦀",
    concat!("9", ten!(ten!("01234")), "8"), concat!("a", ten!(ten!(ten!(ten!("∞é. ")))), "b"),
];
thread_local! { static NAMED: std::cell::RefCell<Vec<(&'static str, Box<dyn std::any::Any>)>> = const { std::cell::RefCell::new(vec![]) }; }
/// A point whose text is the word given to it.
#[derive(Clone, Debug)]
pub struct Word<T>(T, &'static str);
impl<T: Pt> PartialEq for Word<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Pt> Eq for Word<T> {}
impl<T: Pt> PartialOrd for Word<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T: Pt> Ord for Word<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T> std::fmt::Display for Word<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.1) } }
impl<T: Pt> std::str::FromStr for Word<T> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        NAMED.with(|n| n.borrow().iter().find(|(w, _)| *w == s).map(|(w, x)| Word(x.downcast_ref::<T>().expect("type of the point").clone(), w)).ok_or(()))
    }
}
pub fn c20_words<T: Pt>(_: &[usize]) {
    let (i, j) = (pick(WORDS.len()), pick(WORDS.len() - 1));
    let j = if j < i { j } else { j + 1 };
    let mut named: Vec<(&'static str, Box<dyn std::any::Any>)> = vec![];
    let mut name = |x: &T, w: &'static str| { named.push((w, Box::new(x.clone()))); Word(x.clone(), w) };
    use RawInterval::*;
    // The second word matters only to intervals of two values.
    let k = pick(if i == (j + 1) % WORDS.len() { 9 } else { 4 });
    let a = T::fresh();
    let r = if k < 4 {
        let b = T::fresh();
        T::assume_le_off(&a, 1, &b);
        let (a, b) = (name(&a, WORDS[i]), name(&b, WORDS[j]));
        match k { 0 => Open(a, b), 1 => LeftOpen(a, b), 2 => RightOpen(a, b), _ => Closed(a, b) }
    } else {
        let a = name(&a, WORDS[i]);
        match k { 4 => Point(a), 5 => UpTo(a), 6 => UpFrom(a), 7 => To(a), _ => From(a) }
    };
    NAMED.with(|n| *n.borrow_mut() = named);
    let s = r.to_string();
    match s.parse::<RawInterval<Word<T>>>() {
        Ok(b) => check(b == r, &format!("{r:?} written as {s:?} parses as {b:?}")),
        Err(_) => fail(format!("{r:?} written as {s:?} does not parse")),
    }
    cover("round trip");
}
pub fn c20_reversed<T: Pt>(_: &[usize]) {
    use RawInterval::*;
    STYLE.with(|s| s.set(pick(STYLES.len())));
    let (a, b) = (T::fresh(), T::fresh());
    let lit = match pick(4) { 0 => Open(a.clone(), b.clone()), 1 => LeftOpen(a.clone(), b.clone()), 2 => RightOpen(a.clone(), b.clone()), _ => Closed(a.clone(), b.clone()) };
    let s = raw_map(&lit, |x| Txt(x.clone())).to_string();
    let r = match s.parse::<RawInterval<Txt<T>>>() { Ok(r) => raw_map(&r, |x| x.0.clone()), Err(_) => fail(format!("{s:?} does not parse")) };
    check(raw_wf(&r), &format!("{s:?} parses to the ill-formed {r:?}"));
    if lt(&a, &b) { cover("ordered"); check(raw_same(&r, &lit), "ordered literal changes") }
    else if eq(&a, &b) { cover("same"); check(if matches!(lit, Open(..)) { r.is_empty() } else { matches!(&r, Point(p) if eq(p, &a)) }, &format!("{s:?} parses to {r:?}")) }
    else { cover("reversed"); check(r.is_empty(), &format!("{s:?} parses to {r:?}")) }
}
// ---- C22 -----------------------------------------------------------------------
pub fn c22_combine<T: Pt>(_: &[usize]) {
    let (a, b, same) = pair(gen_bound::<T>, true);
    let (a, b) = (&a, other(&a, &b, same));
    let op = pick(4);
    let (r, lower, union) = match op {
        0 => (a.least_union(&b), true, true),
        1 => (a.greatest_intersect(&b), true, false),
        2 => (a.greatest_union(&b), false, true),
        _ => (a.least_intersect(&b), false, false),
    };
    // As cuts: the kept bound must be the expected one of the two.
    let cut = |x: &Bound<T>| if lower { lower_cut(x) } else { upper_cut(x) };
    let (ca, cb, cr) = (cut(&a), cut(&b), cut(&r));
    let a_first = cle(&ca, &cb);
    // lower+union and upper+intersect keep the smaller cut.
    let want = if lower == union { if a_first { ca } else { cb } } else if a_first { cb } else { ca };
    let name = ["least_union", "greatest_intersect", "greatest_union", "least_intersect"][op];
    check(ceq(&cr, &want), &format!("{a:?} {name} {b:?} is {r:?}"));
    let p = T::fresh();
    let adm = |x: &Bound<T>| match x {
        Bound::Include(v) => if lower { le(v, &p) } else { le(&p, v) },
        Bound::Exclude(v) => if lower { lt(v, &p) } else { lt(&p, v) },
        Bound::Infinite => true,
    };
    let w = if union { adm(&a) || adm(&b) } else { adm(&a) && adm(&b) };
    cov(w);
    check(adm(&r) == w, &format!("{a:?} {name} {b:?} is {r:?}: wrong for {p:?}"));
}
// ---- C23 -----------------------------------------------------------------------
pub fn c23_accessors<T: Pt>(_: &[usize]) {
    use Bound::*;
    let mut b = gen_bound::<T>();
    let val: Option<T> = match &b { Include(x) | Exclude(x) => Some(x.clone()), Infinite => None };
    check(b.is_finite() == val.is_some(), "is_finite");
    check(b.is_inclusive() == matches!(b, Include(_)), "is_inclusive");
    check(b.is_exclusive() == matches!(b, Exclude(_)), "is_exclusive");
    check(pt_opt_same(&b.as_ref().cloned(), &val), "as_ref");
    check(pt_opt_same(&b.as_mut().cloned(), &val), "as_mut");
    let d = T::fresh();
    let or = val.clone().unwrap_or_else(|| d.clone());
    check(eq(&b.clone().unwrap_or(d.clone()), &or), "unwrap_or");
    let mut calls = 0;
    check(eq(&b.clone().unwrap_or_else(|| { calls += 1; d.clone() }), &or), "unwrap_or_else");
    check(calls == usize::from(val.is_none()), "unwrap_or_else calls its default for a finite bound");
    if let Some(v) = &val { check(eq(&b.clone().unwrap(), v), "unwrap"); cover("finite") }
    else { check(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.clone().unwrap())).is_err(), "unwrap of Infinite returns"); cover("infinite") }
    // map keeps the kind and maps the value.
    let mut seen = vec![];
    let m = b.clone().map(|x| { seen.push(x); 7u8 });
    check(match (&b, &m) { (Include(_), Include(7)) | (Exclude(_), Exclude(7)) | (Infinite, Infinite) => true, _ => false }, &format!("map gives {m:?} from {b:?}"));
    check(pt_opt_same(&seen.pop(), &val) && seen.is_empty(), "map passes another value");
    let mo = b.clone().map_or(None, Some);
    check(pt_opt_same(&mo, &val), "map_or");
    let mut dcalls = 0;
    let me = b.clone().map_or_else(|| { dcalls += 1; None }, Some);
    check(pt_opt_same(&me, &val) && dcalls == usize::from(val.is_none()), "map_or_else");
    let t = Bound::transfer(&b, 3u8);
    check(match (&b, &t) { (Include(_), Include(3)) | (Exclude(_), Exclude(3)) | (Infinite, Infinite) => true, _ => false }, "transfer");
    let f: Bound<T> = Bound::from(d.clone());
    check(matches!(&f, Include(x) if eq(x, &d)), "from");
    check(matches!(Bound::<u8>::default(), Include(0)), "default");
    // Writing through as_mut changes the value only.
    let before = b.clone();
    if let Some(x) = b.as_mut() { *x = d.clone(); }
    check(match (&before, &b) { (Include(_), Include(x)) | (Exclude(_), Exclude(x)) => eq(x, &d), (Infinite, Infinite) => true, _ => false }, "as_mut write");
    // Equality is by kind and value.
    let o = gen_bound::<T>();
    check((o == before) == bound_same(&o, &before), "== on bounds");
}
// ---- C24 -----------------------------------------------------------------------
fn gen_tine<T: Pt>() -> Tine<T> {
    use Bound::*;
    match pick(8) {
        0 => Tine::Lower(Infinite), 1 => Tine::Upper(Infinite),
        2 => Tine::Lower(Include(T::fresh())), 3 => Tine::Lower(Exclude(T::fresh())),
        4 => Tine::Upper(Include(T::fresh())), 5 => Tine::Upper(Exclude(T::fresh())),
        6 => Tine::Point(Include(T::fresh())), _ => Tine::Point(Exclude(T::fresh())),
    }
}
/// Position: -1/1 for the unbounded markers, else the value.
fn tpos<T: Pt>(t: &Tine<T>) -> (i8, Option<T>) {
    match t {
        Tine::Lower(Bound::Infinite) => (-1, None), Tine::Upper(Bound::Infinite) => (1, None),
        Tine::Lower(Bound::Include(x) | Bound::Exclude(x)) | Tine::Upper(Bound::Include(x) | Bound::Exclude(x)) | Tine::Point(Bound::Include(x) | Bound::Exclude(x)) => (0, Some(x.clone())),
        Tine::Point(Bound::Infinite) => (0, None),
    }
}
fn tcmp<T: Pt>(a: &Tine<T>, b: &Tine<T>) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    match (tpos(a), tpos(b)) {
        ((0, Some(x)), (0, Some(y))) => if lt(&x, &y) { Less } else if eq(&x, &y) { Equal } else { Greater },
        ((i, _), (j, _)) => i.cmp(&j),
    }
}
pub fn c24_order<T: Pt>(_: &[usize]) {
    let (a, b, same) = pair(gen_tine::<T>, true);
    let (a, b) = (&a, other(&a, &b, same));
    let want = tcmp(&a, &b);
    obs(want as i8 as u8 as u64);
    match want { std::cmp::Ordering::Equal => cover("equal"), _ => cover("ordered") }
    let s = |n: &str| format!("{n} of {a:?} and {b:?}, expected {want:?}");
    check(a.cmp(&b) == want, &s("cmp"));
    check(a.partial_cmp(&b) == Some(want), &s("partial_cmp"));
    check(b.cmp(&a) == want.reverse(), &s("reversed cmp"));
    check((a < b) == (want == std::cmp::Ordering::Less), &s("<"));
    check((a >= b) == (want != std::cmp::Ordering::Less), &s(">="));
    check((a > b) == (want == std::cmp::Ordering::Greater), &s(">"));
    check((a <= b) == (want != std::cmp::Ordering::Greater), &s("<="));
}
pub fn c24_transitive<T: Pt>(_: &[usize]) {
    let (a, b, c) = (gen_tine::<T>(), gen_tine::<T>(), gen_tine::<T>());
    if a.cmp(&b) != std::cmp::Ordering::Greater && b.cmp(&c) != std::cmp::Ordering::Greater {
        cover("chain");
        check(a.cmp(&c) != std::cmp::Ordering::Greater, &format!("{a:?} <= {b:?} <= {c:?} but not {a:?} <= {c:?}"));
    }
}
type Cov = (bool, bool, bool);
fn tcov<T>(t: &Tine<T>) -> Cov {
    use Bound::*;
    match t {
        Tine::Lower(Include(_)) => (false, true, true), Tine::Lower(Exclude(_)) => (false, false, true),
        Tine::Upper(Include(_)) => (true, true, false), Tine::Upper(Exclude(_)) => (true, false, false),
        Tine::Point(Include(_)) => (false, true, false), Tine::Point(Exclude(_)) => (true, false, true),
        Tine::Lower(Infinite) => (false, false, true), Tine::Upper(Infinite) => (true, false, false),
        Tine::Point(Infinite) => (false, false, false),
    }
}
pub fn c24_combine<T: Pt>(_: &[usize]) {
    let op = pick(3);
    let p = T::fresh();
    let mk = |k: usize| { use Bound::*; match k {
        0 => Tine::Lower(Include(p.clone())), 1 => Tine::Lower(Exclude(p.clone())), 2 => Tine::Upper(Include(p.clone())),
        3 => Tine::Upper(Exclude(p.clone())), 4 => Tine::Point(Include(p.clone())), _ => Tine::Point(Exclude(p.clone())) } };
    let (a, b) = (mk(pick(6)), mk(pick(6)));
    let (x, y) = (tcov(&a), tcov(&b));
    let f = |m: bool, n: bool| match op { 0 => m || n, 1 => m && n, _ => m && !n };
    let want = (f(x.0, y.0), f(x.1, y.1), f(x.2, y.2));
    let r = match op { 0 => a.clone().union(&b), 1 => a.clone().intersect(&b), _ => a.clone().minus(&b) };
    let name = ["union", "intersect", "minus"][op];
    let uniform = want.0 == want.1 && want.1 == want.2;
    match &r {
        None => { cover("no boundary"); check(uniform, &format!("{a:?} {name} {b:?} is None, coverage is {want:?}")) }
        Some(t) => { cover("boundary"); check(!uniform && tcov(t) == want && tpos(t).1.is_some_and(|q| eq(&q, &p)), &format!("{a:?} {name} {b:?} is {t:?}, coverage is {want:?}")) }
    }
    let i = a.clone().invert();
    check(tcov(&i) == (!x.0, !x.1, !x.2) && tpos(&i).1.is_some_and(|q| eq(&q, &p)), &format!("inverting {a:?} gives {i:?}"));
}
pub fn c24_queries<T: Pt>(_: &[usize]) {
    use Bound::*;
    let a = gen_tine::<T>();
    let (lo, up) = match &a { Tine::Lower(_) => (true, false), Tine::Upper(_) => (false, true), Tine::Point(Exclude(_)) => (true, true), Tine::Point(_) => (false, false) };
    check(a.is_lower_bound() == lo, "is_lower_bound");
    check(a.is_upper_bound() == up, "is_upper_bound");
    check(a.is_point_include() == matches!(a, Tine::Point(Include(_))), "is_point_include");
    check(a.is_point_exclude() == matches!(a, Tine::Point(Exclude(_))), "is_point_exclude");
    check(pt_opt_same(&a.as_ref().cloned(), &tpos(&a).1), "as_ref");
    let b = match a.clone() { Tine::Lower(b) | Tine::Upper(b) | Tine::Point(b) => b };
    check(bound_same(&a.clone().into_inner(), &b), "into_inner");
    // The markers of a raw interval describe exactly its two ends.
    let r = gen_raw::<T>(true);
    let ts: Vec<Tine<T>> = Tine::from_raw_interval(r.clone()).collect();
    let ok = match (&r, ts.as_slice()) {
        (RawInterval::Empty, []) => true,
        (RawInterval::Point(p), [Tine::Point(Include(q))]) => eq(p, q),
        (_, [Tine::Lower(l), Tine::Upper(u)]) => {
            let w = raw_rng(&r).expect("non-empty");
            ceq(&lower_cut(l), &w.0) && ceq(&upper_cut(u), &w.1)
        }
        _ => false,
    };
    check(ok, &format!("markers of {r:?} are {ts:?}"));
    cover("queried");
}
// ---- C25 -----------------------------------------------------------------------
pub fn tree_ok<T: Pt>(t: &TineTree<T>, want: &[Rng<T>], what: &str) {
    obs_rngs(want);
    if want.is_empty() { cover("empty result") } else if want.len() == 1 { cover("one range") } else { cover("several ranges") }
    if !tree_is(t, want) {
        fail(format!("{what}: holds {:?}, expected {:?}", t.interval_iter().collect::<Vec<_>>(), want.iter().map(rng_raw).collect::<Vec<_>>()))
    }
    let d = tree_of(want);
    check(*t == d, &format!("{what}: != the tree collected from the same intervals ({t:?} vs {d:?})"));
}
pub fn c25_in_place<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[1]);
    let mut t = tree_of(&x);
    let i = gen_raw::<T>(true);
    let y = rngs(&i);
    let (want, n) = match a[0] {
        0 => { t.union_in_place(&i); (rng_union(&x, &y), "union_in_place") }
        1 => { t.minus_in_place(&i); (rng_minus(&x, &y), "minus_in_place") }
        _ => { t.intersect_in_place(&i); (rng_inter(&x, &y), "intersect_in_place") }
    };
    if a[2] == 0 { tree_ok(&t, &want, n); return; }
    let p = T::fresh();
    let (m, q) = (rng_has(&x, &p), raw_has(&i, &p));
    let w = match a[0] { 0 => m || q, 1 => m && !q, _ => m && q };
    cov(w);
    check(t.contains(&p) == w, &format!("{n} with {i:?}: contains({p:?}) is {}", !w));
}
// ---- C26 -----------------------------------------------------------------------
pub fn c26_binary<T: Pt>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_rngs::<T>(a[1]), || gen_rngs::<T>(a[2]), a[1] == a[2]);
    let (t, u) = (tree_of(&x), tree_of(&y));
    let (t, u) = (&t, other(&t, &u, same));
    let (r, want, n) = match a[0] {
        0 => (t.union(&u), rng_union(&x, &y), "union"),
        1 => (t.intersect(&u), rng_inter(&x, &y), "intersect"),
        _ => (t.minus(&u), rng_minus(&x, &y), "minus"),
    };
    tree_ok(&r, &want, n);
}
pub fn c26_member<T: Pt>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_rngs::<T>(a[1]), || gen_rngs::<T>(a[2]), a[1] == a[2]);
    let (t, u) = (tree_of(&x), tree_of(&y));
    let (t, u) = (&t, other(&t, &u, same));
    let r = match a[0] { 0 => t.union(&u), 1 => t.intersect(&u), 2 => t.minus(&u), _ => t.complement() };
    let p = T::fresh();
    let (m, n) = (rng_has(&x, &p), rng_has(&y, &p));
    let w = match a[0] { 0 => m || n, 1 => m && n, 2 => m && !n, _ => !m };
    cov(w);
    check(r.contains(&p) == w, &format!("operation {}: contains({p:?}) is {}", a[0], !w));
}
pub fn c26_complement<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[0]);
    let t = tree_of(&x);
    let c = t.complement();
    tree_ok(&c, &rng_compl(&x), "complement");
    let cc = c.complement();
    tree_ok(&cc, &x, "complement of complement");
}
// ---- C27 -----------------------------------------------------------------------
pub fn c27_queries<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[0]);
    tree_asked(&tree_of(&x), &x);
}
/// Everything asked of a tree without changing it.
pub fn tree_asked<T: Pt>(t: &TineTree<T>, x: &[Rng<T>]) {
    check(t.is_empty() == x.is_empty(), "is_empty");
    let full = x.len() == 1 && matches!(x[0], (Cut::Lo, Cut::Hi));
    check(t.is_full() == full, &format!("is_full of {t:?} is {}", t.is_full()));
    let lb = x.first().map(|r| match &r.0 { Cut::At(v, false) => Bound::Include(v.clone()), Cut::At(v, true) => Bound::Exclude(v.clone()), _ => Bound::Infinite });
    let ub = x.last().map(|r| match &r.1 { Cut::At(v, true) => Bound::Include(v.clone()), Cut::At(v, false) => Bound::Exclude(v.clone()), _ => Bound::Infinite });
    check(bound_opt_same(&t.lower_bound(), &lb), &format!("lower_bound is {:?}", t.lower_bound()));
    check(bound_opt_same(&t.upper_bound(), &ub), &format!("upper_bound is {:?}", t.upper_bound()));
    let hull = x.first().map(|f| (f.0.clone(), x[x.len() - 1].1.clone()));
    let want = hull.as_ref().map_or(RawInterval::Empty, rng_raw);
    let e = t.enclose();
    check(raw_same(&e, &want), &format!("enclose of {t:?} is {e:?}"));
    use RawInterval::*;
    let wc = match want { Open(a, b) | LeftOpen(a, b) | RightOpen(a, b) | Closed(a, b) => Closed(a, b), UpTo(b) | To(b) => To(b), UpFrom(a) | From(a) => From(a), o => o };
    let c = t.closure();
    check(raw_same(&c, &wc), &format!("closure of {t:?} is {c:?}"));
    let v: Vec<_> = t.interval_iter().rev().collect();
    check(v.len() == x.len() && v.iter().rev().zip(x).all(|(i, r)| raw_same(i, &rng_raw(r))), &format!("backwards the intervals of {t:?} are {v:?}"));
    let p = T::fresh();
    let w = rng_has(x, &p);
    cov(w);
    check(t.contains(&p) == w, &format!("contains({p:?}) is {}", !w));
    tree_with_itself(t, x);
}
/// A tree as both operands, and overwriting another.
pub fn tree_with_itself<T: Pt>(t: &TineTree<T>, x: &[Rng<T>]) {
    check(tree_is(&t.union(t), x) && tree_is(&t.intersect(t), x), "union or intersection with itself");
    check(t.minus(t).is_empty() && t.minus(t) == TineTree::new(), "something is left without itself");
    #[allow(clippy::eq_op)]
    { check(*t == *t && !(*t != *t), "a tree differs from itself") }
    let mut c = TineTree::from_raw_interval(RawInterval::Full);
    c.clone_from(t);
    check(tree_is(&c, x) && c == *t, &format!("{t:?} overwrites as {c:?}"));
    c.union_in_place(&RawInterval::Full);
    check(c.is_full() && tree_is(t, x), "editing a copy");
}
pub fn c27_build<T: Pt>(a: &[usize]) {
    let items: Vec<RawInterval<T>> = (0..a[0]).map(|_| gen_raw::<T>(true)).collect();
    let mut want = vec![];
    for r in &items { want = rng_union(&want, &rngs(r)) }
    let t: TineTree<T> = match a[1] {
        0 => source(&items).collect(),
        _ => TineTree::from(source(&items)),
    };
    tree_ok(&t, &want, &format!("tree of {items:?}"));
    if items.len() == 1 {
        let f = if flip() { TineTree::from_raw_interval(items[0].clone()) } else { TineTree::from(items[0].clone()) };
        tree_ok(&f, &want, "tree of one interval");
    }
    if items.is_empty() { tree_ok(&TineTree::<T>::new(), &[], "new"); tree_ok(&TineTree::<T>::default(), &[], "default") }
}
// ---- C28 -----------------------------------------------------------------------
pub fn c28_iter<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[0]);
    let t = tree_of(&x);
    fn drive<T: Pt>(mut it: impl DoubleEndedIterator<Item = RawInterval<T>>, x: &[Rng<T>]) {
        let (mut i, mut j) = (0, x.len());
        for _ in 0..x.len() + 2 {
            let back = flip();
            obs_b(back);
            let got = if back { it.next_back() } else { it.next() };
            let want = if i == j { None } else if back { j -= 1; Some(rng_raw(&x[j])) } else { i += 1; Some(rng_raw(&x[i - 1])) };
            let (least, most) = it.size_hint();
            check(least <= j - i && most.map_or(true, |m| j - i <= m), &format!("{} intervals are left, size_hint says {least} to {most:?}", j - i));
            match (&got, &want) {
                (None, None) => cover("exhausted"),
                (Some(g), Some(w)) if raw_same(g, w) => {}
                _ => fail(format!("{} yields {got:?}, expected {want:?} of {:?}", if back { "next_back" } else { "next" }, x.iter().map(rng_raw).collect::<Vec<_>>())),
            }
        }
    }
    match pick(2) { 0 => drive(t.interval_iter(), &x), _ => drive(t.into_iter(), &x) }
}
/// args: steps, ranges
pub fn c28_finish<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[1]);
    let t = tree_of(&x);
    let same = |i: &RawInterval<T>, n: usize| raw_same(i, &rng_raw(&x[n]));
    match pick(2) { 0 => crate::fin::drive_finish(t.interval_iter(), x.len(), a[0], same), _ => crate::fin::drive_finish(t.into_iter(), x.len(), a[0], same) }
}
/// A tree history: several in-place edits in a row.
pub fn c25_history<T: Pt>(a: &[usize]) {
    let (mut t, mut m): (TineTree<T>, Vec<Rng<T>>) = (TineTree::new(), vec![]);
    let (mut old, mut old_m) = (t.clone(), m.clone());
    for k in 0..a[0] {
        let op = if k == 0 { 0 } else { pick(3) };
        let i = if a[1] == 1 { gen_proper() } else { gen_raw::<T>(true) };
        let y = rngs(&i);
        if a.len() > 2 { let _ = (t.enclose(), t.is_full(), t.lower_bound()); old = t.clone(); old_m = m.clone(); }
        match op {
            0 => { t.union_in_place(&i); m = rng_union(&m, &y) }
            1 => { t.minus_in_place(&i); m = rng_minus(&m, &y) }
            _ => { t.intersect_in_place(&i); m = rng_inter(&m, &y) }
        }
    }
    tree_ok(&t, &m, "history");
    if a.len() > 2 { check(tree_is(&old, &old_m), &format!("an edit changes an earlier copy to {old:?}")); tree_asked(&t, &m); old.clone_from(&t); check(tree_is(&old, &m), "overwriting an earlier copy") }
}
/// args: op, runs; a tree spanning several storage nodes.
pub fn c31_tree<T: Pt>(a: &[usize]) {
    // Alternating open ranges, some sharing an excluded value.
    let mut x: Vec<Rng<T>> = vec![];
    let mut prev: Option<T> = None;
    for i in 0..a[1] {
        let lo = match (&prev, i % 2) {
            (Some(u), 1) => Cut::At(u.clone(), true),
            (Some(u), _) => { let v = T::fresh(); T::assume_le_off(u, 1, &v); Cut::At(v, i % 4 == 0) }
            _ => Cut::At(T::fresh(), false),
        };
        let Cut::At(l, _) = &lo else { unreachable!() };
        let y = T::fresh();
        T::assume_le_off(l, 1, &y);
        prev = Some(y.clone());
        x.push((lo, Cut::At(y, i % 2 == 1)));
    }
    let mut t = tree_of(&x);
    let i = gen_proper::<T>();
    let y = rngs(&i);
    let (want, n) = match a[0] {
        0 => { t.union_in_place(&i); (rng_union(&x, &y), "union_in_place") }
        1 => { t.minus_in_place(&i); (rng_minus(&x, &y), "minus_in_place") }
        _ => { t.intersect_in_place(&i); (rng_inter(&x, &y), "intersect_in_place") }
    };
    tree_ok(&t, &want, n);
}
// ---- C32 -----------------------------------------------------------------------
/// args: ranges of either tree
pub fn c32_equality<T: Pt>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_rngs::<T>(a[0]), || gen_rngs::<T>(a[1]), a[0] == a[1]);
    let (t, u) = (tree_of(&x), tree_of(&y));
    let (t, u) = (&t, other(&t, &u, same));
    let want = rng_eq(&x, &y);
    obs_b(want);
    if want { cover("equal sets") } else { cover("different sets") }
    check((t == u) == want, &format!("{t:?} == {u:?} should be {want}"));
    check((u != t) != want, "!= disagrees with ==");
    if want { check(hash_of(&t) == hash_of(&u), "equal trees hash differently") }
    let mut c = u.clone();
    c.clone_from(t);
    check(tree_is(&c, &x) && c == *t, &format!("{u:?} overwritten with {t:?} is {c:?}"));
}
/// args: ranges. The same values by different routes.
pub fn c32_routes<T: Pt>(a: &[usize]) {
    let x = gen_rngs::<T>(a[0]);
    let raws: Vec<RawInterval<T>> = x.iter().map(rng_raw).collect();
    let d = tree_of(&x);
    let full = || TineTree::from_raw_interval(RawInterval::Full);
    let t = match pick(12) {
        0 => raws.iter().rev().cloned().collect(),
        1 => d.complement().complement(),
        2 => full().minus(&full().minus(&d)),
        3 => full().intersect(&d),
        4 => { let mut t = full(); for r in d.complement().interval_iter() { t.minus_in_place(&r) } t }
        5 => d.union(&d),
        6 => d.intersect(&d).union(&d.minus(&d)),
        7 => TineTree::from(raws.iter().chain(&raws).cloned()),
        8 => { // Each interval on its own, joined in the end.
            let mut t = TineTree::new();
            for r in &raws { let mut one = full(); one.intersect_in_place(r); t = one.union(&t) }
            t
        }
        9 | 10 => { // A value is removed and put back.
            let p = T::fresh();
            let mut t = d.clone();
            let had = rng_has(&x, &p);
            let point = RawInterval::Point(p);
            if had { t.minus_in_place(&point); t.union_in_place(&point) } else { t.union_in_place(&point); t.minus_in_place(&point) }
            t
        }
        _ => { // Everything up to a value and everything from it on.
            let p = T::fresh();
            let (mut l, mut u) = (d.clone(), d.clone());
            l.intersect_in_place(&RawInterval::UpTo(p.clone()));
            u.intersect_in_place(&RawInterval::From(p));
            if flip() { l.union(&u) } else { u.union(&l) }
        }
    };
    tree_ok(&t, &x, "route");
    check(d == t && hash_of(&t) == hash_of(&d), "trees of the same values differ or hash differently");
}
