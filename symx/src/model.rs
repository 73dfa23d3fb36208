//! Reference models: sets of points as sorted lists of maximal runs (finite
//! types), and sets of values as sorted lists of cut ranges (dense orders).
//! Nothing here calls the set logic of the code under test.
use crate::sym::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::cmp::Ordering;

pub fn le<T: Pt>(a: &T, b: &T) -> bool { T::le_off(a, 0, b) }
pub fn lt<T: Pt>(a: &T, b: &T) -> bool { T::le_off(a, 1, b) }
pub fn eq<T: Pt>(a: &T, b: &T) -> bool { T::eq_off(a, 0, b) }
pub fn tmax<T: Pt>(a: &T, b: &T) -> T { if le(a, b) { b.clone() } else { a.clone() } }
pub fn tmin<T: Pt>(a: &T, b: &T) -> T { if le(a, b) { a.clone() } else { b.clone() } }

// ---- Finite: closed runs -------------------------------------------------------
pub type Run<T> = (T, T);
pub type Runs<T> = Vec<Run<T>>;

/// k arbitrary maximal runs, ascending, at least one missing point in between.
pub fn gen_runs<T: Fin>(k: usize) -> Runs<T> {
    let mut v: Runs<T> = vec![];
    for _ in 0..k {
        let l = T::fresh();
        if let Some((_, u)) = v.last() { T::assume_le_off(u, 2, &l) }
        let u = T::fresh();
        T::assume_le_off(&l, 0, &u);
        v.push((l, u));
    }
    v
}
pub fn run_is_point(kind: usize, i: usize) -> bool { match kind { 0 => true, 1 => false, 2 => i % 2 == 0, _ => i % 2 == 1 } }
/// Like `gen_runs`, every run a point (`kind` 0), proper (1) or alternating (2, 3).
pub fn gen_runs_kind<T: Fin>(k: usize, kind: usize) -> Runs<T> {
    let mut v: Runs<T> = vec![];
    for i in 0..k {
        let l = T::fresh();
        if let Some((_, u)) = v.last() { T::assume_le_off(u, 2, &l) }
        let point = run_is_point(kind, i);
        let u = if point { l.clone() } else { let u = T::fresh(); T::assume_le_off(&l, 1, &u); u };
        v.push((l, u));
    }
    v
}
pub fn gap_of(kind: usize, i: usize) -> i64 { match kind { 0 => 3, 1 => 2, _ => if i % 2 == 0 { 2 } else { 3 } } }
/// Like `gen_runs_kind`, every gap before a run one point (kind 1), at least two
/// points (0) or alternating (2).
pub fn gen_runs_gaps<T: Fin>(k: usize, kind: usize, gaps: usize) -> Runs<T> {
    let mut v: Runs<T> = vec![];
    for i in 0..k {
        let l = T::fresh();
        if let Some((_, u)) = v.last() {
            let g = gap_of(gaps, i);
            T::assume_le_off(u, g, &l);
            if g == 2 { T::assume_le_off(&l, -2, u) }
        }
        let u = if run_is_point(kind, i) { l.clone() } else { let u = T::fresh(); T::assume_le_off(&l, 1, &u); u };
        v.push((l, u));
    }
    v
}
pub fn ivl<T: Fin>(r: &Run<T>) -> Interval<T> { Interval::closed(r.0.clone(), r.1.clone()) }
pub fn sel_of<T: Fin>(r: &Runs<T>) -> Selection<T> { r.iter().map(ivl).collect() }
pub fn has<T: Pt>(r: &[Run<T>], p: &T) -> bool { r.iter().any(|(l, u)| le(l, p) && le(p, u)) }

/// An arbitrary interval: none, or closed l <= u.
pub fn gen_run_opt<T: Fin>() -> Option<Run<T>> {
    if pick(2) == 1 { return None; }
    Some(gen_run())
}
pub fn gen_run<T: Fin>() -> Run<T> {
    let l = T::fresh();
    let u = T::fresh();
    T::assume_le_off(&l, 0, &u);
    (l, u)
}
pub fn ivl_opt<T: Fin>(r: &Option<Run<T>>) -> Interval<T> { r.as_ref().map_or_else(Interval::empty, ivl) }

pub fn runs_add<T: Fin>(a: &[Run<T>], x: &Run<T>) -> Runs<T> {
    let (mut l, mut u) = x.clone();
    let mut out = vec![];
    let mut rest = vec![];
    for r in a {
        // Strictly before with a gap, strictly after with a gap, or merged.
        if T::le_off(&r.1, 2, &l) { out.push(r.clone()) }
        else if T::le_off(&u, 2, &r.0) { rest.push(r.clone()) }
        else { l = tmin(&l, &r.0); u = tmax(&u, &r.1); }
    }
    out.push((l, u));
    out.extend(rest);
    out
}
pub fn runs_union<T: Fin>(a: &[Run<T>], b: &[Run<T>]) -> Runs<T> {
    let mut r = a.to_vec();
    for x in b { r = runs_add(&r, x) }
    r
}
pub fn runs_inter<T: Fin>(a: &[Run<T>], b: &[Run<T>]) -> Runs<T> {
    let (mut i, mut j) = (0, 0);
    let mut out = vec![];
    while i < a.len() && j < b.len() {
        if lt(&a[i].1, &b[j].0) { i += 1; continue; }
        if lt(&b[j].1, &a[i].0) { j += 1; continue; }
        let l = tmax(&a[i].0, &b[j].0);
        if le(&a[i].1, &b[j].1) { out.push((l, a[i].1.clone())); i += 1 } else { out.push((l, b[j].1.clone())); j += 1 }
    }
    out
}
pub fn runs_compl<T: Fin>(a: &[Run<T>]) -> Runs<T> {
    let mut out = vec![];
    let mut from = Some(T::MINIMUM);
    for (l, u) in a {
        let f = from.expect("runs end at the maximum");
        if let Some(p) = l.pred() { if le(&f, &p) { out.push((f, p)) } }
        from = u.succ();
    }
    if let Some(f) = from { out.push((f, T::MAXIMUM)) }
    out
}
pub fn runs_minus<T: Fin>(a: &[Run<T>], b: &[Run<T>]) -> Runs<T> {
    let mut r = a.to_vec();
    for x in b {
        let mut out = vec![];
        for (l, u) in r {
            if lt(&u, &x.0) || lt(&x.1, &l) { out.push((l, u)); continue; }
            if lt(&l, &x.0) { out.push((l, x.0.pred().expect("above another point"))) }
            if lt(&x.1, &u) { out.push((x.1.succ().expect("below another point"), u)) }
        }
        r = out;
    }
    r
}
pub fn runs_eq<T: Pt>(a: &[Run<T>], b: &[Run<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(&x.0, &y.0) && eq(&x.1, &y.1))
}
/// Whether the interval is exactly the normalized interval of the run.
pub fn is_run<T: Fin>(i: &Interval<T>, r: &Run<T>) -> bool {
    match (i.lower_bound(), i.upper_bound()) {
        (Some(Bound::Include(l)), Some(Bound::Include(u))) =>
            eq(&l, &r.0) && eq(&u, &r.1) && i.is_degenerate() == eq(&r.0, &r.1) && !i.is_empty(),
        _ => false,
    }
}
/// The points of an interval, read off its bounds (None: not a normalized interval).
pub fn run_of<T: Fin>(i: &Interval<T>) -> Option<Option<Run<T>>> {
    match (i.lower_bound(), i.upper_bound()) {
        (None, None) => if i.is_empty() { Some(None) } else { None },
        (Some(Bound::Include(l)), Some(Bound::Include(u))) => {
            if i.is_empty() || !le(&l, &u) || i.is_degenerate() != eq(&l, &u) { return None; }
            Some(Some((l, u)))
        }
        _ => None,
    }
}
pub fn is_run_opt<T: Fin>(i: &Interval<T>, r: &Option<Run<T>>) -> bool {
    match r { Some(r) => is_run(i, r), None => i.is_empty() && i.lower_bound().is_none() && i.upper_bound().is_none() && !i.is_degenerate() }
}
pub fn sel_is<T: Fin>(s: &Selection<T>, r: &[Run<T>]) -> bool {
    let v: Vec<_> = s.interval_iter().collect();
    v.len() == r.len() && v.iter().zip(r).all(|(i, r)| is_run(i, r))
}
pub fn obs_runs<T: Pt>(r: &[Run<T>]) { obs(r.len() as u64); for (l, u) in r { l.obs(); u.obs(); } }

/// The points a raw interval literal describes, as a run of the finite type.
pub fn raw_run<T: Fin>(r: &RawInterval<T>) -> Option<Run<T>> {
    use RawInterval::*;
    let (l, u) = match r {
        Empty => return None,
        Point(p) => (p.clone(), p.clone()),
        Open(a, b) => if T::le_off(a, 2, b) { (a.succ()?, b.pred()?) } else { return None },
        LeftOpen(a, b) => if lt(a, b) { (a.succ()?, b.clone()) } else { return None },
        RightOpen(a, b) => if lt(a, b) { (a.clone(), b.pred()?) } else { return None },
        Closed(a, b) => if le(a, b) { (a.clone(), b.clone()) } else { return None },
        UpTo(b) => (T::MINIMUM, b.pred()?),
        UpFrom(a) => (a.succ()?, T::MAXIMUM),
        To(b) => (T::MINIMUM, b.clone()),
        From(a) => (a.clone(), T::MAXIMUM),
        Full => (T::MINIMUM, T::MAXIMUM),
    };
    Some((l, u))
}
/// Membership of a value in a raw interval literal, by its definition.
pub fn raw_has<T: Pt>(r: &RawInterval<T>, p: &T) -> bool {
    use RawInterval::*;
    match r {
        Empty => false,
        Point(x) => eq(x, p),
        Open(a, b) => lt(a, p) && lt(p, b),
        LeftOpen(a, b) => lt(a, p) && le(p, b),
        RightOpen(a, b) => le(a, p) && lt(p, b),
        Closed(a, b) => le(a, p) && le(p, b),
        UpTo(b) => lt(p, b),
        UpFrom(a) => lt(a, p),
        To(b) => le(p, b),
        From(a) => le(a, p),
        Full => true,
    }
}
/// An arbitrary raw interval; well-formed (lower strictly below upper) if asked.
pub fn gen_raw<T: Pt>(wf: bool) -> RawInterval<T> {
    use RawInterval::*;
    let two = |f: fn(T, T) -> RawInterval<T>| {
        let a = T::fresh();
        let b = T::fresh();
        if wf { T::assume_le_off(&a, 1, &b) }
        f(a, b)
    };
    match pick(11) {
        0 => Empty,
        1 => Point(T::fresh()),
        2 => two(Open),
        3 => two(LeftOpen),
        4 => two(RightOpen),
        5 => two(Closed),
        6 => UpTo(T::fresh()),
        7 => UpFrom(T::fresh()),
        8 => To(T::fresh()),
        9 => From(T::fresh()),
        _ => Full,
    }
}
/// Same kind, same values.
pub fn raw_same<T: Pt>(a: &RawInterval<T>, b: &RawInterval<T>) -> bool {
    use RawInterval::*;
    match (a, b) {
        (Empty, Empty) | (Full, Full) => true,
        (Point(x), Point(y)) | (UpTo(x), UpTo(y)) | (UpFrom(x), UpFrom(y)) | (To(x), To(y)) | (From(x), From(y)) => eq(x, y),
        (Open(x, u), Open(y, v)) | (LeftOpen(x, u), LeftOpen(y, v)) | (RightOpen(x, u), RightOpen(y, v)) | (Closed(x, u), Closed(y, v)) => eq(x, y) && eq(u, v),
        _ => false,
    }
}
pub fn raw_wf<T: Pt>(r: &RawInterval<T>) -> bool {
    use RawInterval::*;
    match r { Open(a, b) | LeftOpen(a, b) | RightOpen(a, b) | Closed(a, b) => lt(a, b), _ => true }
}

// ---- Dense: cut ranges -------------------------------------------------------
/// A position between values: just below (`false`) or just above a value.
#[derive(Clone, Debug)]
pub enum Cut<T> { Lo, At(T, bool), Hi }
pub type Rng<T> = (Cut<T>, Cut<T>);

pub fn ccmp<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> Ordering {
    use Cut::*;
    match (a, b) {
        (Lo, Lo) | (Hi, Hi) => Ordering::Equal,
        (Lo, _) | (_, Hi) => Ordering::Less,
        (Hi, _) | (_, Lo) => Ordering::Greater,
        (At(x, f), At(y, g)) => if lt(x, y) { Ordering::Less } else if eq(x, y) { f.cmp(g) } else { Ordering::Greater },
    }
}
pub fn clt<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> bool { ccmp(a, b) == Ordering::Less }
pub fn cle<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> bool { ccmp(a, b) != Ordering::Greater }
pub fn ceq<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> bool { ccmp(a, b) == Ordering::Equal }
fn cmax<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> Cut<T> { if clt(a, b) { b.clone() } else { a.clone() } }
fn cmin<T: Pt>(a: &Cut<T>, b: &Cut<T>) -> Cut<T> { if clt(b, a) { b.clone() } else { a.clone() } }

pub fn lower_cut<T: Pt>(b: &Bound<T>) -> Cut<T> {
    match b { Bound::Include(x) => Cut::At(x.clone(), false), Bound::Exclude(x) => Cut::At(x.clone(), true), Bound::Infinite => Cut::Lo }
}
pub fn upper_cut<T: Pt>(b: &Bound<T>) -> Cut<T> {
    match b { Bound::Include(x) => Cut::At(x.clone(), true), Bound::Exclude(x) => Cut::At(x.clone(), false), Bound::Infinite => Cut::Hi }
}
/// The range of a raw interval (None: empty), by its definition.
pub fn raw_rng<T: Pt>(r: &RawInterval<T>) -> Option<Rng<T>> {
    use RawInterval::*;
    let at = |x: &T, f| Cut::At(x.clone(), f);
    let c = match r {
        Empty => return None,
        Point(p) => (at(p, false), at(p, true)),
        Open(a, b) => (at(a, true), at(b, false)),
        LeftOpen(a, b) => (at(a, true), at(b, true)),
        RightOpen(a, b) => (at(a, false), at(b, false)),
        Closed(a, b) => (at(a, false), at(b, true)),
        UpTo(b) => (Cut::Lo, at(b, false)),
        UpFrom(a) => (at(a, true), Cut::Hi),
        To(b) => (Cut::Lo, at(b, true)),
        From(a) => (at(a, false), Cut::Hi),
        Full => (Cut::Lo, Cut::Hi),
    };
    // Open(a, a) style literals describe nothing; [a,a] literals describe a point.
    if clt(&c.0, &c.1) && raw_lit_nonempty(r) { Some(c) } else { None }
}
fn raw_lit_nonempty<T: Pt>(r: &RawInterval<T>) -> bool {
    use RawInterval::*;
    match r { Open(a, b) => lt(a, b), _ => true }
}
/// The raw interval of a non-empty range.
pub fn rng_raw<T: Pt>(r: &Rng<T>) -> RawInterval<T> {
    use Cut::*;
    use RawInterval::*;
    match (r.0.clone(), r.1.clone()) {
        (Lo, Hi) => Full,
        (Lo, At(b, false)) => UpTo(b),
        (Lo, At(b, true)) => To(b),
        (At(a, false), Hi) => From(a),
        (At(a, true), Hi) => UpFrom(a),
        (At(a, f), At(b, g)) => {
            if !f && g && eq(&a, &b) { return Point(a); }
            match (f, g) {
                (false, true) => Closed(a, b),
                (false, false) => RightOpen(a, b),
                (true, true) => LeftOpen(a, b),
                (true, false) => Open(a, b),
            }
        }
        _ => Empty,
    }
}
pub fn rng_has<T: Pt>(r: &[Rng<T>], p: &T) -> bool {
    let (a, b) = (Cut::At(p.clone(), false), Cut::At(p.clone(), true));
    r.iter().any(|(l, u)| cle(l, &a) && cle(&b, u))
}
pub fn rng_add<T: Pt>(a: &[Rng<T>], x: &Rng<T>) -> Vec<Rng<T>> {
    let (mut l, mut u) = x.clone();
    let mut out = vec![];
    let mut rest = vec![];
    for r in a {
        if clt(&r.1, &l) { out.push(r.clone()) }
        else if clt(&u, &r.0) { rest.push(r.clone()) }
        else { l = cmin(&l, &r.0); u = cmax(&u, &r.1); }
    }
    out.push((l, u));
    out.extend(rest);
    out
}
pub fn rng_union<T: Pt>(a: &[Rng<T>], b: &[Rng<T>]) -> Vec<Rng<T>> {
    let mut r = a.to_vec();
    for x in b { r = rng_add(&r, x) }
    r
}
pub fn rng_inter<T: Pt>(a: &[Rng<T>], b: &[Rng<T>]) -> Vec<Rng<T>> {
    let (mut i, mut j) = (0, 0);
    let mut out = vec![];
    while i < a.len() && j < b.len() {
        if cle(&a[i].1, &b[j].0) { i += 1; continue; }
        if cle(&b[j].1, &a[i].0) { j += 1; continue; }
        let l = cmax(&a[i].0, &b[j].0);
        if cle(&a[i].1, &b[j].1) { out.push((l, a[i].1.clone())); i += 1 } else { out.push((l, b[j].1.clone())); j += 1 }
    }
    out
}
pub fn rng_compl<T: Pt>(a: &[Rng<T>]) -> Vec<Rng<T>> {
    let mut out = vec![];
    let mut from = Cut::Lo;
    for (l, u) in a {
        if !matches!(l, Cut::Lo) { out.push((from, l.clone())) }
        from = u.clone();
    }
    if !matches!(from, Cut::Hi) { out.push((from, Cut::Hi)) }
    out
}
pub fn rng_minus<T: Pt>(a: &[Rng<T>], b: &[Rng<T>]) -> Vec<Rng<T>> {
    let mut r = a.to_vec();
    for x in b {
        let mut out = vec![];
        for (l, u) in r {
            if cle(&u, &x.0) || cle(&x.1, &l) { out.push((l, u)); continue; }
            if clt(&l, &x.0) { out.push((l.clone(), x.0.clone())) }
            if clt(&x.1, &u) { out.push((x.1.clone(), u)) }
        }
        r = out;
    }
    r
}
pub fn rng_eq<T: Pt>(a: &[Rng<T>], b: &[Rng<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| ceq(&x.0, &y.0) && ceq(&x.1, &y.1))
}
/// k arbitrary maximal ranges, ascending, never touching.
pub fn gen_rngs<T: Pt>(k: usize) -> Vec<Rng<T>> {
    let mut v: Vec<Rng<T>> = vec![];
    // The last upper value with its flag (true: included).
    let mut prev: Option<(T, bool)> = None;
    for i in 0..k {
        // Lower end of range i.
        let unb_lo = i == 0 && flip();
        let lo = if unb_lo { Cut::Lo } else {
            match prev.take() {
                // Ranges separated by exactly one value.
                Some((u, false)) if flip() => Cut::At(u, true),
                Some((u, _)) => { let x = T::fresh(); T::assume_le_off(&u, 1, &x); Cut::At(x, flip()) }
                None => Cut::At(T::fresh(), flip()),
            }
        };
        // Upper end.
        let up = if i + 1 == k && flip() { Cut::Hi } else {
            match &lo {
                Cut::At(l, false) if flip() => { prev = Some((l.clone(), true)); Cut::At(l.clone(), true) }
                Cut::At(l, _) => { let y = T::fresh(); T::assume_le_off(l, 1, &y); let g = flip(); prev = Some((y.clone(), g)); Cut::At(y, g) }
                _ => { let y = T::fresh(); let g = flip(); prev = Some((y.clone(), g)); Cut::At(y, g) }
            }
        };
        v.push((lo, up));
    }
    v
}
pub fn tree_of<T: Pt>(r: &[Rng<T>]) -> TineTree<T> { r.iter().map(rng_raw).collect() }
pub fn tree_is<T: Pt>(t: &TineTree<T>, r: &[Rng<T>]) -> bool {
    let v: Vec<_> = t.interval_iter().collect();
    v.len() == r.len() && v.iter().zip(r).all(|(i, r)| raw_same(i, &rng_raw(r)))
}
pub fn obs_rngs<T: Pt>(r: &[Rng<T>]) {
    obs(r.len() as u64);
    for c in r.iter().flat_map(|(a, b)| [a, b]) {
        match c { Cut::Lo => obs(0), Cut::Hi => obs(1), Cut::At(x, f) => { obs(2 + *f as u64); x.obs() } }
    }
}
pub fn gen_bound<T: Pt>() -> Bound<T> {
    match pick(3) { 0 => Bound::Include(T::fresh()), 1 => Bound::Exclude(T::fresh()), _ => Bound::Infinite }
}
pub fn bound_same<T: Pt>(a: &Bound<T>, b: &Bound<T>) -> bool {
    match (a, b) {
        (Bound::Include(x), Bound::Include(y)) | (Bound::Exclude(x), Bound::Exclude(y)) => eq(x, y),
        (Bound::Infinite, Bound::Infinite) => true,
        _ => false,
    }
}
pub fn bound_opt_same<T: Pt>(a: &Option<Bound<T>>, b: &Option<Bound<T>>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => bound_same(a, b), _ => false }
}
pub fn pt_opt_same<T: Pt>(a: &Option<T>, b: &Option<T>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => eq(a, b), _ => false }
}
pub fn hash_of<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Two arbitrary values, or the same one twice.
pub fn pair<X: Clone>(mut g: impl FnMut() -> X, alias: bool) -> (X, X, bool) {
    let x = g();
    if alias && flip() { (x.clone(), x, true) } else { let y = g(); (x, y, false) }
}
pub fn pair2<X: Clone>(f: impl FnOnce() -> X, g: impl FnOnce() -> X, alias: bool) -> (X, X, bool) {
    let x = f();
    if alias && flip() { (x.clone(), x, true) } else { let y = g(); (x, y, false) }
}
/// The second operand: the same object as the first where both are one.
pub fn other<'a, X>(x: &'a X, y: &'a X, same: bool) -> &'a X { if same { x } else { y } }
