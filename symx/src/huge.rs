//! Sets with dozens to hundreds of runs: every run lies at a fixed offset from
//! one arbitrary point, one more interval is arbitrary within windows.
use crate::dense::{gen_proper, rngs, source, source_kind, tree_ok, tree_with_itself};
use crate::fin::{asked, canonical, drive_finish, large_op, same_value, with_itself};
use crate::model::*;
use crate::sym::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};

type Lay = Vec<(i64, i64)>;
/// Offsets of `n` runs: their lengths and gaps repeat with different periods.
fn layout(n: usize, pat: usize) -> Lay {
    let (lens, gaps): (&[i64], &[i64]) = match pat {
        0 => (&[0, 1, 4], &[2, 3, 2, 6]),
        1 => (&[0], &[2]),
        2 => (&[4, 2], &[2, 3, 5]),
        3 => (&[0, 3], &[2]),
        5 => (&[90, 0, 300], &[2, 40]),
        _ => (&[5, 0, 0], &[3, 2]),
    };
    let mut at = 0;
    (0..n).map(|i| {
        if i > 0 { at += gaps[i % gaps.len()] }
        let l = at;
        at += lens[i % lens.len()];
        (l, at)
    }).collect()
}
pub fn base<T: Fin>(last: i64) -> T {
    let b = T::fresh();
    T::assume_le_off(&b, last, &T::MAXIMUM);
    b
}
fn place<T: Pt>(b: &T, lay: &[(i64, i64)]) -> Runs<T> { lay.iter().map(|(l, u)| (b.at(*l), b.at(*u))).collect() }
pub fn family<T: Fin>(n: usize, pat: usize) -> Runs<T> { let lay = layout(n, pat); place(&base::<T>(lay[n - 1].1), &lay) }
/// Restricts p to the surroundings of runs c..c+w.
fn near<T: Pt>(p: &T, x: &[Run<T>], c: usize, w: usize) {
    if c > 0 { T::assume_le_off(&x[c - 1].1, 1, p) }
    if c + w < x.len() { T::assume_le_off(p, 1, &x[c + w].0) }
}
/// An arbitrary interval whose ends each fall near one of a few runs.
pub fn windowed<T: Fin>(x: &[Run<T>], w: usize, spots: usize) -> Run<T> {
    let n = x.len();
    let spot = |k: usize| if spots == 1 { n / 2 } else { k * (n - w) / (spots - 1) };
    let (c, d) = (pick(spots), pick(spots));
    assume(c <= d);
    let i = gen_run::<T>();
    near(&i.0, x, spot(c), w);
    near(&i.1, x, spot(d), w);
    i
}
/// Union by one merge.
fn merge<T: Fin>(a: &[Run<T>], b: &[Run<T>]) -> Runs<T> {
    let (mut i, mut j) = (0, 0);
    let mut out: Runs<T> = vec![];
    while i < a.len() || j < b.len() {
        let r = if j == b.len() || (i < a.len() && le(&a[i].0, &b[j].0)) { i += 1; &a[i - 1] } else { j += 1; &b[j - 1] };
        match out.last_mut() {
            Some(o) if le(&r.0, &o.1.at(1)) => o.1 = tmax(&o.1, &r.1),
            _ => out.push(r.clone()),
        }
    }
    out
}
fn cut<T: Fin>(a: &[Run<T>], b: &[Run<T>]) -> Runs<T> { runs_inter(a, &runs_compl(b)) }

/// args: op, runs, layout
pub fn c31_huge<T: Fin>(a: &[usize]) {
    let lay = layout(a[1], a[2]);
    let b = base::<T>(lay[a[1] - 1].1);
    let x = place(&b, &lay);
    let i = windowed(&x, 2, 4);
    large_op(a[0], sel_of(&x), &x, &i);
}
/// args: op, runs, layout, number of kinds of second operands, places of the arbitrary interval
pub fn c31_huge_two<T: Fin>(a: &[usize]) {
    let n = a[1];
    let lay = layout(n, a[2]);
    let other: Lay = match pick(a[3]) {
        0 => (0..n - 1).step_by(2).map(|i| (lay[i].1, lay[i + 1].0)).collect(),
        1 => lay.iter().step_by(2).cloned().collect(),
        2 => lay.iter().map(|r| (r.0, r.0)).collect(),
        3 => lay.iter().map(|r| (r.1, r.1)).collect(),
        4 => (0..n - 1).map(|i| (lay[i].1 + 1, lay[i + 1].0 - 1)).collect(),
        5 => lay.iter().map(|r| (r.0 + 1, r.1 + 1)).collect(),
        6 => layout(n, 2),
        7 => lay[..n / 3].to_vec(),
        8 => lay[2 * n / 3..].to_vec(),
        _ => vec![(lay[n / 4].0 + 1, lay[3 * n / 4].1)],
    };
    let b = base::<T>(lay[n - 1].1.max(other[other.len() - 1].1));
    let x = place(&b, &lay);
    let i = windowed(&x, 1, if a.len() > 4 { a[4] } else { 3 });
    let y = merge(&place(&b, &other), &[i]);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (r, want, what) = match a[0] {
        0 => (if flip() { t.union(&s) } else { s.union(&t) }, merge(&x, &y), "union"),
        1 => (if flip() { t.intersect(&s) } else { s.intersect(&t) }, runs_inter(&x, &y), "intersect"),
        2 => (s.minus(&t), cut(&x, &y), "minus"),
        3 => (t.minus(&s), cut(&y, &x), "minus"),
        _ => {
            let want = !runs_inter(&x, &y).is_empty();
            obs_b(want);
            cover("queried");
            check(s.intersects(&t) == want && t.intersects(&s) == want, "intersects of large selections");
            let same = runs_eq(&x, &y);
            check((s == t) == same && (s != t) != same, "== of large selections");
            if same { check(hash_of(&s) == hash_of(&t), "equal large selections hash differently") }
            return;
        }
    };
    canonical(&r, &want, what);
    same_value(&r, &want, what);
}
/// args: op, runs. A large selection with one of one, two or three runs, which
/// may reach the ends of the type.
pub fn c01_uneven<T: Fin>(a: &[usize]) {
    let n = a[1];
    let lay = layout(n, 0);
    let b = base::<T>(lay[n - 1].1);
    let big = place(&b, &lay);
    let (lo, hi) = windowed(&big, 1, 3);
    let small: Runs<T> = match pick(6) {
        0 => vec![(lo, hi)],
        1 => vec![(T::MINIMUM, hi)],
        2 => vec![(lo, T::MAXIMUM)],
        3 => merge(&[(lo, hi)], &big[n / 4..n / 4 + 1]),
        4 => merge(&merge(&[(b.at(lay[n / 4].0 + 1), b.at(lay[n / 4 + 3].0))], &[(lo, hi)]), &big[n - 2..n - 1]),
        _ => merge(&[(lo, hi)], &[(b.at(lay[3 * n / 4].1), T::MAXIMUM)]),
    };
    let (s, t) = (sel_of(&big), sel_of(&small));
    let (r, want) = match a[0] {
        0 => (if flip() { t.union(&s) } else { s.union(&t) }, merge(&big, &small)),
        1 => (if flip() { t.intersect(&s) } else { s.intersect(&t) }, runs_inter(&big, &small)),
        2 => (s.minus(&t), cut(&big, &small)),
        3 => (t.minus(&s), cut(&small, &big)),
        _ => {
            let want = !runs_inter(&big, &small).is_empty();
            obs_b(want);
            cover("queried");
            check(s.intersects(&t) == want && t.intersects(&s) == want, "intersects of a large and a small selection");
            return;
        }
    };
    canonical(&r, &want, "operation on a large and a small selection");
    same_value(&r, &want, "operation on a large and a small selection");
}
/// args: runs, layout. Complement and queries.
pub fn c31_huge_query<T: Fin>(a: &[usize]) {
    let lay = layout(a[0], a[1]);
    let b = base::<T>(lay[a[0] - 1].1);
    let x = place(&b, &lay);
    let s = sel_of(&x);
    canonical(&s, &x, "collect");
    if flip() { return with_itself(&s, &x); }
    let (lo, hi) = (x[0].0.clone(), x[a[0] - 1].1.clone());
    if flip() {
        let c = s.complement();
        let want = runs_compl(&x);
        canonical(&c, &want, "complement");
        same_value(&c, &want, "complement");
        check(!c.intersects(&s) && !s.intersects(&c), "a selection intersects its complement");
        check(c.union(&s).is_full() && c.intersect(&s).is_empty(), "union or intersection with the complement");
        same_value(&c.complement(), &x, "complement of complement");
        return;
    }
    let hull = (lo.clone(), hi.clone());
    check(is_run(&s.enclose(), &hull), "enclose of a large selection");
    check(is_run(&s.closure(), &hull), "closure of a large selection");
    check(bound_opt_same(&s.lower_bound(), &Some(Bound::Include(lo.clone()))) && bound_opt_same(&s.upper_bound(), &Some(Bound::Include(hi.clone()))), "bounds of a large selection");
    check(pt_opt_same(&s.infimum(), &lo.pred()) && pt_opt_same(&s.supremum(), &hi.succ()), "infimum or supremum of a large selection");
    check(!s.is_full() && !s.is_empty() && s.is_bounded() && !s.is_half_bounded(), "queries of a large selection");
    let p = T::fresh();
    let n = a[0];
    if n > 100 { near(&p, &x, [0, n / 3, n / 2, n - 2][pick(4)], 2) }
    let want = has(&x, &p);
    obs_b(want);
    cover("queried");
    check(s.contains(&p) == want, &format!("contains({p:?}) of a large selection is {}", !want));
}
/// A walk over n items taking from the front or the back by a fixed pattern.
fn walk<X: std::fmt::Debug>(mut it: impl DoubleEndedIterator<Item = X>, n: usize, pat: usize, same: impl Fn(&X, usize) -> bool) {
    let (mut i, mut j) = (0, n);
    for step in 0..n + 2 {
        let back = match pat { 0 => false, 1 => true, 2 => step % 2 == 1, 3 => step % 3 != 1, 4 => step % 7 < 3, 5 => step < n / 2, _ => step >= n / 2 };
        let got = if back { it.next_back() } else { it.next() };
        let want = if i == j { None } else if back { j -= 1; Some(j) } else { i += 1; Some(i - 1) };
        let ok = match (&got, want) { (None, None) => true, (Some(g), Some(k)) => same(g, k), _ => false };
        if !ok { fail(format!("step {step}: {} yields {got:?} instead of item {want:?} of {n}", if back { "next_back" } else { "next" })) }
        let (least, most) = it.size_hint();
        check(least <= j - i && most.map_or(true, |m| j - i <= m), &format!("{} items are left, size_hint says {least} to {most:?}", j - i));
    }
    cover("walked");
}
/// args: runs, layout. Iteration over intervals.
pub fn c31_huge_iter<T: Fin>(a: &[usize]) {
    let lay = layout(a[0], a[1]);
    let b = base::<T>(lay[a[0] - 1].1);
    let x = place(&b, &lay);
    let s = sel_of(&x);
    let same = |i: &Interval<T>, k: usize| is_run(i, &x[k]);
    match pick(4) {
        0 => walk(s.interval_iter(), x.len(), pick(7), same),
        1 => walk(s.into_interval_iter(), x.len(), pick(7), same),
        2 => drive_finish(s.interval_iter(), x.len(), 1, same),
        _ => drive_finish(s.into_interval_iter(), x.len(), 1, same),
    }
}
/// args: runs, layout. Iteration over points.
pub fn c31_huge_points<T: Fin>(a: &[usize]) {
    let lay = layout(a[0], a[1]);
    let b = base::<T>(lay[a[0] - 1].1);
    let s = sel_of(&place(&b, &lay));
    let pts: Vec<i64> = lay.iter().flat_map(|r| r.0..=r.1).collect();
    let same = |p: &T, k: usize| T::eq_off(&b, pts[k], p);
    match pick(5) {
        0 => walk(s.iter(), pts.len(), pick(7), same),
        1 => walk((&s).into_iter(), pts.len(), pick(7), same),
        2 => walk(s.into_iter(), pts.len(), pick(7), same),
        3 => drive_finish(s.iter(), pts.len(), 1, same),
        _ => drive_finish(s.into_iter(), pts.len(), 1, same),
    }
}
/// args: points. Iteration over one long interval.
pub fn c13_long<T: Fin>(a: &[usize]) {
    let n = a[0];
    let b = base::<T>(n as i64 - 1);
    let i = Interval::closed(b.clone(), b.at(n as i64 - 1));
    let same = |p: &T, k: usize| T::eq_off(&b, k as i64, p);
    match pick(5) {
        0 => walk(i.iter(), n, pick(7), same),
        1 => walk((&i).into_iter(), n, pick(7), same),
        2 => walk(i.into_iter(), n, pick(7), same),
        3 => drive_finish(i.iter(), n, 1, same),
        _ => drive_finish(i.into_iter(), n, 1, same),
    }
}
/// The pieces of runs 0..n of length 5, cut in one of several ways, in one of several orders.
fn pieces(n: usize, cut: usize, order: usize) -> (Lay, Lay) {
    let whole: Lay = (0..n as i64).map(|i| (i * 8, i * 8 + 5)).collect();
    let two: Vec<[(i64, i64); 2]> = whole.iter().map(|&(l, u)| match cut {
        0 => [(l, l + 2), (l + 3, u)],
        1 => [(l, l + 3), (l + 2, u)],
        2 => [(l, u), (l + 1, l + 2)],
        3 => [(l + 1, l + 2), (l, u)],
        4 => [(l, u), (l, u)],
        _ => [(l, l), (l + 1, u)],
    }).collect();
    let flat = |i: &mut dyn Iterator<Item = usize>, swap: bool| -> Lay { i.flat_map(|k| if swap { [two[k][1], two[k][0]] } else { two[k] }).collect() };
    let items = match order {
        0 => flat(&mut (0..n), false),
        1 => flat(&mut (0..n).rev(), false),
        2 => flat(&mut (0..n), true),
        3 => flat(&mut (0..n).rev(), true),
        4 => two.iter().map(|t| t[0]).chain(two.iter().map(|t| t[1])).collect(),
        5 => two.iter().map(|t| t[1]).chain(two.iter().rev().map(|t| t[0])).collect(),
        _ => flat(&mut (0..n).map(|k| k * 37 % n), false),
    };
    (whole, items)
}
/// args: route, runs, way of cutting (all if missing). Many items, one of them arbitrary, in many orders.
pub fn c31_huge_build<T: Fin>(a: &[usize]) {
    let n = a[1];
    assert!(n % 37 != 0);
    let few = a.len() > 2;
    let order = pick(7);
    let (whole, items) = pieces(n, if few { a[2] } else { pick(6) }, order);
    let b = base::<T>(whole[n - 1].1);
    let x = place(&b, &whole);
    let mut items = place(&b, &items);
    let (i, spot) = if few { (windowed(&x, 1, 1), [0, n, 2 * n][pick(3)]) } else if flip() { (windowed(&x, 1, 2), [0, n, 2 * n][pick(3)]) } else { (x[0].clone(), 0) };
    items.insert(spot, i.clone());
    let want = merge(&x, &[i]);
    let s: Selection<T> = match a[0] {
        0 => source_kind(&items, order).map(|r| ivl(&r)).collect(),
        1 => { let mut s = Selection::new(); s.extend(source_kind(&items, order).map(|r| ivl(&r))); s }
        2 => { let mut s: Selection<T> = items[..n].iter().map(ivl).collect(); s.extend(items[n..].iter().map(ivl)); s }
        3 => { let mut s = Selection::new(); for r in &items { s.union_in_place(ivl(r)) } s }
        _ => items.iter().map(ivl).fold(Selection::new(), |s, i| s.union(&i.into())),
    };
    canonical(&s, &want, "many items");
    same_value(&s, &want, "many items");
}
/// args: runs. A selection of many points, in many orders, one of them arbitrary.
pub fn c31_huge_collect<T: Fin>(a: &[usize]) {
    let n = a[0];
    assert!(n % 37 != 0);
    let order = pick(7);
    let (whole, items) = pieces(n, pick(6), order);
    let b = base::<T>(whole[n - 1].1);
    let x = place(&b, &whole);
    let mut pts: Vec<T> = items.iter().flat_map(|r| r.0..=r.1).map(|d| b.at(d)).collect();
    if flip() { pts.reverse() }
    let p = T::fresh();
    let c = [0, n / 2, n - 1][pick(3)];
    near(&p, &x, c, 1);
    let at = [0, pts.len() / 2, pts.len()][pick(3)];
    pts.insert(at, p.clone());
    let s: Selection<T> = source_kind(&pts, order).collect();
    let want = merge(&x, &[(p.clone(), p)]);
    canonical(&s, &want, "many points");
    same_value(&s, &want, "many points");
}
/// A fixed sequence of numbers.
struct Seq(u64);
impl Seq {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
/// args: steps, sequence. A long history of edits at fixed offsets; one edit is arbitrary.
pub fn c30_long<T: Fin>(a: &[usize]) {
    let span = 30;
    let b = base::<T>(span + 6);
    let mut q = Seq(a[1] as u64 * 7919 + 1);
    let free = pick(4) * (a[0] - 1) / 3;
    let (mut s, mut m): (Selection<T>, Runs<T>) = (Selection::new(), vec![]);
    for k in 0..a[0] {
        let (l, n) = (q.below(span as u64) as i64, q.below(7) as i64);
        let op = [0, 0, 4, 8, 1, 5, 2, 6, 7, 3, 0, 1][q.below(12) as usize];
        let r = if k == free { let r = gen_run::<T>(); r } else { (b.at(l), b.at(l + n)) };
        // Cutting down to one interval keeps most of the set.
        let r = if (op == 2 || op == 6) && k != free { (b.at(l / 4), b.at(span)) } else { r };
        if op == 3 { s = s.complement(); m = runs_compl(&m); continue; }
        let y = vec![r.clone()];
        let i = ivl(&r);
        let _ = (s.enclose(), s.is_full(), s.infimum(), s.contains(&i.lower_bound().and_then(|b| b.as_ref().cloned()).unwrap_or(b.clone())));
        match op {
            0 => { s.union_in_place(i); m = merge(&m, &y) }
            1 => { s.minus_in_place(i); m = cut(&m, &y) }
            2 => { s.intersect_in_place(i); m = runs_inter(&m, &y) }
            4 => { s = s.union(&i.into()); m = merge(&m, &y) }
            5 => { s = s.minus(&i.into()); m = cut(&m, &y) }
            6 => { s = s.intersect(&i.into()); m = runs_inter(&m, &y) }
            7 => { s = Selection::from(i).minus(&s); m = cut(&y, &m) }
            _ => { s.extend([i]); m = merge(&m, &y) }
        }
        if !sel_is(&s, &m) { fail(format!("step {k} of history {}: reports {:?}, expected the runs {m:?}", a[1], s.interval_iter().collect::<Vec<_>>())) }
    }
    canonical(&s, &m, "history");
    same_value(&s, &m, "history");
    asked(&s, &m);
}

// ---- Dense orders ----------------------------------------------------------------
/// Ranges of all kinds, some separated by one value only.
pub fn tree_layout<T: Pt>(b: &T, n: usize) -> Vec<Rng<T>> {
    let mut at = 0;
    let mut out: Vec<Rng<T>> = vec![];
    for i in 0..n {
        let shared = matches!(out.last(), Some((_, Cut::At(_, false)))) && i % 3 == 0;
        if !shared { at += 2 }
        let lo = Cut::At(b.at(at), shared || i % 5 == 1);
        if let Cut::At(_, false) = lo { if i % 4 == 3 { out.push((lo, Cut::At(b.at(at), true))); continue; } }
        at += 3;
        out.push((lo, Cut::At(b.at(at), i % 2 == 0)));
    }
    out
}
fn key<T: Pt>(c: &Cut<T>) -> &T { match c { Cut::At(x, _) => x, _ => unreachable!() } }
fn near_rng<T: Pt>(p: &T, x: &[Rng<T>], c: usize, w: usize) {
    if c > 0 { T::assume_le_off(key(&x[c - 1].1), 0, p) }
    if c + w < x.len() { T::assume_le_off(p, 0, key(&x[c + w].0)) }
}
pub fn windowed_rng<T: Pt>(x: &[Rng<T>], spots: usize) -> RawInterval<T> {
    let spot = |k: usize| if spots == 1 { x.len() / 2 } else { k * (x.len() - 1) / (spots - 1) };
    let (c, d) = (pick(spots), pick(spots));
    assume(c <= d);
    let r = gen_proper::<T>();
    let (lo, hi) = raw_rng(&r).expect("proper");
    near_rng(key(&lo), x, spot(c), 1);
    near_rng(key(&hi), x, spot(d), 1);
    r
}
/// args: op, ranges, unbounded ends (1 below, 2 above)
pub fn c31_tree_huge<T: Pt>(a: &[usize]) {
    let b = T::fresh();
    let mut x = tree_layout(&b, a[1]);
    let ends = a.get(2).copied().unwrap_or(0);
    if ends & 1 != 0 { x[0].0 = Cut::Lo }
    if ends & 2 != 0 { x[a[1] - 1].1 = Cut::Hi }
    let mut t = tree_of(&x);
    if a[0] == 3 {
        match pick(4) {
            3 => tree_with_itself(&t, &x),
            0 => { tree_ok(&t, &x, "collect"); let c = t.complement(); tree_ok(&c, &rng_compl(&x), "complement"); tree_ok(&c.complement(), &x, "complement of complement") }
            1 => {
                let p = T::fresh();
                let n = a[1];
                if n > 100 { near_rng(&p, &x, [0, n / 3, n / 2, n - 2][pick(4)], 2) }
                let w = rng_has(&x, &p);
                obs_b(w);
                cover("queried");
                check(t.contains(&p) == w, &format!("contains({p:?}) of a large tree is {}", !w));
                let hull = rng_raw(&(x[0].0.clone(), x[a[1] - 1].1.clone()));
                check(raw_same(&t.enclose(), &hull), "enclose of a large tree");
                check(!t.is_full() && !t.is_empty(), "is_full or is_empty of a large tree");
            }
            _ => {
                let same = |i: &RawInterval<T>, k: usize| raw_same(i, &rng_raw(&x[k]));
                if flip() { walk(t.interval_iter(), x.len(), pick(7), same) } else { walk(t.into_iter(), x.len(), pick(7), same) }
            }
        }
        return;
    }
    let i = windowed_rng(&x, 3);
    let y = rngs(&i);
    let (want, n) = match a[0] {
        0 => { t.union_in_place(&i); (rng_union(&x, &y), "union_in_place") }
        1 => { t.minus_in_place(&i); (rng_minus(&x, &y), "minus_in_place") }
        _ => { t.intersect_in_place(&i); (rng_inter(&x, &y), "intersect_in_place") }
    };
    tree_ok(&t, &want, n);
}
/// args: op, ranges of the large operand. A tree of few ranges with a large one.
pub fn c26_uneven<T: Pt>(a: &[usize]) {
    let b = T::fresh();
    let n = a[1];
    let big = tree_layout(&b, n);
    let (lo, hi) = raw_rng(&windowed_rng(&big, 2)).expect("proper");
    let small = match pick(5) {
        0 => vec![(lo, hi)],
        1 => vec![(Cut::Lo, hi)],
        2 => vec![(lo, Cut::Hi)],
        3 => rng_union(&[(lo, hi)], &big[n / 4..n / 4 + 1]),
        _ => rng_union(&[(lo, hi)], &[(big[3 * n / 4].1.clone(), Cut::Hi)]),
    };
    let (t, u) = (tree_of(&small), tree_of(&big));
    let (r, want) = match a[0] {
        0 => (if flip() { t.union(&u) } else { u.union(&t) }, rng_union(&small, &big)),
        1 => (if flip() { t.intersect(&u) } else { u.intersect(&t) }, rng_inter(&small, &big)),
        2 => (t.minus(&u), rng_minus(&small, &big)),
        _ => (u.minus(&t), rng_minus(&big, &small)),
    };
    tree_ok(&r, &want, "operation on a small and a large tree");
}
/// args: op, ranges, shift of the second operand
pub fn c31_tree_huge_two<T: Pt>(a: &[usize]) {
    let b = T::fresh();
    let x = tree_layout(&b, a[1]);
    let shifted = tree_layout(&b.at(a[2] as i64), a[1]);
    let y = rng_union(&shifted, &rngs(&windowed_rng(&x, 2)));
    let (t, u) = (tree_of(&x), tree_of(&y));
    let (r, want, n) = match a[0] {
        0 => (t.union(&u), rng_union(&x, &y), "union"),
        1 => (t.intersect(&u), rng_inter(&x, &y), "intersect"),
        _ => (t.minus(&u), rng_minus(&x, &y), "minus"),
    };
    tree_ok(&r, &want, n);
}
/// args: route, items. A tree of many intervals in many orders, one arbitrary.
pub fn c31_tree_build<T: Pt>(a: &[usize]) {
    let n = a[1];
    let b = T::fresh();
    let x = tree_layout(&b, n);
    let mut items: Vec<RawInterval<T>> = x.iter().map(rng_raw).collect();
    // Pieces of the same ranges once more.
    for (l, u) in &x { if !eq(key(l), key(u)) { items.push(RawInterval::Open(key(l).clone(), key(u).clone())) } }
    let order = pick(3);
    match order { 0 => {}, 1 => items.reverse(), _ => items = (0..items.len()).map(|k| items[if k % 2 == 0 { k / 2 } else { items.len() - 1 - k / 2 }].clone()).collect() }
    let i = windowed_rng(&x, 2);
    let spot = pick(3);
    items.insert(spot * items.len() / 2, i.clone());
    let want = rng_union(&x, &rngs(&i));
    let t: TineTree<T> = match a[0] {
        0 => source_kind(&items, order + spot).collect(),
        1 => TineTree::from(source_kind(&items, order + spot)),
        _ => { let mut t = TineTree::new(); for r in &items { t.union_in_place(r) } t }
    };
    tree_ok(&t, &want, "tree of many items");
}
/// args: operation, items. Bulk operations on many intervals, one arbitrary.
pub fn c19_many<T: Pt>(a: &[usize]) {
    let n = a[1];
    let b = T::fresh();
    let x = tree_layout(&b, n);
    let mut items: Vec<RawInterval<T>> = match a[0] {
        // Intervals shrinking towards the middle.
        1 => (0..n as i64).map(|k| { let (l, u) = (b.at(k), b.at(3 * n as i64 - k)); match k % 4 { 0 => RawInterval::Closed(l, u), 1 => RawInterval::LeftOpen(l, u), 2 => RawInterval::From(l), _ => RawInterval::Open(l, u) } }).collect(),
        _ => x.iter().map(rng_raw).collect(),
    };
    match pick(3) { 0 => {}, 1 => items.reverse(), _ => items = (0..n).map(|k| items[if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }].clone()).collect() }
    let r = gen_proper::<T>();
    let (lo, hi) = raw_rng(&r).expect("proper");
    if a[0] == 1 { near_rng(key(&lo), &[(Cut::Lo, Cut::At(b.at(n as i64 - 4), true))], 1, 1); T::assume_le_off(key(&hi), -2 * n as i64 - 4, &b) }
    else { let c = [0, n / 2, n - 1]; near_rng(key(&lo), &x, c[pick(3)], 1); near_rng(key(&hi), &x, c[pick(3)], 1) }
    let at = [0, n / 2, n][pick(3)];
    items.insert(at, r.clone());
    match a[0] {
        0 => {
            let w = rng_union(&x, &rngs(&r));
            let want = rng_raw(&(w[0].0.clone(), w[w.len() - 1].1.clone()));
            let e = RawInterval::enclose_all(source(&items));
            obs_rngs(&w);
            cover("something");
            check(raw_same(&e, &want), &format!("enclose_all of {items:?} is {e:?}"));
        }
        1 => {
            let mut all = vec![(Cut::Lo, Cut::Hi)];
            for r in &items { all = rng_inter(&all, &rngs(r)) }
            let e = RawInterval::intersect_all(source(&items));
            obs_rngs(&all);
            let want = all.first().map_or(RawInterval::Empty, rng_raw);
            if all.is_empty() { cover("nothing") } else { cover("something") }
            check(raw_same(&e, &want), &format!("intersect_all of {items:?} is {e:?}, expected {want:?}"));
        }
        _ => {
            let w = rng_union(&x, &rngs(&r));
            obs_rngs(&w);
            cover("something");
            let mut v: Vec<Rng<T>> = RawInterval::union_all(source(&items)).map(|i| raw_rng(&i).unwrap_or_else(|| fail("union_all yields an empty item".into()))).collect();
            v.sort_by(|p, q| ccmp(&p.0, &q.0));
            check(rng_eq(&v, &w), &format!("union_all of {items:?} is {v:?}"));
        }
    }
}
/// args: steps, sequence. A long history of edits of a tree.
pub fn c25_long<T: Pt>(a: &[usize]) {
    use RawInterval::*;
    let b = T::fresh();
    let mut q = Seq(a[1] as u64 * 104729 + 3);
    let free = pick(4) * (a[0] - 1) / 3;
    let (mut t, mut m): (TineTree<T>, Vec<Rng<T>>) = (TineTree::new(), vec![]);
    for k in 0..a[0] {
        let (l, n, kind, op) = (q.below(24) as i64, 1 + q.below(5) as i64, q.below(8), q.below(8));
        let (x, y) = (b.at(l), b.at(l + n));
        let mut i = match kind { 0 | 1 => Point(x), 2 => Open(x, y), 3 => LeftOpen(x, y), 4 => RightOpen(x, y), 5 => Closed(x, y), 6 => UpTo(x), _ => UpFrom(y) };
        if op == 7 { i = match kind % 4 { 0 => Open(b.at(l / 4), b.at(26)), 1 => From(b.at(l / 4)), 2 => To(b.at(20 + l / 4)), _ => RightOpen(b.at(l / 4), b.at(28)) } }
        if (op < 4) && kind >= 6 { i = Closed(b.at(l), b.at(l + 1)) }
        if k == free { i = gen_proper(); let (lo, _) = raw_rng(&i).expect("proper"); T::assume_le_off(&b, -2, key(&lo)); T::assume_le_off(key(&lo), -26, &b) }
        let y = rngs(&i);
        match op {
            0..=3 => { t.union_in_place(&i); m = rng_union(&m, &y) }
            4..=6 => { t.minus_in_place(&i); m = rng_minus(&m, &y) }
            _ => { t.intersect_in_place(&i); m = rng_inter(&m, &y) }
        }
        if !tree_is(&t, &m) { fail(format!("step {k} of history {}: {i:?} leaves {:?}, expected {m:?}", a[1], t.interval_iter().collect::<Vec<_>>())) }
    }
    tree_ok(&t, &m, "history");
    crate::dense::tree_asked(&t, &m);
}
/// The same few points by every route: equal values, equal hashes.
/// args: missing
pub fn c03_routes<T: Fin>(_: &[usize]) {
    let r = gen_run_opt::<T>();
    let i = ivl_opt(&r);
    let want: Runs<T> = r.iter().cloned().collect();
    let whole = || Selection::<T>::full();
    let none = Selection::<T>::empty;
    let s: Selection<T> = match pick(14) {
        0 => Selection::from(i),
        1 => { let mut s = Selection::new(); s.union_in_place(i); s }
        2 => { let mut s = whole(); s.intersect_in_place(i); s }
        3 => whole().intersect(&Selection::from(i)),
        4 => Selection::from(i).intersect(&whole()),
        5 => none().union(&Selection::from(i)),
        6 => Selection::from(i).union(&none()),
        7 => Selection::from(i).minus(&none()),
        8 => Selection::from(i).complement().complement(),
        9 => whole().minus(&whole().minus(&Selection::from(i))),
        10 => { let mut s = whole(); s.minus_in_place(i); s.complement() }
        11 => { let mut s = Selection::default(); s.extend([i.clone(), Interval::empty(), i]); s }
        12 => match &r { Some((l, u)) => [l.clone(), u.clone()].into_iter().collect::<Selection<T>>().union(&Selection::from(i)), None => std::iter::empty::<T>().collect() },
        _ => match &r {
            Some((l, u)) => {
                // Glued from the parts below and above a point.
                let p = T::fresh();
                T::assume_le_off(l, 0, &p);
                T::assume_le_off(&p, 1, u);
                let q = p.succ().expect("below another point");
                let mut s = Selection::from(Interval::closed(q, u.clone()));
                s.union_in_place(Interval::closed(l.clone(), p));
                s
            }
            None => whole().complement(),
        },
    };
    canonical(&s, &want, "route");
    same_value(&s, &want, "route");
    check(hash_of(&s) == hash_of(&sel_of(&want)), "hashes differ for equal point sets");
    check(hash_of(&s) == hash_of(&want.iter().map(ivl).collect::<Selection<T>>()), "hashes differ for equal point sets");
    match &r {
        Some(r) => check(s == Selection::from(ivl(r)) && hash_of(&s) == hash_of(&Selection::from(ivl(r))), "!= the selection of the interval"),
        None => check(s == none() && s == Selection::new() && hash_of(&s) == hash_of(&none()), "!= the empty selection"),
    }
    if r.as_ref().is_some_and(|r| eq(&r.0, &T::MINIMUM) && eq(&r.1, &T::MAXIMUM)) {
        cover("everything");
        check(s == whole() && whole() == s && hash_of(&s) == hash_of(&whole()), "!= the full selection");
    }
}
