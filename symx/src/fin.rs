//! Harnesses over finite point types: intervals and selections.
use crate::model::*;
use crate::sym::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval, Selection};

fn in_items<T: Fin>(s: &Selection<T>, p: &T) -> bool {
    s.interval_iter().any(|i| match (i.lower_bound(), i.upper_bound()) {
        (Some(Bound::Include(l)), Some(Bound::Include(u))) => le(&l, p) && le(p, &u),
        (None, None) => false,
        _ => fail(format!("interval {i:?} of a selection is not closed")),
    })
}
pub fn member<T: Fin>(s: &Selection<T>, p: &T, want: bool, what: &str) {
    obs_b(want);
    if want { cover("member") } else { cover("non-member") }
    if s.contains(p) != want { fail(format!("{what}: contains({p:?}) is {}, expected {want}", !want)) }
    if in_items(s, p) != want { fail(format!("{what}: reported intervals {} {p:?}, expected the opposite", if want { "miss" } else { "hold" })) }
}
/// The selection reports exactly the maximal runs.
pub fn canonical<T: Fin>(s: &Selection<T>, want: &[Run<T>], what: &str) {
    obs_runs(want);
    if want.is_empty() { cover("empty result") } else if want.len() == 1 { cover("one run") } else { cover("several runs") }
    if !sel_is(s, want) {
        fail(format!("{what}: reports {:?}, expected the runs {want:?}", s.interval_iter().collect::<Vec<_>>()))
    }
}
/// ... and equals, and hashes like, the selection collected from those runs.
pub fn same_value<T: Fin>(s: &Selection<T>, want: &[Run<T>], what: &str) {
    let direct: Selection<T> = sel_of(&want.to_vec());
    check(*s == direct, &format!("{what}: != the selection collected from the same points ({s:?} vs {direct:?})"));
    check(direct == *s, &format!("{what}: equality is not symmetric"));
    check(s.is_empty() == want.is_empty(), &format!("{what}: is_empty is {}", s.is_empty()));
}

// ---- C01 -----------------------------------------------------------------------
pub fn c01_binary<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_runs::<T>(a[1]), || gen_runs::<T>(a[2]), a[1] == a[2]);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (s, t) = (&s, other(&s, &t, same));
    let r = match a[0] { 0 => s.union(&t), 1 => s.intersect(&t), _ => s.minus(&t) };
    let p = T::fresh();
    let (i, j) = (has(&x, &p), has(&y, &p));
    let want = match a[0] { 0 => i || j, 1 => i && j, _ => i && !j };
    member(&r, &p, want, ["union", "intersect", "minus"][a[0].min(2)]);
}
pub fn c01_complement<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[0]);
    let s = sel_of(&x);
    let r = s.complement();
    let p = T::fresh();
    member(&r, &p, !has(&x, &p), "complement");
    let rr = r.complement();
    check(rr.contains(&p) == has(&x, &p), "complement of complement differs in membership");
}
// ---- C02 -----------------------------------------------------------------------
pub fn c02_in_place<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[1]);
    let mut s = sel_of(&x);
    let i = gen_run_opt::<T>();
    match a[0] {
        0 => s.union_in_place(ivl_opt(&i)),
        1 => s.minus_in_place(ivl_opt(&i)),
        _ => s.intersect_in_place(ivl_opt(&i)),
    }
    let p = T::fresh();
    let (m, n) = (has(&x, &p), i.as_ref().is_some_and(|r| le(&r.0, &p) && le(&p, &r.1)));
    let want = match a[0] { 0 => m || n, 1 => m && !n, _ => m && n };
    member(&s, &p, want, ["union_in_place", "minus_in_place", "intersect_in_place"][a[0].min(2)]);
}
// ---- C03 -----------------------------------------------------------------------
pub fn c03_binary<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_runs::<T>(a[1]), || gen_runs::<T>(a[2]), a[1] == a[2]);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (s, t) = (&s, other(&s, &t, same));
    let (r, want) = match a[0] {
        0 => (s.union(&t), runs_union(&x, &y)),
        1 => (s.intersect(&t), runs_inter(&x, &y)),
        _ => (s.minus(&t), runs_minus(&x, &y)),
    };
    let n = ["union", "intersect", "minus"][a[0].min(2)];
    canonical(&r, &want, n);
    same_value(&r, &want, n);
}
pub fn c03_complement<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[0]);
    let s = sel_of(&x);
    let r = s.complement();
    let want = runs_compl(&x);
    canonical(&r, &want, "complement");
    same_value(&r, &want, "complement");
    let rr = r.complement();
    check(rr == s, "complement of complement is not the original selection");
}
pub fn c03_in_place<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[1]);
    let mut s = sel_of(&x);
    let i = gen_run_opt::<T>();
    let y: Runs<T> = i.iter().cloned().collect();
    let (want, n) = match a[0] {
        0 => { s.union_in_place(ivl_opt(&i)); (runs_union(&x, &y), "union_in_place") }
        1 => { s.minus_in_place(ivl_opt(&i)); (runs_minus(&x, &y), "minus_in_place") }
        _ => { s.intersect_in_place(ivl_opt(&i)); (runs_inter(&x, &y), "intersect_in_place") }
    };
    canonical(&s, &want, n);
    same_value(&s, &want, n);
}
/// == holds exactly for equal point sets, and equal values hash equally.
pub fn c03_equality<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_runs::<T>(a[0]), || gen_runs::<T>(a[1]), a[0] == a[1]);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (s, t) = (&s, other(&s, &t, same));
    let want = runs_eq(&x, &y);
    obs_b(want);
    if want { cover("equal sets") } else { cover("different sets") }
    check((s == t) == want, &format!("{s:?} == {t:?} should be {want}"));
    check((s != t) != want, "!= disagrees with ==");
    if want { check(hash_of(&s) == hash_of(&t), "equal selections hash differently") }
    let mut c = t.clone();
    c.clone_from(s);
    check(sel_is(&c, &x) && c == *s, &format!("{t:?} overwritten with {s:?} is {c:?}"));
}
/// A result reached by an operation hashes like the directly built selection.
pub fn c03_hash<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[1]);
    let i = gen_run::<T>();
    let mut s = sel_of(&x);
    let y = vec![i.clone()];
    let (want, r) = match a[0] {
        0 => { s.union_in_place(ivl(&i)); (runs_union(&x, &y), s) }
        1 => { s.minus_in_place(ivl(&i)); (runs_minus(&x, &y), s) }
        2 => { s.intersect_in_place(ivl(&i)); (runs_inter(&x, &y), s) }
        _ => (runs_minus(&runs_compl(&x), &y), s.complement().minus(&ivl(&i).into())),
    };
    let d = sel_of(&want);
    check(hash_of(&r) == hash_of(&d), "hashes differ for equal point sets");
    obs_runs(&want);
    cover("hash compared");
}
// ---- C04 -----------------------------------------------------------------------
pub fn c04_collect<T: Fin>(a: &[usize]) {
    let items: Vec<Option<Run<T>>> = (0..a[0]).map(|_| gen_run_opt()).collect();
    let s: Selection<T> = if a[0] > 2 { items.iter().map(ivl_opt).collect() } else { crate::dense::source(&items).map(|r| ivl_opt(&r)).collect() };
    let mut want = vec![];
    for r in items.iter().flatten() { want = runs_add(&want, r) }
    canonical(&s, &want, "collect of intervals");
    same_value(&s, &want, "collect of intervals");
}
pub fn c04_member<T: Fin>(a: &[usize]) {
    let items: Vec<Run<T>> = (0..a[0]).map(|_| gen_run()).collect();
    let s: Selection<T> = items.iter().map(ivl).collect();
    let p = T::fresh();
    member(&s, &p, has(&items, &p), "collect of intervals");
}
pub fn c04_points<T: Fin>(a: &[usize]) {
    let pts: Vec<T> = (0..a[0]).map(|_| T::fresh()).collect();
    let s: Selection<T> = crate::dense::source(&pts).collect();
    let mut want = vec![];
    for p in &pts { want = runs_add(&want, &(p.clone(), p.clone())) }
    canonical(&s, &want, "collect of points");
    same_value(&s, &want, "collect of points");
}
pub fn c04_extend<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[0]);
    let items: Vec<Option<Run<T>>> = (0..a[1]).map(|_| gen_run_opt()).collect();
    let mut s = sel_of(&x);
    s.extend(crate::dense::source(&items).map(|r| ivl_opt(&r)));
    let mut want = x;
    for r in items.iter().flatten() { want = runs_add(&want, r) }
    canonical(&s, &want, "extend");
    same_value(&s, &want, "extend");
}
pub fn c04_from<T: Fin>(_: &[usize]) {
    let (s, want): (Selection<T>, Runs<T>) = match pick(5) {
        0 => { let i = gen_run_opt(); (ivl_opt(&i).into(), i.into_iter().collect()) }
        1 => { let r = gen_raw::<T>(true); let w = raw_run(&r); (Interval::from(r).into(), w.into_iter().collect()) }
        2 => (Selection::full(), vec![(T::MINIMUM, T::MAXIMUM)]),
        3 => (if flip() { Selection::new() } else { Selection::default() }, vec![]),
        _ => (Selection::empty(), vec![]),
    };
    canonical(&s, &want, "from interval");
    same_value(&s, &want, "from interval");
}
// ---- C05 -----------------------------------------------------------------------
pub fn c05_queries<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[0]);
    let s = sel_of(&x);
    queries(&s, &x);
    let p = T::fresh();
    member(&s, &p, has(&x, &p), "selection");
}
/// Everything asked of a selection without changing it.
fn queries<T: Fin>(s: &Selection<T>, x: &[Run<T>]) {
    let (first, last) = (x.first().map(|r| r.0.clone()), x.last().map(|r| r.1.clone()));
    let full = x.len() == 1 && eq(&x[0].0, &T::MINIMUM) && eq(&x[0].1, &T::MAXIMUM);
    obs_b(full);
    if full { cover("full") }
    check(s.is_empty() == x.is_empty(), "is_empty");
    check(s.is_full() == full, &format!("is_full is {}", s.is_full()));
    check(bound_opt_same(&s.lower_bound(), &first.clone().map(Bound::Include)), &format!("lower_bound is {:?}", s.lower_bound()));
    check(bound_opt_same(&s.upper_bound(), &last.clone().map(Bound::Include)), &format!("upper_bound is {:?}", s.upper_bound()));
    check(pt_opt_same(&s.infimum(), &first.and_then(|p| p.pred())), &format!("infimum is {:?}", s.infimum()));
    check(pt_opt_same(&s.supremum(), &last.and_then(|p| p.succ())), &format!("supremum is {:?}", s.supremum()));
    check(s.is_bounded(), "is_bounded is false");
    check(s.is_left_bounded(), "is_left_bounded is false");
    check(s.is_right_bounded(), "is_right_bounded is false");
    check(!s.is_half_bounded(), "is_half_bounded is true");
}
/// ... and the queries with an argument, the hull, and iteration backwards, of
/// a selection that has been edited.
pub fn asked<T: Fin>(s: &Selection<T>, x: &[Run<T>]) {
    queries(s, x);
    let hull = x.first().map(|f| (f.0.clone(), x[x.len() - 1].1.clone()));
    check(is_run_opt(&s.enclose(), &hull), &format!("enclose is {:?}", s.enclose()));
    check(is_run_opt(&s.closure(), &hull), &format!("closure is {:?}", s.closure()));
    let v: Vec<_> = s.interval_iter().rev().collect();
    check(v.len() == x.len() && v.iter().rev().zip(x).all(|(i, r)| is_run(i, r)), &format!("backwards the intervals are {v:?}, expected {x:?} from the end"));
    let v: Vec<_> = s.clone().into_interval_iter().collect();
    check(v.len() == x.len() && v.iter().zip(x).all(|(i, r)| is_run(i, r)), &format!("a copy gives {v:?}, expected {x:?}"));
    check(hash_of(s) == hash_of(&sel_of(&x.to_vec())), "hashes differ for equal point sets");
    match (s.iter().next(), x.first()) { (None, None) => {}, (Some(p), Some(r)) if eq(&p, &r.0) => {}, (p, _) => fail(format!("the first point is {p:?}")) }
    match (s.iter().next_back(), x.last()) { (None, None) => {}, (Some(p), Some(r)) if eq(&p, &r.1) => {}, (p, _) => fail(format!("the last point is {p:?}")) }
    let p = T::fresh();
    member(s, &p, has(x, &p), "edited selection");
    let point: Selection<T> = Interval::point(p.clone()).into();
    check(s.intersects(&point) == has(x, &p) && point.intersects(s) == has(x, &p), &format!("intersects {p:?} is {}", s.intersects(&point)));
    with_itself(s, x);
}
/// A selection as both operands, and overwriting another.
pub fn with_itself<T: Fin>(s: &Selection<T>, x: &[Run<T>]) {
    check(sel_is(&s.union(s), x) && sel_is(&s.intersect(s), x), "union or intersection with itself");
    check(s.minus(s).is_empty() && s.minus(s) == Selection::empty(), "something is left without itself");
    #[allow(clippy::eq_op)]
    { check(s.intersects(s) == !x.is_empty() && *s == *s && !(*s != *s), "a selection differs from itself") }
    let mut c: Selection<T> = Selection::full();
    c.clone_from(s);
    check(sel_is(&c, x) && c == *s, &format!("{s:?} overwrites as {c:?}"));
    c.union_in_place(Interval::full());
    check(c.is_full() && sel_is(s, x), "editing a copy");
}
pub fn c05_intersects<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair2(|| gen_runs::<T>(a[0]), || gen_runs::<T>(a[1]), a[0] == a[1]);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (s, t) = (&s, other(&s, &t, same));
    let want = !runs_inter(&x, &y).is_empty();
    obs_b(want);
    if want { cover("intersecting") } else { cover("disjoint") }
    check(s.intersects(&t) == want, &format!("intersects is {}", !want));
}
// ---- C06 -----------------------------------------------------------------------
pub fn c06_enclose<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[0]);
    let s = sel_of(&x);
    let want = x.first().map(|f| (f.0.clone(), x[x.len() - 1].1.clone()));
    let (e, c) = (s.enclose(), s.closure());
    check(is_run_opt(&e, &want), &format!("enclose is {e:?}, expected {want:?}"));
    check(is_run_opt(&c, &want), &format!("closure is {c:?}, expected {want:?}"));
    obs_runs(&want.into_iter().collect::<Vec<_>>());
    cover("enclosed");
}
// ---- C07 -----------------------------------------------------------------------
pub fn c07_intervals<T: Fin>(a: &[usize]) {
    let x = if a.len() > 1 { gen_runs_kind::<T>(a[0], a[1]) } else { gen_runs::<T>(a[0]) };
    let s = sel_of(&x);
    fn drive<T: Fin>(mut it: impl DoubleEndedIterator<Item = Interval<T>>, x: &[Run<T>]) {
        let (mut i, mut j) = (0, x.len());
        for _ in 0..x.len() + 2 {
            let back = flip();
            obs_b(back);
            let got = if back { it.next_back() } else { it.next() };
            let want = if i == j { None } else if back { j -= 1; Some(&x[j]) } else { i += 1; Some(&x[i - 1]) };
            let (least, most) = it.size_hint();
            check(least <= j - i && most.map_or(true, |m| j - i <= m), &format!("{} intervals are left, size_hint says {least} to {most:?}", j - i));
            match (&got, want) {
                (None, None) => cover("exhausted"),
                (Some(g), Some(w)) if is_run(g, w) => {}
                _ => fail(format!("{} yields {got:?}, expected {want:?} of {x:?}", if back { "next_back" } else { "next" })),
            }
        }
    }
    match pick(2) { 0 => drive(s.interval_iter(), &x), _ => drive(s.into_interval_iter(), &x) }
}
// ---- C08, C13 ---------------------------------------------------------------------
fn drive_points<T: Fin>(mut it: impl DoubleEndedIterator<Item = T>, runs: &[(T, usize)], both: bool) {
    // The j-th point overall is runs[i].0 + offset.
    let pts: Vec<(usize, i64)> = runs.iter().enumerate().flat_map(|(i, (_, n))| (0..*n).map(move |d| (i, d as i64))).collect();
    let (mut i, mut j) = (0, pts.len());
    let only = if both { 0 } else { pick(2) };
    for _ in 0..pts.len() + 2 {
        let back = if both { flip() } else { only == 1 };
        obs_b(back);
        let got = if back { it.next_back() } else { it.next() };
        let want = if i == j { None } else if back { j -= 1; Some(pts[j]) } else { i += 1; Some(pts[i - 1]) };
        let (least, most) = it.size_hint();
        check(least <= j - i && most.map_or(true, |m| j - i <= m), &format!("{} points are left, size_hint says {least} to {most:?}", j - i));
        match (&got, want) {
            (None, None) => cover("exhausted"),
            (Some(g), Some((r, d))) if T::eq_off(&runs[r].0, d, g) => g.obs(),
            _ => fail(format!("{} yields {got:?}, expected {}", if back { "next_back" } else { "next" },
                want.map_or("None".into(), |(r, d)| format!("{:?}{d:+}", runs[r].0)))),
        }
    }
}
/// The first `steps` steps over runs of any length, taken from either end at will.
fn drive_prefix<T: Fin>(mut it: impl DoubleEndedIterator<Item = T>, runs: &[Run<T>], steps: usize) {
    // Next from the front: run i, its lower bound + f. From the back: run j - 1, its upper bound - b.
    let (mut i, mut f, mut j, mut b) = (0, 0i64, runs.len(), 0i64);
    for _ in 0..steps {
        let back = flip();
        obs_b(back);
        // Runs used up from either end; within one run both ends count.
        while i < j && !T::le_off(&runs[i].0, f + if i + 1 == j { b } else { 0 }, &runs[i].1) { i += 1; f = 0 }
        while i < j && !T::le_off(&runs[j - 1].0, b + if i + 1 == j { f } else { 0 }, &runs[j - 1].1) { j -= 1; b = 0 }
        let got = if back { it.next_back() } else { it.next() };
        let ok = match &got {
            None => { if i == j { cover("exhausted") } i == j }
            Some(g) if i < j => {
                g.obs();
                if back { b += 1; T::eq_off(g, b - 1, &runs[j - 1].1) } else { f += 1; T::eq_off(&runs[i].0, f - 1, g) }
            }
            _ => false,
        };
        check(ok, &format!("{} yields {got:?}, {f} taken from the front of run {i}, {b} from the back of run {} of {runs:?}", if back { "next_back" } else { "next" }, j as i64 - 1));
    }
    cover("steps taken");
}
/// args: number of steps, number of runs.
pub fn c08_prefix<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[1]);
    let s = sel_of(&x);
    match pick(3) {
        0 => drive_prefix(s.iter(), &x, a[0]),
        1 => drive_prefix((&s).into_iter(), &x, a[0]),
        _ => drive_prefix(s.into_iter(), &x, a[0]),
    }
}
pub fn c13_prefix<T: Fin>(a: &[usize]) {
    let x = gen_run_opt::<T>();
    let i = ivl_opt(&x);
    let x: Runs<T> = x.into_iter().collect();
    match pick(3) {
        0 => drive_prefix(i.iter(), &x, a[0]),
        1 => drive_prefix((&i).into_iter(), &x, a[0]),
        _ => drive_prefix(i.into_iter(), &x, a[0]),
    }
}
fn gen_short_runs<T: Fin>(lens: &[usize]) -> Vec<(T, T, usize)> {
    let mut v: Vec<(T, T, usize)> = vec![];
    for &n in lens {
        let l = T::fresh();
        if let Some((_, u, _)) = v.last() { T::assume_le_off(u, 2, &l) }
        let u = if n == 1 { l.clone() } else {
            let u = T::fresh();
            T::assume_le_off(&l, n as i64 - 1, &u);
            T::assume_le_off(&u, 1 - n as i64, &l);
            u
        };
        v.push((l, u, n));
    }
    v
}
/// args: mode (1: both ends mixed), then the run lengths.
pub fn c08_points<T: Fin>(a: &[usize]) {
    let x = gen_short_runs::<T>(&a[1..]);
    let s: Selection<T> = x.iter().map(|(l, u, _)| Interval::closed(l.clone(), u.clone())).collect();
    let runs: Vec<(T, usize)> = x.into_iter().map(|(l, _, n)| (l, n)).collect();
    match pick(3) {
        0 => drive_points(s.iter(), &runs, a[0] == 1),
        1 => drive_points((&s).into_iter(), &runs, a[0] == 1),
        _ => drive_points(s.into_iter(), &runs, a[0] == 1),
    }
}
pub fn c13_points<T: Fin>(a: &[usize]) {
    let x = gen_short_runs::<T>(&a[1..]);
    let (i, runs) = match x.first() {
        Some((l, u, n)) => (Interval::closed(l.clone(), u.clone()), vec![(l.clone(), *n)]),
        None => (Interval::empty(), vec![]),
    };
    match pick(3) {
        0 => drive_points(i.iter(), &runs, a[0] == 1),
        1 => drive_points((&i).into_iter(), &runs, a[0] == 1),
        _ => drive_points(i.into_iter(), &runs, a[0] == 1),
    }
}
/// A few steps from either end, then one operation that uses up what is left;
/// `same(x, n)` tells whether `x` is the n-th of all `total` items.
pub fn drive_finish<X: std::fmt::Debug>(mut it: impl DoubleEndedIterator<Item = X>, total: usize, steps: usize, same: impl Fn(&X, usize) -> bool) {
    let (mut i, mut j) = (0, total);
    for _ in 0..pick(steps + 1) {
        let back = flip();
        let got = if back { it.next_back() } else { it.next() };
        let want = if i == j { None } else if back { j -= 1; Some(j) } else { i += 1; Some(i - 1) };
        check(match (&got, want) { (None, None) => true, (Some(g), Some(n)) => same(g, n), _ => false }, &format!("step {got:?}"));
    }
    let left = j - i;
    let op = pick(11);
    obs(op as u64);
    let all = |v: &[X], n: &mut dyn Iterator<Item = usize>| v.iter().all(|x| n.next().is_some_and(|k| same(x, k))) && n.next().is_none();
    let one = |x: &Option<X>, n: Option<usize>| match (x, n) { (None, None) => true, (Some(x), Some(n)) => same(x, n), _ => false };
    match op {
        0 => { let v: Vec<X> = it.collect(); check(all(&v, &mut (i..j)), &format!("collect gives {v:?}")) }
        1 => { let v: Vec<X> = it.rev().collect(); check(all(&v, &mut (i..j).rev()), &format!("rev collect gives {v:?}")) }
        2 => { let n = it.count(); check(n == left, &format!("count is {n} with {left} left")) }
        3 => { let x = it.last(); check(one(&x, (i < j).then(|| j - 1)), &format!("last is {x:?}")) }
        4 => {
            let k = pick(left + 2);
            let x = it.nth(k);
            check(one(&x, (k < left).then(|| i + k)), &format!("nth({k}) is {x:?}"));
            let y = it.next();
            check(one(&y, (k + 1 < left).then(|| i + k + 1)), &format!("after nth({k}) next is {y:?}"));
        }
        5 => {
            let k = pick(left + 2);
            let x = it.nth_back(k);
            check(one(&x, (k < left).then(|| j - 1 - k)), &format!("nth_back({k}) is {x:?}"));
            let y = it.next_back();
            check(one(&y, (k + 1 < left).then(|| j - 2 - k)), &format!("after nth_back({k}) next_back is {y:?}"));
        }
        6 => { let v = it.fold(vec![], |mut v, x| { v.push(x); v }); check(all(&v, &mut (i..j)), &format!("fold visits {v:?}")) }
        7 => { let v = it.rfold(vec![], |mut v, x| { v.push(x); v }); check(all(&v, &mut (i..j).rev()), &format!("rfold visits {v:?}")) }
        8 => { let v: Vec<X> = it.step_by(2).collect(); check(all(&v, &mut (i..j).step_by(2)), &format!("step_by(2) gives {v:?}")) }
        9 => { let v: Vec<X> = it.skip(1).collect(); check(all(&v, &mut (i..j).skip(1)), &format!("skip(1) gives {v:?}")) }
        _ => {
            // Searching stops at the item found and leaves the rest.
            let mut n = 0;
            let x = it.find(|_| { n += 1; n == 2 });
            check(one(&x, (left > 1).then(|| i + 1)), &format!("the second item found is {x:?}"));
            let y = it.rfind(|_| true);
            check(one(&y, (left > 2).then(|| j - 1)), &format!("then the last is {y:?}"));
        }
    }
    cover("finished");
}
/// Steps from both ends, then the least, the greatest or a test of all that is
/// left.
pub fn drive_extremes<X: std::fmt::Debug + Ord>(mut it: impl DoubleEndedIterator<Item = X>, total: usize, steps: usize, same: impl Fn(&X, usize) -> bool) {
    let (mut i, mut j) = (0, total);
    for _ in 0..pick(steps + 1) {
        if flip() { let _ = it.next_back(); if i < j { j -= 1 } } else { let _ = it.next(); if i < j { i += 1 } }
    }
    let one = |x: &Option<X>, n: Option<usize>| match (x, n) { (None, None) => true, (Some(x), Some(n)) => same(x, n), _ => false };
    match pick(5) {
        0 => { let x = it.min(); check(one(&x, (i < j).then_some(i)), &format!("min is {x:?}")) }
        1 => { let x = it.max(); check(one(&x, (i < j).then(|| j - 1)), &format!("max is {x:?}")) }
        2 => { let x = it.is_sorted(); check(x, "not ascending") }
        3 => {
            let mut n = 0;
            let x = it.try_fold((), |_, _| { n += 1; if n == 2 { None } else { Some(()) } });
            check(x.is_none() == (j - i >= 2), "try_fold stops at the second item");
            let y = it.next();
            check(one(&y, (j - i > 2).then(|| i + 2)), &format!("after try_fold next is {y:?}"));
        }
        _ => {
            let mut n = 0;
            let x = it.try_rfold((), |_, _| { n += 1; if n == 2 { None } else { Some(()) } });
            check(x.is_none() == (j - i >= 2), "try_rfold stops at the second item");
            let y = it.next_back();
            check(one(&y, (j - i > 2).then(|| j - 3)), &format!("after try_rfold next_back is {y:?}"));
        }
    }
    cover("finished");
}
/// args: steps, runs.
pub fn c07_finish<T: Fin>(a: &[usize]) {
    let x = gen_runs::<T>(a[1]);
    let s = sel_of(&x);
    let same = |i: &Interval<T>, n: usize| is_run(i, &x[n]);
    match pick(2) { 0 => drive_finish(s.interval_iter(), x.len(), a[0], same), _ => drive_finish(s.into_interval_iter(), x.len(), a[0], same) }
}
/// args: steps, then the run lengths.
pub fn c08_finish<T: Fin>(a: &[usize]) {
    let x = gen_short_runs::<T>(&a[1..]);
    let s: Selection<T> = x.iter().map(|(l, u, _)| Interval::closed(l.clone(), u.clone())).collect();
    let pts: Vec<(T, i64)> = x.iter().flat_map(|(l, _, n)| (0..*n).map(move |d| (l.clone(), d as i64))).collect();
    let same = |p: &T, n: usize| T::eq_off(&pts[n].0, pts[n].1, p);
    match pick(5) {
        0 => drive_finish(s.iter(), pts.len(), a[0], same),
        1 => drive_finish((&s).into_iter(), pts.len(), a[0], same),
        2 => drive_extremes(s.iter(), pts.len(), a[0], same),
        3 => drive_extremes(s.into_iter(), pts.len(), a[0], same),
        _ => drive_finish(s.into_iter(), pts.len(), a[0], same),
    }
}
pub fn c13_finish<T: Fin>(a: &[usize]) {
    let x = gen_short_runs::<T>(&a[1..]);
    let (i, n) = match x.first() {
        Some((l, u, n)) => (Interval::closed(l.clone(), u.clone()), *n),
        None => (Interval::empty(), 0),
    };
    let same = |p: &T, d: usize| T::eq_off(&x[0].0, d as i64, p);
    match pick(4) {
        0 => drive_finish(i.iter(), n, a[0], same),
        2 => drive_extremes(i.iter(), n, a[0], same),
        1 => drive_finish((&i).into_iter(), n, a[0], same),
        _ => drive_finish(i.into_iter(), n, a[0], same),
    }
}
// ---- C09 -----------------------------------------------------------------------
fn construct<T: Fin>(kind: usize) -> (Interval<T>, RawInterval<T>) {
    use RawInterval as R;
    let f = T::fresh;
    let two = |g: fn(T, T) -> Interval<T>, h: fn(T, T) -> R<T>| { let (a, b) = (f(), f()); (g(a.clone(), b.clone()), h(a, b)) };
    let one = |g: fn(T) -> Interval<T>, h: fn(T) -> R<T>| { let a = f(); (g(a.clone()), h(a)) };
    // Half-open bounds that coincide give the single point.
    let half = |g: fn(T, T) -> Interval<T>, h: fn(T, T) -> R<T>| {
        let (a, b) = (f(), f());
        let i = g(a.clone(), b.clone());
        if eq(&a, &b) { (i, R::Point(a)) } else { (i, h(a, b)) }
    };
    match kind {
        0 => two(Interval::open, R::Open),
        1 => half(Interval::left_open, R::LeftOpen),
        2 => half(Interval::right_open, R::RightOpen),
        3 => two(Interval::closed, R::Closed),
        4 => half(Interval::left_closed, R::RightOpen),
        5 => half(Interval::right_closed, R::LeftOpen),
        6 => one(Interval::unbounded_from, R::From),
        7 => one(Interval::unbounded_to, R::To),
        8 => one(Interval::unbounded_up_from, R::UpFrom),
        9 => one(Interval::unbounded_up_to, R::UpTo),
        10 => one(Interval::point, R::Point),
        11 => one(|p| Interval::from(p), R::Point),
        12 => (Interval::full(), R::Full),
        13 => (Interval::empty(), R::Empty),
        14 => (Interval::default(), R::Empty),
        15 => half(|a, b| Interval::from(a..b), R::RightOpen),
        16 => one(|a| Interval::from(a..), R::From),
        17 => one(|a| Interval::from(..a), R::UpTo),
        18 => one(|a| Interval::from(..=a), R::To),
        19 => (Interval::from(..), R::Full),
        20 => { let r = gen_raw::<T>(true); (Interval::from(r.clone()), r) }
        _ => {
            let (l, u) = (gen_bound::<T>(), gen_bound::<T>());
            let i = Interval::new(l.clone(), u.clone());
            use Bound::*;
            let r = match (l, u) {
                (Include(a), Include(b)) => R::Closed(a, b),
                (Include(a), Exclude(b)) => if eq(&a, &b) { R::Point(a) } else { R::RightOpen(a, b) },
                (Exclude(a), Include(b)) => if eq(&a, &b) { R::Point(a) } else { R::LeftOpen(a, b) },
                (Exclude(a), Exclude(b)) => R::Open(a, b),
                (Include(a), Infinite) => R::From(a),
                (Exclude(a), Infinite) => R::UpFrom(a),
                (Infinite, Include(b)) => R::To(b),
                (Infinite, Exclude(b)) => R::UpTo(b),
                (Infinite, Infinite) => R::Full,
            };
            (i, r)
        }
    }
}
pub fn c09_construct<T: Fin>(_: &[usize]) {
    let (i, r) = construct::<T>(pick(22));
    let p = T::fresh();
    let want = raw_has(&r, &p);
    obs_b(want);
    if want { cover("member") } else { cover("non-member") }
    check(i.contains(&p) == want, &format!("{i:?} built from {r:?}: contains({p:?}) is {}", !want));
    let run = raw_run(&r);
    check(is_run_opt(&i, &run), &format!("{i:?} built from {r:?} is not the normalized interval {run:?}"));
}
pub fn c09_equal<T: Fin>(_: &[usize]) {
    let k = pick(22);
    let j = pick(22);
    let (i, r) = construct::<T>(k);
    let (i2, r2) = construct::<T>(j);
    let (a, b) = (raw_run(&r), raw_run(&r2));
    let want = match (&a, &b) { (None, None) => true, (Some(a), Some(b)) => eq(&a.0, &b.0) && eq(&a.1, &b.1), _ => false };
    obs_b(want);
    if want { cover("equal points") } else { cover("different points") }
    check((i == i2) == want, &format!("{i:?} == {i2:?} should be {want}"));
    if want { check(hash_of(&i) == hash_of(&i2), "equal intervals hash differently") }
}
// ---- C10 -----------------------------------------------------------------------
fn items_ok<T: Fin>(v: &[Interval<T>], want: &[Run<T>], what: &str) {
    obs_runs(want);
    let mut runs = vec![];
    for i in v {
        match run_of(i) {
            None => fail(format!("{what}: {i:?} is not normalized")),
            Some(None) => {}
            Some(Some(r)) => runs.push(r),
        }
    }
    for (n, r) in runs.iter().enumerate() {
        for q in &runs[..n] {
            check(lt(&r.1, &q.0) || lt(&q.1, &r.0), &format!("{what}: yielded intervals overlap: {v:?}"));
        }
    }
    let mut merged = vec![];
    for r in &runs { merged = runs_add(&merged, r) }
    check(runs_eq(&merged, want), &format!("{what}: yields {v:?}, expected the points of {want:?}"));
}
pub fn c10_ops<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair(|| gen_run_opt::<T>(), true);
    let (i, j) = (ivl_opt(&x), ivl_opt(&y));
    let (i, j) = (&i, other(&i, &j, same));
    let (rx, ry): (Runs<T>, Runs<T>) = (x.clone().into_iter().collect(), y.into_iter().collect());
    match a[0] {
        0 => {
            let want = runs_union(&rx, &ry);
            let v: Vec<_> = i.union(&j).collect();
            items_ok(&v, &want, "union");
            if want.len() == 1 { cover("one run"); check(v.len() == 1, &format!("union of one run is yielded as {v:?}")) } else { cover("several or none") }
        }
        1 => {
            let want = runs_inter(&rx, &ry).pop();
            let r = i.intersect(&j);
            if want.is_some() { cover("common points") } else { cover("no common points") }
            check(is_run_opt(&r, &want), &format!("intersect is {r:?}, expected {want:?}"));
        }
        2 => {
            let want = runs_minus(&rx, &ry);
            if want.len() > 1 { cover("two remain") } else { cover("less remains") }
            items_ok(&i.minus(&j).collect::<Vec<_>>(), &want, "minus");
        }
        _ => {
            let want = runs_compl(&rx);
            cover("complement");
            items_ok(&i.complement().collect::<Vec<_>>(), &want, "complement");
        }
    }
}
pub fn c10_member<T: Fin>(a: &[usize]) {
    let (x, y, same) = pair(|| gen_run_opt::<T>(), true);
    let (i, j) = (ivl_opt(&x), ivl_opt(&y));
    let (i, j) = (&i, other(&i, &j, same));
    let p = T::fresh();
    let inr = |r: &Option<Run<T>>| r.as_ref().is_some_and(|r| le(&r.0, &p) && le(&p, &r.1));
    let (m, n) = (inr(&x), inr(&y));
    let (want, got) = match a[0] {
        0 => (m || n, i.union(&j).any(|k| k.contains(&p))),
        1 => (m && n, i.intersect(&j).contains(&p)),
        2 => (m && !n, i.minus(&j).any(|k| k.contains(&p))),
        _ => (!m, i.complement().any(|k| k.contains(&p))),
    };
    obs_b(want);
    if want { cover("member") } else { cover("non-member") }
    check(got == want, &format!("operation {} of {i:?}, {j:?}: {p:?} is {}a member", a[0], if got { "" } else { "not " }));
}
// ---- C11 -----------------------------------------------------------------------
pub fn c11_enclose<T: Fin>(_: &[usize]) {
    let (x, y, same) = pair(|| gen_run_opt::<T>(), true);
    let (i, j) = (ivl_opt(&x), ivl_opt(&y));
    let (i, j) = (&i, other(&i, &j, same));
    let want = match (&x, &y) {
        (None, o) | (o, None) => o.clone(),
        (Some(a), Some(b)) => Some((tmin(&a.0, &b.0), tmax(&a.1, &b.1))),
    };
    let e = i.enclose(&j);
    check(is_run_opt(&e, &want), &format!("enclose of {i:?} and {j:?} is {e:?}"));
    let c = i.closure();
    check(is_run_opt(&c, &x), &format!("closure of {i:?} is {c:?}"));
    check(c == *i, "closure differs from the interval");
    obs_runs(&want.into_iter().collect::<Vec<_>>());
    cover("enclosed");
}
// ---- C12 -----------------------------------------------------------------------
pub fn c12_queries<T: Fin>(_: &[usize]) {
    let x = gen_run_opt::<T>();
    let i = ivl_opt(&x);
    let (lo, hi) = (x.as_ref().map(|r| r.0.clone()), x.as_ref().map(|r| r.1.clone()));
    let point = x.as_ref().is_some_and(|r| eq(&r.0, &r.1));
    let (empty, proper) = (x.is_none(), x.is_some() && !point);
    obs_b(empty); obs_b(point);
    if empty { cover("empty") } else if point { cover("point") } else { cover("proper") }
    let c = |b: bool, w: bool, n: &str| check(b == w, &format!("{n} of {i:?} is {b}"));
    c(i.is_empty(), empty, "is_empty");
    c(i.is_degenerate(), point, "is_degenerate");
    c(i.is_proper(), proper, "is_proper");
    // The empty set is both open and closed; nothing else normalized is open.
    c(i.is_open(), empty, "is_open");
    c(i.is_left_open(), false, "is_left_open");
    c(i.is_right_open(), false, "is_right_open");
    c(i.is_half_open(), false, "is_half_open");
    c(i.is_closed(), true, "is_closed");
    c(i.is_left_closed(), !empty, "is_left_closed");
    c(i.is_right_closed(), !empty, "is_right_closed");
    c(i.is_half_closed(), false, "is_half_closed");
    c(i.is_bounded(), true, "is_bounded");
    c(i.is_left_bounded(), true, "is_left_bounded");
    c(i.is_right_bounded(), true, "is_right_bounded");
    c(i.is_half_bounded(), false, "is_half_bounded");
    check(bound_opt_same(&i.lower_bound(), &lo.clone().map(Bound::Include)), "lower_bound");
    check(bound_opt_same(&i.upper_bound(), &hi.clone().map(Bound::Include)), "upper_bound");
    check(pt_opt_same(&i.infimum(), &lo), &format!("infimum of {i:?} is {:?}", i.infimum()));
    check(pt_opt_same(&i.supremum(), &hi), &format!("supremum of {i:?} is {:?}", i.supremum()));
    match i.clone().into_non_empty() {
        None => check(empty, "into_non_empty of a non-empty interval is None"),
        Some(j) => check(!empty && is_run_opt(&j, &x), "into_non_empty changes the interval"),
    }
    match (&x, x.as_ref().map_or(true, |r| T::diff_ok(&r.1, &r.0))) {
        (_, false) => {}
        (None, _) => check(i.size().is_none(), "size of an empty interval"),
        (Some(r), _) => match i.size() {
            Some(s) => { check(T::is_diff(&s, &r.1, &r.0), &format!("size of {i:?} is {s:?}")); cover("size") }
            None => fail(format!("size of {i:?} is None")),
        },
    }
    let p = T::fresh();
    let want = x.as_ref().is_some_and(|r| le(&r.0, &p) && le(&p, &r.1));
    c(i.contains(&p), want, "contains");
}
pub fn c12_relations<T: Fin>(_: &[usize]) {
    let (x, y, same) = pair(|| gen_run_opt::<T>(), true);
    let (i, j) = (ivl_opt(&x), ivl_opt(&y));
    let (i, j) = (&i, other(&i, &j, same));
    let (inter, adj) = match (&x, &y) {
        (Some(a), Some(b)) => (le(&a.0, &b.1) && le(&b.0, &a.1), eq(&a.0, &b.1) || eq(&a.1, &b.0)),
        _ => (false, false),
    };
    obs_b(inter); obs_b(adj);
    if inter { cover("intersecting") }
    if adj { cover("adjacent") }
    check(i.intersects(&j) == inter, &format!("{i:?} intersects {j:?} is {}", !inter));
    check(i.is_adjacent_to(&j) == adj, &format!("{i:?} is_adjacent_to {j:?} is {}", !adj));
}
// ---- C14 -----------------------------------------------------------------------
pub fn c14_normalize<T: Fin>(_: &[usize]) {
    let r = gen_raw::<T>(false);
    let n = r.clone().normalized();
    let want = raw_run(&r);
    let ok = match (&n, &want) {
        (RawInterval::Empty, None) => true,
        (RawInterval::Point(p), Some((l, u))) => eq(p, l) && eq(p, u),
        (RawInterval::Closed(a, b), Some((l, u))) => lt(a, b) && eq(a, l) && eq(b, u),
        _ => false,
    };
    check(ok, &format!("{r:?} normalizes to {n:?}, expected the points {want:?}"));
    let nn = n.clone().normalized();
    check(raw_same(&n, &nn), &format!("normalizing {n:?} again gives {nn:?}"));
    let mut m = r.clone();
    m.normalize();
    check(raw_same(&m, &n), "normalize and normalized differ");
    let p = T::fresh();
    let (b, c) = (raw_has(&r, &p), n.contains(&p));
    check(b == c, &format!("normalizing {r:?} to {n:?} changes membership of {p:?}"));
    obs_b(b);
    if b { cover("member") } else { cover("non-member") }
}
pub fn c14_denormalize<T: Fin>(_: &[usize]) {
    let r = gen_raw::<T>(true);
    let d = r.clone().denormalized();
    let mut m = r.clone();
    m.denormalize();
    check(raw_same(&m, &d), "denormalize and denormalized differ");
    let p = T::fresh();
    let b = raw_has(&r, &p);
    check(d.contains(&p) == b, &format!("denormalizing {r:?} to {d:?} changes membership of {p:?}"));
    check(raw_has(&d, &p) == b, &format!("denormalizing {r:?} to {d:?} changes membership of {p:?}"));
    obs_b(b);
    if b { cover("member") } else { cover("non-member") }
}
pub fn c14_round_trip<T: Fin>(_: &[usize]) {
    let r = gen_raw::<T>(true);
    let n = r.clone().normalized();
    let back = n.clone().denormalized().normalized();
    check(raw_same(&back, &n), &format!("{n:?} denormalized and normalized gives {back:?}"));
    let via = r.clone().denormalized().normalized();
    check(raw_same(&via, &n), &format!("{r:?} denormalized and normalized gives {via:?}, normalized gives {n:?}"));
    cover("round trip");
}
// ---- C30 -----------------------------------------------------------------------
pub fn c30_history<T: Fin>(a: &[usize]) {
    let (mut s, mut m): (Selection<T>, Runs<T>) = if flip() { (Selection::full(), vec![(T::MINIMUM, T::MAXIMUM)]) } else { (Selection::new(), vec![]) };
    let mut log = vec![];
    let (mut old, mut old_m) = (s.clone(), m.clone());
    for _ in 0..a[0] {
        let op = pick(a[1]);
        log.push(op);
        // What was asked before must not show after an edit.
        if a.len() > 2 { let _ = (s.enclose(), s.is_full(), s.infimum(), s.contains(&T::MAXIMUM), hash_of(&s)); old = s.clone(); old_m = m.clone(); }
        if op == 3 { s = s.complement(); m = runs_compl(&m); continue; }
        let r = gen_run::<T>();
        let y = vec![r.clone()];
        let i = ivl(&r);
        match op {
            0 => { s.union_in_place(i); m = runs_union(&m, &y) }
            1 => { s.minus_in_place(i); m = runs_minus(&m, &y) }
            2 => { s.intersect_in_place(i); m = runs_inter(&m, &y) }
            4 => { s = s.union(&i.into()); m = runs_union(&m, &y) }
            5 => { s = s.minus(&i.into()); m = runs_minus(&m, &y) }
            6 => { s = s.intersect(&i.into()); m = runs_inter(&m, &y) }
            7 => { s = Selection::from(i).minus(&s); m = runs_minus(&y, &m) }
            _ => { s.extend([i]); m = runs_union(&m, &y) }
        }
    }
    canonical(&s, &m, &format!("history {log:?}"));
    same_value(&s, &m, &format!("history {log:?}"));
    if a.len() > 2 { check(sel_is(&old, &old_m), &format!("history {log:?} changes an earlier copy to {old:?}")); asked(&s, &m); old.clone_from(&s); check(sel_is(&old, &m), "overwriting an earlier copy") }
}
// ---- C31 -----------------------------------------------------------------------
/// args: op, runs, kind of runs
pub fn c31_large<T: Fin>(a: &[usize]) {
    let x = gen_runs_kind::<T>(a[1], a[2]);
    let mut s = sel_of(&x);
    let (want, n) = match a[0] {
        3 => { s = s.complement(); (runs_compl(&x), "complement") }
        4 => { // Two large operands.
            let k = a[1];
            let y: Runs<T> = (0..k - 1).map(|i| (x[i].1.clone(), x[i + 1].0.clone())).collect();
            let t = sel_of(&y);
            match pick(3) {
                0 => { s = s.union(&t); (runs_union(&x, &y), "union") }
                1 => { s = s.intersect(&t); (runs_inter(&x, &y), "intersect") }
                _ => { s = s.minus(&t); (runs_minus(&x, &y), "minus") }
            }
        }
        5 => { // Iteration from both ends.
            let v: Vec<_> = s.interval_iter().rev().collect();
            check(v.len() == x.len() && v.iter().rev().zip(&x).all(|(i, r)| is_run(i, r)), "reverse iteration of a large selection");
            let p = T::fresh();
            check(s.contains(&p) == has(&x, &p), "contains on a large selection");
            (x.clone(), "build")
        }
        op => {
            let i = gen_run::<T>();
            let y = vec![i.clone()];
            match op {
                0 => { s.union_in_place(ivl(&i)); (runs_union(&x, &y), "union_in_place") }
                1 => { s.minus_in_place(ivl(&i)); (runs_minus(&x, &y), "minus_in_place") }
                _ => { s.intersect_in_place(ivl(&i)); (runs_inter(&x, &y), "intersect_in_place") }
            }
        }
    };
    canonical(&s, &want, n);
    same_value(&s, &want, n);
}
/// args: op, runs, kind of runs, window, kind of gaps. One interval whose ends
/// each fall near the start, the middle or the end of a selection with many runs.
pub fn c31_wide<T: Fin>(a: &[usize]) {
    let x = gen_runs_gaps::<T>(a[1], a[2], a[4]);
    ordered(&x, a[2], a[4]);
    let s = sel_of(&x);
    let (k, w) = (a[1], a[3]);
    let spot = || if w < k { [0, k / 2, k - w][pick(3)] } else { 0 };
    let inside = |p: &T, c: usize| {
        if c > 0 { T::assume_le_off(&x[c - 1].1, 1, p) }
        if c + w < k { T::assume_le_off(p, 1, &x[c + w].0) }
    };
    let (c, d) = (spot(), spot());
    assume(c <= d);
    let i = gen_run::<T>();
    inside(&i.0, c);
    inside(&i.1, d);
    large_op(a[0], s, &x, &i);
}
/// args: op, runs, kind of runs, kind of gaps, kind of second operand. Two
/// operands with many runs, every second run or gap of one bridged by the other.
pub fn c31_two<T: Fin>(a: &[usize]) {
    let x = gen_runs_gaps::<T>(a[1], a[2], a[3]);
    ordered(&x, a[2], a[3]);
    let k = x.len();
    let one = |p: &T| vec![(p.clone(), p.clone())];
    // One run of the second operand is arbitrary, the others are tied to the first's.
    let i = gen_run::<T>();
    let tied: Runs<T> = match a[4] {
        0 => (0..k - 1).step_by(2).map(|i| (x[i].1.clone(), x[i + 1].0.clone())).collect(),
        1 => x.iter().step_by(2).cloned().collect(),
        2 => x.iter().flat_map(|r| one(&r.0)).collect(),
        3 => x.iter().flat_map(|r| one(&r.1)).collect(),
        _ => (0..k - 1).filter_map(|i| Some((x[i].1.succ()?, x[i + 1].0.pred()?))).collect(),
    };
    let c = [1, k / 2, k - 1][pick(3)];
    T::assume_le_off(&x[c - 1].0, 0, &i.0);
    T::assume_le_off(&i.1, 0, &x[c].1);
    let y = runs_add(&tied, &i);
    let (s, t) = (sel_of(&x), sel_of(&y));
    let (r, want, n) = match a[0] {
        0 => (s.union(&t), runs_union(&x, &y), "union"),
        1 => (t.union(&s), runs_union(&x, &y), "union"),
        2 => (s.intersect(&t), runs_inter(&x, &y), "intersect"),
        3 => (t.intersect(&s), runs_inter(&x, &y), "intersect"),
        4 => (s.minus(&t), runs_minus(&x, &y), "minus"),
        _ => (t.minus(&s), runs_minus(&y, &x), "minus"),
    };
    canonical(&r, &want, n);
    same_value(&r, &want, n);
}
/// Settles the order of all ends of the runs once, before anything else.
fn ordered<T: Fin>(x: &[Run<T>], kind: usize, gaps: usize) {
    let mut ends: Vec<(&T, i64)> = vec![]; // with the least distance to the end before
    for (i, (l, u)) in x.iter().enumerate() {
        ends.push((l, gap_of(gaps, i)));
        if !run_is_point(kind, i) { ends.push((u, 1)) }
    }
    for i in 0..ends.len() {
        let mut d = 0;
        for (p, gap) in &ends[i + 1..] {
            d += gap;
            check(T::le_off(ends[i].0, d, p), "order of runs");
        }
    }
}
pub fn large_op<T: Fin>(op: usize, mut s: Selection<T>, x: &Runs<T>, i: &Run<T>) {
    let y = vec![i.clone()];
    let (want, n) = match op {
        0 => { s.union_in_place(ivl(i)); (runs_union(x, &y), "union_in_place") }
        1 => { s.minus_in_place(ivl(i)); (runs_minus(x, &y), "minus_in_place") }
        2 => { s.intersect_in_place(ivl(i)); (runs_inter(x, &y), "intersect_in_place") }
        3 => { s = s.union(&ivl(i).into()); (runs_union(x, &y), "union") }
        4 => { s = s.minus(&ivl(i).into()); (runs_minus(x, &y), "minus") }
        5 => { s = Selection::from(ivl(i)).minus(&s); (runs_minus(&y, x), "minus from") }
        6 => { s = s.intersect(&ivl(i).into()); (runs_inter(x, &y), "intersect") }
        8 => { s.extend(std::iter::once(ivl(i))); (runs_union(x, &y), "extend by one") }
        9 => { s = ivl(i).into(); s.extend(x.iter().rev().map(ivl)); (runs_union(x, &y), "extend by many") }
        _ => {
            let want = !runs_inter(x, &y).is_empty();
            obs_b(want);
            check(s.intersects(&ivl(i).into()) == want, "intersects on a large selection");
            check(s.contains(&i.0) == has(x, &i.0), "contains on a large selection");
            cover("queried");
            return;
        }
    };
    canonical(&s, &want, n);
    same_value(&s, &want, n);
}
