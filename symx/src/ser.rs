//! Serialization harness (built with the `serde` feature).
use crate::model::*;
use crate::sym::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use serde::de::DeserializeOwned;
use serde::Serialize;

/// A finite point type that serde can carry.
pub trait SerFin: Fin + Serialize + DeserializeOwned {}
impl<T: Fin + Serialize + DeserializeOwned> SerFin for T {}

/// What x becomes on its way through several formats, text and binary.
fn trips<X: Serialize + DeserializeOwned + std::fmt::Debug>(x: &X) -> Vec<X> {
    use std::fmt::Display;
    fn ok<T, E: Display>(r: Result<T, E>, x: &impl std::fmt::Debug, what: &str) -> T { r.unwrap_or_else(|e| fail(format!("{what} of {x:?} fails: {e}"))) }
    let (t, b) = text(x);
    let pretty = ok(serde_json::to_string_pretty(x), x, "pretty text");
    let value = ok(serde_json::to_value(x), x, "json value");
    let mut out = vec![
        ok(serde_json::from_str(&t), x, "reading the text"),
        ok(serde_json::from_reader(t.as_bytes()), x, "reading the text from a stream"),
        ok(serde_json::from_str(&pretty), x, "reading the pretty text"),
        ok(serde_json::from_value(value), x, "reading the json value"),
        ok(bincode::deserialize(&b), x, "reading the bytes"),
        ok(bincode::deserialize_from(&b[..]), x, "reading the bytes from a stream"),
    ];
    // Inside something larger, what follows is still found.
    let row = (x, 7u8, Some(x));
    let bytes = ok(bincode::serialize(&row), x, "bytes of a tuple");
    let (p, n, q): (X, u8, Option<X>) = ok(bincode::deserialize(&bytes), x, "reading a tuple's bytes");
    check(n == 7, "what follows a value is read differently");
    out.push(p);
    out.push(q.unwrap_or_else(|| fail(format!("{x:?} within an option is lost"))));
    let (p, n, q): (X, u8, Option<X>) = ok(serde_json::from_str(&ok(serde_json::to_string(&row), x, "text of a tuple")), x, "reading a tuple's text");
    check(n == 7, "what follows a value is read differently");
    out.push(p);
    out.push(q.unwrap_or_else(|| fail(format!("{x:?} within an option is lost"))));
    out
}
fn text<X: Serialize + std::fmt::Debug>(x: &X) -> (String, Vec<u8>) {
    (serde_json::to_string(x).unwrap_or_else(|e| fail(format!("{x:?} does not serialize: {e}"))),
        bincode::serialize(x).unwrap_or_else(|e| fail(format!("{x:?} does not serialize as binary: {e}"))))
}
/// Serialized, an interval is its raw interval and a selection its tree.
/// args: kind, size
pub fn c29_transparent<T: SerFin>(a: &[usize]) {
    cover("transparent");
    match a[0] {
        0 => {
            let w = gen_run_opt::<T>();
            let i: Interval<T> = ivl_opt(&w);
            let raw = match &w { None => RawInterval::Empty, Some((l, u)) if eq(l, u) => RawInterval::Point(l.clone()), Some((l, u)) => RawInterval::Closed(l.clone(), u.clone()) };
            check(text(&i) == text(&raw), &format!("{i:?} serializes as {}, {raw:?} as {}", text(&i).0, text(&raw).0));
        }
        _ => {
            let w = gen_runs::<T>(a[1]);
            let s: Selection<T> = sel_of(&w);
            let (t, b) = text(&s);
            let tree: TineTree<T> = serde_json::from_str(&t).unwrap_or_else(|e| fail(format!("{t} is not the text of a tree: {e}")));
            let tree2: TineTree<T> = bincode::deserialize(&b).unwrap_or_else(|e| fail(format!("{b:?} are not the bytes of a tree: {e}")));
            check(tree == tree2, "text and bytes hold different trees");
            check(text(&tree) == (t, b), "the tree of a selection serializes differently");
            let p = T::fresh();
            check(tree.contains(&p) == has(&w, &p), &format!("the serialized tree of {s:?} holds other points"));
        }
    }
}
/// args: kind, size
pub fn c29_round_trip<T: SerFin>(a: &[usize]) {
    cover("round trip");
    match a[0] {
        0 => {
            let b = gen_bound::<T>();
            for x in trips(&b) { check(bound_same(&x, &b) && x == b, &format!("bound {b:?} comes back as {x:?}")) }
        }
        1 => {
            let b = gen_bound::<T>();
            let (t, k): (Tine<T>, usize) = match pick(3) { 0 => (Tine::Lower(b.clone()), 0), 1 => (Tine::Upper(b.clone()), 1), _ => (Tine::Point(b.clone()), 2) };
            let same = |t: &Tine<T>| match t { Tine::Lower(c) => k == 0 && bound_same(c, &b), Tine::Upper(c) => k == 1 && bound_same(c, &b), Tine::Point(c) => k == 2 && bound_same(c, &b) };
            if matches!(t, Tine::Point(Bound::Infinite)) { return; }
            for x in trips(&t) { check(same(&x) && x == t, &format!("marker {t:?} comes back as {x:?}")) }
        }
        2 => {
            let r = gen_raw::<T>(false);
            for x in trips(&r) { check(raw_same(&x, &r) && x == r, &format!("raw interval {r:?} comes back as {x:?}")) }
        }
        3 => {
            let w = gen_run_opt::<T>();
            let i: Interval<T> = ivl_opt(&w);
            for x in trips(&i) { check(is_run_opt(&x, &w) && x == i, &format!("interval {i:?} comes back as {x:?}")) }
        }
        4 => {
            let w = gen_rngs::<T>(a[1]);
            tree_trips(&w)
        }
        _ => {
            let w = gen_runs::<T>(a[1]);
            sel_trips(&w)
        }
    }
}
fn tree_trips<T: SerFin>(w: &[Rng<T>]) {
    let t = tree_of(w);
    for x in trips(&t) { check(tree_is(&x, w) && x == t, &format!("tree {t:?} comes back as {x:?}")) }
}
fn sel_trips<T: SerFin>(w: &Runs<T>) {
    let s: Selection<T> = sel_of(w);
    for x in trips(&s) {
        check(sel_is(&x, w) && x == s, &format!("selection {s:?} comes back as {x:?}"));
        check(hash_of(&x) == hash_of(&s), "deserialized selection hashes differently");
    }
}
/// args: kind, size. Many runs or ranges at fixed offsets, among them an arbitrary interval.
pub fn c29_many<T: SerFin>(a: &[usize]) {
    cover("round trip");
    let n = a[1];
    if a[0] == 0 {
        let x = crate::huge::family::<T>(n, 0);
        sel_trips(&runs_union(&x, &vec![crate::huge::windowed(&x, 1, 2)]));
    } else {
        let x = crate::huge::tree_layout(&crate::huge::base::<T>(8 * n as i64), n);
        tree_trips(&rng_union(&x, &crate::dense::rngs(&crate::huge::windowed_rng(&x, 2))));
    }
}
