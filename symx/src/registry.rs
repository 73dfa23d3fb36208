//! Every harness, the property it decides, and the bounds explored.
use crate::sym::{Dyn, Sym};
use crate::{dense, fin, huge, text};

pub type Run = fn(&[usize]);
pub type Args = &'static [&'static [usize]];
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    /// Points form a finite type with an arbitrary number of values.
    pub finite: bool,
    pub quick: Args,
    pub thorough: Args,
    pub sym: Run,
    pub natives: Vec<(&'static str, Run)>,
}
macro_rules! finite { ($v:ident, $p:literal, $m:ident :: $f:ident, $q:expr, $t:expr) => {
    $v.push(Harness { prop: $p, name: stringify!($f), finite: true, quick: $q, thorough: $t, sym: $m::$f::<Sym>,
        natives: vec![("dyn", $m::$f::<Dyn> as Run), ("u8", $m::$f::<u8>), ("i8", $m::$f::<i8>)] });
} }
macro_rules! dense { ($v:ident, $p:literal, $m:ident :: $f:ident, $q:expr, $t:expr) => {
    $v.push(Harness { prop: $p, name: stringify!($f), finite: false, quick: $q, thorough: $t, sym: $m::$f::<Sym>,
        natives: vec![("i64", $m::$f::<i64> as Run)] });
} }
pub fn harnesses() -> Vec<Harness> {
    let mut v = vec![];
    finite!(v, "C01", fin::c01_binary, &[&[0,1,3],&[1,1,3],&[2,1,3],&[0,3,1],&[1,3,1],&[2,3,1],&[0,0,0],&[0,1,1],&[1,1,1],&[2,1,1],&[0,2,1],&[1,2,1],&[2,2,1],&[0,1,2],&[1,1,2],&[2,1,2],&[0,0,2],&[0,2,0],&[0,2,2],&[1,2,2],&[2,2,2]], &[&[0,3,2],&[1,3,2],&[2,3,2]]);
    finite!(v, "C01", fin::c01_complement, &[&[0],&[1],&[2],&[3],&[4]], &[&[5],&[6]]);
    finite!(v, "C02", fin::c02_in_place, &[&[0,0],&[1,0],&[2,0],&[0,1],&[1,1],&[2,1],&[0,2],&[1,2],&[2,2],&[0,3],&[1,3],&[2,3]], &[&[0,4],&[1,4],&[2,4]]);
    finite!(v, "C03", fin::c03_binary, &[&[0,1,3],&[1,1,3],&[2,1,3],&[0,3,1],&[1,3,1],&[2,3,1],&[0,0,0],&[0,1,1],&[1,1,1],&[2,1,1],&[0,2,1],&[1,2,1],&[2,2,1],&[0,1,2],&[1,1,2],&[2,1,2],&[0,2,2],&[1,2,2],&[2,2,2]], &[&[0,3,2],&[1,3,2],&[2,3,2],&[0,2,3],&[1,2,3],&[2,2,3]]);
    finite!(v, "C03", fin::c03_complement, &[&[0],&[1],&[2],&[3],&[4]], &[&[5],&[6]]);
    finite!(v, "C03", fin::c03_in_place, &[&[0,0],&[1,0],&[2,0],&[0,1],&[1,1],&[2,1],&[0,2],&[1,2],&[2,2],&[0,3],&[1,3],&[2,3]], &[&[0,4],&[1,4],&[2,4]]);
    finite!(v, "C03", fin::c03_equality, &[&[0,0],&[0,1],&[1,1],&[2,1],&[1,2],&[2,2],&[3,2],&[2,3],&[3,3]], &[&[4,3],&[4,4]]);
    finite!(v, "C03", fin::c03_hash, &[&[0,1],&[1,1],&[2,1],&[3,1],&[0,2],&[1,2],&[2,2],&[3,2]], &[&[0,3],&[1,3],&[2,3],&[3,3]]);
    finite!(v, "C04", fin::c04_collect, &[&[0],&[1],&[2],&[3]], &[&[4]]);
    finite!(v, "C04", fin::c04_member, &[&[1],&[2],&[3]], &[&[4]]);
    finite!(v, "C04", fin::c04_points, &[&[0],&[1],&[2],&[3],&[4]], &[&[5],&[6]]);
    finite!(v, "C04", fin::c04_extend, &[&[0,1],&[1,1],&[2,1],&[1,2],&[3,1]], &[&[2,2],&[1,3],&[4,1]]);
    finite!(v, "C04", fin::c04_from, &[&[]], &[]);
    finite!(v, "C05", fin::c05_queries, &[&[0],&[1],&[2],&[3],&[4]], &[&[5],&[6]]);
    finite!(v, "C05", fin::c05_intersects, &[&[0,0],&[0,1],&[1,0],&[1,1],&[2,1],&[1,2],&[2,2],&[3,1],&[1,3]], &[&[3,2],&[2,3]]);
    finite!(v, "C06", fin::c06_enclose, &[&[0],&[1],&[2],&[3],&[4],&[5]], &[&[6],&[7]]);
    finite!(v, "C07", fin::c07_intervals, &[&[0],&[1],&[2],&[3],&[4]], &[&[5],&[6]]);
    finite!(v, "C07", fin::c07_finish, &[&[2,0],&[2,1],&[2,2],&[2,3]], &[&[3,4]]);
    finite!(v, "C08", fin::c08_finish, &[&[2],&[2,1],&[2,2],&[2,3],&[2,1,1],&[2,2,1],&[2,1,3],&[1,2,2,2]], &[&[3,3,2],&[2,2,3,2]]);
    finite!(v, "C08", fin::c08_points, &[&[0],&[1],&[1,1],&[1,2],&[1,1,1],&[1,2,1],&[1,1,2],&[1,3],&[1,2,2],&[0,3,3],&[1,1,1,1],&[1,3,2],&[1,3,3],&[1,2,2,2],&[0,4,4,4]], &[&[1,4,3,2],&[1,2,2,2,2],&[0,9,9,9]]);
    finite!(v, "C08", fin::c08_prefix, &[&[3,1],&[3,2],&[4,1],&[4,2],&[3,3],&[5,2],&[5,3]], &[&[8,1],&[7,2],&[6,3],&[4,4]]);
    finite!(v, "C09", fin::c09_construct, &[&[]], &[]);
    finite!(v, "C09", fin::c09_equal, &[&[]], &[]);
    finite!(v, "C10", fin::c10_ops, &[&[0],&[1],&[2],&[3]], &[]);
    finite!(v, "C10", fin::c10_member, &[&[0],&[1],&[2],&[3]], &[]);
    finite!(v, "C11", fin::c11_enclose, &[&[]], &[]);
    finite!(v, "C12", fin::c12_queries, &[&[]], &[]);
    finite!(v, "C12", fin::c12_relations, &[&[]], &[]);
    finite!(v, "C13", fin::c13_finish, &[&[2],&[2,1],&[2,2],&[2,3],&[2,4],&[2,5]], &[&[3,6],&[3,8]]);
    finite!(v, "C13", fin::c13_points, &[&[0],&[1],&[1,1],&[1,2],&[1,3],&[1,4],&[1,5],&[1,6],&[0,12]], &[&[1,8],&[1,10],&[0,40]]);
    finite!(v, "C13", fin::c13_prefix, &[&[2],&[3],&[4],&[5],&[6],&[7],&[8]], &[&[9],&[10],&[12]]);
    finite!(v, "C14", fin::c14_normalize, &[&[]], &[]);
    finite!(v, "C14", fin::c14_denormalize, &[&[]], &[]);
    finite!(v, "C14", fin::c14_round_trip, &[&[]], &[]);
    dense!(v, "C16", dense::c16_new, &[&[]], &[]);
    dense!(v, "C16", dense::c16_accessors, &[&[]], &[]);
    dense!(v, "C17", dense::c17_ops, &[&[0],&[1],&[2],&[3]], &[]);
    dense!(v, "C17", dense::c17_member, &[&[0],&[1],&[2],&[3]], &[]);
    dense!(v, "C17", dense::c17_relations, &[&[]], &[]);
    dense!(v, "C18", dense::c18_enclose, &[&[]], &[]);
    dense!(v, "C18", dense::c18_closure, &[&[]], &[]);
    dense!(v, "C19", dense::c19_bulk, &[&[0,0,0],&[1,0,0],&[2,0,0],&[0,1,0],&[1,1,0],&[2,1,0],&[0,2,0],&[1,2,0],&[2,2,0],&[0,3,1],&[1,3,1],&[2,3,1]], &[]);
    dense!(v, "C20", dense::c20_text, &[&[]], &[]);
    dense!(v, "C20", dense::c20_words, &[&[]], &[]);
    dense!(v, "C20", dense::c20_reversed, &[&[]], &[]);
    dense!(v, "C21", text::c21_pieces, &[&[0,27],&[1,27],&[2,27],&[3,27],&[4,12],&[5,12]], &[&[4,27],&[6,12]]);
    dense!(v, "C21", text::c21_edits, &[&[0,27],&[1,27],&[2,12],&[0,12,6],&[1,12,6]], &[&[2,27]]);
    dense!(v, "C22", dense::c22_combine, &[&[]], &[]);
    dense!(v, "C23", dense::c23_accessors, &[&[]], &[]);
    dense!(v, "C24", dense::c24_order, &[&[]], &[]);
    dense!(v, "C24", dense::c24_transitive, &[&[]], &[]);
    dense!(v, "C24", dense::c24_combine, &[&[]], &[]);
    dense!(v, "C24", dense::c24_queries, &[&[]], &[]);
    dense!(v, "C25", dense::c25_in_place, &[&[0,0,0],&[1,0,0],&[2,0,0],&[0,1,0],&[1,1,0],&[2,1,0],&[0,2,0],&[1,2,0],&[2,2,0],&[0,1,1],&[1,1,1],&[2,1,1],&[0,3,0],&[1,3,0],&[2,3,0]], &[]);
    dense!(v, "C25", dense::c25_history, &[&[1,0,1],&[2,0,1]], &[&[3,1]]);
    dense!(v, "C26", dense::c26_binary, &[&[0,1,3],&[1,1,3],&[2,1,3],&[0,3,1],&[1,3,1],&[2,3,1],&[0,1,1],&[1,1,1],&[2,1,1],&[0,2,1],&[1,2,1],&[2,2,1],&[0,1,2],&[1,1,2],&[2,1,2],&[0,2,2],&[1,2,2],&[2,2,2]], &[]);
    dense!(v, "C26", dense::c26_member, &[&[0,1,1],&[1,1,1],&[2,1,1],&[3,2,0]], &[&[0,2,1],&[1,2,1],&[2,2,1],&[0,1,2],&[1,1,2],&[2,1,2],&[3,3,0]]);
    dense!(v, "C26", dense::c26_complement, &[&[0],&[1],&[2],&[3]], &[&[4],&[5]]);
    dense!(v, "C27", dense::c27_queries, &[&[0],&[1],&[2],&[3],&[4]], &[&[5]]);
    dense!(v, "C27", dense::c27_build, &[&[0,0],&[1,0],&[2,0],&[0,1],&[1,1],&[2,1]], &[]);
    dense!(v, "C28", dense::c28_iter, &[&[0],&[1],&[2],&[3]], &[&[4],&[5]]);
    dense!(v, "C28", dense::c28_finish, &[&[2,0],&[2,1],&[2,2],&[2,3]], &[&[3,4]]);
    #[cfg(feature = "serde")]
    finite!(v, "C29", crate_ser::c29_round_trip, &[&[0,0],&[1,0],&[2,0],&[3,0],&[4,0],&[4,1],&[4,2],&[5,0],&[5,1],&[5,2],&[5,3],&[4,3],&[5,4]], &[&[4,4],&[5,5]]);
    #[cfg(feature = "serde")]
    finite!(v, "C29", crate_ser::c29_many, &[&[0,40],&[1,40],&[0,150],&[1,150]], &[&[0,600],&[1,600]]);
    #[cfg(feature = "serde")]
    finite!(v, "C29", crate_ser::c29_transparent, &[&[0,0],&[1,0],&[1,1],&[1,2],&[1,3]], &[&[1,4]]);
    finite!(v, "C30", fin::c30_history, &[&[1,9,1],&[2,9,1]], &[&[3,4]]);
    finite!(v, "C31", fin::c31_large, &[&[0,5,1],&[1,5,1],&[2,5,1],&[3,6,1],&[5,6,1]], &[&[0,6,1],&[1,6,1],&[2,6,1],&[0,8,2],&[1,8,2],&[2,8,2],&[3,8,2],&[5,8,1],&[4,7,1]]);
    finite!(v, "C31", fin::c31_wide, &[&[0,20,2,2,2],&[1,20,2,2,2],&[2,20,2,2,2],&[3,20,2,2,2],&[4,20,2,2,2],&[5,20,2,2,2],&[6,20,2,2,2],&[7,20,2,2,2]], &[&[0,20,0,2,0],&[0,20,1,2,1],&[1,20,0,2,0],&[1,20,1,2,1],&[2,20,0,2,0],&[2,20,1,2,1],&[0,40,2,1,2],&[1,40,2,1,2],&[2,40,2,1,2],&[0,20,1,20,1],&[0,20,2,20,2],&[1,20,1,20,1],&[1,20,2,20,2],&[2,20,1,20,1],&[2,20,2,20,2],&[3,20,1,20,1],&[3,20,2,20,2],&[4,20,1,20,1],&[4,20,2,20,2],&[5,20,1,20,1],&[5,20,2,20,2],&[6,20,1,20,1],&[6,20,2,20,2],&[7,20,1,20,1],&[7,20,2,20,2],&[0,60,2,1,2],&[1,60,2,1,2],&[2,60,2,1,2],&[3,60,2,1,2],&[4,60,2,1,2],&[5,60,2,1,2],&[6,60,2,1,2],&[7,60,2,1,2]]);
    finite!(v, "C31", fin::c31_two, &[&[0,14,2,2,0],&[0,14,2,2,1],&[0,14,2,2,2],&[0,14,2,2,3],&[0,14,2,2,4],&[1,14,2,2,0],&[1,14,2,2,1],&[1,14,2,2,2],&[1,14,2,2,3],&[1,14,2,2,4],&[2,14,2,2,0],&[2,14,2,2,1],&[2,14,2,2,2],&[2,14,2,2,3],&[2,14,2,2,4],&[3,14,2,2,0],&[3,14,2,2,1],&[3,14,2,2,2],&[3,14,2,2,3],&[3,14,2,2,4],&[4,14,2,2,1],&[4,14,2,2,4],&[5,14,2,2,0],&[5,14,2,2,1],&[5,14,2,2,2],&[5,14,2,2,3],&[5,14,2,2,4]], &[&[4,14,2,2,0],&[4,14,2,2,2],&[4,14,2,2,3],&[0,24,0,0,0],&[0,24,1,1,0],&[0,24,0,0,1],&[0,24,1,1,1],&[0,24,0,0,2],&[0,24,1,1,2],&[0,24,0,0,3],&[0,24,1,1,3],&[0,24,0,0,4],&[0,24,1,1,4],&[1,24,0,0,0],&[1,24,1,1,0],&[1,24,0,0,1],&[1,24,1,1,1],&[1,24,0,0,2],&[1,24,1,1,2],&[1,24,0,0,3],&[1,24,1,1,3],&[1,24,0,0,4],&[1,24,1,1,4],&[2,24,0,0,0],&[2,24,1,1,0],&[2,24,0,0,1],&[2,24,1,1,1],&[2,24,0,0,2],&[2,24,1,1,2],&[2,24,0,0,3],&[2,24,1,1,3],&[2,24,0,0,4],&[2,24,1,1,4],&[3,24,0,0,0],&[3,24,1,1,0],&[3,24,0,0,1],&[3,24,1,1,1],&[3,24,0,0,2],&[3,24,1,1,2],&[3,24,0,0,3],&[3,24,1,1,3],&[3,24,0,0,4],&[3,24,1,1,4],&[4,24,0,0,0],&[4,24,1,1,0],&[4,24,0,0,1],&[4,24,1,1,1],&[4,24,0,0,2],&[4,24,1,1,2],&[4,24,0,0,3],&[4,24,1,1,3],&[4,24,0,0,4],&[4,24,1,1,4],&[5,24,0,0,0],&[5,24,1,1,0],&[5,24,0,0,1],&[5,24,1,1,1],&[5,24,0,0,2],&[5,24,1,1,2],&[5,24,0,0,3],&[5,24,1,1,3],&[5,24,0,0,4],&[5,24,1,1,4]]);
    finite!(v, "C31", huge::c31_huge, &[&[8,600,0],&[9,300,0],&[8,40,2],&[9,40,3],&[0,600,0],&[0,150,1],&[1,600,0],&[1,150,1],&[2,600,0],&[2,150,1],&[3,600,0],&[3,150,1],&[4,600,0],&[4,150,1],&[5,600,0],&[5,150,1],&[6,600,0],&[6,150,1],&[7,600,0],&[7,150,1],&[0,40,2],&[0,40,3],&[0,40,4],&[1,40,2],&[1,40,3],&[1,40,4],&[2,40,2],&[2,40,3],&[2,40,4],&[3,40,2],&[3,40,3],&[3,40,4],&[4,40,2],&[4,40,3],&[4,40,4],&[5,40,2],&[5,40,3],&[5,40,4],&[6,40,2],&[6,40,3],&[6,40,4],&[7,40,2],&[7,40,3],&[7,40,4]], &[&[0,1500,0],&[0,600,1],&[0,600,2],&[0,600,3],&[0,600,4],&[1,1500,0],&[1,600,1],&[1,600,2],&[1,600,3],&[1,600,4],&[2,1500,0],&[2,600,1],&[2,600,2],&[2,600,3],&[2,600,4],&[3,1500,0],&[3,600,1],&[3,600,2],&[3,600,3],&[3,600,4],&[4,1500,0],&[4,600,1],&[4,600,2],&[4,600,3],&[4,600,4],&[5,1500,0],&[5,600,1],&[5,600,2],&[5,600,3],&[5,600,4],&[6,1500,0],&[6,600,1],&[6,600,2],&[6,600,3],&[6,600,4],&[7,1500,0],&[7,600,1],&[7,600,2],&[7,600,3],&[7,600,4]]);
    finite!(v, "C31", huge::c31_huge_two, &[&[0,60,0,10],&[1,60,0,10],&[2,60,0,10],&[3,60,0,10],&[4,60,0,10],&[0,500,0,10,1],&[1,500,0,10,1],&[2,500,0,10,1],&[3,500,0,10,1],&[4,500,0,10,1],&[0,16,1,10],&[0,16,2,10],&[0,16,3,10],&[0,16,4,10],&[1,16,1,10],&[1,16,2,10],&[1,16,3,10],&[1,16,4,10],&[2,16,1,10],&[2,16,2,10],&[2,16,3,10],&[2,16,4,10],&[3,16,1,10],&[3,16,2,10],&[3,16,3,10],&[3,16,4,10],&[4,16,1,10],&[4,16,2,10],&[4,16,3,10],&[4,16,4,10]], &[&[0,60,1,10],&[0,60,2,10],&[0,60,3,10],&[0,60,4,10],&[1,60,1,10],&[1,60,2,10],&[1,60,3,10],&[1,60,4,10],&[2,60,1,10],&[2,60,2,10],&[2,60,3,10],&[2,60,4,10],&[3,60,1,10],&[3,60,2,10],&[3,60,3,10],&[3,60,4,10],&[4,60,1,10],&[4,60,2,10],&[4,60,3,10],&[4,60,4,10],&[0,300,0,10],&[0,300,1,10],&[0,300,2,10],&[0,300,3,10],&[0,300,4,10],&[1,300,0,10],&[1,300,1,10],&[1,300,2,10],&[1,300,3,10],&[1,300,4,10],&[2,300,0,10],&[2,300,1,10],&[2,300,2,10],&[2,300,3,10],&[2,300,4,10],&[3,300,0,10],&[3,300,1,10],&[3,300,2,10],&[3,300,3,10],&[3,300,4,10],&[4,300,0,10],&[4,300,1,10],&[4,300,2,10],&[4,300,3,10],&[4,300,4,10],&[0,600,0,10,1],&[1,600,0,10,1],&[2,600,0,10,1],&[3,600,0,10,1],&[4,600,0,10,1]]);
    finite!(v, "C31", huge::c31_huge_query, &[&[600,0],&[60,0],&[60,1],&[60,2],&[60,3],&[60,4]], &[&[300,0],&[300,1],&[300,2],&[300,3],&[300,4]]);
    finite!(v, "C31", huge::c31_huge_iter, &[&[60,0],&[40,1],&[40,2],&[300,0]], &[&[1000,0],&[1000,1],&[1000,2],&[1000,3],&[1000,4]]);
    finite!(v, "C31", huge::c31_huge_points, &[&[60,0],&[40,1],&[40,2],&[40,3]], &[&[300,0],&[300,1],&[300,2],&[300,3],&[300,4]]);
    finite!(v, "C07", huge::c31_huge_iter, &[&[12,0],&[12,1],&[12,2],&[12,3],&[12,4],&[30,0]], &[&[100,0],&[100,1],&[100,2],&[100,3],&[100,4]]);
    finite!(v, "C08", huge::c31_huge_points, &[&[4,5],&[9,0],&[9,1],&[9,2],&[9,3],&[9,4],&[30,0]], &[&[100,0],&[100,1],&[100,2],&[100,3],&[100,4]]);
    finite!(v, "C13", huge::c13_long, &[&[15],&[16],&[17],&[40],&[300],&[1100]], &[&[4000]]);
    finite!(v, "C31", huge::c31_huge_build, &[&[0,300,0],&[1,300,1],&[2,300,2],&[3,300,0],&[4,150,0],&[0,40],&[1,18],&[2,18],&[3,18],&[4,18]], &[&[0,150],&[1,150],&[2,150],&[3,150],&[4,150]]);
    finite!(v, "C31", huge::c31_huge_collect, &[&[24]], &[&[150]]);
    finite!(v, "C04", huge::c31_huge_build, &[&[0,9],&[1,9],&[2,9]], &[&[0,40],&[1,40],&[2,40],&[3,40],&[4,40]]);
    finite!(v, "C04", huge::c31_huge_collect, &[&[9]], &[&[40]]);
    // The large families again under the properties they belong to.
    finite!(v, "C01", huge::c31_huge_two, &[&[0,40,0,10,1],&[1,40,0,10,1],&[2,40,0,10,1],&[3,40,0,10,1],&[0,300,0,10,1],&[1,300,0,10,1],&[2,300,0,10,1],&[3,300,0,10,1]], &[&[0,60,1,10],&[1,60,1,10],&[2,60,1,10],&[3,60,1,10]]);
    finite!(v, "C01", huge::c31_huge, &[&[3,150,0],&[4,150,0],&[5,150,0],&[6,150,0]], &[&[3,150,1],&[4,150,1],&[5,150,1],&[6,150,1]]);
    finite!(v, "C01", huge::c31_huge_query, &[&[20,1],&[60,0],&[300,0]], &[&[60,1],&[60,2],&[60,3]]);
    finite!(v, "C02", huge::c31_huge, &[&[0,40,2],&[1,40,2],&[2,40,2],&[0,300,0],&[1,300,0],&[2,300,0]], &[&[0,150,1],&[1,150,1],&[2,150,1],&[0,600,0],&[1,600,0],&[2,600,0]]);
    finite!(v, "C03", huge::c31_huge, &[&[0,150,0],&[1,150,0],&[2,150,0],&[3,150,0],&[4,150,0],&[5,150,0],&[6,150,0]], &[]);
    finite!(v, "C03", huge::c31_huge_two, &[&[0,150,0,10,1],&[1,150,0,10,1],&[2,150,0,10,1],&[3,150,0,10,1],&[4,150,0,10,1]], &[]);
    finite!(v, "C03", huge::c31_huge_query, &[&[150,0]], &[]);
    finite!(v, "C03", huge::c31_huge_build, &[&[0,150,0],&[1,150,1],&[2,150,2],&[3,150,3],&[4,75,4]], &[]);
    finite!(v, "C01", huge::c01_uneven, &[&[0,12],&[1,12],&[2,12],&[3,12],&[0,100],&[1,100],&[2,100],&[3,100]], &[]);
    finite!(v, "C03", huge::c01_uneven, &[&[0,12],&[1,12],&[2,12],&[3,12],&[0,100],&[1,100],&[2,100],&[3,100]], &[]);
    finite!(v, "C05", huge::c01_uneven, &[&[4,12],&[4,100]], &[&[4,600]]);
    finite!(v, "C31", huge::c01_uneven, &[&[0,300],&[1,300],&[2,300],&[3,300],&[4,300]], &[&[0,1000],&[1,1000],&[2,1000],&[3,1000],&[4,1000]]);
    finite!(v, "C04", huge::c31_huge, &[&[8,60,2],&[8,300,0],&[9,60,2],&[9,300,0]], &[]);
    finite!(v, "C04", huge::c31_huge_build, &[&[0,300,0],&[1,300,1],&[2,300,2],&[3,300,3],&[4,150,4],&[0,24],&[1,18],&[2,18],&[3,18],&[4,18]], &[]);
    finite!(v, "C04", huge::c31_huge_collect, &[&[24]], &[]);
    finite!(v, "C05", huge::c31_huge_query, &[&[20,1],&[20,2],&[60,0],&[600,0]], &[]);
    finite!(v, "C05", huge::c31_huge_two, &[&[4,40,0,10,1],&[4,300,0,10,1]], &[&[4,60,1,10]]);
    finite!(v, "C05", huge::c31_huge, &[&[7,60,2],&[7,300,0]], &[]);
    finite!(v, "C06", huge::c31_huge_query, &[&[20,1],&[20,2],&[20,4],&[60,0],&[300,0]], &[]);
    finite!(v, "C07", huge::c31_huge_iter, &[&[300,0]], &[]);
    finite!(v, "C08", huge::c31_huge_points, &[&[60,0],&[40,1]], &[&[300,0]]);
    dense!(v, "C25", huge::c31_tree_huge, &[&[0,40,1],&[0,40,2],&[1,40,3],&[2,40,3],&[0,60],&[1,60],&[2,60],&[0,600],&[1,600],&[2,600]], &[]);
    dense!(v, "C25", huge::c31_tree_build, &[&[2,40]], &[]);
    dense!(v, "C26", huge::c31_tree_huge_two, &[&[0,60,1],&[1,60,1],&[2,60,1],&[0,300,1],&[1,300,1],&[2,300,1]], &[&[0,60,0],&[1,60,2],&[2,60,3]]);
    dense!(v, "C26", huge::c26_uneven, &[&[0,12],&[1,12],&[2,12],&[3,12],&[0,100],&[1,100],&[2,100],&[3,100]], &[]);
    dense!(v, "C31", huge::c26_uneven, &[&[0,300],&[1,300],&[2,300],&[3,300]], &[]);
    dense!(v, "C26", huge::c31_tree_huge, &[&[3,40,1],&[3,40,2],&[3,40,3],&[3,60],&[3,600]], &[]);
    dense!(v, "C27", huge::c31_tree_huge, &[&[3,40,1],&[3,40,2],&[3,40,3],&[3,60],&[3,600]], &[]);
    dense!(v, "C27", huge::c31_tree_build, &[&[0,40],&[1,40]], &[]);
    dense!(v, "C28", huge::c31_tree_huge, &[&[3,40,1],&[3,40,2],&[3,40,3],&[3,60],&[3,300]], &[]);
    dense!(v, "C32", huge::c31_tree_huge, &[&[0,40,1],&[0,40,2],&[1,40,3],&[2,40,3],&[3,40,3],&[0,60],&[1,60],&[2,60],&[3,60],&[0,300],&[1,300],&[2,300]], &[]);
    dense!(v, "C32", huge::c31_tree_huge_two, &[&[0,60,1],&[1,60,1],&[2,60,1]], &[]);
    dense!(v, "C32", huge::c31_tree_build, &[&[0,40],&[1,40],&[2,40]], &[]);
    finite!(v, "C30", huge::c30_long, &[&[16,0],&[16,1],&[16,2],&[16,3],&[16,4],&[16,5],&[16,6],&[16,7],&[16,8],&[16,9],&[16,10],&[16,11],&[40,12],&[40,13],&[40,14],&[40,15],&[40,16],&[40,17]], &[&[40,20],&[40,21],&[40,22],&[40,23],&[40,24],&[40,25],&[40,26],&[40,27],&[40,28],&[40,29],&[40,30],&[40,31],&[40,32],&[40,33],&[40,34],&[40,35],&[40,36],&[40,37],&[40,38],&[40,39],&[40,40],&[40,41],&[40,42],&[40,43],&[40,44],&[40,45],&[40,46],&[40,47],&[40,48],&[40,49],&[40,50],&[40,51],&[40,52],&[40,53],&[40,54],&[40,55],&[40,56],&[40,57],&[40,58],&[40,59],&[120,60],&[120,61],&[120,62],&[120,63],&[120,64],&[120,65]]);
    finite!(v, "C03", huge::c03_routes, &[&[]], &[]);
    dense!(v, "C31", huge::c31_tree_huge, &[&[0,60,3],&[1,60,3],&[2,60,3],&[3,60,1],&[3,60,2],&[3,60,3],&[0,60],&[1,60],&[2,60],&[3,60],&[0,600],&[1,600],&[2,600],&[3,600]], &[&[0,1500],&[1,1500],&[2,1500],&[3,100],&[3,1500]]);
    dense!(v, "C31", huge::c31_tree_huge_two, &[&[0,500,1],&[1,500,1],&[2,500,1],&[0,60,0],&[0,60,1],&[0,60,2],&[0,60,3],&[1,60,0],&[1,60,1],&[1,60,2],&[1,60,3],&[2,60,0],&[2,60,1],&[2,60,2],&[2,60,3]], &[&[0,200,0],&[0,200,1],&[0,200,2],&[0,200,3],&[1,200,0],&[1,200,1],&[1,200,2],&[1,200,3],&[2,200,0],&[2,200,1],&[2,200,2],&[2,200,3]]);
    dense!(v, "C31", huge::c31_tree_build, &[&[0,40],&[1,40],&[2,40]], &[&[0,150],&[1,150],&[2,150]]);
    dense!(v, "C27", huge::c31_tree_build, &[&[0,8],&[1,8]], &[&[0,30],&[1,30]]);
    dense!(v, "C19", huge::c19_many, &[&[0,12],&[1,12],&[2,12],&[0,40],&[1,40],&[2,40],&[0,150],&[1,150],&[2,150]], &[&[0,400],&[1,400],&[2,400]]);
    dense!(v, "C25", huge::c25_long, &[&[16,0],&[16,1],&[16,2],&[16,3],&[16,4],&[16,5],&[16,6],&[16,7],&[16,8],&[16,9],&[16,10],&[16,11],&[40,12],&[40,13],&[40,14],&[40,15],&[40,16],&[40,17]], &[&[40,20],&[40,21],&[40,22],&[40,23],&[40,24],&[40,25],&[40,26],&[40,27],&[40,28],&[40,29],&[40,30],&[40,31],&[40,32],&[40,33],&[40,34],&[40,35],&[40,36],&[40,37],&[40,38],&[40,39],&[40,40],&[40,41],&[40,42],&[40,43],&[40,44],&[40,45],&[40,46],&[40,47],&[40,48],&[40,49],&[40,50],&[40,51],&[40,52],&[40,53],&[40,54],&[40,55],&[40,56],&[40,57],&[40,58],&[40,59],&[120,60],&[120,61],&[120,62],&[120,63],&[120,64],&[120,65]]);
    dense!(v, "C32", dense::c32_equality, &[&[0,0],&[0,1],&[1,0],&[1,1],&[1,2],&[2,1],&[2,2],&[3,1],&[3,2]], &[&[3,3]]);
    dense!(v, "C32", dense::c32_routes, &[&[0],&[1],&[2],&[3],&[4]], &[&[5]]);
    dense!(v, "C31", dense::c31_tree, &[&[0,8],&[1,8],&[2,8]], &[]);
    v
}
#[cfg(feature = "serde")]
use crate::ser as crate_ser;
