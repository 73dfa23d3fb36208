//! C15: the Finite implementations of the built-in integers, all values.
use normalize_interval::normalize::Finite;

macro_rules! ints { ($($t:ident),*) => { $(
    pub mod $t {
        use super::*;
        /// Checks the neighbours of `x`, and that `y` is not between them.
        pub fn check(x: $t, y: $t) -> Result<(), String> {
            type T = $t;
            let bad = |m: &str| Err(format!("{} of {} {}", m, x, stringify!($t)));
            if <T as Finite>::MINIMUM != T::MIN { return bad("MINIMUM (not the least value) in the case") }
            if <T as Finite>::MAXIMUM != T::MAX { return bad("MAXIMUM (not the greatest value) in the case") }
            match Finite::succ(&x) {
                None => if x != T::MAX { return bad("missing successor") },
                Some(s) => {
                    if s <= x { return bad("successor not above the value") }
                    if x < y && y < s { return bad("skipping successor") }
                    if x == T::MAX || s != x.wrapping_add(1) { return bad("wrong successor") }
                    if Finite::pred(&s) != Some(x) { return bad("no way back from the successor") }
                }
            }
            match Finite::pred(&x) {
                None => if x != T::MIN { return bad("missing predecessor") },
                Some(p) => {
                    if p >= x { return bad("predecessor not below the value") }
                    if p < y && y < x { return bad("skipping predecessor") }
                    if x == T::MIN || p != x.wrapping_sub(1) { return bad("wrong predecessor") }
                    if Finite::succ(&p) != Some(x) { return bad("no way back from the predecessor") }
                }
            }
            Ok(())
        }
        #[cfg(kani)]
        #[kani::proof]
        fn c15() {
            let (x, y): ($t, $t) = (kani::any(), kani::any());
            kani::cover!(x == $t::MIN, "minimum reached");
            kani::cover!(x == $t::MAX, "maximum reached");
            kani::cover!(x > $t::MIN && x < $t::MAX, "interior value reached");
            assert!(ok(x, y), "the property fails");
        }
        /// `check` without the messages (formatting is costly symbolically).
        pub fn ok(x: $t, y: $t) -> bool {
            type T = $t;
            if <T as Finite>::MINIMUM != T::MIN || <T as Finite>::MAXIMUM != T::MAX { return false }
            let a = match Finite::succ(&x) {
                None => x == T::MAX,
                Some(s) => s > x && !(x < y && y < s) && x != T::MAX && s == x.wrapping_add(1) && Finite::pred(&s) == Some(x),
            };
            let b = match Finite::pred(&x) {
                None => x == T::MIN,
                Some(p) => p < x && !(p < y && y < x) && x != T::MIN && p == x.wrapping_sub(1) && Finite::succ(&p) == Some(x),
            };
            a && b
        }
    }
)* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
