//! replay FILE: lines key=value; `check` is ints:TYPE or text:Num|Word,
//! `bytes` the little-endian bytes of the inputs (comma separated, `;` between inputs).
use nikani::{ints, text};
fn main() {
    let path = std::env::args().nth(1).expect("replay file");
    let all = std::fs::read_to_string(&path).expect("replay file");
    let get = |k: &str| all.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("").to_string();
    let inputs: Vec<Vec<u8>> = get("bytes").split(';').map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("byte")).collect()).collect();
    macro_rules! int { ($($t:ident),*) => { match get("check").as_str() {
        $(concat!("ints:", stringify!($t)) => {
            let v = |i: usize| { let mut a = [0u8; std::mem::size_of::<$t>()]; if let Some(b) = inputs.get(i) { a[..b.len()].copy_from_slice(b) } <$t>::from_le_bytes(a) };
            std::panic::catch_unwind(|| ints::$t::check(v(0), v(1))).unwrap_or_else(|_| Err(format!("panic for {} {}", v(0), stringify!($t))))
        })*
        "text:Num" => text::check::<text::Num>(&inputs.concat()),
        "text:Word" => text::check::<text::Word>(&inputs.concat()),
        c => { eprintln!("unknown check {c}"); std::process::exit(2) }
    } } }
    match int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize) {
        Ok(()) => println!("OK: the property holds on this input"),
        Err(m) => { println!("FAIL: {m}"); std::process::exit(1) }
    }
}
