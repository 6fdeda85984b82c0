//! replay LAW BYTES...: runs one law on concrete values, each given as hexadecimal bytes in memory order.
use numbers::*;

fn bytes(s: &str) -> [u8; 8] {
    let mut o = [0; 8];
    for i in 0..s.len() / 2 {
        o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<[u8; 8]> = a[2..].iter().map(|s| bytes(s)).collect();
    let w = |i: usize| v.get(i).copied().unwrap_or([0; 8]);
    let u = |i: usize| u32::from_le_bytes(w(i)[..4].try_into().unwrap());
    let f = |i: usize| f32::from_bits(u(i));
    let d = |i: usize| f64::from_le_bytes(w(i));
    macro_rules! never {
        ($x:expr) => {{
            std::panic::set_hook(Box::new(|_| {}));
            if std::panic::catch_unwind(|| $x).is_ok() {
                println!("made a number that is not finite");
                std::process::exit(1);
            }
        }};
    }
    println!("{} f32 {:?} {:?} f64 {:?} u32 {}", a[1], f(0), f(1), d(0), u(0));
    match a[1].as_str() {
        "refuse" => never!(refuse(f(0))),
        "refuse_from" => never!(refuse_from(f(0))),
        "refuse_from64" => never!(refuse_from64(d(0))),
        "construct" => construct(f(0)),
        "construct64" => construct64(d(0)),
        "order" => order(f(0), f(1)),
        "hashed" => hashed(f(0), f(1)),
        "plain" => plain(f(0), f(1)),
        "i8" => int::i8(u(0) as i8, f(1)),
        "u8" => int::u8(u(0) as u8, f(1)),
        "i16" => int::i16(u(0) as i16, f(1)),
        "u16" => int::u16(u(0) as u16, f(1)),
        "i32" => int::i32(u(0) as i32, f(1)),
        "u32" => int::u32(u(0), f(1)),
        "zero" => zero(),
        x => panic!("no law {x}"),
    }
}
