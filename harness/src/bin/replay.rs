//! replay EXPORT ARG BYTE,BYTE,... : one concrete run of a harness against the
//! natively compiled crate.  exit 0 held, 1 assertion failed, 3 input rejected
//! by an assumption, 101 panic.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let model: Vec<u8> = a
        .get(3)
        .map(|s| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| x.parse().unwrap())
                .collect()
        })
        .unwrap_or_default();
    let arg: u32 = a[2].parse().unwrap();
    let f = harness::ENTRIES
        .iter()
        .find(|e| e.0 == a[1])
        .expect("no such harness")
        .1;
    // a deep but finite stack, as a main thread has
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            harness::rt::S.with(|s| s.borrow_mut().model = model);
            let r = std::panic::catch_unwind(|| f(arg));
            harness::rt::show();
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                println!("PANIC: {m}");
                std::process::exit(if m.starts_with("HARNESS") { 4 } else { 101 });
            }
            println!("HELD");
        })
        .unwrap();
    t.join().unwrap();
}
