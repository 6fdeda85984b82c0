mod exec;
mod expr;
mod wasm;
mod z3;
use exec::*;
use std::collections::HashSet;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, RwLock};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[u8]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
fn text(t: &[u8]) -> String {
    js(&String::from_utf8_lossy(t))
}
fn findings(v: &[Finding]) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|f| {
            let st: Vec<String> = f.stack.iter().map(|x| js(x)).collect();
            format!("{{\"msg\":{},\"model\":{},\"text\":{},\"stack\":[{}]}}", js(&f.msg), jlist(&f.model), text(&f.text), st.join(","))
        })
        .collect();
    format!("[{}]", s.join(","))
}

// usage: wsym module.wasm out.json threads seed [export:arg:seconds:flags[:model]]...
//   flags: any of r (random order) p (fork profile) o (one concrete run of the given model)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bytes = std::fs::read(&a[1]).expect("read wasm");
    let m = wasm::parse(&bytes);
    let threads: usize = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let mut init = vec![0u8; m.mem_pages as usize * 65536];
    for (o, d) in &m.data {
        init[*o as usize..*o as usize + d.len()].copy_from_slice(d);
    }
    let mut out: Vec<String> = vec![];
    // all tasks together get this long (each at least a second)
    let total = std::env::var("WSYM_TOTAL").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1e6);
    let begun = Instant::now();
    for t in &a[5..] {
        let p: Vec<&str> = t.split(':').collect();
        let (name, arg, secs) = (p[0], p[1].parse::<u32>().unwrap(), p[2].parse::<f64>().unwrap());
        let flags = p.get(3).copied().unwrap_or("");
        let model: Vec<u8> = match p.get(4) {
            Some(s) if !s.is_empty() => s.split(',').map(|x| x.parse().unwrap()).collect(),
            _ => vec![],
        };
        let entry = m.exports.iter().find(|e| e.0 == name).unwrap_or_else(|| panic!("no export {name}")).1 as usize;
        let start = Instant::now();
        let secs = secs.min((total - begun.elapsed().as_secs_f64()).max(1.0));
        let once = flags.contains('o');
        let nw = if once { 1 } else { threads };
        let sh = Shared {
            m: &m,
            init: init.clone(),
            entry,
            arg,
            queue: Mutex::new((vec![Item { model, depth: 0, hash: 0 }], 0)),
            cond: Condvar::new(),
            idle: AtomicUsize::new(0),
            nworkers: nw,
            stop: AtomicBool::new(false),
            deadline: start + Duration::from_secs_f64(secs),
            timed_out: AtomicBool::new(false),
            stats: Stats::default(),
            cache: RwLock::new(HashSet::new()),
            findings: Mutex::new(vec![]),
            known: Mutex::new(vec![]),
            incomplete: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            reach: Default::default(),
            entered: (0..m.funcs.len()).map(|_| AtomicBool::new(false)).collect(),
            symbolic_in: (0..m.funcs.len()).map(|_| AtomicBool::new(false)).collect(),
            sites: Default::default(),
            prof: flags.contains('p'),
            max_path_instrs: 400_000_000,
            max_findings: if flags.contains('m') { 200 } else { 12 },
            random: flags.contains('r'),
            seed,
        };
        std::thread::scope(|s| {
            for i in 0..nw {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker::new(sh, i);
                        if once {
                            w.once();
                        } else {
                            w.work();
                        }
                    })
                    .unwrap();
            }
        });
        let st = &sh.stats;
        let left = sh.queue.lock().unwrap().0.len();
        let timed = sh.timed_out.load(Relaxed);
        let inc = sh.incomplete.lock().unwrap().clone();
        let fs = sh.findings.lock().unwrap().clone();
        let complete = !timed && inc.is_empty() && fs.is_empty() && left == 0 && !once;
        let mut o = String::new();
        write!(o, "{{\"task\":{},\"arg\":{arg},\"complete\":{complete},\"timed_out\":{timed},\"wall_s\":{:.3},", js(name), start.elapsed().as_secs_f64()).unwrap();
        write!(
            o,
            "\"paths\":{},\"rejected\":{},\"instrs\":{},\"decisions\":{},\"forks\":{},\"pruned\":{},\"q_sat\":{},\"q_unsat\":{},\"q_cached\":{},\"solver_s\":{:.3},\"max_decisions\":{},\"max_vars\":{},\"max_path_instrs\":{},",
            st.paths.load(Relaxed), st.rejected.load(Relaxed), st.instrs.load(Relaxed), st.decisions.load(Relaxed), st.forks.load(Relaxed),
            st.pruned.load(Relaxed), st.q_sat.load(Relaxed), st.q_unsat.load(Relaxed), st.q_cached.load(Relaxed),
            st.z3_us.load(Relaxed) as f64 / 1e6, st.max_decisions.load(Relaxed), st.max_vars.load(Relaxed), st.max_path_instrs.load(Relaxed)
        )
        .unwrap();
        let incs: Vec<String> = inc.iter().map(|x| js(x)).collect();
        write!(o, "\"incomplete\":[{}],\"findings\":{},\"known\":{},", incs.join(","), findings(&fs), findings(&sh.known.lock().unwrap())).unwrap();
        let sm: Vec<String> = sh.samples.lock().unwrap().iter().map(|(m, t)| format!("{{\"model\":{},\"text\":{}}}", jlist(m), text(t))).collect();
        write!(o, "\"samples\":[{}],", sm.join(",")).unwrap();
        let mut rc: Vec<(u32, u64)> = sh.reach.lock().unwrap().iter().map(|(a, b)| (*a, *b)).collect();
        rc.sort();
        let rcs: Vec<String> = rc.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect();
        write!(o, "\"reach\":{{{}}},", rcs.join(",")).unwrap();
        let list = |v: &Vec<AtomicBool>| -> String {
            let s: Vec<String> = v.iter().enumerate().filter(|x| x.1.load(Relaxed)).map(|x| js(&m.funcs[x.0].name)).collect();
            s.join(",")
        };
        write!(o, "\"entered\":[{}],\"symbolic_in\":[{}]", list(&sh.entered), list(&sh.symbolic_in)).unwrap();
        if sh.prof {
            let mut s: Vec<_> = sh.sites.lock().unwrap().iter().map(|(a, b)| (*b, *a)).collect();
            s.sort_by(|a, b| b.cmp(a));
            for (n, (f, pc)) in s.iter().take(25) {
                eprintln!("{n:9}  {}+{pc}", m.funcs[*f as usize].name);
            }
        }
        o.push('}');
        out.push(o);
        std::fs::write(&a[2], format!("[{}]", out.join(",\n"))).unwrap();
        eprintln!(
            "{name}({arg}): complete={complete} paths={} instrs={:.0}M q={}/{}/{} cached={} z3={:.1}s wall={:.1}s findings={} inc={}",
            st.paths.load(Relaxed), st.instrs.load(Relaxed) as f64 / 1e6, st.q_sat.load(Relaxed), st.q_unsat.load(Relaxed), st.forks.load(Relaxed),
            st.q_cached.load(Relaxed), st.z3_us.load(Relaxed) as f64 / 1e6, start.elapsed().as_secs_f64(), fs.len(), inc.len()
        );
        if flags.contains('s') && !fs.is_empty() {
            break;
        }
    }
}
