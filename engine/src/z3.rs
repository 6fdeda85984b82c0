//! One incremental SMT solver process (SMT-LIB2 over a pipe).
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub secs: f64,
    pub queries: u64,
}

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown(String),
}

impl Solver {
    pub fn new() -> Self {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2", "-t:20000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, inp, out, secs: 0.0, queries: 0 }
    }
    /// `body` holds declarations and assertions; `vars` the variables to read back when sat
    pub fn check(&mut self, body: &str, vars: &[usize]) -> Res {
        let t = std::time::Instant::now();
        self.queries += 1;
        let r = self.check0(body, vars);
        self.secs += t.elapsed().as_secs_f64();
        match r {
            Ok(r) => r,
            Err(e) => Res::Unknown(format!("solver pipe: {e}")),
        }
    }
    fn line(&mut self) -> std::io::Result<String> {
        let mut s = String::new();
        if self.out.read_line(&mut s)? == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "solver ended"));
        }
        Ok(s.trim().to_string())
    }
    fn check0(&mut self, body: &str, vars: &[usize]) -> std::io::Result<Res> {
        writeln!(self.inp, "(push 1)\n{body}(check-sat)")?;
        self.inp.flush()?;
        let l = self.line()?;
        let r = match l.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut v = vec![];
                if !vars.is_empty() {
                    write!(self.inp, "(get-value (")?;
                    for x in vars {
                        write!(self.inp, "x{x} ")?;
                    }
                    writeln!(self.inp, "))\n(echo \"done\")")?;
                    self.inp.flush()?;
                    let mut txt = String::new();
                    loop {
                        let l = self.line()?;
                        if l == "done" {
                            break;
                        }
                        txt.push_str(&l);
                        txt.push(' ');
                    }
                    let t: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
                    for p in t.chunks(2) {
                        let n: usize = p[0][1..].parse().unwrap();
                        let x = u8::from_str_radix(p[1].trim_start_matches("#x"), 16).unwrap();
                        v.push((n, x));
                    }
                }
                Res::Sat(v)
            }
            _ => Res::Unknown(l),
        };
        writeln!(self.inp, "(pop 1)")?;
        if let Res::Unknown(m) = &r {
            // an error answer leaves the pipe in an unknown state: restart
            let m = m.clone();
            let (s, q) = (self.secs, self.queries);
            *self = Solver::new();
            self.secs = s;
            self.queries = q;
            return Ok(Res::Unknown(m));
        }
        Ok(r)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
