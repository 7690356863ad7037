//! Talking to z3: one live process per solver object; terms are sent once and named.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// z3 does not always keep its own time limit: the processes that are overdue are stopped from outside
static WATCHED: Mutex<Option<HashMap<u32, Instant>>> = Mutex::new(None);

fn watch(pid: u32, ms: Option<u64>) {
    let mut w = WATCHED.lock().unwrap();
    let first = w.is_none();
    let m = w.get_or_insert_with(HashMap::new);
    match ms {
        Some(ms) => m.insert(pid, Instant::now() + Duration::from_millis(ms)),
        None => m.remove(&pid),
    };
    drop(w);
    if first {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(250));
            let mut w = WATCHED.lock().unwrap();
            if let Some(m) = w.as_mut() {
                let now = Instant::now();
                m.retain(|pid, t| {
                    if *t > now {
                        return true;
                    }
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                    false
                });
            }
        });
    }
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    sent: HashSet<T>,
    funs: HashSet<u32>,
    pub queries: usize,
    pub secs: f64,
    pub dead: bool,
    timeout: u64,
    /// the limit of the query under way
    limit: u64,
    /// one query, then gone: z3 picks its non-incremental strategies
    once: bool,
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn num(n: i128, real: bool) -> String {
    let s = if real { ".0" } else { "" };
    if n < 0 {
        format!("(- {}{})", -n, s)
    } else {
        format!("{}{}", n, s)
    }
}
fn rat(r: Rat, real: bool) -> String {
    if r.d == 1 {
        num(r.n, real)
    } else {
        format!("(/ {} {})", num(r.n, true), num(r.d, true))
    }
}
fn sname(s: Sort) -> &'static str {
    match s {
        Sort::Bool => "Bool",
        Sort::Int => "Int",
        Sort::Real => "Real",
    }
}

impl Solver {
    fn spawn() -> (Child, ChildStdin, BufReader<ChildStdout>) {
        let bin = if std::path::Path::new("/usr/bin/z3").exists() { "/usr/bin/z3" } else { "z3" };
        let mut child = Command::new(bin)
            .args(["-in", "-smt2", "-memory:6000", "-T:4000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let _ = writeln!(inp, "(set-option :print-success false)");
        (child, inp, out)
    }
    pub fn start(timeout_ms: u64) -> Solver {
        let (child, mut inp, out) = Self::spawn();
        let _ = writeln!(inp, "(set-option :timeout {})", timeout_ms);
        Solver { child, inp, out, sent: HashSet::new(), funs: HashSet::new(), queries: 0, secs: 0.0, dead: false, timeout: timeout_ms, limit: timeout_ms, once: false }
    }
    /// z3 was lost (or had to be stopped): a fresh one, which is told everything anew
    fn revive(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (child, inp, out) = Self::spawn();
        self.child = child;
        self.inp = inp;
        self.out = out;
        self.sent.clear();
        self.funs.clear();
        self.dead = false;
        let _ = writeln!(self.inp, "(set-option :timeout {})", self.limit);
    }
    fn set_limit(&mut self, ms: u64) {
        self.limit = ms;
        if !self.dead {
            let _ = writeln!(self.inp, "(set-option :timeout {})", ms);
        }
    }
    fn nm(tm: &Terms, t: T) -> String {
        match tm.node(t) {
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::Num(r, real) => rat(*r, *real),
            Node::BVar(v) | Node::IVar(v) | Node::RVar(v) => format!("v{}", v),
            _ => format!("t{}", t),
        }
    }
    fn send(&mut self, tm: &Terms, root: T, buf: &mut String) {
        let mut stack = vec![(root, false)];
        while let Some((t, done)) = stack.pop() {
            if self.sent.contains(&t) {
                continue;
            }
            if !done {
                stack.push((t, true));
                for c in tm.children(t) {
                    if !self.sent.contains(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            self.sent.insert(t);
            let n = |x: &T| Self::nm(tm, *x);
            let body = match tm.node(t) {
                Node::True | Node::False | Node::Num(..) => continue,
                Node::BVar(v) => {
                    buf.push_str(&format!("(declare-const v{} Bool)\n", v));
                    continue;
                }
                Node::RVar(v) => {
                    buf.push_str(&format!("(declare-const v{} Real)\n", v));
                    continue;
                }
                Node::IVar(v) => {
                    buf.push_str(&format!("(declare-const v{} Int)\n", v));
                    if let Some((lo, hi)) = tm.var_range.get(v) {
                        buf.push_str(&format!("(assert (and (<= {} v{}) (<= v{} {})))\n", num(*lo, false), v, v, num(*hi, false)));
                    }
                    continue;
                }
                Node::Not(a) => format!("(not {})", n(a)),
                Node::And(xs) => format!("(and {})", xs.iter().map(n).collect::<Vec<_>>().join(" ")),
                Node::Or(xs) => format!("(or {})", xs.iter().map(n).collect::<Vec<_>>().join(" ")),
                Node::Lin(c, xs, real) => {
                    let mut s = String::from("(+");
                    if !c.is_zero() || xs.len() < 2 {
                        s.push(' ');
                        s.push_str(&rat(*c, *real));
                    }
                    for (x, k) in xs.iter() {
                        s.push(' ');
                        if *k == Rat::one() {
                            s.push_str(&n(x));
                        } else {
                            s.push_str(&format!("(* {} {})", rat(*k, *real), n(x)));
                        }
                    }
                    s.push(')');
                    s
                }
                Node::Ite(c, a, b) => format!("(ite {} {} {})", n(c), n(a), n(b)),
                Node::Le0(a) => format!("(<= {} {})", n(a), if tm.sort(*a) == Sort::Real { "0.0" } else { "0" }),
                Node::Eq0(a) => format!("(= {} {})", n(a), if tm.sort(*a) == Sort::Real { "0.0" } else { "0" }),
                Node::Mul(a, b) => format!("(* {} {})", n(a), n(b)),
                Node::DivI(a, k) => format!("(div {} {})", n(a), k),
                Node::ModI(a, k) => format!("(mod {} {})", n(a), k),
                Node::DivR(a, b) => format!("(/ {} {})", n(a), n(b)),
                Node::ToReal(a) => format!("(to_real {})", n(a)),
                Node::App(f, xs, s) => {
                    if self.funs.insert(*f) {
                        let sorts: Vec<_> = xs.iter().map(|x| sname(tm.sort(*x))).collect();
                        buf.push_str(&format!("(declare-fun f{} ({}) {})\n", f, sorts.join(" "), sname(*s)));
                    }
                    format!("(f{} {})", f, xs.iter().map(n).collect::<Vec<_>>().join(" "))
                }
            };
            buf.push_str(&format!("(define-fun t{} () {} {})\n", t, sname(tm.sort(t)), body));
        }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        loop {
            s.clear();
            match self.out.read_line(&mut s) {
                Ok(0) | Err(_) => {
                    self.dead = true;
                    return None;
                }
                Ok(_) => {
                    let l = s.trim();
                    if !l.is_empty() {
                        return Some(l.to_string());
                    }
                }
            }
        }
    }
    fn ask(&mut self, tm: &Terms, cs: &[T]) -> Option<bool> {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut buf = String::new();
        for c in cs {
            self.send(tm, *c, &mut buf);
        }
        if !self.once {
            buf.push_str("(push 1)\n");
        }
        for c in cs {
            buf.push_str(&format!("(assert {})\n", Self::nm(tm, *c)));
        }
        buf.push_str("(check-sat)\n");
        if self.inp.write_all(buf.as_bytes()).and_then(|_| self.inp.flush()).is_err() {
            self.dead = true;
            return None;
        }
        watch(self.child.id(), Some(self.limit + 3000 + self.limit / 5));
        let r = loop {
            match self.line().as_deref() {
                Some("sat") => break Some(true),
                Some("unsat") => break Some(false),
                Some("unknown") => break None,
                Some(l) if l.starts_with("(error") => {
                    eprintln!("z3: {}", l);
                    self.dead = true;
                    break None;
                }
                None => break None,
                Some(_) => continue,
            }
        };
        watch(self.child.id(), None);
        self.secs += t0.elapsed().as_secs_f64();
        r
    }
    pub fn check_within(&mut self, tm: &Terms, cs: &[T], ms: u64) -> Option<bool> {
        self.set_limit(self.timeout.min(ms));
        let r = self.check(tm, cs);
        self.set_limit(self.timeout);
        r
    }
    pub fn check(&mut self, tm: &Terms, cs: &[T]) -> Option<bool> {
        if self.dead {
            if self.once {
                return None;
            }
            self.revive();
        }
        let r = self.ask(tm, cs);
        let _ = self.inp.write_all(b"(pop 1)\n");
        r
    }
    /// like model, first with a short time limit, then with a process of its own and the full one
    pub fn decide(&mut self, tm: &Terms, cs: &[T], want: &[T]) -> Option<Option<Vec<String>>> {
        self.set_limit(self.timeout.min(3000));
        let r = self.model(tm, cs, want);
        self.set_limit(self.timeout);
        if r.is_some() {
            return r;
        }
        let mut s = Solver::start(self.timeout);
        s.once = true;
        let r = s.model(tm, cs, want);
        self.queries += s.queries;
        self.secs += s.secs;
        r
    }
    /// satisfiable? and if so the values of the given terms
    pub fn model(&mut self, tm: &Terms, cs: &[T], want: &[T]) -> Option<Option<Vec<String>>> {
        if self.dead {
            if self.once {
                return None;
            }
            self.revive();
        }
        let mut buf = String::new();
        for w in want {
            self.send(tm, *w, &mut buf);
        }
        let _ = self.inp.write_all(buf.as_bytes());
        match self.ask(tm, cs) {
            Some(false) => {
                let _ = self.inp.write_all(b"(pop 1)\n");
                Some(None)
            }
            Some(true) => {
                let mut out = vec![];
                for w in want {
                    let _ = writeln!(self.inp, "(eval {})", Self::nm(tm, *w));
                    let _ = self.inp.flush();
                    // values may span lines only for weird terms; numbers do not
                    let mut s = self.line().unwrap_or_default();
                    while s.matches('(').count() > s.matches(')').count() {
                        s.push(' ');
                        s.push_str(&self.line().unwrap_or_default());
                        if self.dead {
                            break;
                        }
                    }
                    out.push(s);
                }
                let _ = self.inp.write_all(b"(pop 1)\n");
                Some(Some(out))
            }
            None => {
                let _ = self.inp.write_all(b"(pop 1)\n");
                None
            }
        }
    }
}

/// "(- (/ 1.0 3.0))" -> f64
pub fn parse_num(s: &str) -> Option<f64> {
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.trim_end_matches('?').to_string()).collect();
    fn go(t: &[String], i: &mut usize) -> Option<f64> {
        let x = t.get(*i)?;
        *i += 1;
        if x == "(" {
            let op = t.get(*i)?.clone();
            *i += 1;
            let mut v = vec![];
            while t.get(*i)? != ")" {
                v.push(go(t, i)?);
            }
            *i += 1;
            Some(match op.as_str() {
                "-" if v.len() == 1 => -v[0],
                "-" => v[0] - v[1],
                "/" => v[0] / v[1],
                "*" => v[0] * v[1],
                "+" => v.iter().sum(),
                "to_real" => v[0],
                _ => return None,
            })
        } else {
            x.parse().ok()
        }
    }
    go(&toks, &mut 0)
}

pub type Memo = HashMap<T, bool>;
