//! Guarded symbolic evaluation of Rust function bodies (state, control flow, places, patterns, calls).
use crate::prog::*;
use crate::smt::Solver;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use syn::{spanned::Spanned, *};

pub type RV = R<V>;

#[derive(Clone)]
pub struct State {
    pub cells: Vec<V>,
    pub heap: Vec<V>,
    pub pc: Vec<T>,
    pub pcand: T,
    pub dead: bool,
}

pub struct Obl {
    pub label: String,
    pub loc: String,
    pub pc: Vec<T>,
    pub cond: T,
    pub panic: bool,
}

pub struct Input {
    pub name: String,
    pub term: T,
    pub kind: &'static str,
}

#[derive(Default)]
pub struct LoopFrame {
    pub label: Option<String>,
    pub breaks: Vec<(State, V)>,
    pub continues: Vec<(State, V)>,
}
#[derive(Default)]
pub struct Frame {
    pub returns: Vec<(State, V)>,
    pub loops: Vec<LoopFrame>,
}

pub enum PM {
    Mac { args: Vec<Expr>, repeat: Option<Expr> },
    Matches(Box<Expr>, Box<Pat>, Option<Expr>),
}

/// decisions taken on this path (path mode and case splits)
#[derive(Clone, Default)]
pub struct Trail {
    pub prefix: Vec<u32>,
    pub pos: usize,
    pub taken: Vec<u32>,
    pub new_items: Vec<Vec<u32>>,
}

pub struct Ex {
    pub tm: Terms,
    pub prog: &'static Program,
    pub st: State,
    pub env: Vec<(Rc<str>, usize)>,
    pub ctx: Ctx,
    pub frames: Vec<Frame>,
    pub obls: Vec<Obl>,
    pub feas_memo: HashMap<Vec<T>, bool>,
    pub inputs: Vec<Input>,
    pub trail: Trail,
    pub path_mode: bool,
    pub solver: Option<Solver>,
    pub mac_cache: HashMap<usize, &'static PM>,
    pub unit: V,
    pub never: V,
    pub called: BTreeMap<String, usize>,
    pub models_used: BTreeMap<String, usize>,
    pub checks: usize,
    pub trivially: usize,
    pub covers: Vec<(String, Vec<T>, T)>,
    pub havoc: HashMap<String, String>,
    pub subst: HashMap<String, String>,
    pub depth: usize,
    pub fresh: usize,
    pub steps: u64,
    pub max_steps: u64,
    pub fl_mode_real: bool,
    pub eq_memo: HashMap<(usize, usize), T>,
    pub feas_queries: usize,
    pub deadline: std::time::Instant,
    pub heap_next: usize,
    /// storage made by merging two different tensors: an in-place write to it is refused (aliases are lost)
    pub ro_cells: std::collections::HashSet<usize>,
    pub map_order: bool,
    pub map_rev: Option<bool>,
    pub net_cache: Vec<(Vec<T>, (Vec<T>, Vec<T>))>,
    pub fs: Vec<(String, V)>,
    pub dirs: Vec<String>,
    pub table: Vec<V>,
    pub uniq: i128,
    pub into_u64: bool,
    /// the layer lists of variable stores
    pub sigs: Vec<Vec<String>>,
    pub tags: i128,
    pub grad: T,
    pub catching: bool,
    pub caught: bool,
}

pub fn rc(v: Val) -> V {
    Rc::new(v)
}

macro_rules! ev {
    ($s:expr, $e:expr) => {{
        let v = $s.eval($e)?;
        if $s.st.dead {
            return Ok($s.never.clone());
        }
        v
    }};
}
pub(crate) use ev;

impl Ex {
    pub fn new(prog: &'static Program, game: &str, root: &'static FnDef, path_mode: bool) -> Ex {
        let ctx = Ctx { f: root, self_ty: None, targs: Rc::new(vec![("T".into(), game.into())]) };
        Ex {
            tm: Terms::new(),
            prog,
            st: State { cells: vec![], heap: vec![], pc: vec![], pcand: TRUE, dead: false },
            heap_next: 0,
            ro_cells: Default::default(),
            env: vec![],
            ctx,
            frames: vec![],
            obls: vec![],
            feas_memo: HashMap::new(),
            inputs: vec![],
            trail: Trail::default(),
            path_mode,
            solver: None,
            mac_cache: HashMap::new(),
            unit: rc(Val::Unit),
            never: rc(Val::Never),
            called: BTreeMap::new(),
            models_used: BTreeMap::new(),
            checks: 0,
            trivially: 0,
            covers: vec![],
            havoc: HashMap::new(),
            subst: HashMap::new(),
            depth: 0,
            fresh: 0,
            steps: 0,
            max_steps: 400_000_000,
            fl_mode_real: true,
            eq_memo: HashMap::new(),
            feas_queries: 0,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            map_order: false,
            map_rev: None,
            net_cache: vec![],
            fs: vec![],
            dirs: vec![],
            table: vec![],
            uniq: 0,
            into_u64: false,
            sigs: vec![vec![]],
            tags: 0,
            grad: TRUE,
            catching: false,
            caught: false,
        }
    }
    pub fn loc<S: Spanned>(&self, s: &S) -> String {
        let l = s.span().start();
        let f = self.ctx.f.file.rsplit("/src/").next().unwrap_or(&self.ctx.f.file);
        format!("{}:{} (in {})", f, l.line, self.ctx.f.qual)
    }
    pub fn unsup<X, S: Spanned>(&self, s: &S, m: impl Into<String>) -> R<X> {
        unsup(format!("{}: {}", self.loc(s), m.into()))
    }

    // ---------- small constructors ----------
    pub fn vb(&self, t: T) -> V {
        rc(Val::B(t))
    }
    pub fn vi(&mut self, n: i128, ty: ITy) -> V {
        let t = self.tm.int(n);
        rc(Val::I(t, ty))
    }
    pub fn vt(&self, t: T, ty: ITy) -> V {
        rc(Val::I(t, ty))
    }
    pub fn vf(&self, t: T) -> V {
        rc(Val::F(t))
    }
    pub fn some(&self, v: V) -> V {
        rc(Val::Enum("Option".into(), vec![(TRUE, "Some".into(), vec![v])]))
    }
    pub fn none(&self) -> V {
        rc(Val::Enum("Option".into(), vec![(TRUE, "None".into(), vec![])]))
    }
    pub fn option(&mut self, g: T, v: V) -> V {
        if g == TRUE {
            return self.some(v);
        }
        if g == FALSE {
            return self.none();
        }
        let ng = self.tm.not(g);
        rc(Val::Enum("Option".into(), vec![(g, "Some".into(), vec![v]), (ng, "None".into(), vec![])]))
    }
    pub fn ok(&self, v: V) -> V {
        rc(Val::Enum("Result".into(), vec![(TRUE, "Ok".into(), vec![v])]))
    }
    pub fn list(&self, v: Vec<V>) -> V {
        rc(Val::List(v.into_iter().map(|x| (TRUE, x)).collect()))
    }
    pub fn fresh_name(&mut self, s: &str) -> String {
        self.fresh += 1;
        format!("{}${}", s, self.fresh)
    }

    // ---------- path condition ----------
    pub fn assume(&mut self, c: T) {
        if c == TRUE {
            return;
        }
        self.st.pc.push(c);
        self.st.pcand = self.tm.and2(self.st.pcand, c);
        if self.st.pcand == FALSE {
            self.st.dead = true;
        }
    }
    fn set_pc(&mut self, st: &mut State, pc: Vec<T>) {
        if st.pc == pc {
            return;
        }
        st.pc = pc;
        st.pcand = self.tm.and(&st.pc.clone());
        st.dead = st.pcand == FALSE;
    }
    pub fn obligation(&mut self, cond: T, label: impl Into<String>, loc: String, panic: bool) {
        self.checks += 1;
        if self.st.dead {
            return;
        }
        let nc = self.tm.not(cond);
        if cond == TRUE || self.tm.and2(self.st.pcand, nc) == FALSE {
            self.trivially += 1;
            return;
        }
        if panic && self.catching {
            match self.decide(cond) {
                Ok(Some(true)) => return,
                _ => {
                    self.caught = true;
                    self.st.dead = true;
                    return;
                }
            }
        }
        let pc = self.st.pc.clone();
        self.obls.push(Obl { label: label.into(), loc, pc, cond, panic });
        if self.path_mode {
            // past the obligation only states that satisfy it matter
            self.assume(cond);
        }
    }
    /// a condition with those conjuncts of the path condition that share variables with it, directly or through
    /// others (the rest is satisfiable on its own: the path was feasible so far)
    fn relevant(&mut self, extra: T) -> Vec<T> {
        let conj: Vec<T> = match self.tm.node(self.st.pcand) {
            Node::And(xs) => xs.to_vec(),
            Node::True => vec![],
            _ => vec![self.st.pcand],
        };
        if conj.len() > 4000 {
            let c = self.tm.and2(self.st.pcand, extra);
            return vec![c];
        }
        let mut vars: std::collections::HashSet<u32> = self.tm.vars(extra).iter().cloned().collect();
        let mut left: Vec<(T, Rc<Vec<u32>>)> = conj.into_iter().map(|c| (c, self.tm.vars(c))).collect();
        let mut out = vec![extra];
        loop {
            let n = left.len();
            let mut rest = vec![];
            for (c, v) in left {
                if v.iter().any(|x| vars.contains(x)) {
                    vars.extend(v.iter());
                    out.push(c);
                } else {
                    rest.push((c, v));
                }
            }
            left = rest;
            if left.len() == n || left.is_empty() {
                break;
            }
        }
        out
    }
    pub fn sat_pc(&mut self, extra: T) -> bool {
        let c = self.tm.and2(self.st.pcand, extra);
        if c == FALSE {
            return false;
        }
        if c == TRUE {
            return true;
        }
        let mut cs = self.relevant(extra);
        cs.sort();
        if let Some(b) = self.feas_memo.get(&cs) {
            return *b;
        }
        self.feas_queries += 1;
        let mut s = self.solver.take().unwrap_or_else(|| Solver::start(2000));
        let ans = s.check(&self.tm, &cs);
        self.feas_memo.insert(cs, ans != Some(false));
        self.solver = Some(s);
        ans != Some(false)
    }
    /// decide a condition: Some(b) when it is known (or chosen, in path mode)
    pub fn decide(&mut self, c: T) -> R<Option<bool>> {
        if let Some(b) = self.tm.as_bool(c) {
            return Ok(Some(b));
        }
        if self.tm.and2(self.st.pcand, c) == FALSE {
            return Ok(Some(false));
        }
        let nc = self.tm.not(c);
        if self.tm.and2(self.st.pcand, nc) == FALSE {
            return Ok(Some(true));
        }
        if !self.path_mode {
            return Ok(None);
        }
        let k = self.choose_feasible(&[nc, c])?;
        Ok(Some(k == 1))
    }
    /// n-way choice among conditions (which cover everything); explores all feasible ones over the run
    pub fn choose_feasible(&mut self, conds: &[T]) -> R<usize> {
        let tr = &mut self.trail;
        if tr.pos < tr.prefix.len() {
            let k = tr.prefix[tr.pos];
            tr.pos += 1;
            tr.taken.push(k);
            let c = conds[k as usize];
            self.assume(c);
            return Ok(k as usize);
        }
        let mut feas = vec![];
        for (i, c) in conds.iter().enumerate() {
            if self.sat_pc(*c) {
                feas.push(i as u32);
            }
        }
        if feas.is_empty() {
            return Err(Stop::Cut);
        }
        for k in feas.iter().skip(1) {
            let mut p = self.trail.taken.clone();
            p.push(*k);
            self.trail.new_items.push(p);
        }
        self.trail.taken.push(feas[0]);
        self.trail.pos += 1;
        self.trail.prefix.push(feas[0]);
        let c = conds[feas[0] as usize];
        self.assume(c);
        Ok(feas[0] as usize)
    }
    /// make an integer term concrete by case splitting
    pub fn concretise(&mut self, t: T) -> R<i128> {
        if let Some(k) = self.tm.as_int(t) {
            return Ok(k);
        }
        let Some((lo, hi)) = self.tm.interval(t) else { return unsup("cannot split an unbounded integer") };
        if hi - lo > 64 {
            return unsup("integer range too large to split");
        }
        let mut conds = vec![];
        let mut ks = vec![];
        for k in lo..=hi {
            let kk = self.tm.int(k);
            let c = self.tm.eq(t, kk);
            if c != FALSE {
                conds.push(c);
                ks.push(k);
            }
        }
        let i = self.choose_feasible(&conds)?;
        Ok(ks[i])
    }

    // ---------- merging ----------
    pub fn merge(&mut self, c: T, a: &V, b: &V) -> RV {
        if Rc::ptr_eq(a, b) || c == TRUE {
            return Ok(a.clone());
        }
        if c == FALSE {
            return Ok(b.clone());
        }
        Ok(match (&**a, &**b) {
            (Val::Never, _) => b.clone(),
            (_, Val::Never) => a.clone(),
            (Val::Unit, Val::Unit) => a.clone(),
            (Val::B(x), Val::B(y)) => {
                let t = self.tm.ite(c, *x, *y);
                rc(Val::B(t))
            }
            (Val::I(x, t1), Val::I(y, t2)) => {
                let ty = if *t1 == ITy::Lit { *t2 } else { *t1 };
                let t = self.tm.ite(c, *x, *y);
                rc(Val::I(t, ty))
            }
            (Val::F(x), Val::F(y)) => {
                let t = self.tm.ite(c, *x, *y);
                rc(Val::F(t))
            }
            (Val::Str(x), Val::Str(y)) => {
                if x == y {
                    a.clone()
                } else {
                    rc(Val::Opaque("string".into()))
                }
            }
            (Val::Opaque(_), Val::Str(_)) => a.clone(),
            (Val::Str(_), Val::Opaque(_)) => b.clone(),
            (Val::Opaque(x), Val::Opaque(y)) if x == y => a.clone(),
            (Val::Tuple(x), Val::Tuple(y)) if x.len() == y.len() => {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y) {
                    o.push(self.merge(c, p, q)?);
                }
                rc(Val::Tuple(o))
            }
            (Val::Struct(n, x), Val::Struct(m, y)) if n == m => {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y) {
                    o.push(self.merge(c, p, q)?);
                }
                rc(Val::Struct(n.clone(), o))
            }
            (Val::Enum(n, x), Val::Enum(m, y)) if n == m => {
                let nc = self.tm.not(c);
                let mut o: Vec<(T, Rc<str>, Vec<V>)> = vec![];
                for (g, k, p) in x {
                    let gg = self.tm.and2(c, *g);
                    o.push((gg, k.clone(), p.clone()));
                }
                for (g, k, p) in y {
                    let gg = self.tm.and2(nc, *g);
                    if let Some(i) = o.iter().position(|e| e.1 == *k) {
                        let og = self.tm.or2(o[i].0, gg);
                        let mut pl = vec![];
                        for (u, v) in o[i].2.clone().iter().zip(p) {
                            pl.push(self.merge(c, u, v)?);
                        }
                        o[i].0 = og;
                        o[i].2 = pl;
                    } else {
                        o.push((gg, k.clone(), p.clone()));
                    }
                }
                o.retain(|e| e.0 != FALSE);
                rc(Val::Enum(n.clone(), o))
            }
            (Val::List(x), Val::List(y)) => {
                let keep_apart = x.iter().zip(y).any(|(p, q)| {
                    (p.0 != TRUE || matches!(&*p.1, Val::Tuple(_))) && !Rc::ptr_eq(&p.1, &q.1) && {
                        let (a, b) = (self.conc_key(&p.1), self.conc_key(&q.1));
                        a.is_some() && b.is_some() && a != b
                    }
                });
                if x.len() == y.len() && !keep_apart && x.iter().zip(y).all(|(p, q)| p.0 == q.0) {
                    let mut o = Vec::with_capacity(x.len());
                    for (p, q) in x.iter().zip(y) {
                        o.push((p.0, self.merge(c, &p.1, &q.1)?));
                    }
                    return Ok(rc(Val::List(o)));
                }
                let mut k = 0;
                while k < x.len() && k < y.len() && x[k].0 == y[k].0 && Rc::ptr_eq(&x[k].1, &y[k].1) {
                    k += 1;
                }
                let nc = self.tm.not(c);
                let mut o: Vec<(T, V)> = x[..k].to_vec();
                for (g, v) in &x[k..] {
                    let gg = self.tm.and2(c, *g);
                    if gg != FALSE {
                        o.push((gg, v.clone()));
                    }
                }
                for (g, v) in &y[k..] {
                    let gg = self.tm.and2(nc, *g);
                    if gg != FALSE {
                        o.push((gg, v.clone()));
                    }
                }
                rc(Val::List(o))
            }
            (Val::Map(s1, x), Val::Map(_, y)) => {
                let mut o = vec![];
                if x.len() <= y.len() && x.iter().zip(y).all(|(p, q)| Rc::ptr_eq(&p.1, &q.1)) {
                    for (i, q) in y.iter().enumerate() {
                        let (g, v) = match x.get(i) {
                            Some(p) => (p.0, p.2.clone()),
                            None => (FALSE, q.2.clone()),
                        };
                        let g2 = self.tm.ite(c, g, q.0);
                        o.push((g2, q.1.clone(), self.merge(c, &v, &q.2)?));
                    }
                } else if y.len() < x.len() && y.iter().zip(x).all(|(p, q)| Rc::ptr_eq(&p.1, &q.1)) {
                    for (i, p) in x.iter().enumerate() {
                        let (g, v) = match y.get(i) {
                            Some(q) => (q.0, q.2.clone()),
                            None => (FALSE, p.2.clone()),
                        };
                        let g2 = self.tm.ite(c, p.0, g);
                        o.push((g2, p.1.clone(), self.merge(c, &p.2, &v)?));
                    }
                } else {
                    return unsup("merge of unrelated maps");
                }
                rc(Val::Map(*s1, o))
            }
            (Val::Ref(p), Val::Ref(q)) if p == q => a.clone(),
            (Val::Closure(p), Val::Closure(q)) if Rc::ptr_eq(p, q) => a.clone(),
            (Val::FnItem(p, _), Val::FnItem(q, _)) if p == q => a.clone(),
            (Val::Tensor(x), Val::Tensor(y)) if x.shape == y.shape => {
                if x.cell == y.cell && x.off == y.off {
                    return Ok(a.clone());
                }
                let (dx, dy) = (self.tdata(x)?, self.tdata(y)?);
                let mut d = vec![];
                for (p, q) in dx.iter().zip(&dy) {
                    d.push(self.tm.ite(c, *p, *q));
                }
                let r = self.mk_tensor(x.shape.clone(), d, x.kind);
                self.ro_cells.insert(self.heap_next - 1);
                return Ok(r);
            }
            (Val::Range(a1, b1, i1), Val::Range(a2, b2, i2)) if i1 == i2 => {
                let mut f = |p: &Option<V>, q: &Option<V>| -> R<Option<V>> {
                    Ok(match (p, q) {
                        (Some(p), Some(q)) => Some(self.merge(c, p, q)?),
                        (None, None) => None,
                        _ => return unsup("merge of ranges"),
                    })
                };
                let (lo, hi) = (f(a1, a2)?, f(b1, b2)?);
                rc(Val::Range(lo, hi, *i1))
            }
            _ => return unsup(format!("merge of {} and {}", a.kind(), b.kind())),
        })
    }
    /// join two states that differ since `base` (number of pc conjuncts common to both); c holds exactly on s1
    pub fn join(&mut self, c: T, base: usize, s1: State, v1: V, s2: State, v2: V) -> RV {
        if s1.dead {
            self.st = s2;
            return Ok(v2);
        }
        if s2.dead {
            self.st = s1;
            return Ok(v1);
        }
        let x1: Vec<T> = s1.pc[base..].to_vec();
        let x2: Vec<T> = s2.pc[base..].to_vec();
        let (p1, p2) = (self.tm.and(&x1), self.tm.and(&x2));
        let extra = self.tm.or2(p1, p2);
        // heap (tensor storage): cell numbers are never reused, so a cell present on one side only was
        // allocated there; a cell present on both sides is merged element by element
        let hn = s1.heap.len().max(s2.heap.len());
        let mut heap = Vec::with_capacity(hn);
        let never = self.never.clone();
        for i in 0..hn {
            let (a, b) = (s1.heap.get(i).unwrap_or(&never), s2.heap.get(i).unwrap_or(&never));
            heap.push(if Rc::ptr_eq(a, b) { a.clone() } else { self.merge(c, a, b)? });
        }
        self.st.heap = heap;
        let n = s1.cells.len().min(s2.cells.len());
        let mut cells = Vec::with_capacity(n);
        for i in 0..n {
            if Rc::ptr_eq(&s1.cells[i], &s2.cells[i]) {
                cells.push(s1.cells[i].clone());
            } else {
                cells.push(self.merge_h(c, &s1.cells[i], &s2.cells[i], &s1, &s2)?);
            }
        }
        let val = self.merge(c, &v1, &v2)?;
        let heap = std::mem::take(&mut self.st.heap);
        let mut pc = s1.pc[..base].to_vec();
        if extra != TRUE {
            pc.push(extra);
        }
        let mut st = State { cells, heap, pc: vec![], pcand: TRUE, dead: false };
        if extra == TRUE && s1.pc.len() >= base {
            st.pc = pc;
            st.pcand = self.tm.and(&st.pc.clone());
        } else {
            self.set_pc(&mut st, pc);
        }
        self.st = st;
        Ok(val)
    }
    fn merge_h(&mut self, c: T, a: &V, b: &V, _s1: &State, _s2: &State) -> RV {
        match self.merge(c, a, b) {
            Ok(v) => Ok(v),
            // a cell whose two values cannot be merged is usually a temporary that is never read again
            Err(Stop::Unsupported(m)) => Ok(rc(Val::Opaque(format!("unmergeable: {}", m).into()))),
            Err(e) => Err(e),
        }
    }
    pub fn branch(&mut self, c: T, th: &mut dyn FnMut(&mut Self) -> RV, el: &mut dyn FnMut(&mut Self) -> RV) -> RV {
        match self.decide(c)? {
            Some(true) => return th(self),
            Some(false) => return el(self),
            None => {}
        }
        let base = self.st.pc.len();
        let ncell = self.st.cells.len();
        let saved = self.st.clone();
        let env_n = self.env.len();
        self.assume(c);
        let v1 = th(self)?;
        self.st.cells.truncate(ncell);
        self.env.truncate(env_n);
        let s1 = std::mem::replace(&mut self.st, saved);
        let nc = self.tm.not(c);
        self.assume(nc);
        let v2 = el(self)?;
        self.st.cells.truncate(ncell);
        self.env.truncate(env_n);
        let s2 = std::mem::replace(&mut self.st, State { cells: vec![], heap: vec![], pc: vec![], pcand: TRUE, dead: false });
        self.join(c, base, s1, v1, s2, v2)
    }
    /// join many (mutually exclusive) states
    pub fn join_all(&mut self, base: usize, ncell: usize, mut v: Vec<(State, V)>) -> RV {
        v.retain(|(s, _)| !s.dead);
        let Some((mut st, mut val)) = v.pop() else {
            self.st.dead = true;
            return Ok(self.never.clone());
        };
        st.cells.truncate(ncell);
        while let Some((mut s, x)) = v.pop() {
            s.cells.truncate(ncell);
            let c = self.tm.and(&s.pc[base..].to_vec());
            val = self.join(c, base, s, x, st, val)?;
            st = std::mem::replace(&mut self.st, State { cells: vec![], heap: vec![], pc: vec![], pcand: TRUE, dead: false });
        }
        self.st = st;
        Ok(val)
    }
    /// run `f` under guard g (no else effect)
    pub fn under(&mut self, g: T, f: &mut dyn FnMut(&mut Self) -> RV) -> RV {
        if g == TRUE {
            return f(self);
        }
        let never = self.never.clone();
        self.branch(g, f, &mut |_| Ok(never.clone()))
    }

    // ---------- places ----------
    pub fn alloc(&mut self, v: V) -> usize {
        self.st.cells.push(v);
        self.st.cells.len() - 1
    }
    pub fn bind(&mut self, name: &str, v: V) {
        let c = self.alloc(v);
        self.env.push((name.into(), c));
    }
    pub fn lookup(&self, name: &str) -> Option<usize> {
        self.env.iter().rev().find(|e| &*e.0 == name).map(|e| e.1)
    }
    pub fn read(&mut self, p: &Place) -> RV {
        let mut v = if p.heap { self.st.heap[p.cell].clone() } else { self.st.cells[p.cell].clone() };
        for s in &p.path {
            v = self.step(&v, s)?;
        }
        Ok(v)
    }
    fn step(&mut self, v: &V, s: &Step) -> RV {
        Ok(match (&**v, s) {
            (Val::Ref(p), _) => {
                let w = self.read(&p.clone())?;
                self.step(&w, s)?
            }
            (Val::Tuple(x), Step::Field(i)) | (Val::Struct(_, x), Step::Field(i)) => x[*i].clone(),
            (Val::List(x), Step::Slot(i)) => x[*i].1.clone(),
            (Val::Map(_, x), Step::MapVal(i)) => x[*i].2.clone(),
            (Val::Enum(_, alts), Step::Payload(k, i)) => match alts.iter().find(|a| a.1 == *k) {
                Some(a) => a.2[*i].clone(),
                None => self.never.clone(),
            },
            (Val::Never, _) => v.clone(),
            _ => return unsup(format!("place step {:?} into {}", s, v.kind())),
        })
    }
    pub fn write(&mut self, p: &Place, nv: V) -> R<()> {
        // follow a Ref met on the way
        let mut cur = if p.heap { self.st.heap[p.cell].clone() } else { self.st.cells[p.cell].clone() };
        for (i, s) in p.path.iter().enumerate() {
            if let Val::Ref(q) = &*cur {
                let mut q2 = q.clone();
                q2.path.extend(p.path[i..].iter().cloned());
                return self.write(&q2, nv);
            }
            cur = self.step(&cur, s)?;
        }
        drop(cur);
        let slot = if p.heap { &mut self.st.heap[p.cell] } else { &mut self.st.cells[p.cell] };
        fn go(v: &mut V, path: &[Step], nv: V) {
            if path.is_empty() {
                *v = nv;
                return;
            }
            let m = Rc::make_mut(v);
            match (m, &path[0]) {
                (Val::Tuple(x), Step::Field(i)) | (Val::Struct(_, x), Step::Field(i)) => go(&mut x[*i], &path[1..], nv),
                (Val::List(x), Step::Slot(i)) => go(&mut x[*i].1, &path[1..], nv),
                (Val::Map(_, x), Step::MapVal(i)) => go(&mut x[*i].2, &path[1..], nv),
                (Val::Enum(_, alts), Step::Payload(k, i)) => {
                    if let Some(a) = alts.iter_mut().find(|a| a.1 == *k) {
                        go(&mut a.2[*i], &path[1..], nv)
                    }
                }
                _ => {}
            }
        }
        go(slot, &p.path, nv);
        Ok(())
    }
    /// modify in place without keeping a second reference (so that Rc::make_mut does not copy)
    pub fn with_mut<X>(&mut self, p: &Place, f: impl FnOnce(&mut Val) -> X) -> R<X> {
        let mut cur = if p.heap { self.st.heap[p.cell].clone() } else { self.st.cells[p.cell].clone() };
        for (i, s) in p.path.iter().enumerate() {
            if let Val::Ref(q) = &*cur {
                let mut q2 = q.clone();
                q2.path.extend(p.path[i..].iter().cloned());
                return self.with_mut(&q2, f);
            }
            cur = self.step(&cur, s)?;
        }
        if let Val::Ref(q) = &*cur {
            let q2 = q.clone();
            return self.with_mut(&q2, f);
        }
        drop(cur);
        let mut v: &mut V = if p.heap { &mut self.st.heap[p.cell] } else { &mut self.st.cells[p.cell] };
        for s in &p.path {
            let m = Rc::make_mut(v);
            v = match (m, s) {
                (Val::Tuple(x), Step::Field(i)) | (Val::Struct(_, x), Step::Field(i)) => &mut x[*i],
                (Val::List(x), Step::Slot(i)) => &mut x[*i].1,
                (Val::Map(_, x), Step::MapVal(i)) => &mut x[*i].2,
                (Val::Enum(_, alts), Step::Payload(k, i)) => match alts.iter_mut().find(|a| a.1 == *k) {
                    Some(a) => &mut a.2[*i],
                    None => return unsup("payload of an absent variant"),
                },
                _ => return unsup("with_mut path"),
            };
        }
        Ok(f(Rc::make_mut(v)))
    }
    pub fn deref(&mut self, v: &V) -> RV {
        let mut v = v.clone();
        while let Val::Ref(p) = &*v {
            let p = p.clone();
            v = self.read(&p)?;
        }
        Ok(v)
    }
    pub fn field_index(&self, sname: &str, f: &str) -> Option<usize> {
        self.prog.structs.get(sname)?.fields.iter().position(|x| x.0 == f)
    }
    /// place of an expression, if it denotes one
    pub fn place(&mut self, e: &'static Expr) -> R<Option<Place>> {
        match e {
            Expr::Paren(p) => self.place(&p.expr),
            Expr::Group(p) => self.place(&p.expr),
            Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                Ok(self.lookup(&n).map(|c| Place { heap: false, cell: c, path: vec![] }))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(pl) = self.place(&u.expr)? {
                    let v = self.read(&pl)?;
                    return Ok(Some(match &*v {
                        Val::Ref(q) => q.clone(),
                        _ => pl,
                    }));
                }
                let v = self.eval(&u.expr)?;
                Ok(match &*v {
                    Val::Ref(q) => Some(q.clone()),
                    _ => None,
                })
            }
            Expr::Field(f) => {
                let base = match self.place(&f.base)? {
                    Some(p) => Some(p),
                    None => {
                        let v = self.eval(&f.base)?;
                        match &*v {
                            Val::Ref(q) => Some(q.clone()),
                            _ => {
                                if self.st.dead {
                                    return Ok(None);
                                }
                                // rvalue base: materialise
                                let c = self.alloc(v.clone());
                                Some(Place { heap: false, cell: c, path: vec![] })
                            }
                        }
                    }
                };
                let Some(mut pl) = base else { return Ok(None) };
                let mut v = self.read(&pl)?;
                while let Val::Ref(q) = &*v {
                    pl = q.clone();
                    v = self.read(&pl)?;
                }
                let i = match (&*v, &f.member) {
                    (Val::Struct(n, _), Member::Named(id)) => match self.field_index(n, &id.to_string()) {
                        Some(i) => i,
                        None => return self.unsup(e, format!("unknown field {} of {}", id, n)),
                    },
                    (_, Member::Unnamed(ix)) => ix.index as usize,
                    (Val::Never, _) => return Ok(None),
                    _ => return self.unsup(e, format!("field access on {}", v.kind())),
                };
                pl.path.push(Step::Field(i));
                Ok(Some(pl))
            }
            Expr::Index(ix) => {
                let base = match self.place(&ix.expr)? {
                    Some(p) => p,
                    None => {
                        let v = self.eval(&ix.expr)?;
                        match &*v {
                            Val::Ref(q) => q.clone(),
                            _ => {
                                let c = self.alloc(v.clone());
                                Place { heap: false, cell: c, path: vec![] }
                            }
                        }
                    }
                };
                let mut pl = base;
                let mut v = self.read(&pl)?;
                while let Val::Ref(q) = &*v {
                    pl = q.clone();
                    v = self.read(&pl)?;
                }
                let idx = self.eval(&ix.index)?;
                if self.st.dead {
                    return Ok(None);
                }
                let idx = self.deref(&idx)?;
                match (&*v, &*idx) {
                    (Val::List(xs), Val::I(t, _)) => {
                        if let Some(k) = self.tm.as_int(*t) {
                            if xs.iter().all(|x| x.0 == TRUE) {
                                if k < 0 || k as usize >= xs.len() {
                                    let l = self.loc(e);
                                    self.obligation(FALSE, "index in range", l, true);
                                    self.st.dead = true;
                                    return Ok(None);
                                }
                                self.checks += 1;
                                self.trivially += 1;
                                pl.path.push(Step::Slot(k as usize));
                                return Ok(Some(pl));
                            }
                        }
                        Ok(None)
                    }
                    _ => Ok(None),
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "as_mut_slice" | "by_ref") => self.place(&m.receiver),
            _ => Ok(None),
        }
    }
    pub fn all_true(xs: &[(T, V)]) -> bool {
        xs.iter().all(|x| x.0 == TRUE)
    }
    /// positions (count of present slots before each slot)
    pub fn positions(&mut self, xs: &[(T, V)]) -> Vec<T> {
        let mut out = Vec::with_capacity(xs.len());
        let zero = self.tm.int(0);
        let one = self.tm.int(1);
        let mut acc = zero;
        for (g, _) in xs {
            out.push(acc);
            let i = self.tm.ite(*g, one, zero);
            acc = self.tm.add(acc, i);
        }
        out.push(acc);
        out
    }
    /// (in-range condition, slot conditions) for index t
    pub fn slot_conds(&mut self, xs: &[(T, V)], t: T) -> (T, Vec<T>) {
        let mut cs = Vec::with_capacity(xs.len());
        if Self::all_true(xs) {
            for i in 0..xs.len() {
                let k = self.tm.int(i as i128);
                cs.push(self.tm.eq(t, k));
            }
        } else {
            let pos = self.positions(xs);
            for (i, (g, _)) in xs.iter().enumerate() {
                let e = self.tm.eq(pos[i], t);
                cs.push(self.tm.and2(*g, e));
            }
        }
        let inr = self.tm.or(&cs);
        (inr, cs)
    }
    /// read list element at symbolic index; the caller has already checked the range
    pub fn select(&mut self, xs: &[(T, V)], cs: &[T]) -> RV {
        if self.path_mode {
            let live: Vec<usize> = (0..xs.len()).filter(|i| cs[*i] != FALSE).collect();
            if live.is_empty() {
                return Err(Stop::Cut);
            }
            if live.len() == 1 {
                return Ok(xs[live[0]].1.clone());
            }
            // small scalars are merged, everything else is split
            if !matches!(&*xs[live[0]].1, Val::I(..) | Val::F(_) | Val::B(_)) {
                let conds: Vec<T> = live.iter().map(|i| cs[*i]).collect();
                let k = self.choose_feasible(&conds)?;
                return Ok(xs[live[k]].1.clone());
            }
        }
        let mut acc: Option<V> = None;
        for i in (0..xs.len()).rev() {
            if cs[i] == FALSE {
                continue;
            }
            acc = Some(match acc {
                None => xs[i].1.clone(),
                Some(a) => self.merge(cs[i], &xs[i].1, &a)?,
            });
        }
        Ok(acc.unwrap_or_else(|| self.never.clone()))
    }
    pub fn index_value(&mut self, v: &V, idx: &V, loc: String) -> RV {
        match (&**v, &**idx) {
            (Val::List(xs), Val::I(t, _)) => {
                let (inr, cs) = self.slot_conds(xs, *t);
                self.obligation(inr, "index in range", loc, true);
                if inr == FALSE || self.st.dead {
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                self.select(xs, &cs)
            }
            (Val::List(xs), Val::Range(a, b, incl)) => {
                if !Self::all_true(xs) {
                    return unsup("slice of a guarded list");
                }
                let a = match a {
                    Some(x) => self.as_conc(x)?,
                    None => 0,
                };
                let b = match b {
                    Some(x) => self.as_conc(x)? + if *incl { 1 } else { 0 },
                    None => xs.len() as i128,
                };
                if a < 0 || a > b || b > xs.len() as i128 {
                    self.obligation(FALSE, "slice range in bounds", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                Ok(rc(Val::List(xs[a as usize..b as usize].to_vec())))
            }
            (Val::Map(false, xs), _) => {
                let r = self.map_get(&xs.clone(), idx)?;
                let (g, v) = self.opt_parts(&r)?;
                self.obligation(g, "map key present", loc, true);
                Ok(v)
            }
            _ => unsup(format!("index {} by {}", v.kind(), idx.kind())),
        }
    }
    pub fn as_conc(&mut self, v: &V) -> R<i128> {
        let v = self.deref(v)?;
        match &*v {
            Val::I(t, _) => match self.tm.as_int(*t) {
                Some(k) => Ok(k),
                None => self.concretise(*t),
            },
            _ => unsup(format!("expected an integer, got {}", v.kind())),
        }
    }
    pub fn as_t(&mut self, v: &V) -> R<T> {
        let v = self.deref(v)?;
        match &*v {
            Val::I(t, _) | Val::F(t) | Val::B(t) => Ok(*t),
            _ => unsup(format!("expected a scalar, got {}", v.kind())),
        }
    }
    pub fn as_bool(&mut self, v: &V) -> R<T> {
        let v = self.deref(v)?;
        match &*v {
            Val::B(t) => Ok(*t),
            Val::Never => Ok(FALSE),
            _ => unsup(format!("expected a bool, got {}", v.kind())),
        }
    }
    /// (is_some, payload)
    pub fn opt_parts(&mut self, v: &V) -> R<(T, V)> {
        let v = self.deref(v)?;
        match &*v {
            Val::Enum(n, alts) if &**n == "Option" || &**n == "Result" => {
                let mut g = FALSE;
                let mut p = self.never.clone();
                for a in alts {
                    if &*a.1 == "Some" || &*a.1 == "Ok" {
                        g = a.0;
                        p = a.2[0].clone();
                    }
                }
                Ok((g, p))
            }
            _ => unsup(format!("expected an option, got {}", v.kind())),
        }
    }

    // ---------- equality ----------
    pub fn eq(&mut self, a: &V, b: &V) -> R<T> {
        if Rc::ptr_eq(a, b) {
            if let Val::Ref(_) = &**a {
            } else {
                return Ok(TRUE);
            }
        }
        let (a, b) = (self.deref(a)?, self.deref(b)?);
        if Rc::ptr_eq(&a, &b) {
            return Ok(TRUE);
        }
        Ok(match (&*a, &*b) {
            (Val::Unit, Val::Unit) => TRUE,
            (Val::B(x), Val::B(y)) => self.tm.iff(*x, *y),
            (Val::I(x, _), Val::I(y, _)) | (Val::F(x), Val::F(y)) => self.tm.eq(*x, *y),
            (Val::Str(x), Val::Str(y)) => self.tm.bool(x == y),
            (Val::Opaque(x), Val::Opaque(y)) if x == y => TRUE,
            (Val::Tuple(x), Val::Tuple(y)) => {
                if x.len() != y.len() {
                    return Ok(FALSE);
                }
                let mut cs = vec![];
                for (p, q) in x.iter().zip(y) {
                    let c = self.eq(p, q)?;
                    if c == FALSE {
                        return Ok(FALSE);
                    }
                    cs.push(c);
                }
                self.tm.and(&cs)
            }
            (Val::Struct(n, x), Val::Struct(m, y)) => {
                if n != m {
                    return Ok(FALSE);
                }
                if let Some(d) = self.prog.method(n, "eq", false) {
                    let r = self.call_fn(d, vec![a.clone(), b.clone()], None, None)?;
                    return self.as_bool(&r);
                }
                let mut cs = vec![];
                for (p, q) in x.iter().zip(y) {
                    let c = self.eq(p, q)?;
                    if c == FALSE {
                        return Ok(FALSE);
                    }
                    cs.push(c);
                }
                self.tm.and(&cs)
            }
            (Val::Enum(n, x), Val::Enum(m, y)) => {
                if n != m {
                    return Ok(FALSE);
                }
                let mut ors = vec![];
                for (g, k, p) in x {
                    for (h, l, q) in y {
                        if k != l {
                            continue;
                        }
                        let mut cs = vec![*g, *h];
                        for (u, w) in p.iter().zip(q) {
                            cs.push(self.eq(u, w)?);
                        }
                        ors.push(self.tm.and(&cs));
                    }
                }
                self.tm.or(&ors)
            }
            (Val::List(x), Val::List(y)) => {
                if x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0) {
                    let mut cs = vec![];
                    for (p, q) in x.iter().zip(y) {
                        let mut c = self.eq(&p.1, &q.1)?;
                        if p.0 != TRUE {
                            c = self.tm.implies(p.0, c);
                        }
                        if c == FALSE {
                            return Ok(FALSE);
                        }
                        cs.push(c);
                    }
                    return Ok(self.tm.and(&cs));
                }
                if Self::all_true(x) && Self::all_true(y) {
                    return Ok(FALSE);
                }
                if x.len() * y.len() > 40_000 {
                    return unsup("comparison of two large guarded lists");
                }
                let (px, py) = (self.positions(x), self.positions(y));
                let mut cs = vec![self.tm.eq(px[x.len()], py[y.len()])];
                for (i, (g, u)) in x.iter().enumerate() {
                    for (j, (h, w)) in y.iter().enumerate() {
                        let e = self.eq(u, w)?;
                        if e == TRUE {
                            continue;
                        }
                        let s = self.tm.eq(px[i], py[j]);
                        let pre = self.tm.and(&[*g, *h, s]);
                        let c = self.tm.implies(pre, e);
                        cs.push(c);
                    }
                }
                self.tm.and(&cs)
            }
            (Val::Map(_, x), Val::Map(_, y)) => {
                let mut cs = vec![];
                for (p, q) in [(x, y), (y, x)] {
                    for (g, k, v) in p.iter() {
                        let mut ors = vec![];
                        for (h, l, w) in q.iter() {
                            let ek = self.eq(k, l)?;
                            if ek == FALSE {
                                continue;
                            }
                            let evv = self.eq(v, w)?;
                            ors.push(self.tm.and(&[*h, ek, evv]));
                        }
                        let o = self.tm.or(&ors);
                        cs.push(self.tm.implies(*g, o));
                    }
                }
                self.tm.and(&cs)
            }
            (Val::Tensor(x), Val::Tensor(y)) => {
                if x.shape != y.shape {
                    return Ok(FALSE);
                }
                let (dx, dy) = (self.tdata(x)?, self.tdata(y)?);
                let mut cs = vec![];
                for (p, q) in dx.iter().zip(&dy) {
                    cs.push(self.tm.eq(*p, *q));
                }
                self.tm.and(&cs)
            }
            (Val::Range(..), Val::Range(..)) => return unsup("range equality"),
            (Val::Never, _) | (_, Val::Never) => FALSE,
            _ => return unsup(format!("comparison of {} and {}", a.kind(), b.kind())),
        })
    }
    /// lexicographic a < b
    pub fn less(&mut self, a: &V, b: &V) -> R<T> {
        let (a, b) = (self.deref(a)?, self.deref(b)?);
        Ok(match (&*a, &*b) {
            (Val::I(x, _), Val::I(y, _)) | (Val::F(x), Val::F(y)) => self.tm.lt(*x, *y),
            (Val::B(x), Val::B(y)) => {
                let nx = self.tm.not(*x);
                self.tm.and2(nx, *y)
            }
            (Val::Tuple(x), Val::Tuple(y)) => {
                let mut acc = FALSE;
                for (p, q) in x.iter().zip(y).rev() {
                    let l = self.less(p, q)?;
                    let e = self.eq(p, q)?;
                    let t = self.tm.and2(e, acc);
                    acc = self.tm.or2(l, t);
                }
                acc
            }
            (Val::List(x), Val::List(y)) if Self::all_true(x) && Self::all_true(y) => {
                let mut acc = self.tm.bool(x.len() < y.len());
                for (p, q) in x.iter().zip(y).rev() {
                    let l = self.less(&p.1, &q.1)?;
                    let e = self.eq(&p.1, &q.1)?;
                    let t = self.tm.and2(e, acc);
                    acc = self.tm.or2(l, t);
                }
                acc
            }
            (Val::Str(x), Val::Str(y)) => self.tm.bool(x < y),
            _ => return unsup(format!("ordering of {} and {}", a.kind(), b.kind())),
        })
    }
    pub fn ordering(&mut self, a: &V, b: &V) -> RV {
        let l = self.less(a, b)?;
        let e = self.eq(a, b)?;
        let ne = self.tm.not(e);
        let nl = self.tm.not(l);
        let g = self.tm.and2(nl, ne);
        let l = self.tm.and2(l, ne);
        let mut alts = vec![(l, Rc::from("Less"), vec![]), (e, Rc::from("Equal"), vec![]), (g, Rc::from("Greater"), vec![])];
        alts.retain(|x: &(T, Rc<str>, Vec<V>)| x.0 != FALSE);
        Ok(rc(Val::Enum("Ordering".into(), alts)))
    }
    pub fn variant_guard(&self, v: &Val, name: &str) -> T {
        match v {
            Val::Enum(_, alts) => alts.iter().find(|a| &*a.1 == name).map(|a| a.0).unwrap_or(FALSE),
            _ => FALSE,
        }
    }

    // ---------- types ----------
    pub fn tname(&self, t: &Type) -> Option<Rc<str>> {
        let n = ty_name(t)?;
        if n == "Self" {
            return self.ctx.self_ty.clone();
        }
        if let Some((_, c)) = self.ctx.targs.iter().find(|(k, _)| *k == n) {
            return Some(c.clone());
        }
        Some(n.as_str().into())
    }
    fn has_lit(v: &Val) -> bool {
        match v {
            Val::I(_, ITy::Lit) => true,
            Val::Tuple(x) | Val::Struct(_, x) => x.iter().any(|y| Self::has_lit(y)),
            Val::List(x) => x.first().map(|y| Self::has_lit(&y.1)).unwrap_or(false),
            Val::Enum(_, a) => a.iter().any(|y| y.2.iter().any(|z| Self::has_lit(z))),
            Val::Range(a, b, _) => a.as_ref().map(|x| Self::has_lit(x)).unwrap_or(false) || b.as_ref().map(|x| Self::has_lit(x)).unwrap_or(false),
            _ => false,
        }
    }
    pub fn coerce(&mut self, v: V, t: &Type) -> V {
        if let (Type::Path(p), Val::List(xs)) = (t, &*v) {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if matches!(n.as_str(), "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet") || (matches!(n.as_str(), "Option" | "Result") && xs.iter().all(|x| matches!(&*x.1, Val::Enum(e, _) if **e == *n))) {
                // what `collect` was asked for
                let xs = xs.clone();
                if let Ok(m) = self.collect(xs, &n) {
                    return m;
                }
            }
        }
        if !Self::has_lit(&v) {
            return v;
        }
        match t {
            Type::Reference(r) => self.coerce(v, &r.elem),
            Type::Paren(r) => self.coerce(v, &r.elem),
            Type::Group(r) => self.coerce(v, &r.elem),
            Type::Array(a) => self.coerce_list(v, &a.elem),
            Type::Slice(a) => self.coerce_list(v, &a.elem),
            Type::Tuple(tt) => match &*v {
                Val::Tuple(xs) => {
                    let o = xs.iter().zip(tt.elems.iter()).map(|(x, t)| self.coerce(x.clone(), t)).collect();
                    rc(Val::Tuple(o))
                }
                _ => v,
            },
            Type::Path(p) => {
                let seg = p.path.segments.last().unwrap();
                let n = seg.ident.to_string();
                if let Some(it) = ITy::parse(&n) {
                    return match &*v {
                        Val::I(t, ITy::Lit) => rc(Val::I(*t, it)),
                        _ => v,
                    };
                }
                if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                    let first = ab.args.iter().find_map(|a| match a {
                        GenericArgument::Type(t) => Some(t),
                        _ => None,
                    });
                    if let Some(t0) = first {
                        match &*v {
                            Val::List(_) => return self.coerce_list(v, t0),
                            Val::Enum(n, alts) if &**n == "Option" || &**n == "Result" => {
                                let mut o = vec![];
                                for (g, k, p) in alts {
                                    let p = p.iter().map(|x| self.coerce(x.clone(), t0)).collect();
                                    o.push((*g, k.clone(), p));
                                }
                                return rc(Val::Enum(n.clone(), o));
                            }
                            _ => {}
                        }
                    }
                }
                // alias, T::Move, Self::Move
                let key = if p.path.segments.len() == 2 {
                    let f = p.path.segments[0].ident.to_string();
                    let owner = if f == "Self" { self.ctx.self_ty.as_ref().map(|s| s.to_string()) } else { self.ctx.targs.iter().find(|x| x.0 == f).map(|x| x.1.to_string()) };
                    format!("{}::{}", owner.unwrap_or(f), n)
                } else {
                    n
                };
                if let Some(t) = self.prog.aliases.get(&key) {
                    return self.coerce(v, t);
                }
                v
            }
            _ => v,
        }
    }
    fn coerce_list(&mut self, v: V, t: &Type) -> V {
        match &*v {
            Val::List(xs) => {
                let o = xs.iter().map(|(g, x)| (*g, self.coerce(x.clone(), t))).collect();
                rc(Val::List(o))
            }
            _ => v,
        }
    }

    // ---------- patterns ----------
    /// matches `v` (a value or a Ref) against a pattern: condition and bindings
    pub fn pat(&mut self, p: &'static Pat, v: &V, out: &mut Vec<(Rc<str>, V)>) -> R<T> {
        match p {
            Pat::Wild(_) | Pat::Rest(_) => Ok(TRUE),
            Pat::Paren(p) => self.pat(&p.pat, v, out),
            Pat::Type(t) => {
                let w = self.coerce(v.clone(), &t.ty);
                self.pat(&t.pat, &w, out)
            }
            Pat::Reference(r) => {
                let w = self.deref(v)?;
                self.pat(&r.pat, &w, out)
            }
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                    let d = self.deref(v)?;
                    if let Val::Enum(en, _) = &*d {
                        let known = match &**en {
                            "Option" => n == "None",
                            "Ordering" => matches!(n.as_str(), "Less" | "Equal" | "Greater"),
                            _ => self.prog.enums.get(&**en).map(|e| e.variants.iter().any(|x| x.0 == n)).unwrap_or(false) && n.chars().next().unwrap().is_uppercase(),
                        };
                        if known {
                            return Ok(self.variant_guard(&d, &n));
                        }
                    }
                    if n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && self.prog.consts.contains_key(&n) {
                        let c = self.prog.constant(std::slice::from_ref(&n), self.ctx.f).unwrap();
                        let cv = self.eval(&c.expr)?;
                        let cv = self.coerce(cv, &c.ty);
                        return self.eq(&d, &cv);
                    }
                }
                out.push((n.as_str().into(), v.clone()));
                match &i.subpat {
                    Some((_, sp)) => self.pat(sp, v, out),
                    None => Ok(TRUE),
                }
            }
            Pat::Lit(l) => {
                let lv = self.lit(&l.lit)?;
                self.eq(v, &lv)
            }
            Pat::Range(r) => {
                let d = self.deref(v)?;
                let t = self.as_t(&d)?;
                let mut cs = vec![];
                if let Some(s) = &r.start {
                    let x = self.eval(s)?;
                    let x = self.as_t(&x)?;
                    cs.push(self.tm.le(x, t));
                }
                if let Some(s) = &r.end {
                    let x = self.eval(s)?;
                    let x = self.as_t(&x)?;
                    let c = if matches!(r.limits, RangeLimits::HalfOpen(_)) { self.tm.lt(t, x) } else { self.tm.le(t, x) };
                    cs.push(c);
                }
                Ok(self.tm.and(&cs))
            }
            Pat::Tuple(t) => self.pat_fields(&t.elems, v, None, out),
            Pat::TupleStruct(t) => {
                let name = t.path.segments.last().unwrap().ident.to_string();
                let d = self.deref(v)?;
                match &*d {
                    Val::Enum(..) => {
                        let g = self.variant_guard(&d, &name);
                        if g == FALSE {
                            // still need bindings for scoping; bind to never
                            let nv = self.never.clone();
                            for p in &t.elems {
                                self.bind_never(p, &nv, out);
                            }
                            return Ok(FALSE);
                        }
                        let c = self.pat_fields(&t.elems, v, Some(name.as_str().into()), out)?;
                        Ok(self.tm.and2(g, c))
                    }
                    Val::Struct(..) => self.pat_fields(&t.elems, v, None, out),
                    Val::Never => {
                        let nv = self.never.clone();
                        for p in &t.elems {
                            self.bind_never(p, &nv, out);
                        }
                        Ok(FALSE)
                    }
                    _ => self.unsup(p, format!("tuple-struct pattern on {}", d.kind())),
                }
            }
            Pat::Path(pp) => {
                let name = pp.path.segments.last().unwrap().ident.to_string();
                let d = self.deref(v)?;
                match &*d {
                    Val::Enum(..) => Ok(self.variant_guard(&d, &name)),
                    _ => {
                        let e: &'static Expr = Box::leak(Box::new(Expr::Path(ExprPath { attrs: vec![], qself: pp.qself.clone(), path: pp.path.clone() })));
                        let c = self.eval(e)?;
                        self.eq(&d, &c)
                    }
                }
            }
            Pat::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let d = self.deref(v)?;
                let (g, variant) = match &*d {
                    Val::Struct(..) => (TRUE, None),
                    Val::Enum(..) => (self.variant_guard(&d, &name), Some(name.clone())),
                    _ => return self.unsup(p, "struct pattern"),
                };
                let mut cs = vec![g];
                for f in &s.fields {
                    let fname = match &f.member {
                        Member::Named(i) => i.to_string(),
                        Member::Unnamed(i) => i.index.to_string(),
                    };
                    let step = match (&*d, &variant) {
                        (Val::Struct(n, _), _) => match self.field_index(n, &fname) {
                            Some(i) => Step::Field(i),
                            None => return self.unsup(p, "field"),
                        },
                        (Val::Enum(n, _), Some(k)) => {
                            let e = &self.prog.enums[&**n];
                            let vr = e.variants.iter().find(|x| x.0 == *k).unwrap();
                            Step::Payload(k.as_str().into(), vr.1.iter().position(|x| *x == fname).unwrap())
                        }
                        _ => unreachable!(),
                    };
                    let sub = self.sub_value(v, &d, step)?;
                    cs.push(self.pat(&f.pat, &sub, out)?);
                }
                Ok(self.tm.and(&cs))
            }
            Pat::Slice(s) => {
                let d = self.deref(v)?;
                match &*d {
                    Val::List(xs) if Self::all_true(xs) => {
                        let rest = s.elems.iter().position(|p| matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.as_ref().map(|x| matches!(&*x.1, Pat::Rest(_))).unwrap_or(false)));
                        let n = s.elems.len();
                        let ok = match rest {
                            Some(_) => xs.len() >= n - 1,
                            None => xs.len() == n,
                        };
                        if !ok {
                            let nv = self.never.clone();
                            for p in &s.elems {
                                self.bind_never(p, &nv, out);
                            }
                            return Ok(FALSE);
                        }
                        let mut cs = vec![];
                        for (i, p) in s.elems.iter().enumerate() {
                            match rest {
                                Some(r) if i == r => {
                                    if let Pat::Ident(id) = p {
                                        let sl = xs[r..xs.len() - (n - 1 - r)].to_vec();
                                        out.push((id.ident.to_string().as_str().into(), rc(Val::List(sl))));
                                    }
                                }
                                _ => {
                                    let k = match rest {
                                        Some(r) if i > r => xs.len() - (n - i),
                                        _ => i,
                                    };
                                    let sub = self.sub_value(v, &d, Step::Slot(k))?;
                                    cs.push(self.pat(p, &sub, out)?);
                                }
                            }
                        }
                        Ok(self.tm.and(&cs))
                    }
                    _ => self.unsup(p, "slice pattern on a guarded list"),
                }
            }
            Pat::Or(o) => {
                let mut cs = vec![];
                let mut first: Option<Vec<(Rc<str>, V)>> = None;
                for c in &o.cases {
                    let mut b = vec![];
                    let t = self.pat(c, v, &mut b)?;
                    match &mut first {
                        None => first = Some(b),
                        Some(f) => {
                            for (n, val) in b {
                                if let Some(e) = f.iter_mut().find(|e| e.0 == n) {
                                    let prev = self.tm.or(&cs);
                                    e.1 = self.merge(prev, &e.1.clone(), &val)?;
                                }
                            }
                        }
                    }
                    cs.push(t);
                }
                out.extend(first.unwrap_or_default());
                Ok(self.tm.or(&cs))
            }
            _ => self.unsup(p, "pattern"),
        }
    }
    fn bind_never(&mut self, p: &'static Pat, nv: &V, out: &mut Vec<(Rc<str>, V)>) {
        match p {
            Pat::Ident(i) => out.push((i.ident.to_string().as_str().into(), nv.clone())),
            Pat::Tuple(t) => t.elems.iter().for_each(|p| self.bind_never(p, nv, out)),
            Pat::TupleStruct(t) => t.elems.iter().for_each(|p| self.bind_never(p, nv, out)),
            Pat::Struct(t) => t.fields.iter().for_each(|p| self.bind_never(&p.pat, nv, out)),
            Pat::Reference(r) => self.bind_never(&r.pat, nv, out),
            Pat::Paren(r) => self.bind_never(&r.pat, nv, out),
            _ => {}
        }
    }
    /// component of v: stays a Ref when v is one (default binding modes)
    fn sub_value(&mut self, v: &V, d: &V, s: Step) -> RV {
        if let Val::Ref(p) = &**v {
            // resolve chains of refs so that the place is direct
            let mut p = p.clone();
            loop {
                let w = self.read(&p)?;
                match &*w {
                    Val::Ref(q) => p = q.clone(),
                    _ => break,
                }
            }
            let inner = self.step(d, &s)?;
            if let Val::Ref(_) = &*inner {
                return Ok(inner);
            }
            p.path.push(s);
            return Ok(rc(Val::Ref(p)));
        }
        self.step(d, &s)
    }
    fn pat_fields(&mut self, elems: &'static punctuated::Punctuated<Pat, Token![,]>, v: &V, variant: Option<Rc<str>>, out: &mut Vec<(Rc<str>, V)>) -> R<T> {
        let d = self.deref(v)?;
        let n = match (&*d, &variant) {
            (Val::Tuple(x), _) | (Val::Struct(_, x), None) => x.len(),
            (Val::Enum(_, alts), Some(k)) => alts.iter().find(|a| a.1 == *k).map(|a| a.2.len()).unwrap_or(0),
            (Val::Never, _) => {
                let nv = self.never.clone();
                for p in elems {
                    self.bind_never(p, &nv, out);
                }
                return Ok(FALSE);
            }
            _ => return unsup(format!("tuple pattern on {}", d.kind())),
        };
        let rest = elems.iter().position(|p| matches!(p, Pat::Rest(_)));
        let mut cs = vec![];
        let m = elems.len();
        for (i, p) in elems.iter().enumerate() {
            let k = match rest {
                Some(r) if i == r => continue,
                Some(r) if i > r => n - (m - i),
                _ => i,
            };
            let s = match &variant {
                Some(vn) => Step::Payload(vn.clone(), k),
                None => Step::Field(k),
            };
            let sub = self.sub_value(v, &d, s)?;
            cs.push(self.pat(p, &sub, out)?);
        }
        Ok(self.tm.and(&cs))
    }
    pub fn bind_pat(&mut self, p: &'static Pat, v: &V) -> R<T> {
        let mut b = vec![];
        let c = self.pat(p, v, &mut b)?;
        for (n, x) in b {
            self.bind(&n, x);
        }
        Ok(c)
    }
    pub fn lit(&mut self, l: &Lit) -> RV {
        Ok(match l {
            Lit::Int(i) => {
                let n: i128 = i.base10_parse().map_err(|e| Stop::Unsupported(e.to_string()))?;
                let s = i.suffix();
                if s == "f32" || s == "f64" {
                    let t = self.tm.real(Rat::int(n));
                    return Ok(self.vf(t));
                }
                self.vi(n, ITy::parse(s).unwrap_or(ITy::Lit))
            }
            Lit::Float(f) => {
                let t = self.parse_real(f.base10_digits())?;
                self.vf(t)
            }
            Lit::Bool(b) => {
                let t = self.tm.bool(b.value);
                self.vb(t)
            }
            Lit::Str(s) => rc(Val::Str(s.value().as_str().into())),
            Lit::Char(c) => rc(Val::Str(c.value().to_string().as_str().into())),
            Lit::Byte(b) => self.vi(b.value() as i128, ITy::U8),
            _ => return unsup("literal"),
        })
    }
    pub fn parse_real(&mut self, s: &str) -> R<T> {
        let s = s.replace('_', "");
        let (mant, exp) = match s.find(['e', 'E']) {
            Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().unwrap_or(0)),
            None => (s.clone(), 0),
        };
        let (ip, fp) = match mant.find('.') {
            Some(i) => (mant[..i].to_string(), mant[i + 1..].to_string()),
            None => (mant.clone(), String::new()),
        };
        let digits: i128 = format!("{}{}", ip, fp).parse().unwrap_or(0);
        let e = exp - fp.len() as i32;
        if e.abs() > 30 {
            return unsup("float literal range");
        }
        let r = if e >= 0 { Rat::int(digits * 10i128.pow(e as u32)) } else { Rat::new(digits, 10i128.pow((-e) as u32)) };
        Ok(self.tm.real(r))
    }
}
