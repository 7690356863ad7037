//! Hash-consed terms over Bool / Int / Real with a simplifying constructor for every node.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn zero() -> Rat {
        Rat { n: 0, d: 1 }
    }
    pub fn one() -> Rat {
        Rat { n: 1, d: 1 }
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n + o.n, d: 1 };
        }
        Rat::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n * o.n, d: 1 };
        }
        Rat::new(self.n * o.n, self.d * o.d)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn le0(self) -> bool {
        self.n <= 0
    }
    pub fn lt(self, o: Rat) -> bool {
        self.n * o.d < o.n * self.d
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Int,
    Real,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    True,
    False,
    BVar(u32),
    Not(T),
    And(Rc<[T]>),
    Or(Rc<[T]>),
    Num(Rat, bool),
    IVar(u32),
    RVar(u32),
    Lin(Rat, Rc<[(T, Rat)]>, bool),
    Ite(T, T, T),
    Le0(T),
    Eq0(T),
    Mul(T, T),
    DivI(T, i64),
    ModI(T, i64),
    DivR(T, T),
    ToReal(T),
    App(u32, Rc<[T]>, Sort),
}

pub struct Terms {
    pub var_sets: HashMap<T, std::rc::Rc<Vec<u32>>>,
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    iv: Vec<Option<(i128, i128)>>,
    sorts: Vec<Sort>,
    pub names: Vec<String>,
    name_map: HashMap<String, u32>,
    pub var_range: HashMap<u32, (i128, i128)>,
    not_memo: HashMap<T, T>,
    and_memo: HashMap<(T, T), T>,
    ite_memo: HashMap<(T, T, T), T>,
    push_depth: u32,
}

pub const TRUE: T = 0;
pub const FALSE: T = 1;

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            var_sets: HashMap::new(),
            nodes: vec![],
            map: HashMap::new(),
            iv: vec![],
            sorts: vec![],
            names: vec![],
            name_map: HashMap::new(),
            var_range: HashMap::new(),
            not_memo: HashMap::new(),
            and_memo: HashMap::new(),
            ite_memo: HashMap::new(),
            push_depth: 0,
        };
        t.mk(Node::True);
        t.mk(Node::False);
        t
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let id = self.nodes.len() as T;
        let (sort, iv) = self.info(&n);
        self.nodes.push(n.clone());
        self.map.insert(n, id);
        self.iv.push(iv);
        self.sorts.push(sort);
        id
    }

    fn info(&self, n: &Node) -> (Sort, Option<(i128, i128)>) {
        match n {
            Node::True | Node::False | Node::BVar(_) | Node::Not(_) | Node::And(_) | Node::Or(_) | Node::Le0(_) | Node::Eq0(_) => (Sort::Bool, None),
            Node::Num(r, real) => {
                if *real {
                    (Sort::Real, None)
                } else {
                    (Sort::Int, Some((r.n, r.n)))
                }
            }
            Node::IVar(v) => (Sort::Int, self.var_range.get(v).copied()),
            Node::RVar(_) => (Sort::Real, None),
            Node::Lin(c, xs, real) => {
                if *real {
                    (Sort::Real, None)
                } else {
                    let (mut lo, mut hi) = (c.n, c.n);
                    for (x, k) in xs.iter() {
                        match self.iv[*x as usize] {
                            Some((a, b)) => {
                                let (p, q) = (a.saturating_mul(k.n), b.saturating_mul(k.n));
                                lo = lo.saturating_add(p.min(q));
                                hi = hi.saturating_add(p.max(q));
                            }
                            None => return (Sort::Int, None),
                        }
                    }
                    (Sort::Int, Some((lo, hi)))
                }
            }
            Node::Ite(_, a, b) => {
                let s = self.sorts[*a as usize];
                if s == Sort::Int {
                    match (self.iv[*a as usize], self.iv[*b as usize]) {
                        (Some((a, b)), Some((c, d))) => (s, Some((a.min(c), b.max(d)))),
                        _ => (s, None),
                    }
                } else {
                    (s, None)
                }
            }
            Node::Mul(a, b) => {
                let s = self.sorts[*a as usize];
                if s == Sort::Int {
                    match (self.iv[*a as usize], self.iv[*b as usize]) {
                        (Some((a, b)), Some((c, d))) => {
                            let v = [a * c, a * d, b * c, b * d];
                            (s, Some((*v.iter().min().unwrap(), *v.iter().max().unwrap())))
                        }
                        _ => (s, None),
                    }
                } else {
                    (s, None)
                }
            }
            Node::DivI(a, k) => {
                let k = *k as i128;
                (Sort::Int, self.iv[*a as usize].map(|(x, y)| (x.div_euclid(k), y.div_euclid(k))))
            }
            Node::ModI(_, k) => (Sort::Int, Some((0, *k as i128 - 1))),
            Node::DivR(_, _) | Node::ToReal(_) => (Sort::Real, None),
            Node::App(_, _, s) => (*s, None),
        }
    }

    pub fn sort(&self, t: T) -> Sort {
        self.sorts[t as usize]
    }
    pub fn node(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn interval(&self, t: T) -> Option<(i128, i128)> {
        self.iv[t as usize]
    }
    fn name(&mut self, s: &str) -> u32 {
        self.names.push(s.to_string());
        (self.names.len() - 1) as u32
    }
    fn name_interned(&mut self, s: &str) -> u32 {
        if let Some(i) = self.name_map.get(s) {
            return *i;
        }
        let i = self.name(s);
        self.name_map.insert(s.to_string(), i);
        i
    }
    pub fn ivar(&mut self, name: &str, lo: i128, hi: i128) -> T {
        if lo == hi {
            return self.int(lo);
        }
        let v = self.name_interned(&format!("{}[{},{}]", name, lo, hi));
        self.var_range.insert(v, (lo, hi));
        self.mk(Node::IVar(v))
    }
    pub fn ivar_unbounded(&mut self, name: &str) -> T {
        let v = self.name_interned(name);
        self.mk(Node::IVar(v))
    }
    pub fn bvar(&mut self, name: &str) -> T {
        let v = self.name_interned(&format!("{}?", name));
        self.mk(Node::BVar(v))
    }
    pub fn rvar(&mut self, name: &str) -> T {
        let v = self.name_interned(&format!("{}~", name));
        self.mk(Node::RVar(v))
    }
    pub fn app(&mut self, f: &str, args: &[T], s: Sort) -> T {
        let v = self.name_interned(f);
        self.mk(Node::App(v, args.into(), s))
    }
    pub fn int(&mut self, v: i128) -> T {
        self.mk(Node::Num(Rat::int(v), false))
    }
    pub fn real(&mut self, r: Rat) -> T {
        self.mk(Node::Num(r, true))
    }
    pub fn bool(&mut self, b: bool) -> T {
        if b {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn as_int(&self, t: T) -> Option<i128> {
        match self.node(t) {
            Node::Num(r, false) => Some(r.n),
            _ => None,
        }
    }
    pub fn as_rat(&self, t: T) -> Option<Rat> {
        match self.node(t) {
            Node::Num(r, _) => Some(*r),
            _ => None,
        }
    }
    pub fn as_bool(&self, t: T) -> Option<bool> {
        match t {
            TRUE => Some(true),
            FALSE => Some(false),
            _ => None,
        }
    }

    // ---------- numeric ----------
    fn lin_parts(&self, t: T) -> (Rat, Vec<(T, Rat)>) {
        match self.node(t) {
            Node::Num(r, _) => (*r, vec![]),
            Node::Lin(c, xs, _) => (*c, xs.to_vec()),
            _ => (Rat::zero(), vec![(t, Rat::one())]),
        }
    }
    fn mk_lin(&mut self, c: Rat, xs: Vec<(T, Rat)>, real: bool) -> T {
        if xs.is_empty() {
            return self.mk(Node::Num(c, real));
        }
        if c.is_zero() && xs.len() == 1 && xs[0].1 == Rat::one() {
            return xs[0].0;
        }
        self.mk(Node::Lin(c, xs.into(), real))
    }
    pub fn lincomb(&mut self, a: T, ka: Rat, b: T, kb: Rat) -> T {
        let real = self.sort(a) == Sort::Real || self.sort(b) == Sort::Real;
        let (a, b) = if real { (self.to_real(a), self.to_real(b)) } else { (a, b) };
        let (ca, xa) = self.lin_parts(a);
        let (cb, xb) = self.lin_parts(b);
        let c = ca.mul(ka).add(cb.mul(kb));
        let mut out: Vec<(T, Rat)> = Vec::with_capacity(xa.len() + xb.len());
        let (mut i, mut j) = (0, 0);
        while i < xa.len() || j < xb.len() {
            if j >= xb.len() || (i < xa.len() && xa[i].0 < xb[j].0) {
                let k = xa[i].1.mul(ka);
                if !k.is_zero() {
                    out.push((xa[i].0, k));
                }
                i += 1;
            } else if i >= xa.len() || xb[j].0 < xa[i].0 {
                let k = xb[j].1.mul(kb);
                if !k.is_zero() {
                    out.push((xb[j].0, k));
                }
                j += 1;
            } else {
                let k = xa[i].1.mul(ka).add(xb[j].1.mul(kb));
                if !k.is_zero() {
                    out.push((xa[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_lin(c, out, real)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        self.lincomb(a, Rat::one(), b, Rat::one())
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        self.lincomb(a, Rat::one(), b, Rat::one().neg())
    }
    pub fn neg(&mut self, a: T) -> T {
        let z = if self.sort(a) == Sort::Real { self.real(Rat::zero()) } else { self.int(0) };
        self.sub(z, a)
    }
    pub fn scale(&mut self, a: T, k: Rat) -> T {
        let (c, xs) = self.lin_parts(a);
        let real = self.sort(a) == Sort::Real;
        if k.is_zero() {
            return self.mk(Node::Num(Rat::zero(), real));
        }
        let xs = xs.into_iter().map(|(x, q)| (x, q.mul(k))).collect();
        self.mk_lin(c.mul(k), xs, real)
    }
    /// the integer term a real term stands for, if it is visibly one
    pub fn as_integral(&mut self, a: T) -> Option<T> {
        if self.sort(a) == Sort::Int {
            return Some(a);
        }
        match self.node(a).clone() {
            Node::Num(r, _) if r.d == 1 => Some(self.int(r.n)),
            Node::ToReal(x) => Some(x),
            Node::Lin(c, xs, _) => {
                if c.d != 1 {
                    return None;
                }
                let mut acc = self.int(c.n);
                for (x, k) in xs.iter() {
                    if k.d != 1 {
                        return None;
                    }
                    let ix = self.as_integral(*x)?;
                    acc = self.lincomb(acc, Rat::one(), ix, *k);
                }
                Some(acc)
            }
            Node::Ite(c, x, y) => {
                let (x, y) = (self.as_integral(x)?, self.as_integral(y)?);
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }
    pub fn to_real(&mut self, a: T) -> T {
        if self.sort(a) == Sort::Real {
            return a;
        }
        match self.node(a).clone() {
            Node::Num(r, _) => self.real(r),
            Node::Lin(c, xs, _) => {
                let mut acc = self.real(c);
                for (x, k) in xs.iter() {
                    let rx = self.to_real(*x);
                    acc = self.lincomb(acc, Rat::one(), rx, *k);
                }
                acc
            }
            Node::Ite(c, x, y) => {
                let (x, y) = (self.to_real(x), self.to_real(y));
                self.ite(c, x, y)
            }
            _ => self.mk(Node::ToReal(a)),
        }
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let real = self.sort(a) == Sort::Real || self.sort(b) == Sort::Real;
        let (a, b) = if real { (self.to_real(a), self.to_real(b)) } else { (a, b) };
        if let Some(r) = self.as_rat(a) {
            return self.scale(b, r);
        }
        if let Some(r) = self.as_rat(b) {
            return self.scale(a, r);
        }
        // push multiplication through ite with constant branches
        for (x, y) in [(a, b), (b, a)] {
            if let Node::Ite(c, p, q) = *self.node(x) {
                if self.as_rat(p).is_some() && self.as_rat(q).is_some() {
                    let (l, r) = (self.mul(p, y), self.mul(q, y));
                    return self.ite(c, l, r);
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    /// Euclidean division by a positive constant
    pub fn div_c(&mut self, a: T, k: i64) -> T {
        if k == 1 {
            return a;
        }
        if let Some(v) = self.as_int(a) {
            return self.int(v.div_euclid(k as i128));
        }
        if let Some((lo, hi)) = self.interval(a) {
            if lo.div_euclid(k as i128) == hi.div_euclid(k as i128) {
                return self.int(lo.div_euclid(k as i128));
            }
        }
        // (c + sum k_i x_i) with k | k_i for some: split off the multiples
        let (c, xs) = self.lin_parts(a);
        let (mult, rest): (Vec<_>, Vec<_>) = xs.into_iter().partition(|(_, q)| q.n % k as i128 == 0);
        if !mult.is_empty() {
            let m = self.mk_lin(Rat::zero(), mult.into_iter().map(|(x, q)| (x, Rat::int(q.n / k as i128))).collect(), false);
            let r = self.mk_lin(c, rest, false);
            let r = self.div_c(r, k);
            return self.add(m, r);
        }
        if let Node::Ite(c, x, y) = *self.node(a) {
            let (x, y) = (self.div_c(x, k), self.div_c(y, k));
            return self.ite(c, x, y);
        }
        self.mk(Node::DivI(a, k))
    }
    pub fn mod_c(&mut self, a: T, k: i64) -> T {
        if let Some(v) = self.as_int(a) {
            return self.int(v.rem_euclid(k as i128));
        }
        if let Some((lo, hi)) = self.interval(a) {
            if lo.div_euclid(k as i128) == hi.div_euclid(k as i128) {
                let q = lo.div_euclid(k as i128) * k as i128;
                let q = self.int(q);
                return self.sub(a, q);
            }
        }
        let (c, xs) = self.lin_parts(a);
        let n0 = xs.len();
        let rest: Vec<_> = xs.into_iter().filter(|(_, q)| q.n % k as i128 != 0).collect();
        let c2 = Rat::int(c.n.rem_euclid(k as i128));
        if rest.len() != n0 || c2 != c {
            let r = self.mk_lin(c2, rest, false);
            return self.mod_c(r, k);
        }
        if let Node::Ite(c, x, y) = *self.node(a) {
            let (x, y) = (self.mod_c(x, k), self.mod_c(y, k));
            return self.ite(c, x, y);
        }
        self.mk(Node::ModI(a, k))
    }
    pub fn div_real(&mut self, a: T, b: T) -> T {
        let (a, b) = (self.to_real(a), self.to_real(b));
        if let Some(r) = self.as_rat(b) {
            if !r.is_zero() {
                return self.scale(a, r.inv());
            }
        }
        self.mk(Node::DivR(a, b))
    }

    // ---------- comparisons ----------
    fn ite_atom(&self, t: T) -> Option<T> {
        if self.push_depth >= 12 {
            return None;
        }
        match self.node(t) {
            Node::Ite(..) => Some(t),
            Node::Lin(_, xs, _) if xs.len() <= 3 => xs.iter().map(|p| p.0).filter(|x| matches!(self.node(*x), Node::Ite(..))).last(),
            _ => None,
        }
    }
    fn subst_atom(&mut self, t: T, atom: T, by: T) -> T {
        if t == atom {
            return by;
        }
        match self.node(t).clone() {
            Node::Lin(c, xs, real) => {
                let k = xs.iter().find(|p| p.0 == atom).map(|p| p.1).unwrap_or(Rat::zero());
                let rest: Vec<_> = xs.iter().filter(|p| p.0 != atom).cloned().collect();
                let r = self.mk_lin(c, rest, real);
                self.lincomb(r, Rat::one(), by, k)
            }
            _ => t,
        }
    }
    pub fn le0(&mut self, t: T) -> T {
        if let Some(r) = self.as_rat(t) {
            return self.bool(r.le0());
        }
        if let Some((lo, hi)) = self.interval(t) {
            if hi <= 0 {
                return TRUE;
            }
            if lo > 0 {
                return FALSE;
            }
        }
        if let Some(a) = self.ite_atom(t) {
            if let Node::Ite(c, x, y) = *self.node(a) {
                self.push_depth += 1;
                let (tx, ty) = (self.subst_atom(t, a, x), self.subst_atom(t, a, y));
                let (p, q) = (self.le0(tx), self.le0(ty));
                self.push_depth -= 1;
                return self.ite(c, p, q);
            }
        }
        // normalise coefficients (int): divide by gcd, floor constant
        if let Node::Lin(c, xs, false) = self.node(t).clone() {
            let g = xs.iter().fold(0i128, |g, (_, k)| gcd(g, k.n));
            if g > 1 {
                // c + g*s <= 0  <=> s <= floor(-c/g)
                let c2 = Rat::int(-((-c.n).div_euclid(g)));
                let xs2 = xs.iter().map(|(x, k)| (*x, Rat::int(k.n / g))).collect();
                let t2 = self.mk_lin(c2, xs2, false);
                return self.le0(t2);
            }
        } else if let Node::Lin(c, xs, true) = self.node(t).clone() {
            let k = xs[0].1;
            let k = if k.n < 0 { k.neg() } else { k };
            if k != Rat::one() {
                let i = k.inv();
                let xs2 = xs.iter().map(|(x, q)| (*x, q.mul(i))).collect();
                let t2 = self.mk_lin(c.mul(i), xs2, true);
                return self.mk(Node::Le0(t2));
            }
        }
        self.mk(Node::Le0(t))
    }
    pub fn eq0(&mut self, t: T) -> T {
        if let Some(r) = self.as_rat(t) {
            return self.bool(r.is_zero());
        }
        if let Some((lo, hi)) = self.interval(t) {
            if hi < 0 || lo > 0 {
                return FALSE;
            }
        }
        if let Some(a) = self.ite_atom(t) {
            if let Node::Ite(c, x, y) = *self.node(a) {
                self.push_depth += 1;
                let (tx, ty) = (self.subst_atom(t, a, x), self.subst_atom(t, a, y));
                let (p, q) = (self.eq0(tx), self.eq0(ty));
                self.push_depth -= 1;
                return self.ite(c, p, q);
            }
        }
        if let Node::Lin(c, xs, real) = self.node(t).clone() {
            if real {
                let i = xs[0].1.inv();
                if i != Rat::one() {
                    let xs2 = xs.iter().map(|(x, q)| (*x, q.mul(i))).collect();
                    let t2 = self.mk_lin(c.mul(i), xs2, true);
                    return self.mk(Node::Eq0(t2));
                }
            } else {
                let g = xs.iter().fold(0i128, |g, (_, k)| gcd(g, k.n));
                if c.n % g != 0 {
                    return FALSE;
                }
                let s = if xs[0].1.n < 0 { -1 } else { 1 };
                let g = g * s;
                if g != 1 {
                    let xs2 = xs.iter().map(|(x, k)| (*x, Rat::int(k.n / g))).collect();
                    let t2 = self.mk_lin(Rat::int(c.n / g), xs2, false);
                    return self.eq0(t2);
                }
            }
        }
        self.mk(Node::Eq0(t))
    }
    pub fn le(&mut self, a: T, b: T) -> T {
        let d = self.sub(a, b);
        self.le0(d)
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        if self.sort(a) == Sort::Int && self.sort(b) == Sort::Int {
            let d = self.sub(a, b);
            let one = self.int(1);
            let d = self.add(d, one);
            self.le0(d)
        } else {
            let l = self.le(b, a);
            self.not(l)
        }
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        if self.sort(a) == Sort::Bool {
            return self.iff(a, b);
        }
        let d = self.sub(a, b);
        self.eq0(d)
    }
    pub fn iff(&mut self, a: T, b: T) -> T {
        let nb = self.not(b);
        self.ite(a, b, nb)
    }

    // ---------- boolean ----------
    pub fn not(&mut self, a: T) -> T {
        if a == TRUE {
            return FALSE;
        }
        if a == FALSE {
            return TRUE;
        }
        if let Some(&r) = self.not_memo.get(&a) {
            return r;
        }
        let r = match self.node(a).clone() {
            Node::Not(x) => x,
            Node::And(xs) => {
                let v: Vec<T> = xs.iter().map(|x| self.not(*x)).collect();
                self.or(&v)
            }
            Node::Or(xs) => {
                let v: Vec<T> = xs.iter().map(|x| self.not(*x)).collect();
                self.and(&v)
            }
            Node::Le0(t) if self.sort(t) == Sort::Int => {
                let one = self.int(1);
                let d = self.sub(one, t);
                self.mk(Node::Le0(d))
            }
            _ => self.mk(Node::Not(a)),
        };
        self.not_memo.insert(a, r);
        self.not_memo.insert(r, a);
        r
    }
    /// single-atom bound: returns (atom, lo, hi, excluded)
    fn bound(&self, lit: T) -> Option<(T, i128, i128, Option<i128>)> {
        const INF: i128 = 1 << 100;
        let single = |s: &Self, t: T| -> Option<(T, i128, i128)> {
            match s.node(t) {
                Node::Lin(c, xs, false) if xs.len() == 1 => Some((xs[0].0, xs[0].1.n, c.n)),
                Node::Lin(..) | Node::Num(..) => None,
                _ if s.sort(t) == Sort::Int => Some((t, 1, 0)),
                _ => None,
            }
        };
        match self.node(lit) {
            Node::Le0(t) => {
                let (x, k, c) = single(self, *t)?;
                // k x + c <= 0
                if k > 0 {
                    Some((x, -INF, (-c).div_euclid(k), None))
                } else {
                    // x >= c/(-k)
                    let kk = -k;
                    Some((x, -((-c).div_euclid(kk)), INF, None))
                }
            }
            Node::Eq0(t) => {
                let (x, k, c) = single(self, *t)?;
                if c % k != 0 {
                    return None;
                }
                Some((x, -c / k, -c / k, None))
            }
            Node::Not(e) => match self.node(*e) {
                Node::Eq0(t) => {
                    let (x, k, c) = single(self, *t)?;
                    if c % k != 0 {
                        return None;
                    }
                    Some((x, -INF, INF, Some(-c / k)))
                }
                _ => None,
            },
            _ => None,
        }
    }
    pub fn and2(&mut self, a: T, b: T) -> T {
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        if a == FALSE || b == FALSE {
            return FALSE;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.and_memo.get(&key) {
            return r;
        }
        let r = self.and(&[a, b]);
        self.and_memo.insert(key, r);
        r
    }
    pub fn or2(&mut self, a: T, b: T) -> T {
        if a == FALSE || a == b {
            return b;
        }
        if b == FALSE {
            return a;
        }
        if a == TRUE || b == TRUE {
            return TRUE;
        }
        self.or(&[a, b])
    }
    pub fn and(&mut self, xs: &[T]) -> T {
        let mut v: Vec<T> = Vec::with_capacity(xs.len());
        for &x in xs {
            match self.node(x) {
                Node::True => {}
                Node::False => return FALSE,
                Node::And(ys) => v.extend(ys.iter().cloned()),
                _ => v.push(x),
            }
        }
        v.sort_unstable();
        v.dedup();
        // bounds
        let mut bnd: Vec<(T, i128, i128, Vec<i128>)> = vec![];
        for &x in &v {
            if let Some((a, lo, hi, ex)) = self.bound(x) {
                let e = match bnd.iter_mut().find(|e| e.0 == a) {
                    Some(e) => e,
                    None => {
                        let (l, h) = self.iv[a as usize].unwrap_or((-(1 << 100), 1 << 100));
                        bnd.push((a, l, h, vec![]));
                        bnd.last_mut().unwrap()
                    }
                };
                e.1 = e.1.max(lo);
                e.2 = e.2.min(hi);
                if let Some(k) = ex {
                    e.3.push(k);
                }
            }
        }
        for e in bnd.iter_mut() {
            loop {
                let (l, h) = (e.1, e.2);
                if e.3.contains(&e.1) {
                    e.1 += 1;
                }
                if e.3.contains(&e.2) {
                    e.2 -= 1;
                }
                if e.1 > e.2 {
                    return FALSE;
                }
                if (l, h) == (e.1, e.2) {
                    break;
                }
            }
        }
        // drop literals implied by an equality on the same atom
        if bnd.iter().any(|e| e.1 == e.2) {
            let mut keep = vec![];
            for &x in &v {
                if let Some((a, lo, hi, ex)) = self.bound(x) {
                    let e = bnd.iter().find(|e| e.0 == a).unwrap();
                    if e.1 == e.2 && !(lo == hi && ex.is_none()) {
                        // a is pinned; will be represented by the equality added below
                        continue;
                    }
                }
                keep.push(x);
            }
            for e in &bnd {
                // (an equality that is there already may have another form than the one made here)
                if e.1 == e.2 && !keep.iter().any(|&x| matches!(self.bound(x), Some((a, lo, hi, None)) if a == e.0 && lo == hi)) {
                    let k = self.int(e.1);
                    let q = self.eq(e.0, k);
                    if q == FALSE {
                        return FALSE;
                    }
                    if q != TRUE {
                        keep.push(q);
                    }
                }
            }
            keep.sort_unstable();
            keep.dedup();
            v = keep;
        }
        // complement + absorption against Or members
        let set: std::collections::HashSet<T> = v.iter().cloned().collect();
        for &x in &v {
            if let Some(&nx) = self.not_memo.get(&x) {
                if set.contains(&nx) {
                    return FALSE;
                }
            }
            if let Node::Not(y) = self.node(x) {
                if set.contains(y) {
                    return FALSE;
                }
            }
        }
        let mut out = vec![];
        let mut changed = false;
        for &x in &v {
            if let Node::Or(ys) = self.node(x).clone() {
                if ys.iter().any(|y| set.contains(y)) {
                    changed = true;
                    continue;
                }
                let rest: Vec<T> = ys
                    .iter()
                    .cloned()
                    .filter(|y| match self.not_memo.get(y) {
                        Some(n) => !set.contains(n),
                        None => true,
                    })
                    .collect();
                if rest.len() != ys.len() {
                    changed = true;
                    let r = self.or(&rest);
                    out.push(r);
                    continue;
                }
            }
            out.push(x);
        }
        if changed {
            return self.and(&out);
        }
        match out.len() {
            0 => TRUE,
            1 => out[0],
            _ => self.mk(Node::And(out.into())),
        }
    }
    pub fn or(&mut self, xs: &[T]) -> T {
        let mut v: Vec<T> = Vec::with_capacity(xs.len());
        for &x in xs {
            match self.node(x) {
                Node::False => {}
                Node::True => return TRUE,
                Node::Or(ys) => v.extend(ys.iter().cloned()),
                _ => v.push(x),
            }
        }
        v.sort_unstable();
        v.dedup();
        let set: std::collections::HashSet<T> = v.iter().cloned().collect();
        for &x in &v {
            if let Some(&nx) = self.not_memo.get(&x) {
                if set.contains(&nx) {
                    return TRUE;
                }
            }
            if let Node::Not(y) = self.node(x) {
                if set.contains(y) {
                    return TRUE;
                }
            }
            // ensure the negation memo exists for literals, so that complements are seen
            if !self.not_memo.contains_key(&x) && matches!(self.node(x), Node::Le0(_) | Node::Eq0(_) | Node::BVar(_)) {
                let nx = self.not(x);
                if set.contains(&nx) {
                    return TRUE;
                }
            }
        }
        let mut out = vec![];
        let mut changed = false;
        for &x in &v {
            if let Node::And(ys) = self.node(x).clone() {
                if ys.iter().any(|y| set.contains(y)) {
                    changed = true;
                    continue;
                }
                let rest: Vec<T> = ys
                    .iter()
                    .cloned()
                    .filter(|y| match self.not_memo.get(y) {
                        Some(n) => !set.contains(n),
                        None => true,
                    })
                    .collect();
                if rest.len() != ys.len() {
                    changed = true;
                    let r = self.and(&rest);
                    out.push(r);
                    continue;
                }
            }
            out.push(x);
        }
        if changed {
            return self.or(&out);
        }
        if out.len() == 2 {
            // (p & q) | (p & !q)  ->  p
            if let (Node::And(a), Node::And(b)) = (self.node(out[0]).clone(), self.node(out[1]).clone()) {
                let common: Vec<T> = a.iter().cloned().filter(|x| b.contains(x)).collect();
                if !common.is_empty() {
                    let ra: Vec<T> = a.iter().cloned().filter(|x| !common.contains(x)).collect();
                    let rb: Vec<T> = b.iter().cloned().filter(|x| !common.contains(x)).collect();
                    let (ra, rb) = (self.and(&ra), self.and(&rb));
                    let o = self.or(&[ra, rb]);
                    let mut all = common;
                    all.push(o);
                    return self.and(&all);
                }
            }
        }
        match out.len() {
            0 => FALSE,
            1 => out[0],
            _ => self.mk(Node::Or(out.into())),
        }
    }
    pub fn implies(&mut self, a: T, b: T) -> T {
        let na = self.not(a);
        self.or2(na, b)
    }
    /// a finite set that contains every value of an integer term, if a small one is evident
    pub fn finite_values(&self, t: T, max: usize) -> Option<Vec<i128>> {
        let out: Option<Vec<i128>> = match self.node(t).clone() {
            Node::Num(r, _) if r.d == 1 => Some(vec![r.n]),
            Node::Ite(_, a, b) => {
                let mut x = self.finite_values(a, max)?;
                x.extend(self.finite_values(b, max)?);
                Some(x)
            }
            Node::Lin(c, xs, false) if xs.len() <= 2 && c.d == 1 && xs.iter().all(|x| x.1.d == 1) => {
                let mut acc = vec![c.n];
                for (x, k) in xs.iter() {
                    let vs = self.finite_values(*x, max)?;
                    acc = acc.iter().flat_map(|a| vs.iter().map(move |v| a + v * k.n)).collect();
                    if acc.len() > 4 * max {
                        return None;
                    }
                }
                Some(acc)
            }
            _ => None,
        };
        let mut v = match out {
            Some(v) => v,
            None => match self.interval(t) {
                Some((a, b)) if b - a < max as i128 => (a..=b).collect(),
                _ => return None,
            },
        };
        v.sort();
        v.dedup();
        if v.len() > max {
            return None;
        }
        Some(v)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if let Some(&r) = self.ite_memo.get(&(c, a, b)) {
            return r;
        }
        let r = self.ite_(c, a, b);
        self.ite_memo.insert((c, a, b), r);
        r
    }
    fn ite_(&mut self, c: T, a: T, b: T) -> T {
        if self.sort(a) == Sort::Bool {
            if a == TRUE {
                return self.or2(c, b);
            }
            if a == FALSE {
                let nc = self.not(c);
                return self.and2(nc, b);
            }
            if b == TRUE {
                let nc = self.not(c);
                return self.or2(nc, a);
            }
            if b == FALSE {
                return self.and2(c, a);
            }
            let nc = self.not(c);
            let (l, r) = (self.and2(c, a), self.and2(nc, b));
            return self.or2(l, r);
        }
        let (a, b) = if self.sort(a) != self.sort(b) { (self.to_real(a), self.to_real(b)) } else { (a, b) };
        // same condition nested
        if let Node::Ite(c2, x, _) = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        let nc = self.not(c);
        if let Node::Ite(c2, _, y) = *self.node(a) {
            if c2 == nc {
                return self.ite(c, y, b);
            }
        }
        if nc < c {
            return self.mk(Node::Ite(nc, b, a));
        }
        self.mk(Node::Ite(c, a, b))
    }

    // ---------- printing ----------
    pub fn rat_s(r: Rat, real: bool) -> String {
        let n = if r.n < 0 { format!("(- {}{})", -r.n, if real { ".0" } else { "" }) } else { format!("{}{}", r.n, if real { ".0" } else { "" }) };
        if r.d == 1 {
            n
        } else {
            format!("(/ {} {}.0)", n, r.d)
        }
    }
    pub fn children(&self, t: T) -> Vec<T> {
        match self.node(t) {
            Node::True | Node::False | Node::BVar(_) | Node::Num(..) | Node::IVar(_) | Node::RVar(_) => vec![],
            Node::Not(a) | Node::Le0(a) | Node::Eq0(a) | Node::DivI(a, _) | Node::ModI(a, _) | Node::ToReal(a) => vec![*a],
            Node::And(v) | Node::Or(v) | Node::App(_, v, _) => v.to_vec(),
            Node::Lin(_, v, _) => v.iter().map(|p| p.0).collect(),
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Mul(a, b) | Node::DivR(a, b) => vec![*a, *b],
        }
    }
    /// variables and uninterpreted functions of a term
    pub fn vars(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.var_sets.get(&t) {
            return v.clone();
        }
        let mut o: std::collections::BTreeSet<u32> = Default::default();
        match self.node(t) {
            Node::BVar(v) | Node::IVar(v) | Node::RVar(v) => {
                o.insert(*v);
            }
            Node::App(f, _, _) => {
                o.insert(*f);
            }
            _ => {}
        }
        for c in self.children(t) {
            o.extend(self.vars(c).iter());
        }
        let r = std::rc::Rc::new(o.into_iter().collect::<Vec<_>>());
        self.var_sets.insert(t, r.clone());
        r
    }
    pub fn var_name(&self, v: u32) -> String {
        format!("|{}!{}|", self.names[v as usize], v)
    }
    fn rf(&self, t: T) -> String {
        match self.node(t) {
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::Num(r, real) => Self::rat_s(*r, *real),
            Node::BVar(v) | Node::IVar(v) | Node::RVar(v) => self.var_name(*v),
            _ => format!("t{}", t),
        }
    }
    pub fn def(&self, t: T) -> String {
        let j = |v: &[T]| v.iter().map(|x| self.rf(*x)).collect::<Vec<_>>().join(" ");
        match self.node(t) {
            Node::Not(a) => format!("(not {})", self.rf(*a)),
            Node::And(v) => format!("(and {})", j(v)),
            Node::Or(v) => format!("(or {})", j(v)),
            Node::Lin(c, xs, real) => {
                let mut parts = vec![];
                if !c.is_zero() {
                    parts.push(Self::rat_s(*c, *real));
                }
                for (x, k) in xs.iter() {
                    if *k == Rat::one() {
                        parts.push(self.rf(*x));
                    } else {
                        parts.push(format!("(* {} {})", Self::rat_s(*k, *real), self.rf(*x)));
                    }
                }
                if parts.len() == 1 {
                    parts.pop().unwrap()
                } else {
                    format!("(+ {})", parts.join(" "))
                }
            }
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.rf(*c), self.rf(*a), self.rf(*b)),
            Node::Le0(a) => format!("(<= {} {})", self.rf(*a), if self.sort(*a) == Sort::Real { "0.0" } else { "0" }),
            Node::Eq0(a) => format!("(= {} {})", self.rf(*a), if self.sort(*a) == Sort::Real { "0.0" } else { "0" }),
            Node::Mul(a, b) => format!("(* {} {})", self.rf(*a), self.rf(*b)),
            Node::DivI(a, k) => format!("(div {} {})", self.rf(*a), k),
            Node::ModI(a, k) => format!("(mod {} {})", self.rf(*a), k),
            Node::DivR(a, b) => format!("(/ {} {})", self.rf(*a), self.rf(*b)),
            Node::ToReal(a) => format!("(to_real {})", self.rf(*a)),
            Node::App(f, v, _) => {
                if v.is_empty() {
                    format!("|f!{}|", self.names[*f as usize])
                } else {
                    format!("(|f!{}| {})", self.names[*f as usize], j(v))
                }
            }
            _ => self.rf(t),
        }
    }
    pub fn rf_pub(&self, t: T) -> String {
        self.rf(t)
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
}
