//! Models (assumed contracts) of the standard library, itertools, rand and the harness interface.
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub type Slots = Vec<(T, V)>;

impl Ex {
    pub fn model(&mut self, s: &str) {
        *self.models_used.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn havoc_value(&mut self, kind: &str, name: &str) -> RV {
        match kind {
            "f32" | "f64" => {
                let n = self.fresh_name(name);
                let t = self.tm.rvar(&n);
                Ok(self.vf(t))
            }
            _ => unsup("havoc kind"),
        }
    }
    /// iteration order of a hash map: insertion order or its reverse, the same throughout a path
    fn reorder(&mut self, mut l: Slots) -> R<Slots> {
        if self.map_order && self.path_mode && l.len() >= 2 {
            let r = match self.map_rev {
                Some(r) => r,
                None => {
                    let r = self.choose_feasible(&[TRUE, TRUE])? == 1;
                    self.map_rev = Some(r);
                    r
                }
            };
            if r {
                l.reverse();
            }
        }
        Ok(l)
    }
    /// the elements of anything iterable
    pub fn iter_items(&mut self, v: &V) -> R<Slots> {
        match &**v {
            Val::Ref(p) => {
                // iterating over `&mut collection`
                let p = p.clone();
                self.iter_mut_items(&p)
            }
            Val::List(x) => Ok(x.clone()),
            Val::Map(set, x) => {
                let l = x.iter().map(|(g, k, v)| (*g, if *set { k.clone() } else { rc(Val::Tuple(vec![k.clone(), v.clone()])) })).collect();
                self.reorder(l)
            }
            Val::Range(Some(a), Some(b), incl) => {
                let (ta, tb) = (self.as_t(a)?, self.as_t(b)?);
                let ty = match &**a {
                    Val::I(_, t) => *t,
                    _ => return unsup("range of non-integers"),
                };
                let hi1 = if *incl {
                    let one = self.tm.int(1);
                    self.tm.add(tb, one)
                } else {
                    tb
                };
                if let (Some(l), Some(h)) = (self.tm.as_int(ta), self.tm.as_int(hi1)) {
                    if h - l > 100_000 {
                        return unsup("range too long");
                    }
                    return Ok((l..h).map(|k| (TRUE, self.vi(k, ty))).collect());
                }
                if self.path_mode {
                    let l = self.concretise(ta)?;
                    let h = self.concretise(hi1)?;
                    return Ok((l..h).map(|k| (TRUE, self.vi(k, ty))).collect());
                }
                let (Some((l, _)), Some((_, h))) = (self.tm.interval(ta), self.tm.interval(hi1)) else { return unsup("range with unbounded symbolic end") };
                if h - l > 300 {
                    return unsup("symbolic range too wide");
                }
                let mut out = vec![];
                for k in l..h {
                    let kt = self.tm.int(k);
                    let (c1, c2) = (self.tm.le(ta, kt), self.tm.lt(kt, hi1));
                    let g = self.tm.and2(c1, c2);
                    if g != FALSE {
                        out.push((g, self.vi(k, ty)));
                    }
                }
                Ok(out)
            }
            Val::Enum(n, alts) if &**n == "Option" => Ok(alts.iter().filter(|a| &*a.1 == "Some").map(|a| (a.0, a.2[0].clone())).collect()),
            Val::Tensor(t) => {
                let d = self.tdata(t)?;
                Ok(d.into_iter().map(|x| (TRUE, rc(Val::F(x)))).collect())
            }
            Val::Never => Ok(vec![]),
            Val::Range(Some(a), None, _) => {
                // unbounded range: only sensible zipped; give a long prefix
                let ty = match &**a {
                    Val::I(_, t) => *t,
                    _ => return unsup("range"),
                };
                let l = self.as_conc(a)?;
                Ok((l..l + 512).map(|k| (TRUE, self.vi(k, ty))).collect())
            }
            _ => unsup(format!("iteration over {}", v.kind())),
        }
    }
    fn iter_mut_items(&mut self, p: &Place) -> R<Slots> {
        let v = self.read(p)?;
        Ok(match &*v {
            Val::Ref(q) => {
                let q = q.clone();
                return self.iter_mut_items(&q);
            }
            Val::List(x) => {
                let mut o = vec![];
                for (i, (g, e)) in x.iter().enumerate() {
                    if let Val::Ref(_) = &**e {
                        o.push((*g, e.clone()));
                        continue;
                    }
                    let mut q = p.clone();
                    q.path.push(Step::Slot(i));
                    o.push((*g, rc(Val::Ref(q))));
                }
                o
            }
            Val::Map(false, x) => {
                let mut o = vec![];
                for (i, (g, k, _)) in x.iter().enumerate() {
                    let mut q = p.clone();
                    q.path.push(Step::MapVal(i));
                    o.push((*g, rc(Val::Tuple(vec![k.clone(), rc(Val::Ref(q))]))));
                }
                self.reorder(o)?
            }
            Val::Enum(n, alts) if &**n == "Option" => {
                let g = alts.iter().find(|a| &*a.1 == "Some").map(|a| a.0).unwrap_or(FALSE);
                let mut q = p.clone();
                q.path.push(Step::Payload("Some".into(), 0));
                vec![(g, rc(Val::Ref(q)))]
            }
            Val::Range(..) => self.iter_items(&v)?,
            _ => return unsup("mutable iteration"),
        })
    }
    pub fn count(&mut self, xs: &Slots) -> T {
        let p = self.positions(xs);
        *p.last().unwrap()
    }
    pub fn any_guard(&mut self, xs: &Slots) -> T {
        let g: Vec<T> = xs.iter().map(|x| x.0).collect();
        self.tm.or(&g)
    }
    pub fn map_get(&mut self, xs: &[(T, V, V)], k: &V) -> RV {
        let mut acc = self.none();
        for (g, kk, v) in xs.iter().rev() {
            let e = self.eq(kk, k)?;
            let c = self.tm.and2(*g, e);
            if c == FALSE {
                continue;
            }
            if self.path_mode {
                if let Some(true) = self.decide(c)? {
                    return Ok(self.some(v.clone()));
                }
                continue;
            }
            let s = self.some(v.clone());
            acc = self.merge(c, &s, &acc)?;
        }
        Ok(acc)
    }
    /// make every guard definite (path mode), or leave as is
    fn settle(&mut self, xs: Slots) -> R<Slots> {
        if !self.path_mode || Self::all_true(&xs) {
            return Ok(xs);
        }
        let mut o = vec![];
        for (g, v) in xs {
            if let Some(true) = self.decide(g)? {
                o.push((TRUE, v));
            }
        }
        Ok(o)
    }
    pub fn conc_key(&self, v: &V) -> Option<Vec<i128>> {
        match &**v {
            Val::I(t, _) => self.tm.as_int(*t).map(|k| vec![k]),
            Val::B(t) => self.tm.as_bool(*t).map(|b| vec![b as i128]),
            Val::Tuple(x) => {
                let mut o = vec![];
                for y in x {
                    o.extend(self.conc_key(y)?);
                }
                Some(o)
            }
            Val::List(x) if Self::all_true(x) => {
                let mut o = vec![];
                for y in x {
                    o.push(1);
                    o.extend(self.conc_key(&y.1)?);
                }
                o.push(0);
                Some(o)
            }
            _ => None,
        }
    }
    /// the possible concrete values of a key, each with the condition under which it is the value
    fn key_cases(&mut self, v: &V) -> Option<Vec<(T, V)>> {
        match &**v {
            Val::I(t, ty) => {
                let t = *t;
                if self.tm.as_int(t).is_some() {
                    return Some(vec![(TRUE, v.clone())]);
                }
                let vals = self.tm.finite_values(t, 30)?;
                let ty = ty.clone();
                let mut o = vec![];
                for k in vals {
                    let kt = self.tm.int(k);
                    let g = self.tm.eq(t, kt);
                    if g != FALSE {
                        o.push((g, std::rc::Rc::new(Val::I(kt, ty.clone()))));
                    }
                }
                Some(o)
            }
            Val::B(t) => {
                let t = *t;
                if self.tm.as_bool(t).is_some() {
                    return Some(vec![(TRUE, v.clone())]);
                }
                let n = self.tm.not(t);
                Some(vec![(t, std::rc::Rc::new(Val::B(TRUE))), (n, std::rc::Rc::new(Val::B(FALSE)))])
            }
            Val::Tuple(xs) => {
                let mut acc: Vec<(T, Vec<V>)> = vec![(TRUE, vec![])];
                for x in xs.iter() {
                    let cs = self.key_cases(x)?;
                    let mut next = vec![];
                    for (g, pre) in &acc {
                        for (h, c) in &cs {
                            let gh = self.tm.and2(*g, *h);
                            if gh != FALSE {
                                let mut q = pre.clone();
                                q.push(c.clone());
                                next.push((gh, q));
                            }
                        }
                    }
                    acc = next;
                    if acc.len() > 256 {
                        return None;
                    }
                }
                Some(acc.into_iter().map(|(g, q)| (g, std::rc::Rc::new(Val::Tuple(q)))).collect())
            }
            _ => None,
        }
    }
    /// stable sort by a comparison on keys (Vec<(guard, key, value)>)
    fn sort_slots(&mut self, xs: Vec<(T, V, V)>, cmp: Option<&V>) -> R<Slots> {
        if cmp.is_none() && xs.iter().all(|x| self.conc_key(&x.1).is_some()) {
            let mut ys: Vec<_> = xs.into_iter().map(|x| (self.conc_key(&x.1).unwrap(), x)).collect();
            ys.sort_by(|a, b| a.0.cmp(&b.0));
            return Ok(ys.into_iter().map(|(_, x)| (x.0, x.2)).collect());
        }
        if cmp.is_none() && (!self.path_mode || xs.iter().any(|x| x.0 != TRUE)) {
            // one guarded element per possible key
            let mut ys: Vec<(Vec<i128>, (T, V, V))> = vec![];
            let mut all = true;
            'outer: for x in &xs {
                match self.key_cases(&x.1) {
                    Some(cases) => {
                        for (g, k) in cases {
                            let g = self.tm.and2(x.0, g);
                            if g == FALSE {
                                continue;
                            }
                            let v = if std::rc::Rc::ptr_eq(&x.1, &x.2) { k.clone() } else { x.2.clone() };
                            ys.push((self.conc_key(&k).unwrap(), (g, k, v)));
                        }
                    }
                    None => {
                        all = false;
                        break 'outer;
                    }
                }
            }
            if all && ys.len() <= 4096 {
                ys.sort_by(|a, b| a.0.cmp(&b.0));
                return Ok(ys.into_iter().map(|(_, x)| (x.0, x.2)).collect());
            }
        }
        // insertion sort with decisions
        let mut out: Vec<(T, V, V)> = vec![];
        for x in xs {
            if x.0 != TRUE {
                return unsup("sort of a guarded list with symbolic keys");
            }
            let mut pos = out.len();
            while pos > 0 {
                let lt = match cmp {
                    None => self.less(&x.1, &out[pos - 1].1)?,
                    Some(f) => {
                        let o = self.call_value(f, vec![x.1.clone(), out[pos - 1].1.clone()])?;
                        self.variant_guard(&o, "Less")
                    }
                };
                match self.decide(lt)? {
                    Some(true) => pos -= 1,
                    Some(false) => break,
                    None => return unsup("sort with symbolic keys"),
                }
            }
            out.insert(pos, x);
        }
        Ok(out.into_iter().map(|x| (x.0, x.2)).collect())
    }
    fn dedup_slots(&mut self, xs: &Slots) -> R<Slots> {
        let mut o: Slots = vec![];
        for (g, v) in xs {
            if let Some((h, w)) = o.last().cloned() {
                let e = self.eq(&w, v)?;
                if e == TRUE {
                    let ng = self.tm.or2(h, *g);
                    o.last_mut().unwrap().0 = ng;
                    continue;
                }
                if e != FALSE {
                    if h == TRUE && *g == TRUE && self.path_mode {
                        if let Some(true) = self.decide(e)? {
                            continue;
                        }
                    } else {
                        return unsup("dedup with symbolic elements");
                    }
                } else if h != TRUE && o.len() >= 2 {
                    // a skipped (absent) element between two equal ones would have to be looked through
                    for (h2, w2) in o.clone().iter().rev().skip(1) {
                        let e2 = self.eq(w2, v)?;
                        if e2 != FALSE {
                            return unsup("dedup of a guarded unsorted list");
                        }
                        if *h2 == TRUE {
                            break;
                        }
                    }
                }
            }
            o.push((*g, v.clone()));
        }
        Ok(o)
    }
    fn map_slots(&mut self, xs: Slots, f: &V) -> R<Slots> {
        let mut o = Vec::with_capacity(xs.len());
        for (g, v) in xs {
            if self.st.dead {
                break;
            }
            let mut dead = false;
            let r = self.under(g, &mut |s| {
                let r = s.call_value(f, vec![v.clone()])?;
                dead = s.st.dead;
                Ok(r)
            })?;
            if !dead {
                o.push((g, r));
            }
        }
        Ok(o)
    }
    fn test_slots(&mut self, xs: &Slots, f: &V) -> R<Vec<T>> {
        let mut o = Vec::with_capacity(xs.len());
        for (g, v) in xs {
            let r = self.under(*g, &mut |s| s.call_value(f, vec![v.clone()]))?;
            let r = self.as_bool(&r)?;
            o.push(r);
        }
        Ok(o)
    }
    fn num_zero(&mut self, real: bool) -> V {
        if real {
            let t = self.tm.real(Rat::zero());
            self.vf(t)
        } else {
            self.vi(0, ITy::Lit)
        }
    }
    /// fold for max/min: keep(best, x) tells when x replaces best
    fn best(&mut self, xs: Slots, keep: &mut dyn FnMut(&mut Self, &V, &V) -> R<T>) -> RV {
        let xs = self.settle(xs)?;
        let mut have = FALSE;
        let mut best = self.never.clone();
        for (g, x) in xs {
            if have == FALSE {
                have = g;
                best = x;
                continue;
            }
            let c = keep(self, &best, &x)?;
            let nh = self.tm.not(have);
            let rep = self.tm.or2(nh, c);
            let rep = self.tm.and2(g, rep);
            if self.path_mode {
                if let Some(true) = self.decide(rep)? {
                    best = x;
                }
            } else {
                best = self.merge(rep, &x, &best)?;
            }
            have = self.tm.or2(have, g);
        }
        Ok(self.option(have, best))
    }
    fn set_place(&mut self, p: &Place, v: Slots) -> R<()> {
        self.write(p, rc(Val::List(v)))
    }
    pub fn collect(&mut self, xs: Slots, target: &str) -> RV {
        match target {
            "HashSet" | "BTreeSet" => {
                self.map_order &= !target.starts_with("BTree");
                let mut m: Vec<(T, V, V)> = vec![];
                for (g, v) in xs {
                    self.map_insert(&mut m, g, v, self.unit.clone())?;
                }
                Ok(rc(Val::Map(true, m)))
            }
            "HashMap" | "BTreeMap" => {
                self.map_order &= !target.starts_with("BTree");
                let mut m: Vec<(T, V, V)> = vec![];
                for (g, v) in xs {
                    match &*v {
                        Val::Tuple(kv) => {
                            self.map_insert(&mut m, g, kv[0].clone(), kv[1].clone())?;
                        }
                        _ => return unsup("collect into a map"),
                    }
                }
                Ok(rc(Val::Map(false, m)))
            }
            "String" => Ok(rc(Val::Opaque("string".into()))),
            "Option" | "Result" => {
                if xs.iter().any(|(_, x)| !matches!(&**x, Val::Enum(n, _) if &**n == target)) {
                    return unsup("collect into an Option or Result");
                }
                let mut all = TRUE;
                let mut o = vec![];
                let mut bad: Option<V> = None;
                for (g, x) in xs {
                    let (h, pl) = self.opt_parts(&x)?;
                    let ok = self.tm.implies(g, h);
                    if target == "Result" && h != TRUE {
                        if !self.path_mode {
                            return unsup("collect into a Result");
                        }
                        if self.decide(ok)? != Some(true) {
                            bad = Some(x);
                            break;
                        }
                    } else {
                        all = self.tm.and2(all, ok);
                    }
                    o.push((g, pl));
                }
                if let Some(b) = bad {
                    return Ok(b);
                }
                let l = rc(Val::List(o));
                Ok(if target == "Result" { self.ok(l) } else { self.option(all, l) })
            }
            _ => Ok(rc(Val::List(xs))),
        }
    }
    /// insert under guard; returns the condition "key was new"
    fn map_insert(&mut self, m: &mut Vec<(T, V, V)>, g: T, k: V, v: V) -> R<T> {
        let mut present = vec![];
        for i in 0..m.len() {
            let e = self.eq(&m[i].1.clone(), &k)?;
            let c = self.tm.and2(m[i].0, e);
            if c == FALSE {
                continue;
            }
            present.push(c);
            let gc = self.tm.and2(g, c);
            m[i].2 = self.merge(gc, &v, &m[i].2.clone())?;
        }
        let was = self.tm.or(&present);
        let fresh = self.tm.not(was);
        let ng = self.tm.and2(g, fresh);
        if ng != FALSE {
            m.push((ng, k, v));
        }
        Ok(fresh)
    }

    pub fn builtin_const(&mut self, owner: &str, name: &str) -> R<Option<V>> {
        if let Some(t) = ITy::parse(owner) {
            let (lo, hi) = t.range();
            return Ok(match name {
                "MAX" => Some(self.vi(hi, t)),
                "MIN" => Some(self.vi(lo, t)),
                _ => None,
            });
        }
        let inf = Rat::int(10i128.pow(30));
        Ok(match (owner, name) {
            ("f32" | "f64", "INFINITY") => {
                self.model("f32::INFINITY is a real number larger than every score");
                let t = self.tm.real(inf);
                Some(self.vf(t))
            }
            ("f32" | "f64", "NEG_INFINITY") => {
                let t = self.tm.real(inf.neg());
                Some(self.vf(t))
            }
            ("Ordering", "Less" | "Equal" | "Greater") => Some(rc(Val::Enum("Ordering".into(), vec![(TRUE, name.into(), vec![])]))),
            (_, "Less" | "Equal" | "Greater") if owner.is_empty() => Some(rc(Val::Enum("Ordering".into(), vec![(TRUE, name.into(), vec![])]))),
            ("Kind" | "kind", _) => Some(rc(Val::Opaque(format!("Kind::{}", name).as_str().into()))),
            ("Device", _) => Some(rc(Val::Opaque(format!("Device::{}", name).as_str().into()))),
            ("Reduction", _) => Some(rc(Val::Opaque(format!("Reduction::{}", name).as_str().into()))),
            ("ProgressFinish", _) => Some(rc(Val::Opaque(name.into()))),
            _ => {
                if name == "DEVICE" {
                    return Ok(Some(rc(Val::Opaque("Device::Cpu".into()))));
                }
                None
            }
        })
    }

    pub fn builtin_fn(&mut self, full: &str, args: &[V], tf: &[Rc<str>], loc: &str) -> R<Option<V>> {
        let (owner, name) = match full.rfind("::") {
            Some(i) => (&full[..i], &full[i + 2..]),
            None => ("", full),
        };
        let a0 = match args.first() {
            Some(a) => Some(self.deref(a)?),
            None => None,
        };
        if let Some(v) = self.model_fn(owner, name, args, tf, loc)? {
            return Ok(Some(v));
        }
        Ok(Some(match (owner, name) {
            ("Vec" | "VecDeque", "new" | "with_capacity" | "default") => self.list(vec![]),
            (t, "from") if args.len() == 1 && (ITy::parse(t).is_some() || t == "f32" || t == "f64") && matches!(&**a0.as_ref().unwrap(), Val::I(..) | Val::B(_) | Val::F(_)) => {
                let v = a0.unwrap();
                let v = match &*v {
                    Val::B(b) => {
                        let (z, o) = (self.tm.int(0), self.tm.int(1));
                        let r = self.tm.ite(*b, o, z);
                        self.vt(r, ITy::U8)
                    }
                    _ => v,
                };
                self.cast(&v, t)?
            }
            (t, "try_from") if args.len() == 1 && ITy::parse(t).is_some() && matches!(&**a0.as_ref().unwrap(), Val::I(..)) => {
                let v = a0.unwrap();
                let ty = ITy::parse(t).unwrap();
                let x = self.as_t(&v)?;
                let (lo, hi) = ty.range();
                let (l, h) = (self.tm.int(lo), self.tm.int(hi));
                let (a, b) = (self.tm.le(l, x), self.tm.le(x, h));
                let c = self.tm.and2(a, b);
                let nc = self.tm.not(c);
                let e = rc(Val::Opaque("TryFromIntError".into()));
                let mut alts = vec![(c, Rc::from("Ok"), vec![rc(Val::I(x, ty))]), (nc, Rc::from("Err"), vec![e])];
                alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                rc(Val::Enum("Result".into(), alts))
            }
            ("Vec", "from_iter" | "from") | ("Array", "from") => {
                let it = self.iter_items(&a0.unwrap())?;
                rc(Val::List(it))
            }
            ("HashSet" | "BTreeSet", "new" | "with_capacity" | "default") => rc(Val::Map(true, vec![])),
            ("HashMap" | "BTreeMap", "new" | "with_capacity" | "default") => {
                self.map_order &= !owner.starts_with("BTree");
                rc(Val::Map(false, vec![]))
            }
            ("HashSet" | "BTreeSet" | "HashMap" | "BTreeMap", "from_iter" | "from") => {
                let it = self.iter_items(&a0.unwrap())?;
                self.model("HashMap/HashSet: iteration order taken as insertion order");
                self.collect(it, owner)?
            }
            ("Some", _) => return Ok(None),
            ("Box" | "Rc" | "Arc" | "Cow", "new" | "from") => args[0].clone(),
            ("String", "new" | "from") | ("PathBuf" | "Path", "new" | "from") => match a0 {
                Some(a) => a,
                None => rc(Val::Str("".into())),
            },
            ("Ordering", _) => return Ok(None),
            ("mem", "swap") => {
                if let (Val::Ref(p), Val::Ref(q)) = (&*args[0], &*args[1]) {
                    let (p, q) = (p.clone(), q.clone());
                    let (x, y) = (self.read(&p)?, self.read(&q)?);
                    self.write(&p, y)?;
                    self.write(&q, x)?;
                    self.unit.clone()
                } else {
                    return unsup("mem::swap");
                }
            }
            ("mem", "take") => {
                if let Val::Ref(p) = &*args[0] {
                    let p = p.clone();
                    let x = self.read(&p)?;
                    let d = match &*x {
                        Val::List(_) => self.list(vec![]),
                        Val::Map(s, _) => rc(Val::Map(*s, vec![])),
                        Val::Enum(n, _) if &**n == "Option" => self.none(),
                        _ => return unsup("mem::take"),
                    };
                    self.write(&p, d)?;
                    x
                } else {
                    return unsup("mem::take");
                }
            }
            ("mem", "replace") => {
                if let Val::Ref(p) = &*args[0] {
                    let p = p.clone();
                    let x = self.read(&p)?;
                    self.write(&p, args[1].clone())?;
                    x
                } else {
                    return unsup("mem::replace");
                }
            }
            ("cmp" | "" | "Ord", "min" | "max") => {
                let b = self.deref(&args[1])?;
                let u = self.unify_ints(vec![a0.unwrap(), b]);
                let l = if name == "min" { self.less(&u[1], &u[0])? } else { self.less(&u[1], &u[0])? };
                if name == "min" {
                    self.merge(l, &u[1], &u[0])?
                } else {
                    self.merge(l, &u[0], &u[1])?
                }
            }
            ("iter", "once") => self.list(vec![args[0].clone()]),
            ("iter", "empty") => self.list(vec![]),
            ("iter", "repeat") => self.list(vec![args[0].clone(); 20000]),
            ("iter", "successors") => {
                let f = args[1].clone();
                let mut cur = args[0].clone();
                let mut o = vec![];
                loop {
                    let (g, pl) = self.opt_parts(&cur)?;
                    let more = match self.tm.as_bool(g) {
                        Some(b) => b,
                        None if self.path_mode => self.decide(g)? == Some(true),
                        None => return unsup("iter::successors of unknown length"),
                    };
                    if !more || self.st.dead {
                        break;
                    }
                    o.push((TRUE, pl.clone()));
                    if o.len() > 2000 {
                        return unsup("iter::successors without end");
                    }
                    cur = self.call_value(&f, vec![pl])?;
                }
                rc(Val::List(o))
            }
            ("iter", "zip") => {
                let (a, b) = (self.iter_items(&args[0])?, self.iter_items(&args[1])?);
                if !Self::all_true(&a) || !Self::all_true(&b) {
                    return unsup("zip of guarded lists");
                }
                let o = a.into_iter().zip(b).map(|(x, y)| (TRUE, rc(Val::Tuple(vec![x.1, y.1])))).collect();
                rc(Val::List(o))
            }
            ("", "multiunzip") => self.unzip(&a0.unwrap())?,
            ("rand" | "", "thread_rng") => rc(Val::Opaque("Rng".into())),
            ("rand", "random") => return unsup("rand::random"),
            ("ProgressBar", _) => rc(Val::Opaque("ProgressBar".into())),
            ("ProgressStyle", "with_template") => {
                let v = rc(Val::Opaque("ProgressStyle".into()));
                self.ok(v)
            }
            ("ProgressStyle" | "MultiProgress", _) => rc(Val::Opaque(owner.into())),
            ("Duration", _) => rc(Val::Opaque("Duration".into())),
            ("tch" | "", "no_grad_guard") => rc(Val::Opaque("guard".into())),
            ("Device", "cuda_if_available") => rc(Val::Opaque("Device::Cpu".into())),
            ("Tensor", _) => return self.tensor_fn(name, args, loc),
            ("Dirichlet", "new") => {
                self.model("rand_distr::Dirichlet::new: needs at least two categories and positive concentrations; sample = one value per category, none negative, summing to one (draws that all underflow are left to the native runs)");
                let v = a0.unwrap();
                match &*v {
                    Val::List(xs) if Self::all_true(xs) => {
                        if xs.len() < 2 {
                            let e = rc(Val::Opaque("dirichlet error".into()));
                            rc(Val::Enum("Result".into(), vec![(TRUE, "Err".into(), vec![e])]))
                        } else {
                            let n = xs.len();
                            let zero = self.tm.real(Rat::zero());
                            let mut cs = vec![];
                            for (_, a) in xs.clone() {
                                let t = self.as_t(&a)?;
                                cs.push(self.tm.lt(zero, t));
                            }
                            let c = self.tm.and(&cs);
                            let nc = self.tm.not(c);
                            let d = rc(Val::Opaque(format!("Dirichlet:{}", n).as_str().into()));
                            let e = rc(Val::Opaque("dirichlet error".into()));
                            let mut alts = vec![(c, Rc::from("Ok"), vec![d]), (nc, Rc::from("Err"), vec![e])];
                            alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                            rc(Val::Enum("Result".into(), alts))
                        }
                    }
                    _ => return unsup("Dirichlet::new"),
                }
            }
            ("WeightedIndex", "new") => {
                let it = self.iter_items(&a0.unwrap())?;
                self.model("rand WeightedIndex::new: error if empty, a weight is negative, or all are zero; sample = an index with positive weight");
                let zero = self.tm.real(Rat::zero());
                let mut ok = vec![];
                let mut pos = vec![];
                for (_, w) in &it {
                    let t = self.as_t(w)?;
                    ok.push(self.tm.le(zero, t));
                    pos.push(self.tm.lt(zero, t));
                }
                let p = self.tm.or(&pos);
                ok.push(p);
                let c = self.tm.and(&ok);
                let payload = rc(Val::Struct("WeightedIndex".into(), vec![rc(Val::List(it))]));
                let nc = self.tm.not(c);
                let e = rc(Val::Opaque("weights error".into()));
                let mut alts = vec![(c, Rc::from("Ok"), vec![payload]), (nc, Rc::from("Err"), vec![e])];
                alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                rc(Val::Enum("Result".into(), alts))
            }
            ("", "config_of") => {
                let it = self.iter_items(&a0.unwrap())?;
                let m = self.collect(it, "HashMap")?;
                rc(Val::Struct("ConfigModel".into(), vec![m]))
            }
            // a configuration in which one key holds a text instead
            ("", "config_with_text") => {
                let it = self.iter_items(&a0.unwrap())?;
                let k = self.str_of(&args[1])?;
                let it = it.into_iter().map(|(g, e)| match &*e {
                    Val::Tuple(x) if self.str_of(&x[0]).map(|y| y == k).unwrap_or(false) => (g, rc(Val::Tuple(vec![x[0].clone(), rc(Val::Str("none".into()))]))),
                    _ => (g, e),
                }).collect();
                let m = self.collect(it, "HashMap")?;
                rc(Val::Struct("ConfigModel".into(), vec![m]))
            }
            ("", "same") => {
                let (x, y) = (self.deref(&args[0])?, self.deref(&args[1])?);
                let e = self.eq(&x, &y)?;
                self.vb(e)
            }
            ("", "at_least") => {
                let (x, y) = (self.as_t(&args[0])?, self.as_t(&args[1])?);
                let e = self.tm.le(y, x);
                self.vb(e)
            }
            ("", "pairwise_distinct") => {
                let it = self.iter_items(&a0.unwrap())?;
                let mut cs = vec![];
                for i in 0..it.len() {
                    for j in 0..i {
                        let e = self.eq(&it[i].1, &it[j].1)?;
                        if e == FALSE {
                            continue;
                        }
                        let b = self.tm.and(&[it[i].0, it[j].0, e]);
                        cs.push(self.tm.not(b));
                    }
                }
                // one obligation per clause is cheaper than one big conjunction: keep as And
                let t = self.tm.and(&cs);
                self.vb(t)
            }
            ("", "size_of_val") => return unsup("size_of_val"),
            _ => {
                let _ = (tf, loc);
                return Ok(None);
            }
        }))
    }
    fn unzip(&mut self, v: &V) -> RV {
        let it = self.iter_items(v)?;
        let n = it
            .iter()
            .find_map(|(_, x)| match &**x {
                Val::Tuple(t) => Some(t.len()),
                _ => None,
            })
            .unwrap_or(3);
        let mut cols: Vec<Slots> = vec![vec![]; n];
        for (g, x) in it {
            match &*x {
                Val::Tuple(t) => {
                    for (i, y) in t.iter().enumerate() {
                        cols[i].push((g, y.clone()));
                    }
                }
                _ => return unsup("unzip"),
            }
        }
        Ok(rc(Val::Tuple(cols.into_iter().map(|c| rc(Val::List(c))).collect())))
    }

    pub fn builtin_method(&mut self, p: Place, v: V, name: &str, args: Vec<V>, tf: &[Rc<str>], loc: String) -> RV {
        if let Some(r) = self.model_method(&p, &v, name, &args, &loc)? {
            return Ok(r);
        }
        if let Val::Str(s) = &*v {
            let s = s.to_string();
            if let Some(r) = self.str_method(&s, name, &args)? {
                return Ok(r);
            }
            // strings and paths that are extended in place
            if matches!(name, "push" | "push_str") {
                if let Some(o) = self.str_of(&args[0])? {
                    let n = match (name, o.chars().count()) {
                        ("push_str", _) => format!("{}{}", s, o),
                        (_, 1) => return unsup("push of one character on a string or path"),
                        _ if o.starts_with('/') => o,
                        _ => format!("{}/{}", s.trim_end_matches('/'), o),
                    };
                    let nv = rc(Val::Str(n.as_str().into()));
                    self.write(&p, nv)?;
                    return Ok(self.unit.clone());
                }
            }
        }
        if let Val::Struct(n, x) = &*v {
            if &**n == "ConfigModel" {
                if let Val::Map(_, m) = &*x[0] {
                    self.model("config::Config: a table from keys to values; a key that is missing or holds no number is an error");
                    let m = m.clone();
                    let k = self.deref(&args[0])?;
                    let r = self.map_get(&m, &k)?;
                    let g = self.variant_guard(&r, "Some");
                    if g == FALSE {
                        return Ok(self.err("no such configuration key"));
                    }
                    if g != TRUE {
                        return unsup("configuration key that may be in the contract's table");
                    }
                    let x = match &*r {
                        Val::Enum(_, a) => a.iter().find(|a| &*a.1 == "Some").unwrap().2[0].clone(),
                        _ => unreachable!(),
                    };
                    if let Val::Str(_) = &*x {
                        return Ok(match name {
                            "get_string" => self.ok(x),
                            "get_float" | "get_int" => self.err("not a number"),
                            _ => return unsup("config method"),
                        });
                    }
                    let t = self.as_t(&x)?;
                    let y = match name {
                        "get_float" => self.vf(t),
                        "get_int" => match self.tm.as_integral(t) {
                            Some(i) => self.vt(i, ITy::I64),
                            None => return unsup("get_int of a non-integer"),
                        },
                        "get" => match tf.first().map(|s| &**s) {
                            Some("f64" | "f32") => self.vf(t),
                            Some(n) => match (ITy::parse(n), self.tm.as_integral(t)) {
                                (Some(ty), Some(i)) => {
                                    if ty != ITy::I64 {
                                        return unsup("configuration value of this type");
                                    }
                                    self.vt(i, ty)
                                }
                                _ => return unsup("configuration value of this type"),
                            },
                            None => return unsup("configuration value of an inferred type"),
                        },
                        _ => return unsup("config method"),
                    };
                    return Ok(self.ok(y));
                }
            }
        }
        if let Val::Struct(n, parts) = &*v {
            if &**n == "MapEntry" {
                let key = parts[1].clone();
                let place = match &*parts[0] {
                    Val::Ref(p) => p.clone(),
                    _ => return unsup("map entry"),
                };
                let m = self.deref(&parts[0])?;
                let found = self.map_method(place.clone(), m, "get_mut", vec![key.clone()], tf, loc.clone())?;
                let (g, r) = self.opt_parts(&found)?;
                if g != TRUE && g != FALSE {
                    return unsup("map entry with a symbolic key");
                }
                return match name {
                    "or_insert" | "or_insert_with" | "or_default" => {
                        if g == TRUE {
                            return Ok(r);
                        }
                        let val = match name {
                            "or_insert" => args[0].clone(),
                            "or_insert_with" => self.call_value(&args[0].clone(), vec![])?,
                            _ => return unsup("or_default of an absent map entry"),
                        };
                        let m = self.deref(&parts[0])?;
                        self.map_method(place.clone(), m, "insert", vec![key.clone(), val], tf, loc.clone())?;
                        let m = self.deref(&parts[0])?;
                        let found = self.map_method(place, m, "get_mut", vec![key], tf, loc)?;
                        Ok(self.opt_parts(&found)?.1)
                    }
                    "and_modify" => {
                        if g == TRUE {
                            self.call_value(&args[0].clone(), vec![r])?;
                        }
                        Ok(v.clone())
                    }
                    "key" => Ok(key),
                    _ => unsup(format!("{}: map entry method {}", loc, name)),
                };
            }
        }
        // universal methods
        match name {
            "into" if matches!(&*v, Val::I(_, t) if t.bits() < 63) => {
                // the target type is not known here: the value takes the type of what it is used with
                let t = self.as_t(&v)?;
                return Ok(rc(Val::I(t, ITy::Lit)));
            }
            "clone" | "to_owned" | "borrow" | "as_ref" | "copied" | "cloned" | "into" | "as_slice" | "as_str" | "to_vec" | "as_deref" | "view_" if !matches!(&*v, Val::Tensor(_)) => {
                if matches!(&*v, Val::Enum(..)) && matches!(name, "as_ref" | "as_deref") {
                    return Ok(v);
                }
                if let Val::List(xs) = &*v {
                    if matches!(name, "copied" | "cloned") && xs.iter().any(|x| matches!(&*x.1, Val::Ref(_))) {
                        let mut o = vec![];
                        for (g, x) in xs {
                            o.push((*g, self.deref(x)?));
                        }
                        return Ok(rc(Val::List(o)));
                    }
                }
                if let (Val::Enum(n, alts), "copied" | "cloned") = (&*v, name) {
                    let mut o = vec![];
                    for (g, k, pl) in alts {
                        let mut q = vec![];
                        for x in pl {
                            q.push(self.deref(x)?);
                        }
                        o.push((*g, k.clone(), q));
                    }
                    return Ok(rc(Val::Enum(n.clone(), o)));
                }
                return Ok(v);
            }
            "eq" | "ne" if args.len() == 1 && !matches!(&*v, Val::Tensor(_)) => {
                let t = self.eq(&v, &args[0])?;
                let t = if name == "ne" { self.tm.not(t) } else { t };
                return Ok(self.vb(t));
            }
            "cmp" | "partial_cmp" | "total_cmp" if args.len() == 1 && !matches!(&*v, Val::Enum(..)) => {
                let o = self.ordering(&v, &args[0])?;
                return Ok(if name == "partial_cmp" { self.some(o) } else { o });
            }
            "lt" | "le" | "gt" | "ge" if args.len() == 1 && matches!(&*v, Val::I(..) | Val::F(_)) => {
                let b = self.deref(&args[0])?;
                let op = match name {
                    "lt" => '<',
                    "le" => 'l',
                    "gt" => '>',
                    _ => 'g',
                };
                return self.binop(op, &v, &b, &loc);
            }
            "to_string" => {
                return Ok(match &*v {
                    Val::Str(_) => v,
                    _ => rc(Val::Opaque("string".into())),
                })
            }
            "add" | "sub" | "mul" | "div" | "rem" if args.len() == 1 && matches!(&*v, Val::I(..) | Val::F(_)) => {
                let b = self.deref(&args[0])?;
                let op = match name {
                    "add" => '+',
                    "sub" => '-',
                    "mul" => '*',
                    "div" => '/',
                    _ => '%',
                };
                return self.binop(op, &v, &b, &loc);
            }
            _ => {}
        }
        match &*v {
            Val::I(t, ty) => self.int_method(*t, *ty, name, args, tf, loc),
            Val::F(t) => self.float_method(*t, name, args, loc),
            Val::B(t) => match name {
                "then" => {
                    let f = args[0].clone();
                    let t = *t;
                    let r = self.under(t, &mut |s| s.call_value(&f, vec![]))?;
                    Ok(self.option(t, r))
                }
                "then_some" => Ok(self.option(*t, args[0].clone())),
                "not" => {
                    let n = self.tm.not(*t);
                    Ok(self.vb(n))
                }
                _ => unsup(format!("{}: bool method {}", loc, name)),
            },
            Val::Enum(n, _) if &**n == "Option" || &**n == "Result" => self.option_method(p, v.clone(), name, args, loc),
            Val::Enum(n, alts) if &**n == "Ordering" => {
                let g = |k: &str| alts.iter().find(|a| &*a.1 == k).map(|a| a.0).unwrap_or(FALSE);
                let (l, e, gr) = (g("Less"), g("Equal"), g("Greater"));
                match name {
                    "is_lt" => Ok(self.vb(l)),
                    "is_gt" => Ok(self.vb(gr)),
                    "is_eq" => Ok(self.vb(e)),
                    "is_le" => Ok({
                        let t = self.tm.not(gr);
                        self.vb(t)
                    }),
                    "is_ge" => Ok({
                        let t = self.tm.not(l);
                        self.vb(t)
                    }),
                    "is_ne" => Ok({
                        let t = self.tm.not(e);
                        self.vb(t)
                    }),
                    "reverse" => {
                        let mut a = vec![(gr, Rc::from("Less"), vec![]), (e, Rc::from("Equal"), vec![]), (l, Rc::from("Greater"), vec![])];
                        a.retain(|x: &(T, Rc<str>, Vec<V>)| x.0 != FALSE);
                        Ok(rc(Val::Enum("Ordering".into(), a)))
                    }
                    "then" => self.merge(e, &args[0], &v),
                    "then_with" => {
                        let f = args[0].clone();
                        let v2 = v.clone();
                        self.branch(e, &mut |s| s.call_value(&f, vec![]), &mut |_| Ok(v2.clone()))
                    }
                    _ => unsup(format!("{}: Ordering method {}", loc, name)),
                }
            }
            Val::List(_) | Val::Range(..) => self.list_method(p, v.clone(), name, args, tf, loc),
            Val::Map(..) => self.map_method(p, v.clone(), name, args, tf, loc),
            Val::Tensor(_) => self.tensor_method(p, v.clone(), name, args, tf, loc),
            Val::Opaque(_) | Val::Str(_) => self.opaque_method(v.clone(), name, args, loc),
            Val::Struct(n, f) if &**n == "WeightedIndex" && name == "sample" => {
                let Val::List(ws) = &*f[0] else { return unsup("weights") };
                let zero = self.tm.real(Rat::zero());
                if self.path_mode {
                    let (mut cs, mut ks) = (vec![], vec![]);
                    for (i, (_, w)) in ws.iter().enumerate() {
                        let w = self.as_t(w)?;
                        let c = self.tm.lt(zero, w);
                        if c != FALSE {
                            cs.push(c);
                            ks.push(i);
                        }
                    }
                    let k = self.choose_feasible(&cs)?;
                    return Ok(self.vi(ks[k] as i128, ITy::Usize));
                }
                let n = self.fresh_name("sample");
                let t = self.tm.ivar(&n, 0, ws.len() as i128 - 1);
                let mut cs = vec![];
                for (i, (_, w)) in ws.iter().enumerate() {
                    let w = self.as_t(w)?;
                    let k = self.tm.int(i as i128);
                    let e = self.tm.eq(t, k);
                    let pz = self.tm.lt(zero, w);
                    cs.push(self.tm.and2(e, pz));
                }
                let c = self.tm.or(&cs);
                self.assume(c);
                Ok(self.vt(t, ITy::Usize))
            }
            Val::Tuple(_) => match name {
                "iter" | "into_iter" => unsup("iteration over a tuple"),
                _ => unsup(format!("{}: tuple method {}", loc, name)),
            },
            _ => unsup(format!("{}: method {} on {}", loc, name, v.kind())),
        }
    }

    fn int_method(&mut self, t: T, ty: ITy, name: &str, args: Vec<V>, tf: &[Rc<str>], loc: String) -> RV {
        let arg = |s: &mut Self| -> R<T> { s.as_t(&args[0]) };
        let zero = self.tm.int(0);
        match name {
            "abs" | "unsigned_abs" | "abs_diff" => {
                let (x, ty2) = if name == "abs_diff" {
                    let b = arg(self)?;
                    (self.tm.sub(t, b), ty.unsigned())
                } else {
                    (t, if name == "abs" { ty } else { ty.unsigned() })
                };
                let neg = self.tm.lt(x, zero);
                let nx = self.tm.neg(x);
                let r = self.tm.ite(neg, nx, x);
                if name == "abs" {
                    self.range_check(r, ty, "abs", loc);
                }
                Ok(self.vt(r, ty2))
            }
            "signum" => {
                let (o, m) = (self.tm.int(1), self.tm.int(-1));
                let neg = self.tm.lt(t, zero);
                let z = self.tm.eq(t, zero);
                let r = self.tm.ite(z, zero, o);
                let r = self.tm.ite(neg, m, r);
                Ok(self.vt(r, ty))
            }
            "is_positive" => {
                let c = self.tm.lt(zero, t);
                Ok(self.vb(c))
            }
            "is_negative" => {
                let c = self.tm.lt(t, zero);
                Ok(self.vb(c))
            }
            "min" | "max" => {
                let b = arg(self)?;
                let l = self.tm.lt(b, t);
                let r = if name == "min" { self.tm.ite(l, b, t) } else { self.tm.ite(l, t, b) };
                let ty = match &*self.deref(&args[0])? {
                    Val::I(_, y) if ty == ITy::Lit => *y,
                    _ => ty,
                };
                Ok(self.vt(r, ty))
            }
            "clamp" => {
                let (lo, hi) = (self.as_t(&args[0])?, self.as_t(&args[1])?);
                let c = self.tm.lt(t, lo);
                let r = self.tm.ite(c, lo, t);
                let c = self.tm.lt(hi, r);
                let r = self.tm.ite(c, hi, r);
                Ok(self.vt(r, ty))
            }
            "pow" => {
                let k = self.as_conc(&args[0])?;
                let mut r = self.tm.int(1);
                for _ in 0..k {
                    r = self.tm.mul(r, t);
                }
                self.range_check(r, ty, "pow", loc);
                Ok(self.vt(r, ty))
            }
            "saturating_sub" | "saturating_add" | "wrapping_sub" | "wrapping_add" | "checked_sub" | "checked_add" | "checked_mul" => {
                let b = arg(self)?;
                let r = if name.ends_with("sub") {
                    self.tm.sub(t, b)
                } else if name.ends_with("add") {
                    self.tm.add(t, b)
                } else {
                    self.tm.mul(t, b)
                };
                let (lo, hi) = ty.range();
                let (l, h) = (self.tm.int(lo), self.tm.int(hi));
                if name.starts_with("sat") {
                    let c = self.tm.lt(r, l);
                    let r = self.tm.ite(c, l, r);
                    let c = self.tm.lt(h, r);
                    let r = self.tm.ite(c, h, r);
                    return Ok(self.vt(r, ty));
                }
                if name.starts_with("checked") {
                    let (x, y) = (self.tm.le(l, r), self.tm.le(r, h));
                    let c = self.tm.and2(x, y);
                    let v = self.vt(r, ty);
                    return Ok(self.option(c, v));
                }
                let raw = rc(Val::I(r, ITy::Lit));
                self.cast(&raw, &format!("{:?}", ty).to_lowercase())
            }
            "rem_euclid" | "div_euclid" => {
                let k = self.as_conc(&args[0])?;
                if k <= 0 {
                    return unsup("rem_euclid");
                }
                let r = if name == "rem_euclid" { self.tm.mod_c(t, k as i64) } else { self.tm.div_c(t, k as i64) };
                Ok(self.vt(r, ty))
            }
            "try_into" => {
                // target type is not known here: the value is kept, the contract's use decides
                let v = rc(Val::I(t, ITy::Lit));
                let target = tf.first().and_then(|s| ITy::parse(s));
                let _ = target;
                let neg_ok = self.tm.le(zero, t);
                let h = if self.into_u64 {
                    self.tm.int(u64::MAX as i128)
                } else {
                    self.model("try_into: assumed to target an unsigned type wide enough for the value (range 0..=255 checked)");
                    self.tm.int(255)
                };
                let up = self.tm.le(t, h);
                let c = self.tm.and2(neg_ok, up);
                let nc = self.tm.not(c);
                let e = rc(Val::Opaque("TryFromIntError".into()));
                let mut alts = vec![(c, Rc::from("Ok"), vec![v]), (nc, Rc::from("Err"), vec![e])];
                alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                Ok(rc(Val::Enum("Result".into(), alts)))
            }
            _ => unsup(format!("{}: integer method {}", loc, name)),
        }
    }
    fn float_method(&mut self, t: T, name: &str, args: Vec<V>, loc: String) -> RV {
        let zero = self.tm.real(Rat::zero());
        let r = match name {
            "sqrt" | "ln" | "exp" | "tanh" | "log10" | "log2" => {
                self.model(&format!("f32::{} is an uninterpreted function of its argument", name));
                if let Some(x) = self.tm.as_rat(t) {
                    if name == "sqrt" && x.d == 1 {
                        let s = (x.n as f64).sqrt().round() as i128;
                        if s * s == x.n {
                            let r = self.tm.real(Rat::int(s));
                            return Ok(self.vf(r));
                        }
                    }
                }
                self.tm.app(name, &[t], Sort::Real)
            }
            "abs" => {
                let c = self.tm.lt(t, zero);
                let n = self.tm.neg(t);
                self.tm.ite(c, n, t)
            }
            "max" | "min" => {
                let b = self.as_t(&args[0])?;
                let l = self.tm.lt(b, t);
                if name == "min" {
                    self.tm.ite(l, b, t)
                } else {
                    self.tm.ite(l, t, b)
                }
            }
            "powi" => {
                let k = self.as_conc(&args[0])?;
                let mut r = self.tm.real(Rat::one());
                for _ in 0..k {
                    r = self.tm.mul(r, t);
                }
                r
            }
            "powf" => {
                let e = self.as_t(&args[0])?;
                self.tm.app("pow", &[t, e], Sort::Real)
            }
            "mul_add" => {
                let (a, b) = (self.as_t(&args[0])?, self.as_t(&args[1])?);
                let m = self.tm.mul(t, a);
                self.tm.add(m, b)
            }
            "recip" => {
                let o = self.tm.real(Rat::one());
                self.tm.div_real(o, t)
            }
            "floor" | "ceil" | "round" | "trunc" | "fract" if self.tm.as_rat(t).is_some() => {
                let x = self.tm.as_rat(t).unwrap();
                let fl = x.n.div_euclid(x.d);
                let whole = fl * x.d == x.n;
                let r = match name {
                    "floor" => Rat::int(fl),
                    "ceil" => Rat::int(if whole { fl } else { fl + 1 }),
                    "round" => {
                        // half away from zero
                        let a = (2 * x.n.abs() + x.d).div_euclid(2 * x.d);
                        Rat::int(if x.n < 0 { -a } else { a })
                    }
                    _ => {
                        let tr = x.n / x.d;
                        if name == "trunc" {
                            Rat::int(tr)
                        } else {
                            let i = self.tm.real(Rat::int(tr));
                            let d = self.tm.sub(t, i);
                            return Ok(self.vf(d));
                        }
                    }
                };
                self.tm.real(r)
            }
            "is_nan" | "is_infinite" => return Ok(self.vb(FALSE)),
            "is_finite" => return Ok(self.vb(TRUE)),
            _ => return unsup(format!("{}: float method {}", loc, name)),
        };
        Ok(self.vf(r))
    }
    fn option_method(&mut self, p: Place, v: V, name: &str, args: Vec<V>, loc: String) -> RV {
        let is_opt = matches!(&*v, Val::Enum(n, _) if &**n == "Option");
        let (g, pl) = self.opt_parts(&v)?;
        let ng = self.tm.not(g);
        let err = match &*v {
            Val::Enum(_, alts) => alts.iter().find(|a| &*a.1 == "Err").map(|a| a.2[0].clone()),
            _ => None,
        };
        Ok(match name {
            "is_some" | "is_ok" => self.vb(g),
            "is_none" | "is_err" => self.vb(ng),
            "unwrap" | "expect" => {
                self.obligation(g, format!("{}() does not panic", name), loc, true);
                if g == FALSE || self.st.dead {
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                pl
            }
            "unwrap_or" => {
                if self.path_mode {
                    return Ok(match self.decide(g)? {
                        Some(true) => pl,
                        _ => args[0].clone(),
                    });
                }
                self.merge(g, &pl, &args[0])?
            }
            "unwrap_or_else" => {
                let f = args[0].clone();
                let a: Vec<V> = if is_opt { vec![] } else { vec![err.unwrap_or_else(|| self.never.clone())] };
                self.branch(g, &mut |_| Ok(pl.clone()), &mut |s| s.call_value(&f, a.clone()))?
            }
            "map" | "and_then" => {
                let f = args[0].clone();
                let none = if is_opt {
                    self.none()
                } else {
                    rc(Val::Enum("Result".into(), vec![(TRUE, "Err".into(), vec![err.clone().unwrap_or_else(|| self.never.clone())])]))
                };
                let m = name == "map";
                self.branch(
                    g,
                    &mut |s| {
                        let r = s.call_value(&f, vec![pl.clone()])?;
                        Ok(if !m {
                            r
                        } else if is_opt {
                            s.some(r)
                        } else {
                            s.ok(r)
                        })
                    },
                    &mut |_| Ok(none.clone()),
                )?
            }
            "map_or" => {
                let (d, f) = (args[0].clone(), args[1].clone());
                self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |_| Ok(d.clone()))?
            }
            "map_or_else" => {
                let (d, f) = (args[0].clone(), args[1].clone());
                self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |s| s.call_value(&d, vec![]))?
            }
            "is_some_and" | "is_ok_and" => {
                let f = args[0].clone();
                self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |s| Ok(s.vb(FALSE)))?
            }
            "filter" => {
                let f = args[0].clone();
                let c = self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |s| Ok(s.vb(FALSE)))?;
                let c = self.as_bool(&c)?;
                let c = self.tm.and2(g, c);
                self.option(c, pl)
            }
            "or" => self.merge(g, &v, &args[0])?,
            "or_else" => {
                let f = args[0].clone();
                self.branch(g, &mut |_| Ok(v.clone()), &mut |s| s.call_value(&f, vec![]))?
            }
            "ok" => self.option(g, pl),
            "unwrap_or_default" => {
                let zero = match &*pl {
                    Val::I(_, ty) => self.vi(0, *ty),
                    Val::F(_) => {
                        let z = self.tm.real(Rat::zero());
                        self.vf(z)
                    }
                    Val::B(_) => self.vb(FALSE),
                    Val::List(_) => rc(Val::List(vec![])),
                    Val::Str(_) => rc(Val::Str("".into())),
                    _ => return unsup("unwrap_or_default"),
                };
                self.branch(g, &mut |_| Ok(pl.clone()), &mut |_| Ok(zero.clone()))?
            }
            "is_none_or" => {
                let f = args[0].clone();
                self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |s| Ok(s.vb(TRUE)))?
            }
            "inspect" => {
                let f = args[0].clone();
                self.branch(g, &mut |s| s.call_value(&f, vec![pl.clone()]), &mut |s| Ok(s.unit.clone()))?;
                v
            }
            "and" => {
                let other = args[0].clone();
                self.branch(g, &mut |_| Ok(other.clone()), &mut |_| Ok(v.clone()))?
            }
            "xor" => {
                let (h, _) = self.opt_parts(&args[0])?;
                let other = args[0].clone();
                let nh = self.tm.not(h);
                let none = self.none();
                self.branch(
                    g,
                    &mut |s| s.branch(nh, &mut |_| Ok(v.clone()), &mut |_| Ok(none.clone())),
                    &mut |_| Ok(other.clone()),
                )?
            }
            "flatten" => {
                let none = self.none();
                self.branch(g, &mut |_| Ok(pl.clone()), &mut |_| Ok(none.clone()))?
            }
            "ok_or_else" => {
                let f = args[0].clone();
                self.branch(g, &mut |s| Ok(s.ok(pl.clone())), &mut |s| {
                    let e = s.call_value(&f, vec![])?;
                    Ok(rc(Val::Enum("Result".into(), vec![(TRUE, "Err".into(), vec![e])])))
                })?
            }
            "ok_or" => {
                let mut alts = vec![(g, Rc::from("Ok"), vec![pl]), (ng, Rc::from("Err"), vec![args[0].clone()])];
                alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                rc(Val::Enum("Result".into(), alts))
            }
            "map_err" => {
                let mut alts = vec![(g, Rc::from("Ok"), vec![pl]), (ng, Rc::from("Err"), vec![rc(Val::Opaque("error".into()))])];
                alts.retain(|a: &(T, Rc<str>, Vec<V>)| a.0 != FALSE);
                rc(Val::Enum("Result".into(), alts))
            }
            "as_mut" => {
                let mut q = p;
                q.path.push(Step::Payload("Some".into(), 0));
                if let Val::Ref(_) = &*pl {
                    return Ok(v);
                }
                let r = rc(Val::Ref(q));
                self.option(g, r)
            }
            "take" => {
                let n = self.none();
                self.write(&p, n)?;
                v
            }
            "iter" | "into_iter" => rc(Val::List(if g == FALSE { vec![] } else { vec![(g, pl)] })),
            "replace" => {
                let s = self.some(args[0].clone());
                self.write(&p, s)?;
                v
            }
            "insert" | "get_or_insert" | "get_or_insert_with" if is_opt => {
                let f = args[0].clone();
                let q = p.clone();
                if name == "insert" {
                    let s = self.some(f);
                    self.write(&q, s)?;
                } else {
                    let with = name == "get_or_insert_with";
                    self.branch(ng, &mut |s| {
                        let x = if with { s.call_value(&f, vec![])? } else { f.clone() };
                        let x = s.some(x);
                        s.write(&q, x)?;
                        Ok(s.unit.clone())
                    }, &mut |s| Ok(s.unit.clone()))?;
                }
                let cur = self.read(&p)?;
                let (_, pl) = self.opt_parts(&cur)?;
                if let Val::Ref(_) = &*pl {
                    return Ok(pl);
                }
                let mut q = p;
                q.path.push(Step::Payload("Some".into(), 0));
                rc(Val::Ref(q))
            }
            "take_if" => {
                let mut q = p.clone();
                q.path.push(Step::Payload("Some".into(), 0));
                let f = args[0].clone();
                let c = self.branch(g, &mut |s| s.call_value(&f, vec![rc(Val::Ref(q.clone()))]), &mut |s| Ok(s.vb(FALSE)))?;
                let c = self.as_bool(&c)?;
                let c = self.tm.and2(g, c);
                let none = self.none();
                self.branch(c, &mut |s| {
                    s.write(&p, none.clone())?;
                    Ok(v.clone())
                }, &mut |_| Ok(none.clone()))?
            }
            "unwrap_err" | "expect_err" => err.unwrap_or_else(|| self.never.clone()),
            "zip" => {
                let (h, q) = self.opt_parts(&args[0])?;
                let c = self.tm.and2(g, h);
                self.option(c, rc(Val::Tuple(vec![pl, q])))
            }
            _ => return unsup(format!("{}: Option/Result method {}", loc, name)),
        })
    }
    fn map_method(&mut self, p: Place, v: V, name: &str, args: Vec<V>, tf: &[Rc<str>], loc: String) -> RV {
        let Val::Map(set, xs) = &*v else { unreachable!() };
        let set = *set;
        Ok(match name {
            "insert" => {
                let mut m = xs.clone();
                drop(v);
                let val = if set { self.unit.clone() } else { args[1].clone() };
                let k = self.deref(&args[0])?;
                if set && !self.path_mode {
                    // merge-mode fast path: only guards are needed
                    let mut present = vec![];
                    for (g, kk, _) in m.iter() {
                        let e = self.eq(kk, &k)?;
                        if e != FALSE {
                            present.push(self.tm.and2(*g, e));
                        }
                    }
                    let was = self.tm.or(&present);
                    let fresh = self.tm.not(was);
                    let here = self.st.pcand;
                    let _ = here;
                    self.with_mut(&p, |c| {
                        if let Val::Map(_, m) = c {
                            m.push((fresh, k.clone(), val.clone()));
                        }
                    })?;
                    return Ok(self.vb(fresh));
                }
                let mut old = self.none();
                if !set {
                    old = self.map_get(&m, &k)?;
                }
                let fresh = self.map_insert(&mut m, TRUE, k, val)?;
                let fresh = if self.path_mode {
                    let b = self.decide(fresh)?.unwrap_or(false);
                    m.retain(|e| e.0 != FALSE);
                    for e in m.iter_mut() {
                        if e.0 == fresh {
                            e.0 = self.tm.bool(b);
                        }
                    }
                    m.retain(|e| e.0 != FALSE);
                    self.tm.bool(b)
                } else {
                    fresh
                };
                self.write(&p, rc(Val::Map(set, m)))?;
                if set {
                    self.vb(fresh)
                } else {
                    old
                }
            }
            "contains" | "contains_key" => {
                let k = self.deref(&args[0])?;
                let mut cs = vec![];
                for (g, kk, _) in xs {
                    let e = self.eq(kk, &k)?;
                    cs.push(self.tm.and2(*g, e));
                }
                let t = self.tm.or(&cs);
                self.vb(t)
            }
            "get" => {
                let k = self.deref(&args[0])?;
                self.map_get(xs, &k)?
            }
            "get_mut" => {
                let k = self.deref(&args[0])?;
                for (i, (g, kk, _)) in xs.iter().enumerate() {
                    let e = self.eq(kk, &k)?;
                    let c = self.tm.and2(*g, e);
                    if c == FALSE {
                        continue;
                    }
                    if c == TRUE || (self.path_mode && self.decide(c)? == Some(true)) {
                        let mut q = p.clone();
                        q.path.push(Step::MapVal(i));
                        return Ok(self.some(rc(Val::Ref(q))));
                    }
                    if !self.path_mode {
                        return unsup("get_mut with a symbolic key");
                    }
                }
                self.none()
            }
            "remove" => {
                let k = self.deref(&args[0])?;
                let mut m = xs.clone();
                let mut found = FALSE;
                let mut val = self.never.clone();
                for e in m.iter_mut() {
                    let q = self.eq(&e.1, &k)?;
                    let c = self.tm.and2(e.0, q);
                    if c == FALSE {
                        continue;
                    }
                    val = self.merge(c, &e.2, &val)?;
                    found = self.tm.or2(found, c);
                    let nc = self.tm.not(c);
                    e.0 = self.tm.and2(e.0, nc);
                }
                if self.path_mode {
                    if let Some(b) = self.decide(found)? {
                        found = self.tm.bool(b);
                    }
                    let mut o = vec![];
                    for e in m {
                        if self.decide(e.0)? == Some(true) {
                            o.push((TRUE, e.1, e.2));
                        }
                    }
                    m = o;
                } else {
                    m.retain(|e| e.0 != FALSE);
                }
                self.write(&p, rc(Val::Map(set, m)))?;
                if set {
                    self.vb(found)
                } else {
                    self.option(found, val)
                }
            }
            "len" => {
                let it: Slots = xs.iter().map(|x| (x.0, x.1.clone())).collect();
                let c = self.count(&it);
                self.vt(c, ITy::Usize)
            }
            "is_empty" => {
                let g: Vec<T> = xs.iter().map(|x| x.0).collect();
                let g = self.tm.or(&g);
                let t = self.tm.not(g);
                self.vb(t)
            }
            "retain" => {
                let n = xs.len();
                let mut keep = vec![];
                for i in 0..n {
                    let cur = self.read(&p)?;
                    let (g, k) = match &*cur {
                        Val::Map(_, m) if m.len() == n => (m[i].0, m[i].1.clone()),
                        _ => return unsup("retain"),
                    };
                    let f = args[0].clone();
                    let mut q = p.clone();
                    q.path.push(Step::MapVal(i));
                    let a = if set { vec![k] } else { vec![k, rc(Val::Ref(q))] };
                    let r = self.under(g, &mut |s| s.call_value(&f, a.clone()))?;
                    let mut c = self.as_t(&r)?;
                    if self.path_mode {
                        if let Some(b) = self.decide(c)? {
                            c = self.tm.bool(b);
                        }
                    }
                    keep.push(self.tm.and2(g, c));
                }
                let cur = self.read(&p)?;
                if let Val::Map(_, m) = &*cur {
                    let m2 = m.iter().zip(keep).filter(|x| x.1 != FALSE).map(|(e, g)| (g, e.1.clone(), e.2.clone())).collect();
                    self.write(&p, rc(Val::Map(set, m2)))?;
                }
                self.unit.clone()
            }
            "clear" => {
                self.write(&p, rc(Val::Map(set, vec![])))?;
                self.unit.clone()
            }
            "keys" | "into_keys" => {
                let l = self.reorder(xs.iter().map(|x| (x.0, x.1.clone())).collect())?;
                rc(Val::List(l))
            }
            "values" | "into_values" => {
                let l = self.reorder(xs.iter().map(|x| (x.0, x.2.clone())).collect())?;
                rc(Val::List(l))
            }
            "values_mut" => {
                let mut o = vec![];
                for (i, (g, _, _)) in xs.iter().enumerate() {
                    let mut q = p.clone();
                    q.path.push(Step::MapVal(i));
                    o.push((*g, rc(Val::Ref(q))));
                }
                let o = self.reorder(o)?;
                rc(Val::List(o))
            }
            "iter_mut" => {
                let it = self.iter_mut_items(&p)?;
                rc(Val::List(it))
            }
            "iter" | "into_iter" | "drain" => {
                self.model("HashMap/HashSet: iteration order taken as insertion order");
                let it = self.iter_items(&v)?;
                if name == "drain" {
                    self.write(&p, rc(Val::Map(set, vec![])))?;
                }
                rc(Val::List(it))
            }
            "extend" => {
                let mut m = xs.clone();
                for (g, x) in self.iter_items(&args[0])? {
                    match (&*x, set) {
                        (_, true) => {
                            self.map_insert(&mut m, g, x.clone(), self.unit.clone())?;
                        }
                        (Val::Tuple(kv), false) => {
                            self.map_insert(&mut m, g, kv[0].clone(), kv[1].clone())?;
                        }
                        _ => return unsup("extend"),
                    }
                }
                self.write(&p, rc(Val::Map(set, m)))?;
                self.unit.clone()
            }
            "entry" => {
                let k = self.deref(&args[0])?;
                rc(Val::Struct("MapEntry".into(), vec![rc(Val::Ref(p)), k]))
            }
            _ => {
                let it = self.iter_items(&v)?;
                let l = rc(Val::List(it));
                let c = self.alloc(l.clone());
                return self.list_method(Place { heap: false, cell: c, path: vec![] }, l, name, args, tf, loc);
            }
        })
    }
    fn list_method(&mut self, p: Place, v: V, name: &str, args: Vec<V>, tf: &[Rc<str>], loc: String) -> RV {
        // ranges are iterators
        let v = if let Val::Range(..) = &*v {
            if name == "contains" {
                let x = self.as_t(&args[0])?;
                if let Val::Range(a, b, incl) = &*v {
                    let mut cs = vec![];
                    if let Some(a) = a {
                        let a = self.as_t(a)?;
                        cs.push(self.tm.le(a, x));
                    }
                    if let Some(b) = b {
                        let b = self.as_t(b)?;
                        let c = if *incl { self.tm.le(x, b) } else { self.tm.lt(x, b) };
                        cs.push(c);
                    }
                    let t = self.tm.and(&cs);
                    return Ok(self.vb(t));
                }
            }
            let it = self.iter_items(&v)?;
            rc(Val::List(it))
        } else {
            v
        };
        // mutating methods first: avoid holding a second reference to the list
        match name {
            "push_front" => {
                drop(v);
                let x = args[0].clone();
                self.with_mut(&p, |c| {
                    if let Val::List(xs) = c {
                        xs.insert(0, (TRUE, x));
                    }
                })?;
                return Ok(self.unit.clone());
            }
            "push" | "push_back" => {
                drop(v);
                let x = args[0].clone();
                let new = self.split_item(TRUE, x);
                self.with_mut(&p, |c| {
                    if let Val::List(xs) = c {
                        xs.extend(new);
                    }
                })?;
                return Ok(self.unit.clone());
            }
            "extend" | "append" | "extend_from_slice" => {
                let src = if name == "append" {
                    let Val::Ref(q) = &*args[0] else { return unsup("append") };
                    let q = q.clone();
                    let s = self.read(&q)?;
                    let s = self.deref(&s)?;
                    let e = self.list(vec![]);
                    self.write(&q, e)?;
                    s
                } else {
                    args[0].clone()
                };
                let it: Slots = self.iter_items(&src)?.into_iter().flat_map(|(g, x)| self.split_item(g, x)).collect();
                drop(v);
                self.with_mut(&p, |c| {
                    if let Val::List(xs) = c {
                        xs.extend(it);
                    }
                })?;
                return Ok(self.unit.clone());
            }
            _ => {}
        }
        let Val::List(xs) = &*v else { return unsup("list") };
        let f0 = args.first().cloned();
        macro_rules! lst {
            ($e:expr) => {
                Ok(rc(Val::List($e)))
            };
        }
        match name {
            "iter" | "into_iter" | "par_iter" | "into_par_iter" | "iter_" | "progress" | "fuse" | "as_mut_slice" | "peekable" | "to_vec" | "collect_vec" | "into_boxed_slice" | "with_message" | "tuples_" | "progress_with" => Ok(v),
            "iter_mut" | "par_iter_mut" => {
                let it = self.iter_mut_items(&p)?;
                lst!(it)
            }
            "collect" | "collect_array" => {
                let t = tf.first().map(|s| s.to_string()).unwrap_or_default();
                self.collect(xs.clone(), &t)
            }
            "len" => {
                let c = self.count(xs);
                Ok(self.vt(c, ITy::Usize))
            }
            "count" => {
                let c = self.count(xs);
                Ok(self.vt(c, ITy::Usize))
            }
            "is_empty" => {
                let g = self.any_guard(xs);
                let t = self.tm.not(g);
                Ok(self.vb(t))
            }
            "rev" => {
                let mut o = xs.clone();
                o.reverse();
                lst!(o)
            }
            "reverse" => {
                let mut o = xs.clone();
                o.reverse();
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "enumerate" => {
                let pos = self.positions(xs);
                let o = xs.iter().enumerate().map(|(i, (g, x))| (*g, rc(Val::Tuple(vec![self.vt(pos[i], ITy::Usize), x.clone()])))).collect();
                lst!(o)
            }
            "map" | "for_each" | "inspect" => {
                let f = f0.unwrap();
                let o = self.map_slots(xs.clone(), &f)?;
                match name {
                    "map" => lst!(o),
                    "inspect" => Ok(v),
                    _ => Ok(self.unit.clone()),
                }
            }
            "flat_map" | "flatten" => {
                let o = if name == "flatten" { xs.clone() } else { self.map_slots(xs.clone(), &f0.unwrap())? };
                let mut out = vec![];
                for (g, x) in o {
                    for (h, y) in self.iter_items(&x)? {
                        let c = self.tm.and2(g, h);
                        if c != FALSE {
                            out.push((c, y));
                        }
                    }
                }
                lst!(out)
            }
            "filter" | "partition" | "retain" => {
                let f = f0.unwrap();
                let cs = self.test_slots(xs, &f)?;
                let mut yes = vec![];
                let mut no = vec![];
                for (i, (g, x)) in xs.iter().enumerate() {
                    let mut c = cs[i];
                    if self.path_mode {
                        if let Some(b) = self.decide(c)? {
                            c = self.tm.bool(b);
                        }
                    }
                    let a = self.tm.and2(*g, c);
                    let nc = self.tm.not(c);
                    let b = self.tm.and2(*g, nc);
                    if a != FALSE {
                        yes.push((a, x.clone()));
                    }
                    if b != FALSE {
                        no.push((b, x.clone()));
                    }
                }
                match name {
                    "filter" => lst!(yes),
                    "retain" => {
                        self.set_place(&p, yes)?;
                        Ok(self.unit.clone())
                    }
                    _ => Ok(rc(Val::Tuple(vec![rc(Val::List(yes)), rc(Val::List(no))]))),
                }
            }
            "filter_map" => {
                let f = f0.unwrap();
                let o = self.map_slots(xs.clone(), &f)?;
                let mut out = vec![];
                for (g, x) in o {
                    let (h, y) = self.opt_parts(&x)?;
                    let h = match self.path_mode {
                        true => {
                            let b = self.decide(h)?.unwrap_or(false);
                            self.tm.bool(b)
                        }
                        false => h,
                    };
                    let c = self.tm.and2(g, h);
                    if c != FALSE {
                        out.push((c, y));
                    }
                }
                lst!(out)
            }
            "all" | "any" => {
                let f = f0.unwrap();
                let cs = self.test_slots(xs, &f)?;
                let mut o = vec![];
                for (i, (g, _)) in xs.iter().enumerate() {
                    o.push(if name == "all" { self.tm.implies(*g, cs[i]) } else { self.tm.and2(*g, cs[i]) });
                }
                let t = if name == "all" { self.tm.and(&o) } else { self.tm.or(&o) };
                Ok(self.vb(t))
            }
            "contains" => {
                let k = self.deref(&args[0])?;
                let mut o = vec![];
                for (g, x) in xs {
                    let e = self.eq(x, &k)?;
                    o.push(self.tm.and2(*g, e));
                }
                let t = self.tm.or(&o);
                Ok(self.vb(t))
            }
            "find" | "position" | "find_map" | "rposition" => {
                let f = f0.unwrap();
                let pos = self.positions(xs);
                let mut cands: Slots = vec![];
                if name == "find_map" {
                    let o = self.map_slots(xs.clone(), &f)?;
                    for (g, x) in o {
                        let (h, y) = self.opt_parts(&x)?;
                        let c = self.tm.and2(g, h);
                        cands.push((c, y));
                    }
                } else {
                    let cs = self.test_slots(xs, &f)?;
                    for (i, (g, x)) in xs.iter().enumerate() {
                        let c = self.tm.and2(*g, cs[i]);
                        let r = if name == "find" { x.clone() } else { self.vt(pos[i], ITy::Usize) };
                        cands.push((c, r));
                    }
                }
                if name == "rposition" {
                    cands.reverse();
                }
                self.first_of(cands)
            }
            "peek" | "peek_front" => self.first_of(xs.clone()),
            "by_ref" => unsup("by_ref"),
            "next_if" | "next_if_eq" => {
                let xs2 = self.settle(xs.clone())?;
                if !Self::all_true(&xs2) {
                    return unsup("next_if() on a guarded iterator");
                }
                if xs2.is_empty() {
                    return Ok(self.none());
                }
                let r = xs2[0].1.clone();
                let c = if name == "next_if" {
                    let c = self.call_value(&args[0].clone(), vec![r.clone()])?;
                    self.as_bool(&c)?
                } else {
                    self.eq(&r, &args[0])?
                };
                let c = match self.tm.as_bool(c) {
                    Some(b) => b,
                    None if self.path_mode => self.decide(c)? == Some(true),
                    None => return unsup("next_if"),
                };
                if !c {
                    return Ok(self.none());
                }
                self.set_place(&p, xs2[1..].to_vec())?;
                Ok(self.some(r))
            }
            "first" | "front" => self.first_of(xs.clone()),
            "last" | "back" => {
                let mut o = xs.clone();
                o.reverse();
                self.first_of(o)
            }
            "first_mut" | "last_mut" => {
                if !Self::all_true(xs) {
                    return unsup("first_mut of a guarded list");
                }
                if xs.is_empty() {
                    return Ok(self.none());
                }
                let mut q = p;
                q.path.push(Step::Slot(if name == "first_mut" { 0 } else { xs.len() - 1 }));
                Ok(self.some(rc(Val::Ref(q))))
            }
            "next" | "pop_front" => {
                // consuming iterator held in a variable
                let xs2 = self.settle(xs.clone())?;
                if !Self::all_true(&xs2) {
                    return unsup("next() on a guarded iterator");
                }
                if xs2.is_empty() {
                    return Ok(self.none());
                }
                let r = xs2[0].1.clone();
                self.set_place(&p, xs2[1..].to_vec())?;
                Ok(self.some(r))
            }
            "next_back" => {
                let xs2 = self.settle(xs.clone())?;
                if !Self::all_true(&xs2) {
                    return unsup("next_back() on a guarded iterator");
                }
                if xs2.is_empty() {
                    return Ok(self.none());
                }
                let r = xs2[xs2.len() - 1].1.clone();
                self.set_place(&p, xs2[..xs2.len() - 1].to_vec())?;
                Ok(self.some(r))
            }
            "nth" => {
                let k = args[0].clone();
                let kt = self.as_t(&k)?;
                if let (Some(n), Ok(xs2)) = (self.tm.as_int(kt), self.settle(xs.clone())) {
                    if Self::all_true(&xs2) {
                        let n = n as usize;
                        self.set_place(&p, xs2.iter().skip(n + 1).cloned().collect())?;
                        return Ok(match xs2.get(n) {
                            Some(x) => self.some(x.1.clone()),
                            None => self.none(),
                        });
                    }
                }
                let c = self.alloc(v.clone());
                self.list_method(Place { heap: false, cell: c, path: vec![] }, v, "get", vec![k], tf, loc)
            }
            "get" => {
                let i = self.deref(&args[0])?;
                if let Val::Range(..) = &*i {
                    return unsup("get(range)");
                }
                let t = self.as_t(&i)?;
                let (inr, cs) = self.slot_conds(xs, t);
                if inr == FALSE {
                    return Ok(self.none());
                }
                if self.path_mode {
                    if self.decide(inr)? == Some(false) {
                        return Ok(self.none());
                    }
                    let x = self.select(xs, &cs)?;
                    return Ok(self.some(x));
                }
                let x = self.select(xs, &cs)?;
                Ok(self.option(inr, x))
            }
            "get_mut" => {
                let k = self.as_conc(&args[0])?;
                if !Self::all_true(xs) {
                    return unsup("get_mut of a guarded list");
                }
                if k < 0 || k as usize >= xs.len() {
                    return Ok(self.none());
                }
                let mut q = p;
                q.path.push(Step::Slot(k as usize));
                Ok(self.some(rc(Val::Ref(q))))
            }
            "pop" | "pop_back" => {
                if xs.is_empty() {
                    return Ok(self.none());
                }
                if Self::all_true(xs) {
                    let r = xs.last().unwrap().1.clone();
                    drop(v);
                    self.with_mut(&p, |c| {
                        if let Val::List(xs) = c {
                            xs.pop();
                        }
                    })?;
                    return Ok(self.some(r));
                }
                // last present
                let mut o = xs.clone();
                let mut after = FALSE;
                let mut rev = vec![];
                for i in (0..o.len()).rev() {
                    rev.push(o[i].clone());
                    let na = self.tm.not(after);
                    let removed = self.tm.and2(o[i].0, na);
                    after = self.tm.or2(after, o[i].0);
                    let nr = self.tm.not(removed);
                    o[i].0 = self.tm.and2(o[i].0, nr);
                }
                o.retain(|x| x.0 != FALSE);
                self.set_place(&p, o)?;
                self.first_of(rev)
            }
            "remove" | "swap_remove" => {
                if !Self::all_true(xs) || (name == "swap_remove" && false) {
                    return unsup("remove from a guarded list");
                }
                let t = self.as_t(&args[0])?;
                let k = match self.tm.as_int(t) {
                    Some(k) => k,
                    None if self.path_mode => {
                        let n = self.tm.int(xs.len() as i128);
                        let c = self.tm.lt(t, n);
                        self.obligation(c, "remove index in range", loc.clone(), true);
                        self.concretise(t)?
                    }
                    None => {
                        // guarded removal
                        let (inr, cs) = self.slot_conds(xs, t);
                        self.obligation(inr, "remove index in range", loc, true);
                        let val = self.select(xs, &cs)?;
                        let mut o = vec![];
                        for (i, (_, x)) in xs.iter().enumerate() {
                            let nc = self.tm.not(cs[i]);
                            if nc != FALSE {
                                o.push((nc, x.clone()));
                            }
                        }
                        self.set_place(&p, o)?;
                        return Ok(val);
                    }
                };
                if k < 0 || k as usize >= xs.len() {
                    self.obligation(FALSE, "remove index in range", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let mut o = xs.clone();
                let r = if name == "remove" { o.remove(k as usize) } else { o.swap_remove(k as usize) };
                self.set_place(&p, o)?;
                Ok(r.1)
            }
            "insert" => {
                let k = self.as_conc(&args[0])?;
                if !Self::all_true(xs) {
                    return unsup("insert into a guarded list");
                }
                if k as usize > xs.len() {
                    self.obligation(FALSE, "insert index in range", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let mut o = xs.clone();
                o.insert(k as usize, (TRUE, args[1].clone()));
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "swap" => {
                let (a, b) = (self.as_conc(&args[0])?, self.as_conc(&args[1])?);
                let mut o = xs.clone();
                if a as usize >= o.len() || b as usize >= o.len() {
                    self.obligation(FALSE, "swap index in range", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                o.swap(a as usize, b as usize);
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "clear" => {
                self.set_place(&p, vec![])?;
                Ok(self.unit.clone())
            }
            "fill" => {
                let o = xs.iter().map(|(g, _)| (*g, args[0].clone())).collect();
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "resize" => {
                let k = self.as_conc(&args[0])? as usize;
                if !Self::all_true(xs) {
                    return unsup("resize");
                }
                let mut o = xs.clone();
                o.resize(k, (TRUE, args[1].clone()));
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "truncate" => {
                let k = self.as_conc(&args[0])? as usize;
                if !Self::all_true(xs) {
                    return unsup("truncate");
                }
                let mut o = xs.clone();
                o.truncate(k);
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "drain" => {
                let (mut a, mut b) = (0usize, xs.len());
                if let Val::Range(x, y, incl) = &*args[0] {
                    if let Some(x) = x {
                        a = self.as_conc(x)? as usize;
                    }
                    if let Some(y) = y {
                        b = self.as_conc(y)? as usize + *incl as usize;
                    }
                }
                if (a != 0 || b != xs.len()) && !Self::all_true(xs) {
                    return unsup("drain of a guarded list");
                }
                if a > b || b > xs.len() {
                    self.obligation(FALSE, "drain range in bounds", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let out = xs[a..b].to_vec();
                let mut rest = xs[..a].to_vec();
                rest.extend_from_slice(&xs[b..]);
                self.set_place(&p, rest)?;
                lst!(out)
            }
            "split_off" => {
                let k = self.as_conc(&args[0])? as usize;
                if !Self::all_true(xs) {
                    return unsup("split_off");
                }
                let out = xs[k..].to_vec();
                let rest = xs[..k].to_vec();
                self.set_place(&p, rest)?;
                lst!(out)
            }
            "zip" => {
                let o = self.iter_items(&args[0])?;
                if Self::all_true(xs) && Self::all_true(&o) {
                    return lst!(xs.iter().zip(o).map(|(x, y)| (TRUE, rc(Val::Tuple(vec![x.1.clone(), y.1])))).collect());
                }
                // same guards elementwise
                if xs.len() == o.len() && xs.iter().zip(&o).all(|(a, b)| a.0 == b.0) {
                    return lst!(xs.iter().zip(o).map(|(x, y)| (x.0, rc(Val::Tuple(vec![x.1.clone(), y.1])))).collect());
                }
                unsup("zip of guarded lists")
            }
            "chain" => {
                let mut o = xs.clone();
                o.extend(self.iter_items(&args[0])?);
                lst!(o)
            }
            "take" | "skip" | "step_by" | "chunks" | "windows" | "chunks_exact" => {
                let k = self.as_conc(&args[0])? as usize;
                let xs = self.settle(xs.clone())?;
                if !Self::all_true(&xs) {
                    if name == "take" || name == "skip" {
                        let pos = self.positions(&xs);
                        let kt = self.tm.int(k as i128);
                        let mut o = vec![];
                        for (i, (g, x)) in xs.iter().enumerate() {
                            let c = if name == "take" { self.tm.lt(pos[i], kt) } else { self.tm.le(kt, pos[i]) };
                            let c = self.tm.and2(*g, c);
                            if c != FALSE {
                                o.push((c, x.clone()));
                            }
                        }
                        return lst!(o);
                    }
                    return unsup(format!("{} on a guarded list", name));
                }
                let mk = |c: &[(T, V)]| (TRUE, rc(Val::List(c.to_vec())));
                match name {
                    "take" => lst!(xs.iter().take(k).cloned().collect()),
                    "skip" => lst!(xs.iter().skip(k).cloned().collect()),
                    _ if k == 0 => {
                        self.obligation(FALSE, format!("{} size is not zero", name), loc, true);
                        self.st.dead = true;
                        Ok(self.never.clone())
                    }
                    "step_by" => lst!(xs.iter().step_by(k).cloned().collect()),
                    "chunks" => lst!(xs.chunks(k).map(mk).collect()),
                    "chunks_exact" => lst!(xs.chunks_exact(k).map(mk).collect()),
                    _ => lst!(xs.windows(k).map(mk).collect()),
                }
            }
            "scan" | "map_while" => {
                let f = args.last().unwrap().clone();
                let cell = if name == "scan" {
                    let c = self.alloc(args[0].clone());
                    Some(rc(Val::Ref(Place { heap: false, cell: c, path: vec![] })))
                } else {
                    None
                };
                let mut going = TRUE;
                let mut o = vec![];
                for (g, x) in xs.clone() {
                    let c = self.tm.and2(g, going);
                    let none = self.none();
                    let r = self.branch(
                        c,
                        &mut |s| {
                            let mut a: Vec<V> = cell.iter().cloned().collect();
                            a.push(x.clone());
                            s.call_value(&f, a)
                        },
                        &mut |_| Ok(none.clone()),
                    )?;
                    let (h, pl) = self.opt_parts(&r)?;
                    let h = if self.path_mode {
                        let b = self.decide(h)?.unwrap_or(false);
                        self.tm.bool(b)
                    } else {
                        h
                    };
                    let imp = self.tm.implies(g, h);
                    going = self.tm.and2(going, imp);
                    let keep = self.tm.and2(c, h);
                    if keep != FALSE {
                        o.push((keep, pl));
                    }
                    if going == FALSE {
                        break;
                    }
                }
                lst!(o)
            }
            "cycle" if Self::all_true(xs) && !xs.is_empty() => {
                let n = (20000 / xs.len() + 1) * xs.len();
                lst!(xs.iter().cycle().take(n).cloned().collect())
            }
            "take_while" | "skip_while" => {
                let f = f0.unwrap();
                let cs = self.test_slots(xs, &f)?;
                let mut going = TRUE;
                let mut o = vec![];
                for (i, (g, x)) in xs.iter().enumerate() {
                    let imp = self.tm.implies(*g, cs[i]);
                    going = self.tm.and2(going, imp);
                    let keep = if name == "take_while" { going } else { self.tm.not(going) };
                    let c = self.tm.and2(*g, keep);
                    let c = if self.path_mode {
                        let b = self.decide(c)?.unwrap_or(false);
                        self.tm.bool(b)
                    } else {
                        c
                    };
                    if c != FALSE {
                        o.push((c, x.clone()));
                    }
                }
                lst!(o)
            }
            "fold" => {
                let f = args[1].clone();
                let mut acc = args[0].clone();
                for (g, x) in xs.clone() {
                    let a2 = acc.clone();
                    acc = self.branch(g, &mut |s| s.call_value(&f, vec![a2.clone(), x.clone()]), &mut |_| Ok(a2.clone()))?;
                }
                Ok(acc)
            }
            // of rayon with two arguments: the identity and the operation
            "reduce" if args.len() == 2 => {
                let init = self.call_value(&args[0], vec![])?;
                self.list_method(p, v, "fold", vec![init, args[1].clone()], tf, loc)
            }
            "reduce" => {
                let f = args[0].clone();
                let ys = self.settle(xs.clone())?;
                let mut have = FALSE;
                let mut acc = self.never.clone();
                for (g, x) in ys {
                    if have == FALSE {
                        have = g;
                        acc = x;
                        continue;
                    }
                    let (a, h) = (acc.clone(), have);
                    acc = self.branch(
                        g,
                        &mut |s| s.branch(h, &mut |s| s.call_value(&f, vec![a.clone(), x.clone()]), &mut |_| Ok(x.clone())),
                        &mut |_| Ok(a.clone()),
                    )?;
                    have = self.tm.or2(have, g);
                }
                Ok(self.option(have, acc))
            }
            "try_for_each" | "try_fold" => {
                let f = args[args.len() - 1].clone();
                let fold = name == "try_fold";
                let mut acc = if fold { args[0].clone() } else { self.unit.clone() };
                let mut kind: Option<Rc<str>> = None;
                for (g, x) in xs.clone() {
                    match self.decide(g)? {
                        Some(true) => {}
                        Some(false) => continue,
                        None => return unsup("try_for_each on a guarded list"),
                    }
                    let a = if fold { vec![acc.clone(), x] } else { vec![x] };
                    let r = self.call_value(&f, a)?;
                    if self.st.dead {
                        return Ok(self.never.clone());
                    }
                    if let Val::Enum(n, _) = &*r {
                        kind = Some(n.clone());
                    }
                    let (h, y) = self.opt_parts(&r)?;
                    match self.decide(h)? {
                        Some(true) => acc = y,
                        Some(false) => return Ok(r),
                        None => return unsup("try_for_each with a symbolic outcome"),
                    }
                }
                match kind {
                    Some(k) if &*k == "Option" => Ok(self.some(acc)),
                    _ => Ok(self.ok(acc)),
                }
            }
            "rfind" => {
                let mut o = xs.clone();
                o.reverse();
                let o: V = rc(Val::List(o));
                let c = self.alloc(o.clone());
                self.list_method(Place { heap: false, cell: c, path: vec![] }, o, "find", args, tf, loc)
            }
            "zip_eq" => self.list_method(p, v, "zip", args, tf, loc),
            "cartesian_product" => {
                let ys = self.iter_items(&args[0])?;
                let mut o = vec![];
                for (g, x) in xs {
                    for (h, y) in &ys {
                        let c = self.tm.and2(*g, *h);
                        if c != FALSE {
                            o.push((c, rc(Val::Tuple(vec![x.clone(), y.clone()]))));
                        }
                    }
                }
                lst!(o)
            }
            "starts_with" | "ends_with" => {
                let ys = self.iter_items(&args[0])?;
                if !Self::all_true(xs) || !Self::all_true(&ys) {
                    return unsup("starts_with on a guarded list");
                }
                if ys.len() > xs.len() {
                    return Ok(self.vb(FALSE));
                }
                let at = if name == "starts_with" { 0 } else { xs.len() - ys.len() };
                let mut o = vec![];
                for (i, y) in ys.iter().enumerate() {
                    o.push(self.eq(&xs[at + i].1, &y.1)?);
                }
                let t = self.tm.and(&o);
                Ok(self.vb(t))
            }
            "is_sorted" if Self::all_true(xs) => {
                let mut o = vec![];
                for w in xs.windows(2) {
                    let l = self.less(&w[1].1, &w[0].1)?;
                    o.push(self.tm.not(l));
                }
                let t = self.tm.and(&o);
                Ok(self.vb(t))
            }
            "all_equal" => {
                let mut o = vec![];
                for (i, (g, x)) in xs.iter().enumerate() {
                    for (h, y) in &xs[..i] {
                        let e = self.eq(x, y)?;
                        let c = self.tm.and2(*g, *h);
                        o.push(self.tm.implies(c, e));
                    }
                }
                let t = self.tm.and(&o);
                Ok(self.vb(t))
            }
            "rotate_left" | "rotate_right" if Self::all_true(xs) => {
                let k = self.as_conc(&args[0])? as usize;
                if k > xs.len() {
                    self.obligation(FALSE, format!("{} distance is within the list", name), loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let mut o = xs.clone();
                match name {
                    "rotate_left" => o.rotate_left(k),
                    _ => o.rotate_right(k),
                }
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "sum" | "product" => {
                let real = xs.iter().any(|x| matches!(&*x.1, Val::F(_))) || matches!(tf.first().map(|s| &**s), Some("f32" | "f64"));
                let ty = xs
                    .iter()
                    .find_map(|x| match &*x.1 {
                        Val::I(_, t) if *t != ITy::Lit => Some(*t),
                        _ => None,
                    })
                    .or(tf.first().and_then(|s| ITy::parse(s)))
                    .unwrap_or(ITy::Lit);
                let mut acc = if real {
                    self.tm.real(if name == "sum" { Rat::zero() } else { Rat::one() })
                } else {
                    self.tm.int(if name == "sum" { 0 } else { 1 })
                };
                for (g, x) in xs.clone() {
                    let t = self.as_t(&x)?;
                    let n = if name == "sum" { self.tm.add(acc, t) } else { self.tm.mul(acc, t) };
                    acc = self.tm.ite(g, n, acc);
                    if !real {
                        self.range_check(acc, ty, name, loc.clone());
                    }
                }
                Ok(if real { self.vf(acc) } else { self.vt(acc, ty) })
            }
            "max" | "min" => {
                let mx = name == "max";
                self.best(xs.clone(), &mut |s, b, x| {
                    let l = if mx { s.less(x, b)? } else { s.less(x, b)? };
                    Ok(if mx { s.tm.not(l) } else { l })
                })
            }
            "max_by" | "min_by" => {
                let f = f0.unwrap();
                let mx = name == "max_by";
                self.best(xs.clone(), &mut |s, b, x| {
                    let o = s.call_value(&f, vec![b.clone(), x.clone()])?;
                    let g = s.variant_guard(&o, "Greater");
                    Ok(if mx { s.tm.not(g) } else { g })
                })
            }
            "max_by_key" | "min_by_key" => {
                let f = f0.unwrap();
                let mx = name == "max_by_key";
                let keys = self.map_slots(xs.clone(), &f)?;
                let paired: Slots = keys.into_iter().zip(xs.iter()).map(|(k, x)| (x.0, rc(Val::Tuple(vec![k.1, x.1.clone()])))).collect();
                let r = self.best(paired, &mut |s, b, x| {
                    let (Val::Tuple(b), Val::Tuple(x)) = (&**b, &**x) else { return unsup("key") };
                    let l = s.less(&x[0], &b[0])?;
                    Ok(if mx { s.tm.not(l) } else { l })
                })?;
                let (g, t) = self.opt_parts(&r)?;
                let inner = match &*t {
                    Val::Tuple(t) => t[1].clone(),
                    _ => t,
                };
                Ok(self.option(g, inner))
            }
            "sort" | "sort_unstable" | "sorted" | "sorted_unstable" => {
                let ks = xs.iter().map(|x| (x.0, x.1.clone(), x.1.clone())).collect();
                let o = self.sort_slots(ks, None)?;
                if name.starts_with("sorted") {
                    return lst!(o);
                }
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "sort_by_key" | "sort_unstable_by_key" | "sorted_by_key" | "sort_by_cached_key" => {
                let ks = self.map_slots(xs.clone(), &f0.unwrap())?;
                let ks = ks.into_iter().zip(xs.iter()).map(|(k, x)| (x.0, k.1, x.1.clone())).collect();
                let o = self.sort_slots(ks, None)?;
                if name.starts_with("sorted") {
                    return lst!(o);
                }
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "sort_by" | "sort_unstable_by" | "sorted_by" => {
                let f = f0.unwrap();
                // a comparator on concrete keys decides without splitting even when guards are symbolic
                let guards_ok = Self::all_true(xs);
                let o = if guards_ok {
                    let ks = xs.iter().map(|x| (x.0, x.1.clone(), x.1.clone())).collect();
                    self.sort_slots(ks, Some(&f))?
                } else {
                    // insertion sort; decisions must be concrete
                    let mut out: Slots = vec![];
                    for x in xs.clone() {
                        let mut pos = out.len();
                        while pos > 0 {
                            let o = self.call_value(&f, vec![x.1.clone(), out[pos - 1].1.clone()])?;
                            let l = self.variant_guard(&o, "Less");
                            match self.tm.as_bool(l) {
                                Some(true) => pos -= 1,
                                Some(false) => break,
                                None => return unsup("sort_by with symbolic comparisons"),
                            }
                        }
                        out.insert(pos, x);
                    }
                    out
                };
                if name.starts_with("sorted") {
                    return lst!(o);
                }
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "dedup" => {
                let o = self.dedup_slots(xs)?;
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "unique" | "unique_by_" => {
                let mut o: Slots = vec![];
                for (g, x) in xs {
                    let mut dup = vec![];
                    for (h, y) in &o {
                        let e = self.eq(x, y)?;
                        if e != FALSE {
                            dup.push(self.tm.and2(*h, e));
                        }
                    }
                    let d = self.tm.or(&dup);
                    let nd = self.tm.not(d);
                    let c = self.tm.and2(*g, nd);
                    if c != FALSE {
                        o.push((c, x.clone()));
                    }
                }
                lst!(o)
            }
            "unzip" | "multiunzip" => self.unzip(&v),
            "concat" => {
                let c = self.alloc(v.clone());
                self.list_method(Place { heap: false, cell: c, path: vec![] }, v, "flatten", vec![], tf, loc)
            }
            "join" => Ok(rc(Val::Opaque("string".into()))),
            "split_at" => {
                let k = self.as_conc(&args[0])? as usize;
                if !Self::all_true(xs) {
                    return unsup("split_at");
                }
                if k > xs.len() {
                    self.obligation(FALSE, "split_at index in range", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                Ok(rc(Val::Tuple(vec![rc(Val::List(xs[..k].to_vec())), rc(Val::List(xs[k..].to_vec()))])))
            }
            "split_first" => {
                if !Self::all_true(xs) {
                    return unsup("split_first");
                }
                if xs.is_empty() {
                    return Ok(self.none());
                }
                let t = rc(Val::Tuple(vec![xs[0].1.clone(), rc(Val::List(xs[1..].to_vec()))]));
                Ok(self.some(t))
            }
            "split_last" => {
                if !Self::all_true(xs) {
                    return unsup("split_last");
                }
                if xs.is_empty() {
                    return Ok(self.none());
                }
                let n = xs.len();
                let t = rc(Val::Tuple(vec![xs[n - 1].1.clone(), rc(Val::List(xs[..n - 1].to_vec()))]));
                Ok(self.some(t))
            }
            "choose" => {
                self.model("SliceRandom::choose returns some element (any), None iff empty");
                let n = self.fresh_name("choose");
                if xs.is_empty() {
                    return Ok(self.none());
                }
                let t = self.tm.ivar(&n, 0, xs.len() as i128 - 1);
                let (inr, cs) = self.slot_conds(xs, t);
                let some = self.any_guard(xs);
                let pre = self.tm.implies(some, inr);
                self.assume(pre);
                if self.path_mode {
                    if self.decide(some)? == Some(false) {
                        return Ok(self.none());
                    }
                    let k = self.concretise(t)?;
                    return Ok(self.some(xs[k as usize].1.clone()));
                }
                let x = self.select(xs, &cs)?;
                Ok(self.option(some, x))
            }
            "shuffle" => {
                self.model("SliceRandom::shuffle permutes the slice arbitrarily");
                if !Self::all_true(xs) || !self.path_mode {
                    return unsup("shuffle");
                }
                let mut rest = xs.clone();
                let mut o = vec![];
                while rest.len() > 1 {
                    let n = self.fresh_name("shuffle");
                    let t = self.tm.ivar(&n, 0, rest.len() as i128 - 1);
                    let k = self.concretise(t)?;
                    o.push(rest.remove(k as usize));
                }
                o.extend(rest);
                self.set_place(&p, o)?;
                Ok(self.unit.clone())
            }
            "capacity" => unsup("capacity"),
            "reserve" | "shrink_to_fit" => Ok(self.unit.clone()),
            "sum_" => unsup("sum_"),
            _ => unsup(format!("{}: list method {}", loc, name)),
        }
    }
    /// A tuple whose numbers are choices among a few constants, as one item per choice: lists of plays are
    /// much easier to follow when every item is a constant and only its presence depends on the input.
    pub fn split_item(&mut self, g: T, x: V) -> Slots {
        if self.path_mode || self.ctx.f.is_contract || !matches!(&*x, Val::Tuple(_)) {
            return vec![(g, x)];
        }
        let mut todo: Slots = vec![(g, x.clone())];
        let mut done: Slots = vec![];
        while let Some((h, y)) = todo.pop() {
            let mut at = vec![];
            let Some((t, vals)) = self.choice_in(&y, &mut at) else {
                done.push((h, y));
                continue;
            };
            for v in vals.into_iter().rev() {
                let k = self.tm.int(v);
                let c = self.tm.eq(t, k);
                let c = self.tm.and2(h, c);
                if c != FALSE {
                    todo.push((c, Self::replaced(&y, &at, k)));
                }
            }
            if done.len() + todo.len() > 64 {
                return vec![(g, x)];
            }
        }
        done
    }
    fn choice_in(&self, x: &V, at: &mut Vec<usize>) -> Option<(T, Vec<i128>)> {
        match &**x {
            Val::Tuple(xs) => {
                for (i, y) in xs.iter().enumerate() {
                    at.push(i);
                    let r = self.choice_in(y, at);
                    if r.is_some() {
                        return r;
                    }
                    at.pop();
                }
                None
            }
            Val::I(t, _) => {
                let choice = match self.tm.node(*t) {
                    Node::Ite(..) => true,
                    Node::Lin(_, xs, false) => xs.iter().any(|x| matches!(self.tm.node(x.0), Node::Ite(..))),
                    _ => false,
                };
                if !choice {
                    return None;
                }
                self.tm.finite_values(*t, 24).map(|v| (*t, v))
            }
            _ => None,
        }
    }
    fn replaced(x: &V, at: &[usize], k: T) -> V {
        match (&**x, at.first()) {
            (Val::Tuple(xs), Some(&i)) => {
                let mut xs = xs.clone();
                xs[i] = Self::replaced(&xs[i], &at[1..], k);
                rc(Val::Tuple(xs))
            }
            (Val::I(_, ty), None) => rc(Val::I(k, *ty)),
            _ => x.clone(),
        }
    }
    pub fn first_of(&mut self, xs: Slots) -> RV {
        if self.path_mode {
            for (g, x) in xs {
                if self.decide(g)? == Some(true) {
                    return Ok(self.some(x));
                }
            }
            return Ok(self.none());
        }
        let mut any = FALSE;
        let mut val = self.never.clone();
        for (g, x) in xs.iter().rev() {
            if *g == FALSE {
                continue;
            }
            val = self.merge(*g, x, &val)?;
            any = self.tm.or2(any, *g);
        }
        Ok(self.option(any, val))
    }
    fn opaque_method(&mut self, v: V, name: &str, args: Vec<V>, loc: String) -> RV {
        let k = match &*v {
            Val::Opaque(s) => s.to_string(),
            _ => "str".to_string(),
        };
        match k.as_str() {
            "Src" => self.src_method(name, args),
            "Rng" => match name {
                "gen_range" => {
                    self.model("Rng::gen_range returns any value of the range");
                    if let Val::Range(Some(a), Some(b), incl) = &*args[0] {
                        let (a2, b2) = (self.as_conc(a)?, self.as_conc(b)?);
                        let hi = if *incl { b2 } else { b2 - 1 };
                        if a2 > hi {
                            self.obligation(FALSE, "gen_range range is not empty", loc, true);
                            self.st.dead = true;
                            return Ok(self.never.clone());
                        }
                        let n = self.fresh_name("rng");
                        let t = self.tm.ivar(&n, a2, hi);
                        return Ok(self.vt(t, ITy::Lit));
                    }
                    unsup("gen_range")
                }
                _ => unsup(format!("rng method {}", name)),
            },
            s if s.starts_with("Dirichlet:") && name == "sample" => {
                let n: usize = s[10..].parse().unwrap();
                let mut o = vec![];
                let zero = self.tm.real(Rat::zero());
                let mut sum = zero;
                for _ in 0..n {
                    let nm = self.fresh_name("noise");
                    let t = self.tm.rvar(&nm);
                    let c = self.tm.le(zero, t);
                    self.assume(c);
                    sum = self.tm.add(sum, t);
                    o.push(self.vf(t));
                }
                let one = self.tm.real(Rat::one());
                let c = self.tm.eq(sum, one);
                self.assume(c);
                Ok(self.list(o))
            }
            "str" | "string" => match name {
                "clone" | "to_string" | "as_str" | "to_owned" | "to_path_buf" => Ok(v),
                _ => Ok(rc(Val::Opaque("string".into()))),
            },
            "ProgressBar" | "MultiProgress" | "ProgressStyle" | "guard" | "Duration" => match name {
                "println" => {
                    let u = self.unit.clone();
                    Ok(self.ok(u))
                }
                "add" => Ok(args[0].clone()),
                "with_style" | "with_message" | "with_finish" | "progress_chars" | "clone" => Ok(v),
                _ => Ok(self.unit.clone()),
            },
            "Seq" | "Layer" if matches!(name, "add" | "add_fn" | "add_fn_t") => Ok(v),
            _ => unsup(format!("{}: method {} on opaque {}", loc, name, k)),
        }
    }
    fn src_method(&mut self, name: &str, args: Vec<V>) -> RV {
        let nm = match args.first().map(|a| (**a).clone()) {
            Some(Val::Str(s)) => s.to_string(),
            _ => format!("in{}", self.inputs.len()),
        };
        // `arr` style names get an index so that every input is distinct in the replay record
        let idx = self.inputs.len();
        match name {
            "i8" | "u8" | "usize" | "u32" | "i64" | "i32" => {
                let lo = self.as_conc(&args[1])?;
                let hi = self.as_conc(&args[2])?;
                let ty = ITy::parse(name).unwrap();
                let t = self.tm.ivar(&format!("{}.{}", nm, idx), lo, hi);
                self.inputs.push(Input { name: nm, term: t, kind: "int" });
                Ok(self.vt(t, ty))
            }
            "bool" => {
                let t = self.tm.bvar(&format!("{}.{}", nm, idx));
                self.inputs.push(Input { name: nm, term: t, kind: "bool" });
                Ok(self.vb(t))
            }
            "f32" | "f64" => {
                let t = self.tm.rvar(&format!("{}.{}", nm, idx));
                let lo = self.as_t(&args[1])?;
                let hi = self.as_t(&args[2])?;
                let (a, b) = (self.tm.le(lo, t), self.tm.le(t, hi));
                self.assume(a);
                self.assume(b);
                self.inputs.push(Input { name: nm, term: t, kind: "real" });
                Ok(self.vf(t))
            }
            "pick" => {
                // case split: one path per value
                let n = self.as_conc(&args[1])?;
                let conds = vec![TRUE; n as usize];
                let k = self.choose_feasible(&conds)?;
                let t = self.tm.int(k as i128);
                self.inputs.push(Input { name: nm, term: t, kind: "int" });
                Ok(self.vt(t, ITy::Usize))
            }
            "symbolic" => Ok(self.vb(TRUE)),
            _ => unsup(format!("Src::{}", name)),
        }
    }
}
