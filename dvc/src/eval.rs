//! Expressions, statements, calls and macros.
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;
use syn::{spanned::Spanned, *};

fn path_segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

impl Ex {
    pub fn block(&mut self, b: &'static Block) -> RV {
        let env_n = self.env.len();
        let ncell = self.st.cells.len();
        let r = self.stmts(&b.stmts)?;
        self.env.truncate(env_n);
        self.st.cells.truncate(ncell);
        Ok(r)
    }
    fn stmts(&mut self, ss: &'static [Stmt]) -> RV {
        let mut last = self.unit.clone();
        for s in ss {
            if self.st.dead {
                return Ok(self.never.clone());
            }
            last = self.unit.clone();
            match s {
                Stmt::Local(l) => {
                    let v = match &l.init {
                        Some(i) => {
                            let v = self.eval(&i.expr)?;
                            if self.st.dead {
                                return Ok(self.never.clone());
                            }
                            if let Some((_, els)) = &i.diverge {
                                let mut b = vec![];
                                let c = self.pat(&l.pat, &v, &mut b)?;
                                self.branch(c, &mut |s| Ok(s.unit.clone()), &mut |s| s.eval(els))?;
                                if self.st.dead {
                                    return Ok(self.never.clone());
                                }
                                for (n, x) in b {
                                    self.bind(&n, x);
                                }
                                continue;
                            }
                            v
                        }
                        None => rc(Val::Opaque("uninitialised".into())),
                    };
                    self.bind_pat(&l.pat, &v)?;
                }
                Stmt::Expr(e, semi) => {
                    let v = self.eval(e)?;
                    if semi.is_none() {
                        last = v;
                    }
                }
                Stmt::Macro(m) => {
                    let v = self.mac(&m.mac)?;
                    if m.semi_token.is_none() {
                        last = v;
                    }
                }
                Stmt::Item(_) => {}
            }
        }
        if self.st.dead {
            return Ok(self.never.clone());
        }
        Ok(last)
    }

    /// condition with `let` bindings (bindings are appended to `out` and also needed by later conjuncts)
    fn cond(&mut self, e: &'static Expr, out: &mut Vec<(Rc<str>, V)>) -> R<T> {
        match e {
            Expr::Paren(p) => self.cond(&p.expr, out),
            Expr::Let(l) => {
                let v = self.eval_ref_ok(&l.expr)?;
                if self.st.dead {
                    return Ok(FALSE);
                }
                self.pat(&l.pat, &v, out)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                let l = self.cond(&b.left, out)?;
                if l == FALSE || self.st.dead {
                    return Ok(FALSE);
                }
                if out.is_empty() {
                    let r = self.branch(
                        l,
                        &mut |s| {
                            let mut o2 = vec![];
                            let c = s.cond(&b.right, &mut o2)?;
                            if !o2.is_empty() {
                                // bindings must survive: re-evaluated below
                                return Ok(rc(Val::Opaque("let-chain".into())));
                            }
                            Ok(s.vb(c))
                        },
                        &mut |s| Ok(s.vb(FALSE)),
                    );
                    match r {
                        Ok(v) => {
                            if let Val::B(t) = &*v {
                                return Ok(*t);
                            }
                        }
                        Err(e) => return Err(e),
                    }
                }
                let env_n = self.env.len();
                for (n, x) in out.clone() {
                    self.bind(&n, x);
                }
                let r = self.cond(&b.right, out)?;
                self.env.truncate(env_n);
                Ok(self.tm.and2(l, r))
            }
            _ => {
                let v = self.eval(e)?;
                self.as_bool(&v)
            }
        }
    }
    /// evaluates a scrutinee; a `&mut place` or a place of &mut type stays a Ref
    fn eval_ref_ok(&mut self, e: &'static Expr) -> RV {
        self.eval(e)
    }
    fn if_expr(&mut self, i: &'static ExprIf) -> RV {
        let mut b = vec![];
        let c = self.cond(&i.cond, &mut b)?;
        if self.st.dead {
            return Ok(self.never.clone());
        }
        let els = i.else_branch.as_ref().map(|e| &*e.1);
        self.branch(
            c,
            &mut |s| {
                let n = s.env.len();
                for (k, x) in &b {
                    s.bind(k, x.clone());
                }
                let v = s.block(&i.then_branch)?;
                s.env.truncate(n);
                Ok(v)
            },
            &mut |s| match els {
                Some(e) => s.eval(e),
                None => Ok(s.unit.clone()),
            },
        )
    }
    fn match_arms(&mut self, v: &V, arms: &'static [Arm]) -> RV {
        let Some(a) = arms.first() else {
            self.st.dead = true;
            return Ok(self.never.clone());
        };
        let mut b = vec![];
        let mut c = self.pat(&a.pat, v, &mut b)?;
        if let Some((_, g)) = &a.guard {
            if c != FALSE {
                let gv = self.branch(
                    c,
                    &mut |s| {
                        let n = s.env.len();
                        let nc = s.st.cells.len();
                        for (k, x) in &b {
                            s.bind(k, x.clone());
                        }
                        let r = s.eval(g)?;
                        s.env.truncate(n);
                        s.st.cells.truncate(nc);
                        Ok(r)
                    },
                    &mut |s| Ok(s.vb(FALSE)),
                )?;
                let gt = self.as_bool(&gv)?;
                c = self.tm.and2(c, gt);
            }
        } else if arms.len() == 1 {
            c = TRUE;
        }
        if c == FALSE {
            return self.match_arms(v, &arms[1..]);
        }
        self.branch(
            c,
            &mut |s| {
                let n = s.env.len();
                let nc = s.st.cells.len();
                for (k, x) in &b {
                    s.bind(k, x.clone());
                }
                let r = s.eval(&a.body)?;
                s.env.truncate(n);
                s.st.cells.truncate(nc);
                Ok(r)
            },
            &mut |s| s.match_arms(v, &arms[1..]),
        )
    }
    fn label(l: &Option<Label>) -> Option<String> {
        l.as_ref().map(|x| x.name.ident.to_string())
    }
    fn end_iteration(&mut self, base: usize, ncell: usize) -> R<()> {
        let conts = std::mem::take(&mut self.frames.last_mut().unwrap().loops.last_mut().unwrap().continues);
        self.st.cells.truncate(ncell);
        if conts.is_empty() {
            return Ok(());
        }
        let mut all = conts;
        if !self.st.dead {
            let st = self.st.clone();
            all.push((st, self.unit.clone()));
        }
        self.join_all(base, ncell, all)?;
        Ok(())
    }
    pub fn for_items(&mut self, label: Option<String>, items: Vec<(T, V)>, f: &mut dyn FnMut(&mut Self, &V) -> R<()>) -> RV {
        let base = self.st.pc.len();
        let ncell = self.st.cells.len();
        let env_n = self.env.len();
        self.frames.last_mut().unwrap().loops.push(LoopFrame { label, ..Default::default() });
        for (g, v) in items {
            if self.st.dead {
                break;
            }
            let _ = &mut *f;
            self.under(g, &mut |s| {
                let b0 = s.st.pc.len();
                f(s, &v)?;
                s.env.truncate(env_n);
                s.end_iteration(b0, ncell)?;
                Ok(s.unit.clone())
            })?;
            self.env.truncate(env_n);
        }
        self.finish_loop(base, ncell)
    }
    fn finish_loop(&mut self, base: usize, ncell: usize) -> RV {
        let lf = self.frames.last_mut().unwrap().loops.pop().unwrap();
        if lf.breaks.is_empty() {
            if self.st.dead {
                return Ok(self.never.clone());
            }
            return Ok(self.unit.clone());
        }
        let mut all = lf.breaks;
        if !self.st.dead {
            let st = self.st.clone();
            all.push((st, self.unit.clone()));
        }
        self.join_all(base, ncell, all)
    }
    /// `while let Some(x) = list.pop()` (or pop_front, next): the list, which end, and the pattern
    fn draining(&mut self, cond: &'static Expr) -> R<Option<(Place, bool, &'static Pat)>> {
        let Expr::Let(l) = cond else { return Ok(None) };
        let Pat::TupleStruct(t) = &*l.pat else { return Ok(None) };
        if !t.path.is_ident("Some") || t.elems.len() != 1 {
            return Ok(None);
        }
        let Expr::MethodCall(m) = &*l.expr else { return Ok(None) };
        let back = match m.method.to_string().as_str() {
            "pop" | "pop_back" => true,
            "pop_front" | "next" => false,
            _ => return Ok(None),
        };
        if !m.args.is_empty() || !matches!(&*m.receiver, Expr::Path(_)) {
            return Ok(None);
        }
        let Some(mut p) = self.place(&m.receiver)? else { return Ok(None) };
        loop {
            let v = self.read(&p)?;
            match &*v {
                Val::Ref(q) => p = q.clone(),
                Val::List(_) => return Ok(Some((p, back, &t.elems[0]))),
                _ => return Ok(None),
            }
        }
    }
    /// One iteration per slot, under the condition that the slot is there: an absent slot is one pop() never returns.
    fn drain_loop(&mut self, label: Option<String>, p: Place, back: bool, pat: &'static Pat, body: &'static Block) -> RV {
        let base = self.st.pc.len();
        let ncell = self.st.cells.len();
        let env_n = self.env.len();
        self.frames.last_mut().unwrap().loops.push(LoopFrame { label, ..Default::default() });
        let mut n = 0;
        while !self.st.dead {
            let v = self.read(&p)?;
            let Val::List(xs) = &*v else { return unsup("draining something that is no list") };
            let mut xs = xs.clone();
            xs.retain(|x| x.0 != FALSE);
            if xs.is_empty() {
                break;
            }
            n += 1;
            if n > 20000 {
                return unsup("loop exceeds the unrolling limit");
            }
            let (g, x) = if back { xs.pop().unwrap() } else { xs.remove(0) };
            self.write(&p, rc(Val::List(xs)))?;
            self.under(g, &mut |s| {
                let b0 = s.st.pc.len();
                let mut b = vec![];
                let c = s.pat(pat, &x, &mut b)?;
                if c != TRUE {
                    return unsup("a pattern inside Some() that need not match");
                }
                for (k, y) in &b {
                    s.bind(k, y.clone());
                }
                s.block(body)?;
                s.env.truncate(env_n);
                s.end_iteration(b0, ncell)?;
                Ok(s.unit.clone())
            })?;
            self.env.truncate(env_n);
        }
        self.finish_loop(base, ncell)
    }
    fn while_loop(&mut self, label: Option<String>, cond: Option<&'static Expr>, body: &'static Block) -> RV {
        let base = self.st.pc.len();
        let ncell = self.st.cells.len();
        let env_n = self.env.len();
        self.frames.last_mut().unwrap().loops.push(LoopFrame { label, ..Default::default() });
        let mut n = 0;
        loop {
            if self.st.dead {
                break;
            }
            n += 1;
            if n > 2000 {
                return unsup("loop exceeds the unrolling limit");
            }
            let mut b = vec![];
            let c = match cond {
                Some(e) => self.cond(e, &mut b)?,
                None => TRUE,
            };
            if self.st.dead {
                break;
            }
            match self.decide(c)? {
                Some(false) => {
                    let st = self.st.clone();
                    let u = self.unit.clone();
                    self.frames.last_mut().unwrap().loops.last_mut().unwrap().breaks.push((st, u));
                    self.st.dead = true;
                    break;
                }
                Some(true) => {}
                None => {
                    let mut ex = self.st.clone();
                    std::mem::swap(&mut ex, &mut self.st);
                    let nc = self.tm.not(c);
                    self.assume(nc);
                    std::mem::swap(&mut ex, &mut self.st);
                    let u = self.unit.clone();
                    self.frames.last_mut().unwrap().loops.last_mut().unwrap().breaks.push((ex, u));
                    if n > 8 && !self.sat_pc(c) {
                        self.st.dead = true;
                        break;
                    }
                    self.assume(c);
                }
            }
            let b0 = self.st.pc.len();
            for (k, x) in &b {
                self.bind(k, x.clone());
            }
            self.block(body)?;
            self.env.truncate(env_n);
            self.end_iteration(b0, ncell)?;
        }
        self.env.truncate(env_n);
        self.finish_loop(base, ncell)
    }

    pub fn eval(&mut self, e: &'static Expr) -> RV {
        self.steps += 1;
        if self.steps % 64 == 0 && std::time::Instant::now() > self.deadline {
            return unsup("time limit of the symbolic evaluation");
        }
        if self.steps % 64 == 0 && memory_full() {
            return unsup("memory limit of the symbolic evaluation");
        }
        if self.steps % 64 == 0 && stop_early() {
            return unsup("stopped after a failed obligation");
        }
        match e {
            Expr::Lit(l) => self.lit(&l.lit),
            Expr::Paren(p) => self.eval(&p.expr),
            Expr::Group(p) => self.eval(&p.expr),
            Expr::Block(b) => {
                if let Some(l) = &b.label {
                    // labelled block: break 'l v
                    let base = self.st.pc.len();
                    let ncell = self.st.cells.len();
                    self.frames.last_mut().unwrap().loops.push(LoopFrame { label: Some(l.name.ident.to_string()), ..Default::default() });
                    let v = self.block(&b.block)?;
                    let lf = self.frames.last_mut().unwrap().loops.pop().unwrap();
                    let mut all = lf.breaks;
                    if !self.st.dead {
                        all.push((self.st.clone(), v));
                    }
                    return self.join_all(base, ncell, all);
                }
                self.block(&b.block)
            }
            Expr::Unsafe(b) => self.block(&b.block),
            Expr::Path(p) => self.path_expr(p),
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some(pl) = self.place(&r.expr)? {
                        let v = self.read(&pl)?;
                        if let Val::Ref(_) = &*v {
                            // `&mut x` where x is already a reference
                            return Ok(v);
                        }
                        return Ok(rc(Val::Ref(pl)));
                    }
                    let v = ev!(self, &r.expr);
                    if let Val::Ref(_) = &*v {
                        return Ok(v);
                    }
                    let c = self.alloc(v);
                    return Ok(rc(Val::Ref(Place { heap: false, cell: c, path: vec![] })));
                }
                let v = ev!(self, &r.expr);
                self.deref(&v)
            }
            Expr::Unary(u) => {
                let v = ev!(self, &u.expr);
                match u.op {
                    UnOp::Deref(_) => self.deref(&v),
                    UnOp::Not(_) => {
                        let v = self.deref(&v)?;
                        match &*v {
                            Val::B(t) => {
                                let n = self.tm.not(*t);
                                Ok(self.vb(n))
                            }
                            Val::I(t, ty) => {
                                // !x
                                let m = if ty.signed() { self.tm.int(-1) } else { self.tm.int(ty.range().1) };
                                let r = self.tm.sub(m, *t);
                                Ok(self.vt(r, *ty))
                            }
                            _ => self.unsup(e, "not"),
                        }
                    }
                    UnOp::Neg(_) => {
                        let v = self.deref(&v)?;
                        match &*v {
                            Val::I(t, ty) => {
                                let r = self.tm.neg(*t);
                                let l = self.loc(e);
                                self.range_check(r, *ty, "negation overflow", l);
                                Ok(self.vt(r, *ty))
                            }
                            Val::F(t) => {
                                let r = self.tm.neg(*t);
                                Ok(self.vf(r))
                            }
                            Val::Tensor(_) => {
                                let k = self.tm.real(Rat::int(-1));
                                let k = self.vf(k);
                                self.tensor_bin('*', &k, &v)
                            }
                            _ => self.unsup(e, format!("neg of {}", v.kind())),
                        }
                    }
                    _ => self.unsup(e, "unary operator"),
                }
            }
            Expr::Binary(b) => self.binary(e, b),
            Expr::Assign(a) => {
                if let Expr::Infer(_) = &*a.left {
                    ev!(self, &a.right);
                    return Ok(self.unit.clone());
                }
                if let Expr::Tuple(t) = &*a.left {
                    let v = ev!(self, &a.right);
                    let v = self.deref(&v)?;
                    if let Val::Tuple(xs) = &*v {
                        for (le, x) in t.elems.iter().zip(xs) {
                            if let Expr::Infer(_) = le {
                                continue;
                            }
                            self.assign(le, &mut |_, _| Ok(x.clone()))?;
                        }
                    }
                    return Ok(self.unit.clone());
                }
                let v = ev!(self, &a.right);
                self.assign(&a.left, &mut |s, old| {
                    // keep the integer type of the place
                    Ok(match (&**old, &*v) {
                        (Val::I(_, ty), Val::I(t, ITy::Lit)) if *ty != ITy::Lit => s.vt(*t, *ty),
                        _ => v.clone(),
                    })
                })?;
                Ok(self.unit.clone())
            }
            Expr::Field(_) => {
                if let Some(p) = self.place(e)? {
                    return self.read(&p);
                }
                if self.st.dead {
                    return Ok(self.never.clone());
                }
                self.unsup(e, "field")
            }
            Expr::Index(ix) => {
                let b = ev!(self, &ix.expr);
                let b = self.deref(&b)?;
                let i = ev!(self, &ix.index);
                let i = self.deref(&i)?;
                let l = self.loc(e);
                self.index_value(&b, &i, l)
            }
            Expr::Tuple(t) => {
                let mut o = vec![];
                for x in &t.elems {
                    let v = ev!(self, x);
                    o.push(v);
                }
                if o.is_empty() {
                    return Ok(self.unit.clone());
                }
                Ok(rc(Val::Tuple(o)))
            }
            Expr::Array(a) => {
                let mut o = vec![];
                for x in &a.elems {
                    o.push(ev!(self, x));
                }
                let o = self.unify_ints(o);
                Ok(self.list(o))
            }
            Expr::Repeat(r) => {
                let v = ev!(self, &r.expr);
                let n = ev!(self, &r.len);
                let n = self.as_conc(&n)?;
                Ok(self.list(vec![v; n as usize]))
            }
            Expr::Struct(s) => self.struct_expr(s),
            Expr::If(i) => self.if_expr(i),
            Expr::Let(_) => {
                let mut b = vec![];
                let c = self.cond(e, &mut b)?;
                Ok(self.vb(c))
            }
            Expr::Match(m) => {
                let v = ev!(self, &m.expr);
                // `match place {}` on a place of owned type binds by move/copy: value is fine
                self.match_arms(&v, &m.arms)
            }
            Expr::ForLoop(f) => {
                let it = ev!(self, &f.expr);
                let items = self.iter_items(&it)?;
                let pat = &*f.pat;
                let body = &f.body;
                self.for_items(Self::label(&f.label), items, &mut |s, v| {
                    s.bind_pat(pat, v)?;
                    s.block(body)?;
                    Ok(())
                })
            }
            Expr::While(w) => {
                if !self.path_mode {
                    if let Some((p, back, pat)) = self.draining(&w.cond)? {
                        return self.drain_loop(Self::label(&w.label), p, back, pat, &w.body);
                    }
                }
                self.while_loop(Self::label(&w.label), Some(&w.cond), &w.body)
            }
            Expr::Loop(l) => {
                let r = self.while_loop(Self::label(&l.label), None, &l.body)?;
                Ok(r)
            }
            Expr::Break(b) => {
                let v = match &b.expr {
                    Some(x) => ev!(self, x),
                    None => self.unit.clone(),
                };
                let st = self.st.clone();
                let fr = self.frames.last_mut().unwrap();
                let lf = match &b.label {
                    Some(l) => {
                        let n = l.ident.to_string();
                        fr.loops.iter_mut().rev().find(|f| f.label.as_deref() == Some(&n))
                    }
                    None => fr.loops.last_mut(),
                };
                match lf {
                    Some(lf) => lf.breaks.push((st, v)),
                    None => return self.unsup(e, "break"),
                }
                self.st.dead = true;
                Ok(self.never.clone())
            }
            Expr::Continue(b) => {
                let st = self.st.clone();
                let u = self.unit.clone();
                let fr = self.frames.last_mut().unwrap();
                match &b.label {
                    Some(l) => {
                        let n = l.ident.to_string();
                        match fr.loops.iter_mut().rev().find(|f| f.label.as_deref() == Some(&n)) {
                            Some(lf) => lf.continues.push((st, u)),
                            None => return self.unsup(e, "continue"),
                        }
                    }
                    None => fr.loops.last_mut().unwrap().continues.push((st, u)),
                }
                self.st.dead = true;
                Ok(self.never.clone())
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(x) => ev!(self, x),
                    None => self.unit.clone(),
                };
                let st = self.st.clone();
                self.frames.last_mut().unwrap().returns.push((st, v));
                self.st.dead = true;
                Ok(self.never.clone())
            }
            Expr::Cast(c) => {
                let v = ev!(self, &c.expr);
                let v = self.deref(&v)?;
                let t = ty_name(&c.ty).unwrap_or_default();
                self.cast(&v, &t)
            }
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(x) => {
                        let v = ev!(self, x);
                        Some(self.deref(&v)?)
                    }
                    None => None,
                };
                let b = match &r.end {
                    Some(x) => {
                        let v = ev!(self, x);
                        Some(self.deref(&v)?)
                    }
                    None => None,
                };
                let (a, b) = match (a, b) {
                    (Some(a), Some(b)) => {
                        let u = self.unify_ints(vec![a, b]);
                        (Some(u[0].clone()), Some(u[1].clone()))
                    }
                    x => x,
                };
                Ok(rc(Val::Range(a, b, matches!(r.limits, RangeLimits::Closed(_)))))
            }
            Expr::Closure(c) => {
                let mut env = self.env.clone();
                if c.capture.is_some() {
                    // move closure: captured variables are copied now
                    let _ = &mut env;
                }
                Ok(rc(Val::Closure(Rc::new(Closure { expr: c, env, ctx: self.ctx.clone() }))))
            }
            Expr::Call(c) => self.call_expr(c),
            Expr::MethodCall(m) => self.method_expr(m),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Try(t) => {
                let v = ev!(self, &t.expr);
                let v = self.deref(&v)?;
                let (g, p) = self.opt_parts(&v)?;
                let v2 = v.clone();
                self.branch(g, &mut |_| Ok(p.clone()), &mut |s| {
                    let rest = match &*v2 {
                        Val::Enum(n, alts) => {
                            let mut a: Vec<_> = alts.iter().filter(|x| &*x.1 != "Some" && &*x.1 != "Ok").cloned().collect();
                            if a.len() == 1 {
                                a[0].0 = TRUE;
                            }
                            rc(Val::Enum(n.clone(), a))
                        }
                        _ => s.never.clone(),
                    };
                    let st = s.st.clone();
                    s.frames.last_mut().unwrap().returns.push((st, rest));
                    s.st.dead = true;
                    Ok(s.never.clone())
                })
            }
            _ => self.unsup(e, "expression form not supported"),
        }
    }
    pub fn unify_ints(&mut self, v: Vec<V>) -> Vec<V> {
        let ty = v.iter().find_map(|x| match &**x {
            Val::I(_, t) if *t != ITy::Lit => Some(*t),
            _ => None,
        });
        match ty {
            Some(t) => v
                .into_iter()
                .map(|x| match &*x {
                    Val::I(k, ITy::Lit) => rc(Val::I(*k, t)),
                    _ => x,
                })
                .collect(),
            None => v,
        }
    }
    pub fn range_check(&mut self, t: T, ty: ITy, what: &str, loc: String) {
        let (lo, hi) = ty.range();
        if let Some((a, b)) = self.tm.interval(t) {
            if a >= lo && b <= hi {
                self.checks += 1;
                self.trivially += 1;
                return;
            }
        }
        let (l, h) = (self.tm.int(lo), self.tm.int(hi));
        let (x, y) = (self.tm.le(l, t), self.tm.le(t, h));
        let c = self.tm.and2(x, y);
        self.obligation(c, format!("no arithmetic overflow ({})", what), loc, true);
    }
    pub fn cast(&mut self, v: &V, t: &str) -> RV {
        let to = ITy::parse(t);
        Ok(match (&**v, to) {
            (Val::I(x, from), Some(to)) => {
                let (lo, hi) = to.range();
                let fits = match self.tm.interval(*x) {
                    Some((a, b)) => a >= lo && b <= hi,
                    None => false,
                } || (from.range().0 >= lo && from.range().1 <= hi && *from != ITy::Lit);
                if fits {
                    return Ok(rc(Val::I(*x, to)));
                }
                let m = 1i64.checked_shl(to.bits()).filter(|_| to.bits() < 63);
                let Some(m) = m else {
                    // 64-bit wrap: split on sign
                    let z = self.tm.int(0);
                    let neg = self.tm.lt(*x, z);
                    if to.signed() {
                        return Ok(rc(Val::I(*x, to)));
                    }
                    let big = self.tm.int(1i128 << 64);
                    let y = self.tm.add(*x, big);
                    let r = self.tm.ite(neg, y, *x);
                    return Ok(rc(Val::I(r, to)));
                };
                if to.signed() {
                    let h = self.tm.int((m / 2) as i128);
                    let s = self.tm.add(*x, h);
                    let r = self.tm.mod_c(s, m);
                    let r = self.tm.sub(r, h);
                    rc(Val::I(r, to))
                } else {
                    let r = self.tm.mod_c(*x, m);
                    rc(Val::I(r, to))
                }
            }
            (Val::I(x, _), None) if t == "f32" || t == "f64" => {
                let r = self.tm.to_real(*x);
                self.vf(r)
            }
            (Val::F(_), None) if t == "f32" || t == "f64" => v.clone(),
            (Val::F(x), Some(to)) => match self.tm.node(*x).clone() {
                Node::Num(r, _) => {
                    let n = r.n / r.d;
                    self.vi(n, to)
                }
                Node::ToReal(i) => rc(Val::I(i, to)),
                _ => {
                    let r = self.real_to_int(*x)?;
                    rc(Val::I(r, to))
                }
            },
            (Val::B(b), Some(to)) => {
                let (o, z) = (self.tm.int(1), self.tm.int(0));
                let r = self.tm.ite(*b, o, z);
                rc(Val::I(r, to))
            }
            (Val::I(..), None) => v.clone(),
            (Val::Opaque(_), _) => v.clone(),
            (Val::Enum(..), Some(_)) => return unsup("enum cast"),
            _ => return unsup(format!("cast {} as {}", v.kind(), t)),
        })
    }
    /// exact inverse of to_real through ite / linear terms with integer value
    fn real_to_int(&mut self, x: T) -> R<T> {
        match self.tm.node(x).clone() {
            Node::Num(r, _) if r.d == 1 => Ok(self.tm.int(r.n)),
            Node::ToReal(i) => Ok(i),
            Node::Ite(c, a, b) => {
                let (a, b) = (self.real_to_int(a)?, self.real_to_int(b)?);
                Ok(self.tm.ite(c, a, b))
            }
            Node::Lin(c, xs, true) if c.d == 1 && xs.iter().all(|p| p.1.d == 1) => {
                let mut acc = self.tm.int(c.n);
                for (y, k) in xs.iter() {
                    let i = self.real_to_int(*y)?;
                    acc = self.tm.lincomb(acc, Rat::one(), i, *k);
                }
                Ok(acc)
            }
            _ => unsup("float to integer conversion of a symbolic value"),
        }
    }
    fn struct_expr(&mut self, s: &'static ExprStruct) -> RV {
        let segs = path_segs(&s.path);
        let mut name = segs.last().unwrap().clone();
        if name == "Self" {
            name = self.ctx.self_ty.as_ref().map(|x| x.to_string()).unwrap_or(name);
        }
        if let Some(Type::Path(p)) = self.prog.aliases.get(&name) {
            name = p.path.segments.last().unwrap().ident.to_string();
        }
        // enum struct variant
        if segs.len() >= 2 && !self.prog.structs.contains_key(&name) {
            let en = if segs[segs.len() - 2] == "Self" { self.ctx.self_ty.as_ref().map(|x| x.to_string()).unwrap() } else { segs[segs.len() - 2].clone() };
            if let Some(ed) = self.prog.enums.get(&en).cloned() {
                let vr = ed.variants.iter().find(|v| v.0 == name).unwrap().clone();
                let mut vals = vec![self.never.clone(); vr.1.len()];
                for f in &s.fields {
                    let v = ev!(self, &f.expr);
                    let n = member(&f.member);
                    vals[vr.1.iter().position(|x| *x == n).unwrap()] = v;
                }
                return Ok(rc(Val::Enum(en.as_str().into(), vec![(TRUE, name.as_str().into(), vals)])));
            }
        }
        let Some(sd) = self.prog.structs.get(&name).cloned() else {
            // foreign struct (configs): opaque
            for f in &s.fields {
                ev!(self, &f.expr);
            }
            return Ok(rc(Val::Opaque(name.as_str().into())));
        };
        let mut vals: Vec<Option<V>> = vec![None; sd.fields.len()];
        for f in &s.fields {
            let v = ev!(self, &f.expr);
            let n = member(&f.member);
            let Some(i) = sd.fields.iter().position(|x| x.0 == n) else { return self.unsup(s, "unknown field") };
            let v = match &*v {
                Val::Ref(_) if !matches!(sd.fields[i].1, Type::Reference(_)) => self.deref(&v)?,
                _ => v,
            };
            vals[i] = Some(self.coerce(v, &sd.fields[i].1));
        }
        if let Some(r) = &s.rest {
            let base = ev!(self, r);
            let base = self.deref(&base)?;
            if let Val::Struct(_, xs) = &*base {
                for (i, x) in xs.iter().enumerate() {
                    if vals[i].is_none() {
                        vals[i] = Some(x.clone());
                    }
                }
            }
        }
        let vals: Option<Vec<V>> = vals.into_iter().collect();
        match vals {
            Some(v) => Ok(rc(Val::Struct(name.as_str().into(), v))),
            None => self.unsup(s, "missing field"),
        }
    }
    pub fn assign(&mut self, lhs: &'static Expr, f: &mut dyn FnMut(&mut Self, &V) -> RV) -> R<()> {
        if self.st.dead {
            return Ok(());
        }
        if let Expr::Paren(p) = lhs {
            return self.assign(&p.expr, f);
        }
        if let Some(mut p) = self.place(lhs)? {
            let mut old = self.read(&p)?;
            // assignment through `*r` already resolved by place(); a plain variable holding a Ref is
            // overwritten as a variable
            if let (Val::Ref(q), Expr::Field(_) | Expr::Index(_)) = (&*old, lhs) {
                p = q.clone();
                old = self.read(&p)?;
            }
            let nv = f(self, &old)?;
            if self.st.dead {
                return Ok(());
            }
            drop(old);
            return self.write(&p, nv);
        }
        if self.st.dead {
            return Ok(());
        }
        if let Expr::Index(ix) = lhs {
            // symbolic store
            let pl = match self.place(&ix.expr)? {
                Some(p) => p,
                None => return self.unsup(lhs, "store into a non-place"),
            };
            let v = self.read(&pl)?;
            let mut pl = pl;
            let mut v = v;
            while let Val::Ref(q) = &*v {
                pl = q.clone();
                v = self.read(&pl)?;
            }
            let idx = self.eval(&ix.index)?;
            let t = self.as_t(&idx)?;
            match &*v {
                Val::List(xs) => {
                    let (inr, cs) = self.slot_conds(xs, t);
                    let l = self.loc(lhs);
                    self.obligation(inr, "index in range", l, true);
                    if inr == FALSE || self.st.dead {
                        self.st.dead = true;
                        return Ok(());
                    }
                    let mut o = Vec::with_capacity(xs.len());
                    for (i, (g, x)) in xs.iter().enumerate() {
                        if cs[i] == FALSE {
                            o.push((*g, x.clone()));
                            continue;
                        }
                        // evaluate the new value under the slot condition, so that obligations are guarded
                        let x2 = x.clone();
                        let nv = self.branch(cs[i], &mut |s| f(s, &x2), &mut |_| Ok(x2.clone()))?;
                        o.push((*g, nv));
                    }
                    return self.write(&pl, rc(Val::List(o)));
                }
                Val::Never => return Ok(()),
                _ => return self.unsup(lhs, "store"),
            }
        }
        self.unsup(lhs, "assignment target")
    }
    fn binary(&mut self, e: &'static Expr, b: &'static ExprBinary) -> RV {
        match b.op {
            BinOp::And(_) => {
                let l = ev!(self, &b.left);
                let l = self.as_bool(&l)?;
                return self.branch(l, &mut |s| s.eval(&b.right).and_then(|v| s.deref(&v)), &mut |s| Ok(s.vb(FALSE)));
            }
            BinOp::Or(_) => {
                let l = ev!(self, &b.left);
                let l = self.as_bool(&l)?;
                return self.branch(l, &mut |s| Ok(s.vb(TRUE)), &mut |s| s.eval(&b.right).and_then(|v| s.deref(&v)));
            }
            _ => {}
        }
        let op = match b.op {
            BinOp::Add(_) | BinOp::AddAssign(_) => '+',
            BinOp::Sub(_) | BinOp::SubAssign(_) => '-',
            BinOp::Mul(_) | BinOp::MulAssign(_) => '*',
            BinOp::Div(_) | BinOp::DivAssign(_) => '/',
            BinOp::Rem(_) | BinOp::RemAssign(_) => '%',
            BinOp::BitAnd(_) | BinOp::BitAndAssign(_) => '&',
            BinOp::BitOr(_) | BinOp::BitOrAssign(_) => '|',
            BinOp::BitXor(_) | BinOp::BitXorAssign(_) => '^',
            BinOp::Shl(_) | BinOp::ShlAssign(_) => '{',
            BinOp::Shr(_) | BinOp::ShrAssign(_) => '}',
            BinOp::Eq(_) => '=',
            BinOp::Ne(_) => '!',
            BinOp::Lt(_) => '<',
            BinOp::Gt(_) => '>',
            BinOp::Le(_) => 'l',
            BinOp::Ge(_) => 'g',
            _ => return self.unsup(e, "operator"),
        };
        let is_assign = matches!(
            b.op,
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
        );
        if is_assign {
            let r = ev!(self, &b.right);
            let r = self.deref(&r)?;
            let loc = self.loc(e);
            self.assign(&b.left, &mut |s, old| {
                let o = s.deref(old)?;
                let v = s.binop(op, &o, &r, &loc)?;
                // `x += 1` where x: &mut i32 without deref cannot compile, so old is a value
                Ok(v)
            })?;
            return Ok(self.unit.clone());
        }
        let l = ev!(self, &b.left);
        let l = self.deref(&l)?;
        let r = ev!(self, &b.right);
        let r = self.deref(&r)?;
        let loc = if matches!(op, '+' | '-' | '*' | '/' | '%' | '{' | '}') { self.loc(e) } else { String::new() };
        self.binop(op, &l, &r, &loc)
    }
    pub fn binop(&mut self, op: char, l: &V, r: &V, loc: &str) -> RV {
        match op {
            '=' => {
                let t = self.eq(l, r)?;
                return Ok(self.vb(t));
            }
            '!' => {
                let t = self.eq(l, r)?;
                let n = self.tm.not(t);
                return Ok(self.vb(n));
            }
            '<' => {
                let t = self.less(l, r)?;
                return Ok(self.vb(t));
            }
            '>' => {
                let t = self.less(r, l)?;
                return Ok(self.vb(t));
            }
            'l' => {
                let t = self.less(r, l)?;
                let n = self.tm.not(t);
                return Ok(self.vb(n));
            }
            'g' => {
                let t = self.less(l, r)?;
                let n = self.tm.not(t);
                return Ok(self.vb(n));
            }
            _ => {}
        }
        match (&**l, &**r) {
            (Val::I(x, t1), Val::I(y, t2)) => {
                let ty = if *t1 == ITy::Lit { *t2 } else { *t1 };
                let (x, y) = (*x, *y);
                let res = match op {
                    '+' => self.tm.add(x, y),
                    '-' => self.tm.sub(x, y),
                    '*' => self.tm.mul(x, y),
                    '/' | '%' => {
                        let Some(k) = self.tm.as_int(y) else { return unsup("division by a symbolic integer") };
                        if k == 0 {
                            self.obligation(FALSE, "division by zero", loc.to_string(), true);
                            self.st.dead = true;
                            return Ok(self.never.clone());
                        }
                        if k < 0 || k > i64::MAX as i128 {
                            return unsup("division by a negative constant");
                        }
                        let k = k as i64;
                        // truncating division
                        let nonneg = !ty.signed() || self.tm.interval(x).map(|i| i.0 >= 0).unwrap_or(false);
                        if nonneg {
                            if op == '/' {
                                self.tm.div_c(x, k)
                            } else {
                                self.tm.mod_c(x, k)
                            }
                        } else {
                            let z = self.tm.int(0);
                            let neg = self.tm.lt(x, z);
                            let nx = self.tm.neg(x);
                            if op == '/' {
                                let a = self.tm.div_c(nx, k);
                                let a = self.tm.neg(a);
                                let b = self.tm.div_c(x, k);
                                self.tm.ite(neg, a, b)
                            } else {
                                let a = self.tm.mod_c(nx, k);
                                let a = self.tm.neg(a);
                                let b = self.tm.mod_c(x, k);
                                self.tm.ite(neg, a, b)
                            }
                        }
                    }
                    '{' | '}' => {
                        let Some(k) = self.tm.as_int(y) else { return unsup("shift by a symbolic amount") };
                        let p = 1i64 << k;
                        if op == '{' {
                            let kk = self.tm.int(p as i128);
                            self.tm.mul(x, kk)
                        } else {
                            self.tm.div_c(x, p)
                        }
                    }
                    '&' | '|' | '^' => {
                        let (Some(a), Some(b)) = (self.tm.as_int(x), self.tm.as_int(y)) else { return unsup("bit operation on symbolic integers") };
                        let v = match op {
                            '&' => a & b,
                            '|' => a | b,
                            _ => a ^ b,
                        };
                        self.tm.int(v)
                    }
                    _ => return unsup("integer operator"),
                };
                if matches!(op, '+' | '-' | '*' | '{') {
                    self.range_check(res, ty, &op.to_string(), loc.to_string());
                }
                Ok(self.vt(res, ty))
            }
            (Val::F(x), Val::F(y)) => {
                let (x, y) = (*x, *y);
                let r = match op {
                    '+' => self.tm.add(x, y),
                    '-' => self.tm.sub(x, y),
                    '*' => self.tm.mul(x, y),
                    '/' => self.tm.div_real(x, y),
                    _ => return unsup("float operator"),
                };
                Ok(self.vf(r))
            }
            (Val::B(x), Val::B(y)) => {
                let r = match op {
                    '&' => self.tm.and2(*x, *y),
                    '|' => self.tm.or2(*x, *y),
                    '^' => {
                        let i = self.tm.iff(*x, *y);
                        self.tm.not(i)
                    }
                    _ => return unsup("bool operator"),
                };
                Ok(self.vb(r))
            }
            (Val::Tensor(_), _) | (_, Val::Tensor(_)) => self.tensor_bin(op, l, r),
            (Val::Str(_), _) | (Val::Opaque(_), _) => {
                if let (Val::Str(a), Val::Str(b), '+') = (&**l, &**r, op) {
                    return Ok(rc(Val::Str(format!("{}{}", a, b).as_str().into())));
                }
                Ok(rc(Val::Opaque("string".into())))
            }
            _ => unsup(format!("operator {} on {} and {} at {}", op, l.kind(), r.kind(), loc)),
        }
    }

    // ---------- paths and calls ----------
    fn path_expr(&mut self, p: &'static ExprPath) -> RV {
        let segs = path_segs(&p.path);
        if segs.len() == 1 && p.qself.is_none() {
            if let Some(c) = self.lookup(&segs[0]) {
                let v = self.st.cells[c].clone();
                if let Val::Opaque(s) = &*v {
                    if s.starts_with("unmergeable") {
                        return self.unsup(p, s.to_string());
                    }
                }
                return Ok(v);
            }
        }
        let name = segs.last().unwrap().clone();
        if segs.len() == 1 {
            match name.as_str() {
                "None" => return Ok(self.none()),
                _ => {}
            }
        }
        let owner = self.owner(p.qself.as_ref(), &segs);
        if let Some(o) = &owner {
            if let Some(e) = self.prog.assoc_consts.get(&(o.to_string(), name.clone())) {
                let e: &'static Expr = unsafe { &*(Rc::as_ptr(e)) };
                let saved = self.ctx.clone();
                self.ctx.self_ty = Some(o.clone());
                let v = self.eval(e)?;
                self.ctx = saved;
                // declared type of associated constants: ints are i64 in LearnableGame
                return Ok(match &*v {
                    Val::I(t, ITy::Lit) if name.ends_with("SIZE") || name.starts_with("N_") => self.vt(*t, ITy::I64),
                    _ => v,
                });
            }
            if let Some(ed) = self.prog.enums.get(&**o) {
                if let Some(v) = ed.variants.iter().find(|v| v.0 == name) {
                    if v.1.is_empty() {
                        return Ok(rc(Val::Enum(o.clone(), vec![(TRUE, name.as_str().into(), vec![])])));
                    }
                }
            }
        }
        if segs.len() == 1 || owner.is_none() || true {
            if let Some(c) = self.prog.constant(&segs, self.ctx.f) {
                let v = self.eval(&c.expr)?;
                return Ok(self.coerce(v, &c.ty));
            }
        }
        if let Some(v) = self.builtin_const(&owner.as_ref().map(|x| x.to_string()).unwrap_or_default(), &name)? {
            return Ok(v);
        }
        // unit struct
        if let Some(sd) = self.prog.structs.get(&name) {
            if sd.fields.is_empty() {
                return Ok(rc(Val::Struct(name.as_str().into(), vec![])));
            }
        }
        let mut segs = segs;
        if let (Some(o), true) = (&owner, segs.len() >= 2 || p.qself.is_some()) {
            let n = segs.len();
            if n >= 2 {
                segs[n - 2] = o.to_string();
            }
        }
        Ok(rc(Val::FnItem(Rc::new(segs), owner)))
    }
    fn owner(&self, q: Option<&QSelf>, segs: &[String]) -> Option<Rc<str>> {
        if let Some(q) = q {
            return self.tname(&q.ty);
        }
        if segs.len() < 2 {
            return None;
        }
        let o = &segs[segs.len() - 2];
        if o == "Self" {
            return self.ctx.self_ty.clone();
        }
        if let Some((_, c)) = self.ctx.targs.iter().find(|(k, _)| k == o) {
            return Some(c.clone());
        }
        if let Some(t) = self.prog.aliases.get(o) {
            if let Some(n) = ty_name(t) {
                return Some(n.as_str().into());
            }
        }
        Some(o.as_str().into())
    }
    fn turbofish(&self, p: &syn::Path) -> Vec<Rc<str>> {
        let mut out = vec![];
        for s in &p.segments {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                for g in &a.args {
                    if let GenericArgument::Type(t) = g {
                        if let Some(n) = self.tname(t) {
                            out.push(n);
                        }
                    }
                }
            }
        }
        out
    }
    fn call_expr(&mut self, c: &'static ExprCall) -> RV {
        // local closure variable?
        let func = match &*c.func {
            Expr::Paren(p) => &*p.expr,
            x => x,
        };
        if let Expr::Path(p) = func {
            let segs = path_segs(&p.path);
            let local = segs.len() == 1 && p.qself.is_none() && self.lookup(&segs[0]).is_some();
            if !local {
                let mut args = vec![];
                // ProgressBar::new(n.try_into().unwrap()): the only target type is u64
                let bar = segs.len() >= 2 && segs[segs.len() - 2] == "ProgressBar" && segs[segs.len() - 1] == "new";
                let save = std::mem::replace(&mut self.into_u64, bar);
                for a in &c.args {
                    let v = ev!(self, a);
                    args.push(v);
                }
                self.into_u64 = save;
                let loc = self.loc(c);
                return self.call_path(p.qself.as_ref(), &p.path, args, loc);
            }
        }
        let f = ev!(self, func);
        let f = self.deref(&f)?;
        let mut args = vec![];
        for a in &c.args {
            let v = ev!(self, a);
            args.push(v);
        }
        self.call_value(&f, args)
    }
    fn call_path(&mut self, q: Option<&QSelf>, path: &'static syn::Path, args: Vec<V>, loc: String) -> RV {
        let segs = path_segs(path);
        let owner = self.owner(q, &segs);
        let tf = self.turbofish(path);
        let trait_call = q.is_some() || (segs.len() >= 2 && (self.ctx.targs.iter().any(|(k, _)| *k == segs[segs.len() - 2]) || self.prog.trait_methods.contains_key(&segs[segs.len() - 2])));
        self.call_named(&segs, owner, trait_call, tf, args, loc)
    }
    pub fn call_named(&mut self, segs: &[String], owner: Option<Rc<str>>, trait_call: bool, tf: Vec<Rc<str>>, args: Vec<V>, loc: String) -> RV {
        let name = segs.last().unwrap().as_str();
        if segs.len() == 1 {
            match name {
                "Some" => {
                    return Ok(self.some(args[0].clone()));
                }
                "Ok" | "Err" => return Ok(rc(Val::Enum("Result".into(), vec![(TRUE, name.into(), vec![args[0].clone()])]))),
                _ => {}
            }
        }
        let is_self_name = name == "Self";
        let sname: Option<String> = if is_self_name { self.ctx.self_ty.as_ref().map(|s| s.to_string()) } else { Some(name.to_string()) };
        if let Some(sd) = sname.as_ref().and_then(|n| self.prog.structs.get(n)) {
            if sd.tuple {
                let o = args.into_iter().zip(sd.fields.iter()).map(|(a, f)| self.coerce(a, &f.1)).collect();
                return Ok(rc(Val::Struct(sd.name.as_str().into(), o)));
            }
        }
        if let Some(o) = &owner {
            if let Some(ed) = self.prog.enums.get(&**o) {
                if ed.variants.iter().any(|v| v.0 == name) {
                    return Ok(rc(Val::Enum(o.clone(), vec![(TRUE, name.into(), args)])));
                }
            }
            // trait path: LearnableGame::encode(&x, ..)
            let mut o = o.clone();
            if self.prog.trait_methods.contains_key(&*o) && !args.is_empty() {
                let a0 = self.deref(&args[0])?;
                if let Val::Struct(n, _) | Val::Enum(n, _) = &*a0 {
                    o = n.clone();
                }
            }
            if let Some(d) = self.prog.method(&o, name, trait_call) {
                return self.call_fn(d, args, Some(o), Some(tf));
            }
            let full = format!("{}::{}", o, name);
            if let Some(r) = self.builtin_fn(&full, &args, &tf, &loc)? {
                return Ok(r);
            }
            // associated-function syntax for a builtin method: Vec::len(&v), i8::abs(x), Iterator::map(..)
            if self.prog.free_fn(segs, self.ctx.f).filter(|d| d.module == *o).is_none() && !args.is_empty() {
                let a0 = args[0].clone();
                if let Val::Ref(p) = &*a0 {
                    let p = p.clone();
                    return self.method_value(Some(p), name, args[1..].to_vec(), &tf, loc);
                }
                if !self.is_module(&o) {
                    let c = self.alloc(a0);
                    return self.method_value(Some(Place { heap: false, cell: c, path: vec![] }), name, args[1..].to_vec(), &tf, loc);
                }
            }
        }
        if let Some(d) = self.prog.free_fn(segs, self.ctx.f) {
            return self.call_fn(d, args, None, Some(tf));
        }
        if let Some(r) = self.builtin_fn(name, &args, &tf, &loc)? {
            return Ok(r);
        }
        unsup(format!("{}: call of unknown function {}", loc, segs.join("::")))
    }
    fn is_module(&self, o: &str) -> bool {
        self.prog.free.values().any(|v| v.iter().any(|d| d.module == o)) || matches!(o, "mem" | "cmp" | "iter" | "tch" | "std" | "fs")
    }
    pub fn call_value(&mut self, f: &V, args: Vec<V>) -> RV {
        match &**f {
            Val::Closure(c) => {
                let c = c.clone();
                let env = std::mem::replace(&mut self.env, c.env.clone());
                let ctx = std::mem::replace(&mut self.ctx, c.ctx.clone());
                let base = self.st.pc.len();
                let ncell = self.st.cells.len();
                self.frames.push(Frame::default());
                for (p, a) in c.expr.inputs.iter().zip(args) {
                    self.bind_pat(p, &a)?;
                }
                let v = self.eval(&c.expr.body)?;
                let fr = self.frames.pop().unwrap();
                self.env = env;
                self.ctx = ctx;
                let r = if fr.returns.is_empty() {
                    v
                } else {
                    let mut all = fr.returns;
                    if !self.st.dead {
                        all.push((self.st.clone(), v));
                    }
                    self.join_all(base, ncell, all)?
                };
                self.st.cells.truncate(ncell);
                Ok(r)
            }
            Val::FnItem(segs, owner) => {
                let segs = segs.clone();
                let mut a = vec![];
                for x in args {
                    a.push(x);
                }
                self.call_named(&segs, owner.clone(), false, vec![], a, "fn item".into())
            }
            _ => unsup(format!("call of {}", f.kind())),
        }
    }
    pub fn call_fn(&mut self, d: &'static FnDef, args: Vec<V>, self_ty: Option<Rc<str>>, tf: Option<Vec<Rc<str>>>) -> RV {
        if let Some(h) = self.havoc.get(&d.qual).cloned() {
            *self.models_used.entry(format!("contract of {} used at call sites: {}", d.qual, h)).or_insert(0) += 1;
            return self.havoc_value(&h, &d.qual);
        }
        if let Some(spec) = self.subst.get(&d.qual).cloned() {
            *self.models_used.entry(format!("call of {} replaced by its (separately discharged) contract {}", d.qual, spec)).or_insert(0) += 1;
            let Some(sd) = self.prog.free.get(&spec).and_then(|v| v.first()) else { return unsup("unknown spec function") };
            return self.call_fn(sd, args, None, None);
        }
        if matches!(d.qual.as_str(), "ResNet::forward_t" | "ResNet::forward_train" | "ResNet::forward_policy") && !args.is_empty() {
            return self.net_method(&d.name.clone(), args, String::new());
        }
        self.depth += 1;
        if self.depth > 3000 {
            return unsup(format!("recursion too deep in {}", d.qual));
        }
        if !d.is_contract {
            *self.called.entry(format!("{} ({})", d.qual, d.file.rsplit("/src/").next().unwrap_or(""))).or_insert(0) += 1;
        }
        let mut targs: Vec<(String, Rc<str>)> = (*self.ctx.targs).clone();
        if let Some(tf) = tf {
            let params: Vec<String> = d
                .sig
                .generics
                .params
                .iter()
                .filter_map(|p| match p {
                    GenericParam::Type(t) => Some(t.ident.to_string()),
                    _ => None,
                })
                .collect();
            for (p, t) in params.iter().zip(tf) {
                if &*t == "_" {
                    continue;
                }
                if let Some(e) = targs.iter_mut().find(|e| e.0 == *p) {
                    e.1 = t;
                } else {
                    targs.push((p.clone(), t));
                }
            }
        }
        let st_name = self_ty.or_else(|| d.self_ty.as_ref().map(|s| s.as_str().into()));
        let ctx = std::mem::replace(&mut self.ctx, Ctx { f: d, self_ty: st_name, targs: Rc::new(targs) });
        let env = std::mem::take(&mut self.env);
        let base = self.st.pc.len();
        let ncell = self.st.cells.len();
        self.frames.push(Frame::default());
        let mut it = args.into_iter();
        for inp in d.sig.inputs.iter() {
            let Some(a) = it.next() else { return unsup(format!("arity of {}", d.qual)) };
            match inp {
                FnArg::Receiver(r) => {
                    let v = if r.reference.is_some() && r.mutability.is_some() { a } else { self.deref(&a)? };
                    self.bind("self", v);
                }
                FnArg::Typed(t) => {
                    let a = match &*t.ty {
                        Type::Reference(r) if r.mutability.is_some() => a,
                        Type::ImplTrait(_) => a,
                        Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false) => a,
                        Type::Path(p) if p.path.segments.len() == 1 && d.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(t) if t.ident == p.path.segments[0].ident)) => a,
                        _ => self.deref(&a)?,
                    };
                    let a = self.coerce(a, &t.ty);
                    self.bind_pat(&t.pat, &a)?;
                }
            }
        }
        let mut v = self.block(&d.block)?;
        let fr = self.frames.pop().unwrap();
        if !fr.returns.is_empty() {
            let mut all = fr.returns;
            if !self.st.dead {
                all.push((self.st.clone(), v));
            }
            v = self.join_all(base, ncell, all)?;
        }
        self.st.cells.truncate(ncell);
        if let ReturnType::Type(_, t) = &d.sig.output {
            v = self.coerce(v, t);
            if !self.st.dead && matches!(&**t, Type::Path(_)) && matches!(&*v, Val::Ref(_)) {
                v = self.deref(&v)?;
            }
        }
        self.env = env;
        self.ctx = ctx;
        self.depth -= 1;
        Ok(v)
    }
    fn method_expr(&mut self, m: &'static ExprMethodCall) -> RV {
        let name = m.method.to_string();
        let loc = self.loc(&m.method);
        let mut pl = self.place(&m.receiver)?;
        if self.st.dead {
            return Ok(self.never.clone());
        }
        if pl.is_none() {
            let v = ev!(self, &m.receiver);
            pl = Some(match &*v {
                Val::Ref(p) => p.clone(),
                _ => {
                    let c = self.alloc(v.clone());
                    Place { heap: false, cell: c, path: vec![] }
                }
            });
        }
        let mut args = vec![];
        for a in &m.args {
            let v = ev!(self, a);
            args.push(v);
        }
        let mut tf = vec![];
        if let Some(t) = &m.turbofish {
            for g in &t.args {
                if let GenericArgument::Type(t) = g {
                    tf.push(self.tname(t).unwrap_or_else(|| "_".into()));
                }
            }
        }
        // an iterator held in a variable is partly consumed by these
        let partly = matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) && matches!(name.as_str(), "any" | "all" | "find" | "find_map" | "position" | "rposition" | "rfind" | "try_fold" | "try_for_each");
        let q = if partly { pl.clone() } else { None };
        let r = self.method_value(pl, &name, args, &tf, loc)?;
        if let (Some(mut q), false) = (q, self.st.dead) {
            let mut v = self.read(&q)?;
            while let Val::Ref(n) = &*v {
                q = n.clone();
                v = self.read(&q)?;
            }
            if let Val::List(_) | Val::Range(..) = &*v {
                self.write(&q, rc(Val::Opaque("partly consumed iterator".into())))?;
            }
        }
        Ok(r)
    }
    /// method call on the value at a place
    pub fn method_value(&mut self, pl: Option<Place>, name: &str, args: Vec<V>, tf: &[Rc<str>], loc: String) -> RV {
        let mut p = pl.unwrap();
        let mut v = self.read(&p)?;
        while let Val::Ref(q) = &*v {
            p = q.clone();
            v = self.read(&p)?;
        }
        if let Val::Opaque(s) = &*v {
            if s.starts_with("unmergeable") {
                return unsup(format!("{}: {}", loc, s));
            }
        }
        let ty: Option<Rc<str>> = match &*v {
            Val::Struct(n, _) | Val::Enum(n, _) => Some(n.clone()),
            Val::Opaque(n) => Some(n.clone()),
            Val::Never => return Ok(self.never.clone()),
            _ => None,
        };
        if let Some(n) = &ty {
            let generic = self.ctx.f.generic;
            let d = self.prog.method(n, name, generic);
            if let Some(d) = d {
                let mut a = Vec::with_capacity(args.len() + 1);
                match d.sig.receiver() {
                    Some(r) if r.reference.is_some() && r.mutability.is_some() => {
                        drop(v);
                        a.push(rc(Val::Ref(p)))
                    }
                    _ => a.push(v),
                }
                a.extend(args);
                return self.call_fn(d, a, Some(n.clone()), Some(tf.to_vec()));
            }
        }
        self.builtin_method(p, v, name, args, tf, loc)
    }

    // ---------- macros ----------
    fn parse_mac(&mut self, m: &'static Macro) -> R<&'static PM> {
        let key = m as *const Macro as usize;
        if let Some(p) = self.mac_cache.get(&key) {
            return Ok(p);
        }
        let name = m.path.segments.last().unwrap().ident.to_string();
        let toks = m.tokens.clone();
        let pm = if name == "matches" {
            struct M(Expr, Pat, Option<Expr>);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok(M(e, p, g))
                }
            }
            let mm: M = parse2(toks).map_err(|e| Stop::Unsupported(e.to_string()))?;
            PM::Matches(Box::new(mm.0), Box::new(mm.1), mm.2)
        } else {
            struct A(Vec<Expr>, Option<Expr>);
            impl parse::Parse for A {
                fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                    let mut v = vec![];
                    while !i.is_empty() {
                        // named format arguments `a = b`
                        let e: Expr = i.parse()?;
                        v.push(e);
                        if i.peek(Token![;]) {
                            i.parse::<Token![;]>()?;
                            let n: Expr = i.parse()?;
                            return Ok(A(v, Some(n)));
                        }
                        if i.is_empty() {
                            break;
                        }
                        i.parse::<Token![,]>()?;
                    }
                    Ok(A(v, None))
                }
            }
            let a: A = parse2(toks).map_err(|e| Stop::Unsupported(format!("macro {}!: {}", name, e)))?;
            PM::Mac { args: a.0, repeat: a.1 }
        };
        let l: &'static PM = Box::leak(Box::new(pm));
        self.mac_cache.insert(key, l);
        Ok(l)
    }
    fn mac(&mut self, m: &'static Macro) -> RV {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "println" | "print" | "eprintln" | "eprint" | "dbg" => return Ok(self.unit.clone()),
            "nanoid" => {
                self.model("nanoid!(): a new text every time");
                self.uniq += 1;
                let s = format!("nanoid{}", self.uniq);
                return Ok(rc(Val::Str(s.as_str().into())));
            }
            "write" | "writeln" => {
                let u = self.unit.clone();
                return Ok(self.ok(u));
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                let msg = m.tokens.to_string();
                let l = self.loc(m);
                self.obligation(FALSE, format!("{}! not reached ({})", name, msg.chars().take(60).collect::<String>()), l, true);
                self.st.dead = true;
                return Ok(self.never.clone());
            }
            _ => {}
        }
        let pm = self.parse_mac(m)?;
        match pm {
            PM::Matches(e, p, g) => {
                let v = ev!(self, e);
                let mut b = vec![];
                let mut c = self.pat(p, &v, &mut b)?;
                if let Some(g) = g {
                    let n = self.env.len();
                    for (k, x) in b {
                        self.bind(&k, x);
                    }
                    let gv = self.eval(g)?;
                    self.env.truncate(n);
                    let gt = self.as_bool(&gv)?;
                    c = self.tm.and2(c, gt);
                }
                Ok(self.vb(c))
            }
            PM::Mac { args, repeat } => match name.as_str() {
                "vec" => {
                    if let Some(n) = repeat {
                        let v = ev!(self, &args[0]);
                        let n = ev!(self, n);
                        let n = self.as_conc(&n)?;
                        return Ok(self.list(vec![v; n as usize]));
                    }
                    let mut o = vec![];
                    for a in args {
                        o.push(ev!(self, a));
                    }
                    let o = self.unify_ints(o);
                    Ok(self.list(o))
                }
                "format" => {
                    let fmt = match args.first() {
                        Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
                        _ => return Ok(rc(Val::Opaque("string".into()))),
                    };
                    let mut out = fmt.clone();
                    let mut ok = true;
                    for a in &args[1..] {
                        let v = ev!(self, a);
                        let v = self.deref(&v)?;
                        let s = match &*v {
                            Val::Str(s) => Some(s.to_string()),
                            Val::I(t, _) => self.tm.as_int(*t).map(|k| k.to_string()),
                            _ => None,
                        };
                        match s {
                            Some(s) if out.contains("{}") => out = out.replacen("{}", &s, 1),
                            _ => ok = false,
                        }
                    }
                    // {name} with a variable in scope
                    while let (Some(i), Some(j)) = (out.find('{'), out.find('}')) {
                        if j < i || !ok {
                            break;
                        }
                        let nm = out[i + 1..j].to_string();
                        let Some(c) = self.lookup(&nm) else { break };
                        let v = self.read(&Place { heap: false, cell: c, path: vec![] })?;
                        let v = self.deref(&v)?;
                        let s = match &*v {
                            Val::Str(s) => s.to_string(),
                            Val::I(t, _) => match self.tm.as_int(*t) {
                                Some(k) => k.to_string(),
                                None => break,
                            },
                            _ => break,
                        };
                        out = format!("{}{}{}", &out[..i], s, &out[j + 1..]);
                    }
                    if ok && !out.contains('{') {
                        return Ok(rc(Val::Str(out.as_str().into())));
                    }
                    Ok(rc(Val::Opaque("string".into())))
                }
                "assert" | "debug_assert" => {
                    let v = ev!(self, &args[0]);
                    let t = self.as_bool(&v)?;
                    let l = self.loc(m);
                    self.obligation(t, "assertion holds", l, true);
                    if t == FALSE {
                        self.st.dead = true;
                    }
                    Ok(self.unit.clone())
                }
                "assert_eq" | "assert_ne" | "debug_assert_eq" => {
                    let a = ev!(self, &args[0]);
                    let b = ev!(self, &args[1]);
                    let mut t = self.eq(&a, &b)?;
                    if name == "assert_ne" {
                        t = self.tm.not(t);
                    }
                    let l = self.loc(m);
                    self.obligation(t, "assertion holds", l, true);
                    Ok(self.unit.clone())
                }
                "requires" => {
                    let v = ev!(self, &args[0]);
                    let t = self.as_bool(&v)?;
                    if self.st.pc.is_empty() || self.path_mode {
                        if t == FALSE {
                            return Err(Stop::Cut);
                        }
                        self.assume(t);
                        if self.path_mode && !self.sat_pc(TRUE) {
                            return Err(Stop::Cut);
                        }
                    } else {
                        self.assume(t);
                    }
                    Ok(self.unit.clone())
                }
                "ensures" => {
                    let label = match &args[0] {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                        _ => return self.unsup(m, "ensures! needs a label"),
                    };
                    let v = ev!(self, &args[1]);
                    let t = self.as_bool(&v)?;
                    let l = self.loc(m);
                    self.obligation(t, label, l, false);
                    Ok(self.unit.clone())
                }
                "cover" => {
                    let label = match &args[0] {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                        _ => return self.unsup(m, "cover! needs a label"),
                    };
                    let v = ev!(self, &args[1]);
                    let t = self.as_bool(&v)?;
                    let pc = self.st.pc.clone();
                    self.covers.push((label, pc, t));
                    Ok(self.unit.clone())
                }
                _ => self.unsup(m, format!("macro {}!", name)),
            },
        }
    }
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

/// more than 20 GB in use? (looked up at most every 100 ms)
pub fn memory_full() -> bool {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    static AT: AtomicU64 = AtomicU64::new(0);
    static FULL: AtomicBool = AtomicBool::new(false);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0);
    if now > AT.load(Relaxed) + 100 {
        AT.store(now, Relaxed);
        let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
        FULL.store(pages * 4096 > 20_000_000_000, Relaxed);
    }
    FULL.load(Relaxed)
}

static FAILED_AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}

pub fn found_failure() {
    let _ = FAILED_AT.compare_exchange(0, now_ms(), std::sync::atomic::Ordering::Relaxed, std::sync::atomic::Ordering::Relaxed);
}

/// an obligation failed a while ago: the rest is not worth the time
pub fn stop_early() -> bool {
    let t = FAILED_AT.load(std::sync::atomic::Ordering::Relaxed);
    t != 0 && now_ms() > t + 90_000
}
