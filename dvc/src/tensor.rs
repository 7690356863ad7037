//! Models (assumed contracts) of the `tch` tensor operations and of the network.
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

fn strides(shape: &[i64]) -> Vec<i64> {
    let mut s = vec![1; shape.len()];
    for i in (0..shape.len().saturating_sub(1)).rev() {
        s[i] = s[i + 1] * shape[i + 1];
    }
    s
}

impl Ex {
    fn elem(&self, t: T, k: TK) -> V {
        match k {
            TK::Float => self.vf(t),
            TK::Int => self.vt(t, ITy::I64),
            TK::Bool => self.vb(t),
        }
    }
    fn elem_t(&self, v: &V) -> R<T> {
        match &**v {
            Val::F(t) | Val::I(t, _) | Val::B(t) => Ok(*t),
            _ => unsup("tensor element"),
        }
    }
    pub fn tdata(&mut self, t: &TensorV) -> R<Vec<T>> {
        let cell = self.st.heap[t.cell].clone();
        match &*cell {
            Val::List(xs) => {
                let n = t.numel();
                if t.off + n > xs.len() {
                    return unsup("tensor view out of storage");
                }
                xs[t.off..t.off + n].iter().map(|x| self.elem_t(&x.1)).collect()
            }
            _ => unsup("tensor storage"),
        }
    }
    pub fn mk_tensor(&mut self, shape: Vec<i64>, d: Vec<T>, kind: TK) -> V {
        debug_assert_eq!(shape.iter().product::<i64>() as usize, d.len());
        let v = rc(Val::List(d.into_iter().map(|x| (TRUE, self.elem(x, kind))).collect()));
        let cell = self.heap_next;
        self.heap_next += 1;
        while self.st.heap.len() < cell {
            let n = self.never.clone();
            self.st.heap.push(n);
        }
        self.st.heap.push(v);
        rc(Val::Tensor(TensorV { cell, off: 0, shape, kind }))
    }
    fn twrite(&mut self, t: &TensorV, at: usize, x: T) -> R<()> {
        if self.ro_cells.contains(&t.cell) {
            return unsup("in-place write to a tensor chosen by a symbolic conditional");
        }
        let e = self.elem(x, t.kind);
        let mut cell = self.st.heap[t.cell].clone();
        match Rc::make_mut(&mut cell) {
            Val::List(xs) => xs[t.off + at] = (TRUE, e),
            _ => return unsup("tensor storage"),
        }
        self.st.heap[t.cell] = cell;
        Ok(())
    }
    fn twrite_all(&mut self, t: &TensorV, d: Vec<T>) -> R<()> {
        if self.ro_cells.contains(&t.cell) {
            return unsup("in-place write to a tensor chosen by a symbolic conditional");
        }
        let es: Vec<V> = d.into_iter().map(|x| self.elem(x, t.kind)).collect();
        let mut cell = self.st.heap[t.cell].clone();
        match Rc::make_mut(&mut cell) {
            Val::List(xs) => {
                for (i, e) in es.into_iter().enumerate() {
                    xs[t.off + i] = (TRUE, e)
                }
            }
            _ => return unsup("tensor storage"),
        }
        self.st.heap[t.cell] = cell;
        Ok(())
    }
    fn kind_of(&self, v: &V) -> Option<TK> {
        match &**v {
            Val::Opaque(s) if s.starts_with("Kind::") => Some(match &s[6..] {
                "Float" | "Double" | "Half" | "BFloat16" => TK::Float,
                "Bool" => TK::Bool,
                _ => TK::Int,
            }),
            Val::Enum(n, a) if &**n == "Option" && a.len() == 1 && a[0].2.len() == 1 => self.kind_of(&a[0].2[0]),
            Val::Tuple(x) => x.first().and_then(|k| self.kind_of(k)),
            _ => None,
        }
    }
    pub fn conv(&mut self, t: T, k: TK) -> R<T> {
        Ok(match (k, self.tm.sort(t)) {
            (TK::Float, Sort::Int) => self.tm.to_real(t),
            (TK::Float, Sort::Bool) => {
                let (a, b) = (self.tm.real(Rat::one()), self.tm.real(Rat::zero()));
                self.tm.ite(t, a, b)
            }
            (TK::Int, Sort::Bool) => {
                let (a, b) = (self.tm.int(1), self.tm.int(0));
                self.tm.ite(t, a, b)
            }
            (TK::Float, Sort::Real) | (TK::Int, Sort::Int) | (TK::Bool, Sort::Bool) => t,
            _ => return unsup("tensor kind conversion"),
        })
    }
    fn scalar(&mut self, v: &V) -> R<(T, TK)> {
        let v = self.deref(v)?;
        match &*v {
            Val::F(t) => Ok((*t, TK::Float)),
            Val::I(t, _) => Ok((*t, TK::Int)),
            Val::B(t) => Ok((*t, TK::Bool)),
            _ => unsup(format!("tensor scalar {}", v.kind())),
        }
    }
    fn ints(&mut self, v: &V) -> R<Vec<i64>> {
        let v = self.deref(v)?;
        match &*v {
            Val::I(..) => Ok(vec![self.as_conc(&v)? as i64]),
            Val::List(xs) => {
                let xs = xs.clone();
                xs.iter().map(|x| self.as_conc(&x.1).map(|k| k as i64)).collect()
            }
            Val::Enum(n, a) if &**n == "Option" => {
                if a.len() == 1 && a[0].2.len() == 1 {
                    self.ints(&a[0].2[0].clone())
                } else {
                    Ok(vec![])
                }
            }
            Val::Tuple(xs) => {
                let xs = xs.clone();
                xs.iter().map(|x| self.as_conc(x).map(|k| k as i64)).collect()
            }
            _ => unsup(format!("tensor shape {}", v.kind())),
        }
    }
    pub fn tens(&mut self, v: &V) -> R<TensorV> {
        let v = self.deref(v)?;
        match &*v {
            Val::Tensor(t) => Ok(t.clone()),
            Val::Enum(n, a) if &**n == "Option" && a.len() == 1 && a[0].2.len() == 1 => self.tens(&a[0].2[0].clone()),
            _ => unsup(format!("expected a tensor, found {}", v.kind())),
        }
    }
    fn tens_list(&mut self, v: &V) -> R<Vec<TensorV>> {
        let v = self.deref(v)?;
        let xs = self.iter_items(&v)?;
        if !Self::all_true(&xs) {
            return unsup("tensor list of symbolic length");
        }
        xs.iter().map(|x| self.tens(&x.1)).collect()
    }
    pub fn tensor_bin(&mut self, op: char, l: &V, r: &V) -> RV {
        let l = self.deref(l)?;
        let r = self.deref(r)?;
        let as_t = |s: &mut Self, v: &V| -> R<(Vec<T>, Vec<i64>, TK)> {
            Ok(match &**v {
                Val::Tensor(t) => (s.tdata(t)?, t.shape.clone(), t.kind),
                _ => {
                    let (t, k) = s.scalar(v)?;
                    (vec![t], vec![], k)
                }
            })
        };
        let (dl, sl, kl) = as_t(self, &l)?;
        let (dr, sr, kr) = as_t(self, &r)?;
        let kind = if op == '/' || kl == TK::Float || kr == TK::Float { TK::Float } else { TK::Int };
        // broadcast
        let n = sl.len().max(sr.len());
        let pad = |s: &Vec<i64>| {
            let mut v = vec![1; n - s.len()];
            v.extend(s);
            v
        };
        let (pl, pr) = (pad(&sl), pad(&sr));
        let mut shape = vec![];
        for i in 0..n {
            if pl[i] != pr[i] && pl[i] != 1 && pr[i] != 1 {
                self.obligation(FALSE, "tensor shapes are compatible", String::new(), true);
                self.st.dead = true;
                return Ok(self.never.clone());
            }
            shape.push(pl[i].max(pr[i]));
        }
        let (tl, tr) = (strides(&pl), strides(&pr));
        let total: i64 = shape.iter().product();
        let ss = strides(&shape);
        let mut out = Vec::with_capacity(total as usize);
        for k in 0..total {
            let (mut a, mut b) = (0, 0);
            for i in 0..n {
                let ix = (k / ss[i]) % shape[i];
                a += if pl[i] == 1 { 0 } else { ix * tl[i] };
                b += if pr[i] == 1 { 0 } else { ix * tr[i] };
            }
            let x = self.conv(dl[a as usize], kind)?;
            let y = self.conv(dr[b as usize], kind)?;
            out.push(match op {
                '=' => self.tm.eq(x, y),
                '!' => {
                    let e = self.tm.eq(x, y);
                    self.tm.not(e)
                }
                '<' => self.tm.lt(x, y),
                '>' => self.tm.lt(y, x),
                'l' => self.tm.le(x, y),
                'g' => self.tm.le(y, x),
                '+' => self.tm.add(x, y),
                '-' => self.tm.sub(x, y),
                '*' => self.tm.mul(x, y),
                '/' => self.tm.div_real(x, y),
                _ => return unsup(format!("tensor operator {}", op)),
            });
        }
        let kind = if "=!<>lg".contains(op) { TK::Bool } else { kind };
        Ok(self.mk_tensor(shape, out, kind))
    }
    fn cat(&mut self, xs: Vec<TensorV>, dim: i64, stack: bool) -> RV {
        if xs.is_empty() {
            self.obligation(FALSE, "cat/stack of a non-empty list", String::new(), true);
            self.st.dead = true;
            return Ok(self.never.clone());
        }
        let mut xs = xs;
        let nd = xs[0].shape.len() as i64 + if stack { 1 } else { 0 };
        let dim = if dim < 0 { dim + nd } else { dim } as usize;
        if stack {
            let s0 = xs[0].shape.clone();
            for x in xs.iter_mut() {
                if x.shape != s0 {
                    self.obligation(FALSE, "stacked tensors have one shape", String::new(), true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                x.shape.insert(dim, 1);
            }
        }
        let kind = if xs.iter().any(|x| x.kind == TK::Float) { TK::Float } else { xs[0].kind };
        let mut shape = xs[0].shape.clone();
        shape[dim] = 0;
        for x in &xs {
            let mut a = x.shape.clone();
            let mut b = shape.clone();
            if a.len() != b.len() {
                self.obligation(FALSE, "concatenated tensors have compatible shapes", String::new(), true);
                self.st.dead = true;
                return Ok(self.never.clone());
            }
            a[dim] = 0;
            b[dim] = 0;
            if a != b {
                self.obligation(FALSE, "concatenated tensors have compatible shapes", String::new(), true);
                self.st.dead = true;
                return Ok(self.never.clone());
            }
            shape[dim] += x.shape[dim];
        }
        let outer: i64 = shape[..dim].iter().product();
        let inner: i64 = shape[dim + 1..].iter().product();
        let data: Vec<Vec<T>> = xs.iter().map(|x| self.tdata(x)).collect::<R<_>>()?;
        let mut out = vec![];
        for o in 0..outer {
            for (x, d) in xs.iter().zip(&data) {
                let w = x.shape[dim] * inner;
                for k in 0..w {
                    let t = self.conv(d[(o * w + k) as usize], kind)?;
                    out.push(t);
                }
            }
        }
        Ok(self.mk_tensor(shape, out, kind))
    }
    pub fn tensor_fn(&mut self, name: &str, args: &[V], loc: &str) -> R<Option<V>> {
        self.model("tch tensor constructors, views and arithmetic: exact real-valued model");
        Ok(Some(match name {
            "from_slice" | "of_slice" | "from" | "from_slice2" => {
                let a = self.deref(&args[0])?;
                match &*a {
                    Val::List(_) => {
                        let xs = self.iter_items(&a)?;
                        if !Self::all_true(&xs) {
                            return unsup("tensor from a list of symbolic length");
                        }
                        let mut d = vec![];
                        let mut k = TK::Float;
                        for x in &xs {
                            let (t, kk) = self.scalar(&x.1)?;
                            d.push(t);
                            k = kk;
                        }
                        self.mk_tensor(vec![d.len() as i64], d, k)
                    }
                    Val::Tensor(_) => a,
                    _ => {
                        let (t, k) = self.scalar(&a)?;
                        self.mk_tensor(vec![], vec![t], k)
                    }
                }
            }
            "full" => {
                let s = self.ints(&args[0])?;
                let (t, k0) = self.scalar(&args[1])?;
                let k = self.kind_of(&args[2]).unwrap_or(k0);
                let t = self.conv(t, k)?;
                let n = s.iter().product::<i64>() as usize;
                self.mk_tensor(s, vec![t; n], k)
            }
            "zeros" | "ones" => {
                let s = self.ints(&args[0])?;
                let k = self.kind_of(&args[1]).unwrap_or(TK::Float);
                let t = self.tm.int(if name == "ones" { 1 } else { 0 });
                let t = self.conv(t, k)?;
                let n = s.iter().product::<i64>() as usize;
                self.mk_tensor(s, vec![t; n], k)
            }
            "stack" | "cat" | "concat" | "concatenate" => {
                let xs = self.tens_list(&args[0])?;
                let d = self.as_conc(&args[1])? as i64;
                self.cat(xs, d, name == "stack")?
            }
            _ => {
                if args.is_empty() {
                    return Ok(None);
                }
                let c = match &*args[0] {
                    Val::Ref(p) => p.clone(),
                    _ => {
                        let c = self.alloc(args[0].clone());
                        Place { heap: false, cell: c, path: vec![] }
                    }
                };
                let v = self.deref(&args[0])?;
                self.tensor_method(c, v, name, args[1..].to_vec(), &[], loc.to_string())?
            }
        }))
    }
    /// pow with a fixed exponent: only what positivity needs
    fn pow_t(&mut self, x: T, e: T) -> T {
        if self.tm.as_rat(e) == Some(Rat::one()) {
            return x;
        }
        if let Some(r) = self.tm.as_rat(x) {
            if r.is_zero() || r == Rat::one() {
                return x;
            }
        }
        self.model("pow: uninterpreted, positive on positive, zero at zero");
        let p = self.tm.app("pow", &[x, e], Sort::Real);
        let z = self.tm.real(Rat::zero());
        let (px, pp) = (self.tm.lt(z, x), self.tm.lt(z, p));
        let i = self.tm.implies(px, pp);
        self.assume(i);
        let (ex, ep) = (self.tm.eq(x, z), self.tm.eq(p, z));
        let i = self.tm.implies(ex, ep);
        self.assume(i);
        p
    }
    /// flat positions addressed by a list of index tensors
    fn idx_positions(&mut self, t: &TensorV, idx: &V, loc: &str) -> R<Option<(Vec<usize>, usize)>> {
        let ts = self.tens_list(idx)?;
        let st = strides(&t.shape);
        let mut cols = vec![];
        for (d, x) in ts.iter().enumerate() {
            let data = self.tdata(x)?;
            let mut c = vec![];
            for q in data {
                let k = self.concretise(q)? as i64;
                let n = t.shape[d];
                if k < -n || k >= n {
                    self.obligation(FALSE, "tensor index in range", loc.to_string(), true);
                    self.st.dead = true;
                    return Ok(None);
                }
                c.push(if k < 0 { k + n } else { k });
            }
            cols.push(c);
        }
        let inner: i64 = t.shape[ts.len()..].iter().product();
        let n = cols[0].len();
        let mut out = vec![];
        for i in 0..n {
            let base: i64 = cols.iter().enumerate().map(|(d, c)| c[if c.len() == 1 { 0 } else { i }] * st[d]).sum();
            for k in 0..inner {
                out.push((base + k) as usize);
            }
        }
        Ok(Some((out, n)))
    }
    fn put(&mut self, t: &TensorV, idx: &V, val: &V, acc: &V, loc: &str) -> R<bool> {
        let Some((pos, _)) = self.idx_positions(t, idx, loc)? else { return Ok(false) };
        let v = self.tens(val)?;
        let d = self.tdata(&v)?;
        if d.len() != 1 && d.len() != pos.len() {
            self.obligation(FALSE, "index_put value shape", loc.to_string(), true);
            self.st.dead = true;
            return Ok(false);
        }
        let acc = match &*self.deref(acc)? {
            Val::B(t) => *t == TRUE,
            _ => false,
        };
        let cur = self.tdata(t)?;
        let mut cur = cur;
        for (i, p) in pos.iter().enumerate() {
            let x = self.conv(d[if d.len() == 1 { 0 } else { i }], t.kind)?;
            cur[*p] = if acc { self.tm.add(cur[*p], x) } else { x };
        }
        self.twrite_all(t, cur)?;
        Ok(true)
    }
    fn view_of(&self, t: &TensorV, shape: Vec<i64>) -> V {
        rc(Val::Tensor(TensorV { cell: t.cell, off: t.off, shape, kind: t.kind }))
    }
    fn index_row(&mut self, t: &TensorV, i: &V, loc: &str) -> R<Option<TensorV>> {
        let it = self.as_t(i)?;
        if t.shape.is_empty() {
            self.obligation(FALSE, "indexing a tensor without dimensions", loc.to_string(), true);
            self.st.dead = true;
            return Ok(None);
        }
        let k = if self.path_mode { self.concretise(it)? } else { self.as_conc(i)? } as i64;
        if k < -t.shape[0] || k >= t.shape[0] {
            self.obligation(FALSE, "tensor row index in range", loc.to_string(), true);
            self.st.dead = true;
            return Ok(None);
        }
        let k = if k < 0 { k + t.shape[0] } else { k };
        let inner: i64 = t.shape[1..].iter().product();
        Ok(Some(TensorV { cell: t.cell, off: t.off + (k * inner) as usize, shape: t.shape[1..].to_vec(), kind: t.kind }))
    }
    pub fn tensor_method(&mut self, _p: Place, v: V, name: &str, args: Vec<V>, _tf: &[Rc<str>], loc: String) -> RV {
        let t = match &*v {
            Val::Tensor(t) => t.clone(),
            _ => return unsup("tensor method on a non-tensor"),
        };
        let norm = |d: i64, n: usize| if d < 0 { d + n as i64 } else { d } as usize;
        Ok(match name {
            "to_device" | "to_device_" | "shallow_clone" | "contiguous" | "detach" | "as_ref" | "borrow" | "to_mkldnn" | "internal_cast" => v,
            "to_kind" | "to" | "totype" | "to_dtype" => match self.kind_of(&args[0]) {
                Some(k) if k != t.kind => {
                    let d = self.tdata(&t)?;
                    let d = d.into_iter().map(|x| self.conv(x, k)).collect::<R<Vec<_>>>()?;
                    self.mk_tensor(t.shape, d, k)
                }
                _ => v,
            },
            "copy" | "clone" => {
                let d = self.tdata(&t)?;
                self.mk_tensor(t.shape, d, t.kind)
            }
            "size" => {
                let xs = t.shape.iter().map(|k| self.vi(*k as i128, ITy::I64)).collect();
                self.list(xs)
            }
            "dim" => self.vi(t.shape.len() as i128, ITy::Usize),
            "numel" => self.vi(t.numel() as i128, ITy::Usize),
            "view" | "reshape" | "view_" => {
                let mut s = self.ints(&args[0])?;
                let n = t.numel() as i64;
                if let Some(i) = s.iter().position(|k| *k == -1) {
                    let rest: i64 = s.iter().filter(|k| **k != -1).product();
                    s[i] = n / rest.max(1);
                }
                if s.iter().product::<i64>() != n {
                    self.obligation(FALSE, "tensor view keeps the number of elements", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                self.view_of(&t, s)
            }
            "flatten" => {
                let a = norm(self.as_conc(&args[0])? as i64, t.shape.len());
                let b = norm(self.as_conc(&args[1])? as i64, t.shape.len());
                let mut s = t.shape[..a].to_vec();
                s.push(t.shape[a..=b].iter().product());
                s.extend(&t.shape[b + 1..]);
                self.view_of(&t, s)
            }
            "squeeze" => {
                let s = t.shape.iter().cloned().filter(|k| *k != 1).collect();
                self.view_of(&t, s)
            }
            "squeeze_dim" => {
                let d = norm(self.as_conc(&args[0])? as i64, t.shape.len());
                if d >= t.shape.len() {
                    self.obligation(FALSE, "squeeze_dim dimension in range", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let mut s = t.shape.clone();
                if s[d] == 1 {
                    s.remove(d);
                }
                self.view_of(&t, s)
            }
            "unsqueeze" => {
                let d = norm(self.as_conc(&args[0])? as i64, t.shape.len() + 1);
                let mut s = t.shape.clone();
                s.insert(d, 1);
                self.view_of(&t, s)
            }
            "permute" | "transpose" | "t" | "tr" => {
                let n = t.shape.len();
                let p: Vec<usize> = match name {
                    "permute" => self.ints(&args[0])?.into_iter().map(|d| norm(d, n)).collect(),
                    "transpose" => {
                        let a = norm(self.as_conc(&args[0])? as i64, n);
                        let b = norm(self.as_conc(&args[1])? as i64, n);
                        let mut p: Vec<usize> = (0..n).collect();
                        p.swap(a, b);
                        p
                    }
                    _ => (0..n).rev().collect(),
                };
                let d = self.tdata(&t)?;
                let s: Vec<i64> = p.iter().map(|k| t.shape[*k]).collect();
                let (si, so) = (strides(&t.shape), strides(&s));
                let mut out = vec![];
                for k in 0..d.len() as i64 {
                    let mut a = 0;
                    for i in 0..n {
                        let ix = (k / so[i]) % s[i];
                        a += ix * si[p[i]];
                    }
                    out.push(d[a as usize]);
                }
                self.mk_tensor(s, out, t.kind)
            }
            "get" => match self.index_row(&t, &args[0], &loc)? {
                Some(r) => rc(Val::Tensor(r)),
                None => self.never.clone(),
            },
            "select" => {
                let d = self.as_conc(&args[0])?;
                if d != 0 {
                    return unsup("select on another dimension");
                }
                match self.index_row(&t, &args[1], &loc)? {
                    Some(r) => rc(Val::Tensor(r)),
                    None => self.never.clone(),
                }
            }
            "narrow" => {
                let d = self.as_conc(&args[0])?;
                let (a, n) = (self.as_conc(&args[1])? as i64, self.as_conc(&args[2])? as i64);
                if d != 0 || a < 0 || a + n > t.shape[0] {
                    return unsup("narrow");
                }
                let inner: i64 = t.shape[1..].iter().product();
                let mut s = t.shape.clone();
                s[0] = n;
                rc(Val::Tensor(TensorV { cell: t.cell, off: t.off + (a * inner) as usize, shape: s, kind: t.kind }))
            }
            "double_value" | "int64_value" | "f_double_value" => {
                let xs = self.deref(&args[0])?;
                let ix = match &*xs {
                    Val::List(x) => x.clone(),
                    _ => return unsup("index list"),
                };
                let mut cur = t;
                // a symbolic last index into a row is a selection
                for (k, (_, i)) in ix.iter().enumerate() {
                    let it = self.as_t(i)?;
                    if k + 1 == ix.len() && cur.shape.len() == 1 && self.tm.as_int(it).is_none() && !self.path_mode {
                        let d = self.tdata(&cur)?;
                        let lo = self.tm.int(0);
                        let hi = self.tm.int(d.len() as i128);
                        let (a, b) = (self.tm.le(lo, it), self.tm.lt(it, hi));
                        let ok = self.tm.and2(a, b);
                        self.obligation(ok, "tensor index in range", loc.clone(), true);
                        let mut acc = d[0];
                        for (j, x) in d.iter().enumerate().skip(1) {
                            let jj = self.tm.int(j as i128);
                            let e = self.tm.eq(it, jj);
                            acc = self.tm.ite(e, *x, acc);
                        }
                        return if name == "int64_value" { Ok(self.vt(acc, ITy::I64)) } else {
                            let acc = self.conv(acc, TK::Float)?;
                            Ok(self.vf(acc))
                        };
                    }
                    match self.index_row(&cur, i, &loc)? {
                        Some(r) => cur = r,
                        None => return Ok(self.never.clone()),
                    }
                }
                if cur.numel() != 1 {
                    self.obligation(FALSE, "a single tensor element is read", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let d = self.tdata(&cur)?[0];
                if name == "int64_value" {
                    if self.tm.sort(d) == Sort::Real {
                        match self.tm.node(d).clone() {
                            Node::ToReal(i) => return Ok(self.vt(i, ITy::I64)),
                            Node::Num(r, _) if r.d == 1 => return Ok(self.vi(r.n, ITy::I64)),
                            _ => return unsup("int64_value of a float tensor"),
                        }
                    }
                    self.vt(d, ITy::I64)
                } else {
                    let d = self.conv(d, TK::Float)?;
                    self.vf(d)
                }
            }
            "zeros_like" | "ones_like" | "empty_like" => {
                let k = self.tm.int(if name == "ones_like" { 1 } else { 0 });
                let k = self.conv(k, t.kind)?;
                let n = t.numel();
                self.mk_tensor(t.shape, vec![k; n], t.kind)
            }
            "full_like" => {
                let (x, _) = self.scalar(&args[0])?;
                let x = self.conv(x, t.kind)?;
                let n = t.numel();
                self.mk_tensor(t.shape, vec![x; n], t.kind)
            }
            "fill_" | "zero_" => {
                let x = if name == "zero_" { self.tm.int(0) } else { self.scalar(&args[0])?.0 };
                let x = self.conv(x, t.kind)?;
                let n = t.numel();
                self.twrite_all(&t, vec![x; n])?;
                v
            }
            "copy_" => {
                let o = self.tens(&args[0])?;
                let d = self.tdata(&o)?;
                if d.len() != t.numel() {
                    return unsup("copy_ with broadcasting");
                }
                self.twrite_all(&t, d)?;
                self.unit.clone()
            }
            "pow_" | "pow_tensor_scalar" | "pow" | "pow_tensor_scalar_" => {
                let e = self.scalar(&args[0])?.0;
                let e = self.conv(e, TK::Float)?;
                let d = self.tdata(&t)?;
                let mut out = vec![];
                for x in d {
                    let x = self.conv(x, TK::Float)?;
                    out.push(self.pow_t(x, e));
                }
                if name.ends_with('_') {
                    self.twrite_all(&t, out)?;
                    v
                } else {
                    self.mk_tensor(t.shape, out, TK::Float)
                }
            }
            "sum" | "mean" => {
                let d = self.tdata(&t)?;
                let k = if name == "mean" || t.kind == TK::Float { TK::Float } else { args.first().and_then(|a| self.kind_of(a)).unwrap_or(TK::Int) };
                let mut acc = self.tm.int(0);
                acc = self.conv(acc, k)?;
                let n = d.len();
                for x in d {
                    let x = self.conv(x, k)?;
                    acc = self.tm.add(acc, x);
                }
                if name == "mean" {
                    acc = self.tm.scale(acc, Rat::new(1, n.max(1) as i128));
                }
                self.mk_tensor(vec![], vec![acc], k)
            }
            "sum_dim_intlist" | "mean_dim" => {
                let dims: Vec<usize> = self.ints(&args[0])?.into_iter().map(|d| norm(d, t.shape.len())).collect();
                let keep = matches!(&*self.deref(&args[1])?, Val::B(TRUE));
                let d = self.tdata(&t)?;
                let s = t.shape.clone();
                let ss = strides(&s);
                let full: Vec<i64> = s.iter().enumerate().map(|(i, k)| if dims.contains(&i) { 1 } else { *k }).collect();
                let fs = strides(&full);
                let n: i64 = full.iter().product();
                let k = t.kind;
                let z = self.tm.int(0);
                let z = self.conv(z, if k == TK::Bool { TK::Int } else { k })?;
                let mut out = vec![z; n as usize];
                for (p, x) in d.iter().enumerate() {
                    let mut a = 0;
                    for i in 0..s.len() {
                        let ix = (p as i64 / ss[i]) % s[i];
                        if !dims.contains(&i) {
                            a += ix * fs[i];
                        }
                    }
                    let x = if k == TK::Bool { self.conv(*x, TK::Int)? } else { *x };
                    out[a as usize] = self.tm.add(out[a as usize], x);
                }
                let shape = if keep { full } else { s.iter().enumerate().filter(|(i, _)| !dims.contains(i)).map(|x| *x.1).collect() };
                if name == "mean_dim" {
                    let w: i64 = dims.iter().map(|d| s[*d]).product();
                    out = out.into_iter().map(|x| self.tm.scale(x, Rat::new(1, w as i128))).collect();
                }
                self.mk_tensor(shape, out, k)
            }
            "div" | "divide" | "true_divide" | "div_scalar" | "divide_scalar" | "g_div" => self.tensor_bin('/', &v, &args[0])?,
            "mul" | "multiply" | "mul_scalar" | "multiply_scalar" => self.tensor_bin('*', &v, &args[0])?,
            "add" | "add_scalar" => self.tensor_bin('+', &v, &args[0])?,
            "sub" | "subtract" | "sub_scalar" => self.tensor_bin('-', &v, &args[0])?,
            "eq" | "eq_tensor" => self.tensor_bin('=', &v, &args[0])?,
            "ne" | "ne_tensor" | "not_equal" => self.tensor_bin('!', &v, &args[0])?,
            "lt" | "lt_tensor" | "less" => self.tensor_bin('<', &v, &args[0])?,
            "gt" | "gt_tensor" | "greater" => self.tensor_bin('>', &v, &args[0])?,
            "le" | "le_tensor" | "less_equal" => self.tensor_bin('l', &v, &args[0])?,
            "ge" | "ge_tensor" | "greater_equal" => self.tensor_bin('g', &v, &args[0])?,
            "neg" => {
                let k = self.tm.real(Rat::int(-1));
                let k = self.vf(k);
                self.tensor_bin('*', &k, &v)?
            }
            "div_" | "divide_" | "mul_" | "multiply_" | "add_" | "sub_" => {
                let op = match &name[..3] {
                    "div" => '/',
                    "mul" => '*',
                    "add" => '+',
                    _ => '-',
                };
                let r = self.tensor_bin(op, &v, &args[0])?;
                if let Val::Tensor(x) = &*r {
                    let d = self.tdata(x)?;
                    if d.len() != t.numel() {
                        return unsup("in-place broadcast");
                    }
                    self.twrite_all(&t, d)?;
                }
                v
            }
            "index" | "i" => {
                let Some((pos, n)) = self.idx_positions(&t, &args[0], &loc)? else { return Ok(self.never.clone()) };
                let d = self.tdata(&t)?;
                let nix = self.tens_list(&args[0])?.len();
                let mut s = vec![n as i64];
                s.extend(&t.shape[nix..]);
                let out = pos.into_iter().map(|p| d[p]).collect();
                self.mk_tensor(s, out, t.kind)
            }
            "index_put" => {
                let d = self.tdata(&t)?;
                let c = self.mk_tensor(t.shape.clone(), d, t.kind);
                let ct = self.tens(&c)?;
                if !self.put(&ct, &args[0], &args[1], &args[2], &loc)? {
                    return Ok(self.never.clone());
                }
                c
            }
            "index_put_" => {
                if !self.put(&t, &args[0], &args[1], &args[2], &loc)? {
                    return Ok(self.never.clone());
                }
                v
            }
            "cross_entropy_loss" | "mse_loss" | "l1_loss" | "smooth_l1_loss" => {
                let o = self.tens(&args[0])?;
                if name == "mse_loss" && o.shape != t.shape {
                    return unsup("mse_loss with broadcasting");
                }
                if name == "cross_entropy_loss" && o.shape != t.shape {
                    self.obligation(FALSE, "policy targets have the shape of the outputs", loc, true);
                    self.st.dead = true;
                    return Ok(self.never.clone());
                }
                let mut a = self.tdata(&t)?;
                let b = self.tdata(&o)?;
                for x in b {
                    a.push(self.conv(x, TK::Float)?);
                }
                let mut f = format!("{}_{}", name, a.len());
                for x in &args[1..] {
                    let x = self.deref(x)?;
                    match &*x {
                        Val::Opaque(s) => f = format!("{}_{}", f, s.chars().filter(|c| c.is_alphanumeric()).collect::<String>()),
                        Val::F(_) | Val::I(..) => {
                            let (y, _) = self.scalar(&x)?;
                            a.push(self.conv(y, TK::Float)?);
                        }
                        _ => {}
                    }
                }
                self.model("losses: uninterpreted functions of outputs and targets");
                let l = self.tm.app(&f, &a, Sort::Real);
                self.mk_tensor(vec![], vec![l], TK::Float)
            }
            "backward" => {
                self.backward(&t)?;
                self.unit.clone()
            }
            "isinf" => {
                let n = t.numel();
                self.mk_tensor(t.shape, vec![FALSE; n], TK::Bool)
            }
            "isnan" => {
                let n = t.numel();
                self.mk_tensor(t.shape, vec![FALSE; n], TK::Bool)
            }
            "is_nonzero" => {
                let d = self.tdata(&t)?[0];
                let z = self.tm.int(0);
                let z = self.conv(z, t.kind)?;
                let e = self.tm.eq(d, z);
                let ne = self.tm.not(e);
                self.vb(ne)
            }
            "abs" => {
                let d = self.tdata(&t)?;
                let mut out = vec![];
                for x in d {
                    let z = self.tm.int(0);
                    let z = self.conv(z, t.kind)?;
                    let c = self.tm.le(z, x);
                    let n = self.tm.neg(x);
                    out.push(self.tm.ite(c, x, n));
                }
                self.mk_tensor(t.shape, out, t.kind)
            }
            "max" | "min" if args.is_empty() => {
                let d = self.tdata(&t)?;
                let mut acc = d[0];
                for x in &d[1..] {
                    let c = if name == "max" { self.tm.lt(acc, *x) } else { self.tm.lt(*x, acc) };
                    acc = self.tm.ite(c, *x, acc);
                }
                self.mk_tensor(vec![], vec![acc], t.kind)
            }
            "softmax" => {
                let n = t.numel();
                let d = norm(self.as_conc(&args[0])? as i64, t.shape.len());
                if d + 1 != t.shape.len() {
                    return unsup("softmax over an inner dimension");
                }
                let _ = n;
                let rows: i64 = t.shape[..d].iter().product();
                let mut out = vec![];
                for _ in 0..rows {
                    out.extend(self.distribution(t.shape[d] as usize));
                }
                self.mk_tensor(t.shape, out, TK::Float)
            }
            "iter" => {
                if t.shape.len() != 1 {
                    return Ok(self.err("not one-dimensional"));
                }
                let d = self.tdata(&t)?;
                let mut o = vec![];
                for x in d {
                    let x = self.conv(x, TK::Float)?;
                    o.push(self.vf(x));
                }
                let l = self.list(o);
                self.ok(l)
            }
            "save" | "f_save" => {
                self.model("Tensor::save / Tensor::load: a table from paths to tensors");
                let p = self.path_arg(&args[0])?;
                if !self.fs_can_write(&p) {
                    return Ok(self.err("the file cannot be written"));
                }
                let f = self.frozen(&t)?;
                self.fs_put(p, f);
                let u = self.unit.clone();
                self.ok(u)
            }
            "try_into" | "try_from" => {
                let d = self.tdata(&t)?;
                let xs = d.into_iter().map(|x| self.elem(x, t.kind)).collect();
                let l = self.list(xs);
                self.ok(l)
            }
            "into" => v,
            _ => return unsup(format!("{}: tensor method {}", loc, name)),
        })
    }
    /// positive values that sum to one
    fn distribution(&mut self, n: usize) -> Vec<T> {
        let z = self.tm.real(Rat::zero());
        let one = self.tm.real(Rat::one());
        let mut sum = z;
        let mut out = vec![];
        for _ in 0..n {
            let nm = self.fresh_name("policy");
            let x = self.tm.rvar(&nm);
            let c = self.tm.lt(z, x);
            self.assume(c);
            sum = self.tm.add(sum, x);
            out.push(x);
        }
        let e = self.tm.eq(sum, one);
        self.assume(e);
        out
    }
    fn fresh_value(&mut self) -> T {
        let nm = self.fresh_name("value");
        let v = self.tm.rvar(&nm);
        let (lo, hi) = (self.tm.real(Rat::int(-1)), self.tm.real(Rat::one()));
        let (c1, c2) = (self.tm.le(lo, v), self.tm.le(v, hi));
        self.assume(c1);
        self.assume(c2);
        v
    }
    /// forward passes; args = network, input, training flag
    /// the output for an input seen before, also when it is only equal and not the same term
    fn net_known(&mut self, key: &Vec<T>) -> R<Option<(Vec<T>, Vec<T>)>> {
        if let Some(x) = self.net_cache.iter().find(|x| x.0 == *key) {
            return Ok(Some(x.1.clone()));
        }
        for (k, r) in self.net_cache.clone() {
            if k.len() != key.len() || k[1] != key[1] {
                continue;
            }
            let mut es: Vec<T> = k.iter().zip(key).skip(1).map(|(a, b)| self.tm.eq(*a, *b)).collect();
            let c = self.content_eq(k[0], key[0]);
            es.push(c);
            let e = self.tm.and(&es);
            match self.decide(e)? {
                Some(true) => return Ok(Some(r)),
                Some(false) => {}
                None => return unsup("network input that may equal an earlier one"),
            }
        }
        Ok(None)
    }
    pub fn net_method(&mut self, name: &str, args: Vec<V>, loc: String) -> RV {
        let cell = self.net_cell(&args[0])?;
        let (content, k) = self.vs_get(cell)?;
        let xs = self.tens(&args[1])?;
        let train = match &*self.deref(&args[2])? {
            Val::B(t) => *t,
            _ => return unsup("training flag"),
        };
        if train != TRUE && train != FALSE {
            return unsup("symbolic training flag");
        }
        if xs.shape.len() < 2 {
            self.obligation(FALSE, "the network gets a batch", loc, true);
            self.st.dead = true;
            return Ok(self.never.clone());
        }
        let g = self.ctx.targs.iter().find(|x| x.0 == "T").map(|x| x.1.to_string()).unwrap_or_default();
        let cst = |s: &mut Self, n: &str| -> R<i64> {
            match s.prog.assoc_consts.get(&(g.clone(), n.to_string())) {
                Some(e) => {
                    let e: &'static syn::Expr = unsafe { &*Rc::as_ptr(e) };
                    let v = s.eval(e)?;
                    Ok(s.as_conc(&v)? as i64)
                }
                None => unsup(format!("associated constant {}", n)),
            }
        };
        let a = cst(self, "ACTION_SPACE_SIZE")? as usize;
        let ch = cst(self, "N_INPUT_CHANNELS")?;
        let n = xs.shape[0];
        // conv2d wants N x C x H x W with the game's channels
        if xs.shape.len() != 4 || xs.shape[1] != ch {
            self.obligation(FALSE, "the network input has the shape N x channels x H x W", loc, true);
            self.st.dead = true;
            return Ok(self.never.clone());
        }
        let row = (xs.numel() as i64 / n.max(1)) as usize;
        let d = self.tdata(&xs)?;
        self.model("ResNet::forward_t/forward_policy/forward_train: in evaluation mode every output row is a function of the parameters and its own input row, the policy row is positive and sums to one, the value is in [-1,1]; in training mode outputs are a function of parameters and batch, and running statistics change");
        let mut pol = vec![];
        let mut val = vec![];
        if train == TRUE {
            let mark = self.tm.int(if name == "forward_train" { -7 } else { -8 });
            let mut key = vec![content, mark];
            key.extend(&d);
            let (p, v) = match self.net_known(&key)? {
                Some(x) => x,
                None => {
                    let mut p = vec![];
                    let mut v = vec![];
                    for _ in 0..n {
                        if name == "forward_train" {
                            for _ in 0..a {
                                let nm = self.fresh_name("logit");
                                p.push(self.tm.rvar(&nm));
                            }
                        } else {
                            p.extend(self.distribution(a));
                        }
                        v.push(self.fresh_value());
                    }
                    self.net_cache.push((key.clone(), (p.clone(), v.clone())));
                    (p, v)
                }
            };
            pol = p;
            val = v;
            let mut av = vec![content];
            av.extend(&d);
            let nc = self.tm.app(&format!("running_stats_{}", av.len()), &av, Sort::Int);
            self.vs_set(cell, nc, k);
        } else {
            let mark = self.tm.int(if name == "forward_train" { -5 } else { -6 });
            for i in 0..n as usize {
                let mut key: Vec<T> = vec![content, mark];
                key.extend(&d[i * row..(i + 1) * row]);
                let (p, v) = match self.net_known(&key)? {
                    Some(x) => x,
                    None => {
                        let p = if name == "forward_train" {
                            (0..a).map(|_| { let nm = self.fresh_name("logit"); self.tm.rvar(&nm) }).collect()
                        } else {
                            self.distribution(a)
                        };
                        let v = vec![self.fresh_value()];
                        self.net_cache.push((key, (p.clone(), v.clone())));
                        (p, v)
                    }
                };
                pol.extend(p);
                val.extend(v);
            }
        }
        let pol = self.mk_tensor(vec![n, a as i64], pol, TK::Float);
        let val = self.mk_tensor(vec![n, 1], val, TK::Float);
        match name {
            "forward_t" | "forward_train" => Ok(rc(Val::Tuple(vec![pol, val]))),
            "forward_policy" => Ok(pol),
            _ => unsup(format!("{}: network method {}", loc, name)),
        }
    }
}
