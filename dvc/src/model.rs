//! Models (assumed contracts) of variable stores, layer builders, the optimiser, files and serde.
use crate::exec::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

fn norm_path(s: &str) -> String {
    let mut t = s.replace("//", "/").replace("/./", "/");
    while let Some(r) = t.strip_prefix("./") {
        t = r.to_string();
    }
    t.trim_end_matches('/').to_string()
}

impl Ex {
    fn new_cell(&mut self, v: V) -> usize {
        let cell = self.heap_next;
        self.heap_next += 1;
        while self.st.heap.len() < cell {
            let n = self.never.clone();
            self.st.heap.push(n);
        }
        self.st.heap.push(v);
        cell
    }
    fn cell_of(&self, v: &V) -> R<usize> {
        match &**v {
            Val::Struct(_, f) => match f.first().map(|x| (**x).clone()) {
                Some(Val::I(t, _)) => match self.tm.as_int(t) {
                    Some(k) => Ok(k as usize),
                    None => unsup("model cell"),
                },
                _ => unsup("model object"),
            },
            _ => unsup(format!("model object expected, found {}", v.kind())),
        }
    }
    fn handle(&mut self, name: &str, cell: usize) -> V {
        let i = self.vi(cell as i128, ITy::Usize);
        rc(Val::Struct(name.into(), vec![i]))
    }
    /// (content, layers: an index into `sigs`)
    pub fn vs_get(&mut self, cell: usize) -> R<(T, i128)> {
        match &*self.st.heap[cell].clone() {
            Val::Tuple(x) => {
                let c = self.as_t(&x[0])?;
                let n = self.as_conc(&x[1])?;
                Ok((c, n))
            }
            _ => unsup("variable store"),
        }
    }
    pub fn vs_set(&mut self, cell: usize, c: T, n: i128) {
        let a = self.vt(c, ITy::I128);
        let b = self.vi(n, ITy::I64);
        self.st.heap[cell] = rc(Val::Tuple(vec![a, b]));
    }
    /// equality of network contents: built by the same steps from the same data (constructors are free)
    pub fn content_eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        match (self.tm.node(a).clone(), self.tm.node(b).clone()) {
            (Node::App(f, xs, _), Node::App(g, ys, _)) => {
                if f != g || xs.len() != ys.len() {
                    return FALSE;
                }
                let mut cs = vec![];
                for (x, y) in xs.iter().zip(ys.iter()) {
                    let e = self.content_eq(*x, *y);
                    if e == FALSE {
                        return FALSE;
                    }
                    cs.push(e);
                }
                self.tm.and(&cs)
            }
            (Node::App(..), Node::Num(..)) | (Node::Num(..), Node::App(..)) => FALSE,
            (Node::Lin(c, xs, _), Node::Lin(d, ys, _)) if c == d && xs.len() == ys.len() && xs.iter().chain(ys.iter()).all(|x| matches!(self.tm.node(x.0), Node::App(..))) => {
                // sums of losses: match the summands by function
                let mut cs = vec![];
                for (x, k) in xs.iter() {
                    let Node::App(f, _, _) = self.tm.node(*x).clone() else { return FALSE };
                    let m: Vec<T> = ys.iter().filter(|(y, l)| l == k && matches!(self.tm.node(*y), Node::App(g, _, _) if *g == f)).map(|y| y.0).collect();
                    if m.len() != 1 {
                        return self.tm.eq(a, b);
                    }
                    let e = self.content_eq(*x, m[0]);
                    cs.push(e);
                }
                self.tm.and(&cs)
            }
            _ => self.tm.eq(a, b),
        }
    }
    /// gives the variables of a store the values of the other store's variables
    fn taken_over(&mut self, cell: usize, k: i128, other: T, ok: i128) -> bool {
        let (x, y) = (self.sigs[k as usize].clone(), self.sigs[ok as usize].clone());
        if k == ok {
            if !x.is_empty() {
                self.vs_set(cell, other, k);
            }
            return true;
        }
        let fits = y.len() >= x.len() && x[..] == y[..x.len()];
        if !x.is_empty() {
            let n = self.tm.int(x.len() as i128);
            let c = if fits { self.tm.app("first_layers", &[other, n], Sort::Int) } else { self.unique() };
            self.vs_set(cell, c, k);
        }
        fits
    }
    fn unique(&mut self) -> T {
        self.uniq += 1;
        self.tm.int(1_000_000 + self.uniq)
    }
    pub fn str_of(&mut self, v: &V) -> R<Option<String>> {
        let v = self.deref(v)?;
        Ok(match &*v {
            Val::Str(s) => Some(s.to_string()),
            Val::Struct(n, f) if &**n == "File" || &**n == "DirEntry" => match &*f[0] {
                Val::Str(s) => Some(s.to_string()),
                _ => None,
            },
            _ => None,
        })
    }
    pub fn path_arg(&mut self, v: &V) -> R<String> {
        match self.str_of(v)? {
            Some(s) => Ok(norm_path(&s)),
            None => unsup("a file path that is not known"),
        }
    }
    pub fn err(&mut self, what: &str) -> V {
        let e = rc(Val::Opaque(what.into()));
        rc(Val::Enum("Result".into(), vec![(TRUE, "Err".into(), vec![e])]))
    }
    fn fs_get(&self, p: &str) -> Option<V> {
        self.fs.iter().find(|x| x.0 == p).map(|x| x.1.clone())
    }
    pub fn fs_put(&mut self, p: String, v: V) {
        match self.fs.iter_mut().find(|x| x.0 == p) {
            Some(x) => x.1 = v,
            None => self.fs.push((p, v)),
        }
    }
    fn fs_exists(&self, p: &str) -> bool {
        let pre = format!("{}/", p);
        self.fs.iter().any(|x| x.0 == p || x.0.starts_with(&pre)) || self.dirs.iter().any(|d| d == p || d.starts_with(&pre))
    }
    /// can a file or directory of that name be created?
    pub fn fs_parent(&self, p: &str) -> bool {
        match p.rsplit_once('/') {
            None => true,
            Some((d, _)) => self.fs_exists(d) && !self.fs.iter().any(|x| x.0 == d),
        }
    }
    pub fn fs_can_write(&self, p: &str) -> bool {
        self.fs_parent(p) && (self.fs.iter().any(|x| x.0 == p) || !self.fs_exists(p))
    }
    pub fn frozen(&mut self, t: &TensorV) -> R<V> {
        let d = self.tdata(t)?;
        Ok(self.mk_tensor(t.shape.clone(), d, t.kind))
    }

    pub fn model_fn(&mut self, owner: &str, name: &str, args: &[V], tf: &[Rc<str>], _loc: &str) -> R<Option<V>> {
        let a0 = match args.first() {
            Some(a) => Some(self.deref(a)?),
            None => None,
        };
        let unit = self.unit.clone();
        Ok(Some(match (owner, name) {
            ("Default", "default") => rc(Val::Opaque("default".into())),
            ("VarStore", "new") => {
                self.model("nn::VarStore: variables exist once a layer is built; load replaces the values of the existing variables only and fails on a missing, unreadable or mismatching file; copy takes the other store's values");
                let z = self.tm.int(0);
                let c = self.new_cell(unit);
                self.vs_set(c, z, 0);
                self.handle("VarStore", c)
            }
            ("nn", "conv2d" | "linear" | "batch_norm2d" | "conv" | "batch_norm1d" | "layer_norm" | "embedding") => {
                let c = self.cell_of(&a0.unwrap())?;
                let (_, n) = self.vs_get(c)?;
                let u = self.unique();
                let mut sig = self.sigs[n as usize].clone();
                let mut l = name.to_string();
                for a in &args[1..] {
                    let a = self.deref(a)?;
                    if let Val::I(t, _) = &*a {
                        match self.tm.as_int(*t) {
                            Some(k) => l.push_str(&format!(" {}", k)),
                            None => return unsup("a layer whose size is not known"),
                        }
                    }
                }
                sig.push(l);
                let n = match self.sigs.iter().position(|x| *x == sig) {
                    Some(k) => k,
                    None => {
                        self.sigs.push(sig);
                        self.sigs.len() - 1
                    }
                };
                self.vs_set(c, u, n as i128);
                rc(Val::Opaque("Layer".into()))
            }
            ("nn", "seq_t" | "seq") => rc(Val::Opaque("Seq".into())),
            ("Adam" | "Sgd" | "AdamW" | "RmsProp", "default") => {
                let z = self.vi(0, ITy::I64);
                rc(Val::Struct("OptConfig".into(), vec![rc(Val::Str(owner.into())), z]))
            }
            ("", "same_network") => {
                let (x, y) = (self.net_cell(&a0.unwrap())?, self.net_cell(&args[1])?);
                let (x, y) = (self.vs_get(x)?, self.vs_get(y)?);
                let e = self.content_eq(x.0, y.0);
                let n = self.tm.bool(x.1 == y.1);
                let e = self.tm.and2(e, n);
                self.vb(e)
            }
            ("", "debug_eq") => {
                let (x, y) = (a0.unwrap(), self.deref(&args[1])?);
                let e = self.eq(&x, &y)?;
                self.vb(e)
            }
            ("", "same_tensor") => {
                let (x, y) = (self.tens(&args[0])?, self.tens(&args[1])?);
                if x.shape != y.shape {
                    return Ok(Some(self.vb(FALSE)));
                }
                let (dx, dy) = (self.tdata(&x)?, self.tdata(&y)?);
                let mut cs = vec![];
                for (p, q) in dx.into_iter().zip(dy) {
                    let (p, q) = (self.conv(p, TK::Float)?, self.conv(q, TK::Float)?);
                    cs.push(self.tm.eq(p, q));
                }
                let e = self.tm.and(&cs);
                self.vb(e)
            }
            ("", "initial_id" | "initial_player") => {
                let g = a0.unwrap();
                let fld = if name == "initial_id" { "id" } else { "player" };
                let mut v = g;
                for f in ["initial_state", fld] {
                    let v2 = self.deref(&v)?;
                    let Val::Struct(n, fs) = &*v2 else { return unsup("a recorded game was expected") };
                    match self.field_index(n, f) {
                        Some(i) => v = fs[i].clone(),
                        None => return unsup(format!("field {}", f)),
                    }
                }
                v
            }
            ("", "agent_in") => {
                let g = self.deref(&args[0])?;
                let fld = self.str_of(&args[1])?.unwrap_or_default();
                let Val::Struct(n, fs) = &*g else { return unsup("a recorded game was expected") };
                match self.field_index(n, &fld) {
                    Some(i) => fs[i].clone(),
                    None => return unsup(format!("field {}", fld)),
                }
            }
            ("", "fresh_dir") => {
                self.fs.clear();
                self.dirs.clear();
                for d in ["models/mock", "models/duel", "data"] {
                    self.dirs.push(d.into());
                }
                unit
            }
            ("", "write_junk") => {
                let p = self.path_arg(&args[0])?;
                let j = rc(Val::Opaque("junk".into()));
                self.fs_put(p, j);
                unit
            }
            ("", "put_table") => {
                let it = self.iter_items(&a0.unwrap())?;
                self.table = it.into_iter().map(|x| x.1).collect();
                self.tags = 0;
                unit
            }
            ("", "next_tag") => {
                self.tags += 1;
                self.vi(self.tags - 1, ITy::Usize)
            }
            ("", "table") => {
                let k = self.as_conc(&args[0])? as usize;
                match self.table.get(k) {
                    Some(v) => v.clone(),
                    None => self.vi(0, ITy::I64),
                }
            }
            ("", "panics") => {
                if !self.path_mode {
                    return unsup("panics() outside path mode");
                }
                let f = a0.unwrap();
                let save = (self.catching, self.caught);
                self.catching = true;
                self.caught = false;
                let ncell = self.st.cells.len();
                let nf = self.frames.len();
                let (env, ctx, depth) = (self.env.clone(), self.ctx.clone(), self.depth);
                let r = self.call_value(&f, vec![]);
                let c = self.caught;
                (self.catching, self.caught) = save;
                match r {
                    Ok(_) => {}
                    Err(e) => return Err(e),
                }
                if c {
                    self.frames.truncate(nf);
                    self.env = env;
                    self.ctx = ctx;
                    self.depth = depth;
                    self.st.cells.truncate(ncell);
                    self.st.dead = false;
                }
                self.vb(if c { TRUE } else { FALSE })
            }
            ("fs", "create_dir_all" | "create_dir") => {
                self.model("std::fs: a table from paths to contents; creating and writing succeeds if the directory above exists");
                let p = self.path_arg(&args[0])?;
                if name == "create_dir" && (self.fs_exists(&p) || !self.fs_parent(&p)) {
                    return Ok(Some(self.err("the directory exists, or the one above does not")));
                }
                if !self.dirs.contains(&p) {
                    self.dirs.push(p);
                }
                self.ok(unit)
            }
            ("fs", "read_dir") => {
                let p = self.path_arg(&args[0])?;
                if !self.fs_exists(&p) {
                    return Ok(Some(self.err("no such directory")));
                }
                let pre = format!("{}/", p);
                let mut o = vec![];
                for (k, _) in self.fs.clone() {
                    if let Some(r) = k.strip_prefix(&pre) {
                        if !r.contains('/') {
                            let e = rc(Val::Struct("DirEntry".into(), vec![rc(Val::Str(k.as_str().into()))]));
                            o.push(self.ok(e));
                        }
                    }
                }
                let mut subs: Vec<String> = vec![];
                for k in self.dirs.iter().chain(self.fs.iter().map(|x| &x.0)) {
                    if let Some(r) = k.strip_prefix(&pre) {
                        let first = format!("{}{}", pre, r.split('/').next().unwrap());
                        if (r.contains('/') || self.dirs.contains(k)) && !subs.contains(&first) {
                            subs.push(first);
                        }
                    }
                }
                for k in subs {
                    let e = rc(Val::Struct("DirEntry".into(), vec![rc(Val::Str(k.as_str().into()))]));
                    o.push(self.ok(e));
                }
                let l = self.list(o);
                self.ok(l)
            }
            ("fs", "remove_file") => {
                let p = self.path_arg(&args[0])?;
                self.fs.retain(|x| x.0 != p);
                self.ok(unit)
            }
            ("fs", "write") => {
                let p = self.path_arg(&args[0])?;
                if !self.fs_can_write(&p) {
                    return Ok(Some(self.err("the file cannot be written")));
                }
                let c = self.deref(&args[1])?;
                self.fs_put(p, c);
                self.ok(unit)
            }
            ("fs", "read_to_string" | "read") => {
                let p = self.path_arg(&args[0])?;
                match self.fs_get(&p) {
                    Some(v) => self.ok(v),
                    None => self.err("no such file"),
                }
            }
            ("File", "create") => {
                self.model("std::fs: a table from paths to contents; creating and writing succeeds if the directory above exists");
                let p = self.path_arg(&args[0])?;
                if !self.fs_can_write(&p) {
                    return Ok(Some(self.err("the file cannot be written")));
                }
                let e = rc(Val::Opaque("empty".into()));
                self.fs_put(p.clone(), e);
                let f = rc(Val::Struct("File".into(), vec![rc(Val::Str(p.as_str().into()))]));
                self.ok(f)
            }
            ("File", "open") => {
                let p = self.path_arg(&args[0])?;
                if self.fs_get(&p).is_none() {
                    self.err("no such file")
                } else {
                    let f = rc(Val::Struct("File".into(), vec![rc(Val::Str(p.as_str().into()))]));
                    self.ok(f)
                }
            }
            ("BufWriter" | "BufReader", "new") => args[0].clone(),
            ("serde_json", "to_string" | "to_string_pretty" | "to_vec" | "to_vec_pretty") => {
                self.serde_ok()?;
                let j = rc(Val::Struct("JsonModel".into(), vec![a0.unwrap()]));
                self.ok(j)
            }
            ("serde_json", "to_writer" | "to_writer_pretty") => {
                self.serde_ok()?;
                let p = self.path_arg(&args[0])?;
                let v = self.deref(&args[1])?;
                let j = rc(Val::Struct("JsonModel".into(), vec![v]));
                self.fs_put(p, j);
                self.ok(unit)
            }
            ("serde_json", "from_reader" | "from_str" | "from_slice") => {
                self.serde_ok()?;
                let v = a0.unwrap();
                let v = if name == "from_reader" {
                    let p = self.path_arg(&v)?;
                    self.fs_get(&p)
                } else {
                    Some(v)
                };
                match v.as_deref() {
                    Some(Val::Struct(n, f)) if &**n == "JsonModel" => {
                        let x = f[0].clone();
                        let _ = tf;
                        self.ok(x)
                    }
                    _ => self.err("not json"),
                }
            }
            ("Tensor", "load") => {
                self.model("Tensor::save / Tensor::load: a table from paths to tensors");
                let p = self.path_arg(&args[0])?;
                match self.fs_get(&p).as_deref() {
                    Some(Val::Tensor(t)) => {
                        let t = self.frozen(t)?;
                        self.ok(t)
                    }
                    _ => self.err("no such tensor"),
                }
            }
            _ => return Ok(None),
        }))
    }
    fn serde_ok(&mut self) -> R<()> {
        if self.prog.serde_attrs {
            return unsup("serde attributes or hand-written (de)serialisation");
        }
        self.model("serde_json with derived Serialize/Deserialize: reading what was written gives the same value");
        Ok(())
    }
    pub fn net_cell(&mut self, v: &V) -> R<usize> {
        let v = self.deref(v)?;
        if let Val::Struct(n, f) = &*v {
            if let Some(i) = self.field_index(n, "vs") {
                return self.cell_of(&f[i]);
            }
            if &**n == "VarStore" {
                return self.cell_of(&v);
            }
            if let Some(i) = self.field_index(n, "model") {
                let m = f[i].clone();
                return self.net_cell(&m);
            }
        }
        unsup(format!("a network was expected, found {}", v.kind()))
    }
    /// methods of model objects
    pub fn model_method(&mut self, p: &Place, v: &V, name: &str, args: &[V], loc: &str) -> R<Option<V>> {
        let Val::Struct(n, f) = &**v else { return Ok(None) };
        let unit = self.unit.clone();
        Ok(Some(match (&**n, name) {
            ("VarStore", "root") => {
                let c = self.cell_of(v)?;
                self.handle("VsPath", c)
            }
            ("VsPath", "sub" | "clone" | "borrow") => v.clone(),
            ("VarStore", "load") => {
                let c = self.cell_of(v)?;
                let p = self.path_arg(&args[0])?;
                let (_, k) = self.vs_get(c)?;
                match self.fs_get(&p).as_deref() {
                    Some(Val::Tuple(x)) => {
                        let fc = self.as_t(&x[0])?;
                        let fk = self.as_conc(&x[1])?;
                        match self.taken_over(c, k, fc, fk) {
                            true => self.ok(unit),
                            false => self.err("mismatching variables in the file"),
                        }
                    }
                    _ => self.err("cannot read the file"),
                }
            }
            ("VarStore", "save") => {
                let c = self.cell_of(v)?;
                let p = self.path_arg(&args[0])?;
                if !self.fs_can_write(&p) {
                    return Ok(Some(self.err("the file cannot be written")));
                }
                let (x, k) = self.vs_get(c)?;
                let x = self.vt(x, ITy::I128);
                let k = self.vi(k, ITy::I64);
                self.fs_put(p, rc(Val::Tuple(vec![x, k])));
                self.ok(unit)
            }
            ("VarStore", "copy") => {
                let c = self.cell_of(v)?;
                let o = self.net_cell(&args[0])?;
                let (_, k) = self.vs_get(c)?;
                let (oc, ok) = self.vs_get(o)?;
                match self.taken_over(c, k, oc, ok) {
                    true => self.ok(unit),
                    false => self.err("mismatching variables in the other store"),
                }
            }
            ("VarStore", "variables" | "trainable_variables") => {
                self.model("VarStore::variables: one entry, read only, standing for all variables; values are finite");
                let c = self.cell_of(v)?;
                let (x, _) = self.vs_get(c)?;
                let d = self.tm.app("param", &[x], Sort::Real);
                let t = self.mk_tensor(vec![1], vec![d], TK::Float);
                if name == "variables" {
                    rc(Val::Map(false, vec![(TRUE, rc(Val::Str("variable".into())), t)]))
                } else {
                    self.list(vec![t])
                }
            }
            ("VarStore", "freeze" | "unfreeze" | "set_device" | "half" | "double" | "float") => unit,
            ("OptConfig", "wd" | "weight_decay") => {
                let mut g = f.clone();
                g[1] = args[0].clone();
                rc(Val::Struct("OptConfig".into(), g))
            }
            ("OptConfig", "build") => {
                self.model("nn::Optimizer: a step replaces the values by a function of values, accumulated gradients, its own state and parameters");
                let c = self.net_cell(&args[0])?;
                let z = self.vi(0, ITy::I128);
                let s = self.new_cell(z);
                let (a, b) = (self.vi(c as i128, ITy::Usize), self.vi(s as i128, ITy::Usize));
                let o = rc(Val::Struct("Optimizer".into(), vec![a, b, f[0].clone(), f[1].clone(), args[1].clone()]));
                self.ok(o)
            }
            ("Optimizer", "zero_grad") => {
                self.grad = self.tm.int(0);
                unit
            }
            ("Optimizer", "step") => {
                let c = self.cell_of(v)?;
                let s = self.as_conc(&f[1])? as usize;
                let sv = self.st.heap[s].clone();
                let st = self.as_t(&sv)?;
                let (content, k) = self.vs_get(c)?;
                let (wd, lr) = (self.as_t(&f[3])?, self.as_t(&f[4])?);
                let g = self.grad_now();
                let which = match &*f[2] {
                    Val::Str(s) => s.to_string(),
                    _ => String::new(),
                };
                let a = [content, g, st, wd, lr];
                let nc = self.tm.app(&format!("step_{}", which), &a, Sort::Int);
                let ns = self.tm.app(&format!("state_{}", which), &[st, g], Sort::Int);
                self.vs_set(c, nc, k);
                let ns = self.vt(ns, ITy::I128);
                self.st.heap[s] = ns;
                unit
            }
            ("Optimizer", "backward_step" | "backward_step_clip") => {
                if name == "backward_step_clip" {
                    return unsup("gradient clipping");
                }
                self.grad = self.tm.int(0);
                let t = self.tens(&args[0])?;
                self.backward(&t)?;
                return self.model_method(p, v, "step", &[], loc);
            }
            ("File", "write_all" | "write") => {
                let p = self.path_arg(v)?;
                match self.fs_get(&p).as_deref() {
                    Some(Val::Opaque(s)) if &**s == "empty" => {}
                    _ => return unsup("several writes to one file"),
                }
                let x = self.deref(&args[0])?;
                self.fs_put(p, x);
                self.ok(unit)
            }
            ("File", "flush" | "sync_all") => self.ok(unit),
            ("JsonModel", "as_bytes" | "as_str" | "to_string" | "clone" | "into_bytes" | "as_ref") => v.clone(),
            ("DirEntry", "path") => f[0].clone(),
            ("DirEntry", "file_name") => {
                let s = self.str_of(v)?.unwrap();
                rc(Val::Str(s.rsplit('/').next().unwrap_or("").into()))
            }
            _ => return Ok(None),
        }))
    }
    fn grad_now(&mut self) -> T {
        if self.grad == TRUE {
            self.grad = self.tm.int(0);
        }
        self.grad
    }
    pub fn backward(&mut self, t: &TensorV) -> R<()> {
        let d = self.tdata(t)?;
        if d.len() != 1 {
            return unsup("backward of a tensor with several elements");
        }
        let g = self.grad_now();
        self.grad = self.tm.app("grad", &[g, d[0]], Sort::Int);
        Ok(())
    }
    /// methods of concrete strings and paths
    pub fn str_method(&mut self, s: &str, name: &str, args: &[V]) -> R<Option<V>> {
        let mk = |s: &str| rc(Val::Str(s.into()));
        Ok(Some(match name {
            "join" => match self.str_of(&args[0])? {
                Some(o) if o.starts_with('/') => mk(&o),
                Some(o) => mk(&format!("{}/{}", s.trim_end_matches('/'), o)),
                None => return Ok(None),
            },
            "exists" | "try_exists" => {
                let b = self.fs_exists(&norm_path(s));
                self.vb(if b { TRUE } else { FALSE })
            }
            "is_file" => {
                let b = self.fs_get(&norm_path(s)).is_some();
                self.vb(if b { TRUE } else { FALSE })
            }
            "is_dir" => {
                let p = norm_path(s);
                let b = self.fs_exists(&p) && self.fs_get(&p).is_none();
                self.vb(if b { TRUE } else { FALSE })
            }
            "to_str" => {
                let v = mk(s);
                self.some(v)
            }
            "into_string" => {
                let v = mk(s);
                self.ok(v)
            }
            "to_string_lossy" | "display" | "into_os_string" | "as_path" | "as_os_str" | "to_string" | "clone" | "as_str" | "to_owned" | "to_path_buf" | "into" | "into_boxed_str" | "into_owned" | "as_os_string" => mk(s),
            "strip_prefix" | "strip_suffix" | "trim_start_matches" | "trim_end_matches" => match self.str_of(&args[0])? {
                Some(o) => match name {
                    "trim_start_matches" => mk(s.trim_start_matches(o.as_str())),
                    "trim_end_matches" => mk(s.trim_end_matches(o.as_str())),
                    _ => match if name == "strip_prefix" { s.strip_prefix(o.as_str()) } else { s.strip_suffix(o.as_str()) } {
                        Some(r) => {
                            let v = mk(r);
                            self.some(v)
                        }
                        None => self.none(),
                    },
                },
                None => return Ok(None),
            },
            "parent" => match s.trim_end_matches('/').rsplit_once('/') {
                Some((a, _)) => {
                    let v = mk(if a.is_empty() { "/" } else { a });
                    self.some(v)
                }
                None if s.is_empty() || s == "/" => self.none(),
                None => {
                    let v = mk("");
                    self.some(v)
                }
            },
            "file_stem" => {
                let n = s.rsplit('/').next().unwrap_or("");
                let v = mk(match n.rsplit_once('.') {
                    Some((a, _)) if !a.is_empty() => a,
                    _ => n,
                });
                self.some(v)
            }
            "with_file_name" | "with_extension" => match self.str_of(&args[0])? {
                Some(o) => {
                    let (dir, n) = match s.rsplit_once('/') {
                        Some((d, n)) => (format!("{}/", d), n),
                        None => (String::new(), s),
                    };
                    if name == "with_file_name" {
                        mk(&format!("{}{}", dir, o))
                    } else {
                        let stem = match n.rsplit_once('.') {
                            Some((a, _)) if !a.is_empty() => a,
                            _ => n,
                        };
                        mk(&if o.is_empty() { format!("{}{}", dir, stem) } else { format!("{}{}.{}", dir, stem, o) })
                    }
                }
                None => return Ok(None),
            },
            "repeat" => {
                let k = self.as_conc(&args[0])? as usize;
                mk(&s.repeat(k))
            }
            "file_name" => {
                let v = mk(s.rsplit('/').next().unwrap_or(""));
                self.some(v)
            }
            "extension" => match s.rsplit('/').next().unwrap_or("").rsplit_once('.') {
                Some((_, e)) => {
                    let v = mk(e);
                    self.some(v)
                }
                None => self.none(),
            },
            "ends_with" | "starts_with" | "contains" => match self.str_of(&args[0])? {
                Some(o) => {
                    let b = match name {
                        "ends_with" => s.ends_with(&o),
                        "starts_with" => s.starts_with(&o),
                        _ => s.contains(&o),
                    };
                    self.vb(if b { TRUE } else { FALSE })
                }
                None => return Ok(None),
            },
            "to_ascii_lowercase" | "to_lowercase" if s.is_ascii() => mk(&s.to_ascii_lowercase()),
            "to_ascii_uppercase" | "to_uppercase" if s.is_ascii() => mk(&s.to_ascii_uppercase()),
            "trim" => mk(s.trim()),
            "eq_ignore_ascii_case" => match self.str_of(&args[0])? {
                Some(o) => self.vb(if s.eq_ignore_ascii_case(&o) { TRUE } else { FALSE }),
                None => return Ok(None),
            },
            "is_empty" => self.vb(if s.is_empty() { TRUE } else { FALSE }),
            "len" => self.vi(s.len() as i128, ITy::Usize),
            _ => return Ok(None),
        }))
    }
}
