//! Loads the real sources (and the contract files) with `syn`; nothing is copied or rewritten.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syn::*;

pub struct FnDef {
    pub name: String,
    pub qual: String, // Type::name or module::name
    pub file: Rc<str>,
    pub module: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub generic: bool,
    pub attrs: Vec<Attribute>,
    pub is_contract: bool,
    /// the function this one is nested in (its id), if any
    pub scope: Option<String>,
}

impl FnDef {
    pub fn id(&self) -> String {
        format!("{}#{}", self.file, self.qual)
    }
}

pub struct ConstDef {
    pub file: Rc<str>,
    pub module: String,
    pub scope: Option<String>,
    pub ty: Type,
    pub expr: Expr,
}

pub struct StructDef {
    pub name: String,
    pub fields: Vec<(String, Type)>,
    pub tuple: bool,
}
pub struct EnumDef {
    pub name: String,
    pub variants: Vec<(String, Vec<String>)>, // variant, named fields ("0","1",.. for tuple)
}

#[derive(Default)]
pub struct Program {
    pub free: HashMap<String, Vec<Rc<FnDef>>>,
    pub inherent: HashMap<(String, String), Rc<FnDef>>,
    pub traits: HashMap<(String, String), Vec<Rc<FnDef>>>, // (type, method) -> impls (one per trait)
    pub trait_defaults: HashMap<String, HashMap<String, Rc<FnDef>>>,
    pub trait_methods: HashMap<String, Vec<String>>,
    pub impls_of: HashMap<String, Vec<String>>, // trait -> types
    pub structs: HashMap<String, Rc<StructDef>>,
    pub enums: HashMap<String, Rc<EnumDef>>,
    pub aliases: HashMap<String, Type>,
    pub consts: HashMap<String, Vec<ConstDef>>,
    pub assoc_const_ty: HashMap<(String, String), Type>,
    cur_scope: Option<String>,
    /// file -> imported name -> module it comes from
    pub imports: HashMap<String, HashMap<String, String>>,
    pub assoc_consts: HashMap<(String, String), Rc<Expr>>,
    pub files: Vec<(String, usize)>,
    /// the sources customise serde beyond plain derives
    pub serde_attrs: bool,
}

pub fn ty_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Group(p) => ty_name(&p.elem),
        _ => None,
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        a.path().is_ident("cfg") && s.contains("test") || a.path().is_ident("test")
    })
}

#[derive(Default)]
struct Aliases(HashMap<String, Ident>);
impl<'a> visit::Visit<'a> for Aliases {
    fn visit_use_rename(&mut self, r: &'a UseRename) {
        if r.rename != "_" && r.ident != "self" {
            self.0.insert(r.rename.to_string(), r.ident.clone());
        }
    }
}
impl visit_mut::VisitMut for Aliases {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() {
            if let Some(s) = p.segments.first_mut() {
                if let Some(o) = self.0.get(&s.ident.to_string()) {
                    s.ident = Ident::new(&o.to_string(), s.ident.span());
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
#[derive(Default)]
struct Imports(HashMap<String, String>);
impl Imports {
    fn tree(&mut self, t: &UseTree, last: &str) {
        match t {
            UseTree::Path(p) => self.tree(&p.tree, &p.ident.to_string()),
            UseTree::Name(n) => {
                self.0.insert(n.ident.to_string(), last.to_string());
            }
            UseTree::Rename(n) => {
                self.0.insert(n.ident.to_string(), last.to_string());
            }
            UseTree::Group(g) => g.items.iter().for_each(|t| self.tree(t, last)),
            UseTree::Glob(_) => {}
        }
    }
}
impl<'a> visit::Visit<'a> for Imports {
    fn visit_item_use(&mut self, u: &'a ItemUse) {
        self.tree(&u.tree, "");
    }
}

fn collect_rs(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    es.sort();
    for p in es {
        if p.is_dir() {
            collect_rs(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

impl Program {
    pub fn load(repo_src: &Path, contracts: &Path) -> std::result::Result<Program, String> {
        let mut p = Program::default();
        let mut fs = vec![];
        collect_rs(repo_src, &mut fs);
        for f in fs {
            p.load_file(&f, false)?;
        }
        let mut fs = vec![];
        collect_rs(contracts, &mut fs);
        for f in fs {
            p.load_file(&f, true)?;
        }
        Ok(p)
    }
    fn load_file(&mut self, f: &Path, contract: bool) -> std::result::Result<(), String> {
        let txt = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
        let mut ast = parse_file(&txt).map_err(|e| format!("{}: {}", f.display(), e))?;
        // `use a::b as c`: c is read as b
        let mut al = Aliases::default();
        visit::Visit::visit_file(&mut al, &ast);
        if !al.0.is_empty() {
            visit_mut::VisitMut::visit_file_mut(&mut al, &mut ast);
        }
        let mut im = Imports::default();
        visit::Visit::visit_file(&mut im, &ast);
        let module = f.file_stem().unwrap().to_string_lossy().to_string();
        let module = if module == "mod" { f.parent().unwrap().file_name().unwrap().to_string_lossy().to_string() } else { module };
        let file: Rc<str> = f.to_string_lossy().to_string().into();
        if !contract && (txt.contains("serde(") || txt.contains("Serialize for") || txt.contains("Deserialize<'de> for")) {
            self.serde_attrs = true;
        }
        self.files.push((file.to_string(), txt.lines().count()));
        self.imports.insert(file.to_string(), im.0);
        self.items(&ast.items, &file, &module, contract);
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn mkfn(&mut self, sig: &Signature, block: &Block, attrs: &[Attribute], file: &Rc<str>, module: &str, self_ty: Option<&str>, tr: Option<&str>, generic: bool, contract: bool) -> Rc<FnDef> {
        let name = sig.ident.to_string();
        let g = generic || sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)));
        let qual = format!("{}::{}", self_ty.unwrap_or(module), name);
        // items declared inside the body
        struct Nested<'a>(Vec<&'a Item>);
        impl<'a> visit::Visit<'a> for Nested<'a> {
            fn visit_item(&mut self, i: &'a Item) {
                self.0.push(i);
            }
        }
        let mut n = Nested(vec![]);
        visit::Visit::visit_block(&mut n, block);
        let scope = self.cur_scope.clone();
        if !n.0.is_empty() {
            self.cur_scope = Some(format!("{}#{}", file, qual));
            for it in n.0 {
                self.items(std::slice::from_ref(it), file, &name, contract);
            }
            self.cur_scope = scope.clone();
        }
        Rc::new(FnDef {
            scope,
            qual,
            name,
            file: file.clone(),
            module: module.to_string(),
            sig: sig.clone(),
            block: block.clone(),
            self_ty: self_ty.map(|s| s.to_string()),
            trait_name: tr.map(|s| s.to_string()),
            generic: g,
            attrs: attrs.to_vec(),
            is_contract: contract,
        })
    }
    fn items(&mut self, items: &[Item], file: &Rc<str>, module: &str, contract: bool) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => {
                    let d = self.mkfn(&f.sig, &f.block, &f.attrs, file, module, None, None, false, contract);
                    self.free.entry(d.name.clone()).or_default().push(d);
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(its, file, &m.ident.to_string(), contract);
                    }
                }
                Item::Struct(s) => {
                    let (fields, tuple) = match &s.fields {
                        Fields::Named(n) => (n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), f.ty.clone())).collect(), false),
                        Fields::Unnamed(n) => (n.unnamed.iter().enumerate().map(|(i, f)| (i.to_string(), f.ty.clone())).collect(), true),
                        Fields::Unit => (vec![], true),
                    };
                    self.structs.insert(s.ident.to_string(), Rc::new(StructDef { name: s.ident.to_string(), fields, tuple }));
                }
                Item::Enum(e) => {
                    let variants = e
                        .variants
                        .iter()
                        .map(|v| {
                            let fs = match &v.fields {
                                Fields::Named(n) => n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect(),
                                Fields::Unnamed(n) => (0..n.unnamed.len()).map(|i| i.to_string()).collect(),
                                Fields::Unit => vec![],
                            };
                            (v.ident.to_string(), fs)
                        })
                        .collect();
                    self.enums.insert(e.ident.to_string(), Rc::new(EnumDef { name: e.ident.to_string(), variants }));
                }
                Item::Type(t) => {
                    self.aliases.insert(t.ident.to_string(), (*t.ty).clone());
                }
                Item::Const(c) => {
                    let d = ConstDef { file: file.clone(), module: module.to_string(), scope: self.cur_scope.clone(), ty: (*c.ty).clone(), expr: (*c.expr).clone() };
                    self.consts.entry(c.ident.to_string()).or_default().push(d);
                }
                Item::Static(c) => {
                    let d = ConstDef { file: file.clone(), module: module.to_string(), scope: self.cur_scope.clone(), ty: (*c.ty).clone(), expr: (*c.expr).clone() };
                    self.consts.entry(c.ident.to_string()).or_default().push(d);
                }
                Item::Trait(t) => {
                    let tn = t.ident.to_string();
                    for ti in &t.items {
                        match ti {
                            TraitItem::Fn(f) => {
                                self.trait_methods.entry(tn.clone()).or_default().push(f.sig.ident.to_string());
                                if let Some(b) = &f.default {
                                    let d = self.mkfn(&f.sig, b, &f.attrs, file, module, Some(&tn), Some(&tn), true, contract);
                                    self.trait_defaults.entry(tn.clone()).or_default().insert(d.name.clone(), d);
                                }
                            }
                            TraitItem::Const(c) => {
                                self.assoc_const_ty.insert((tn.clone(), c.ident.to_string()), c.ty.clone());
                                if let Some((_, e)) = &c.default {
                                    self.assoc_consts.insert((tn.clone(), c.ident.to_string()), Rc::new(e.clone()));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Item::Impl(im) => {
                    let Some(tn) = ty_name(&im.self_ty) else { continue };
                    let generic = im.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)));
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if let Some(tr) = &tr {
                        self.impls_of.entry(tr.clone()).or_default().push(tn.clone());
                    }
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                let d = self.mkfn(&f.sig, &f.block, &f.attrs, file, module, Some(&tn), tr.as_deref(), generic, contract);
                                let k = (tn.clone(), d.name.clone());
                                if tr.is_some() {
                                    self.traits.entry(k).or_default().push(d);
                                } else {
                                    self.inherent.insert(k, d);
                                }
                            }
                            ImplItem::Const(c) => {
                                self.assoc_const_ty.insert((tn.clone(), c.ident.to_string()), c.ty.clone());
                                self.assoc_consts.insert((tn.clone(), c.ident.to_string()), Rc::new(c.expr.clone()));
                            }
                            ImplItem::Type(t) => {
                                self.aliases.insert(format!("{}::{}", tn, t.ident), t.ty.clone());
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    /// resolve a method on a type: `generic` = the call is made through a trait bound
    pub fn method(&'static self, ty: &str, name: &str, generic: bool) -> Option<&'static FnDef> {
        let inh = self.inherent.get(&(ty.to_string(), name.to_string()));
        let tr = self.traits.get(&(ty.to_string(), name.to_string())).and_then(|v| v.first());
        let (a, b) = if generic { (tr, inh) } else { (inh, tr) };
        if let Some(d) = a.or(b) {
            return Some(d);
        }
        for (t, tys) in &self.impls_of {
            if tys.iter().any(|x| x == ty) {
                if let Some(d) = self.trait_defaults.get(t).and_then(|m| m.get(name)) {
                    return Some(d);
                }
            }
        }
        None
    }
    pub fn free_fn(&'static self, segs: &[String], from: &FnDef) -> Option<&'static FnDef> {
        let v = self.free.get(segs.last()?)?;
        if v.len() == 1 {
            return Some(&v[0]);
        }
        if segs.len() >= 2 {
            let m = &segs[segs.len() - 2];
            let c: Vec<_> = v.iter().filter(|d| &d.module == m && d.scope.is_none()).collect();
            if c.len() == 1 {
                return Some(c[0]);
            }
        }
        if let Some(d) = v.iter().find(|d| d.scope.is_some() && d.scope == Some(from.id())) {
            return Some(d);
        }
        if let Some(d) = v.iter().find(|d| d.scope.is_some() && d.scope == from.scope) {
            return Some(d);
        }
        if let Some(d) = v.iter().find(|d| *d.file == *from.file && d.scope.is_none()) {
            return Some(d);
        }
        if let (1, Some(m)) = (segs.len(), self.imports.get(&*from.file).and_then(|i| i.get(segs.last().unwrap()))) {
            if let Some(d) = v.iter().find(|d| d.module == *m && d.scope.is_none()) {
                return Some(d);
            }
        }
        v.iter().find(|d| d.scope.is_none() && d.is_contract == from.is_contract).or(v.iter().find(|d| d.scope.is_none())).or(v.first()).map(|d| &**d)
    }
    pub fn constant(&'static self, segs: &[String], from: &FnDef) -> Option<&'static ConstDef> {
        let v = self.consts.get(segs.last()?)?;
        if v.len() == 1 {
            return v.first();
        }
        if segs.len() >= 2 {
            let m = &segs[segs.len() - 2];
            if let Some(c) = v.iter().find(|d| &d.module == m && d.scope.is_none()) {
                return Some(c);
            }
        }
        v.iter()
            .find(|d| d.scope.is_some() && d.scope == Some(from.id()))
            .or_else(|| v.iter().find(|d| d.scope.is_some() && d.scope == from.scope))
            .or_else(|| v.iter().find(|d| *d.file == *from.file && d.scope.is_none()))
            .or_else(|| {
                let m = self.imports.get(&*from.file)?.get(segs.last()?)?;
                v.iter().find(|d| d.module == *m && d.scope.is_none())
            })
            .or_else(|| v.iter().find(|d| d.scope.is_none()))
            .or(v.first())
    }
}
