//! dvc: contract-based deductive verification of the die-e sources.
//!
//! Loads the real sources and the contract files, evaluates every contract harness symbolically for all
//! inputs, and discharges each obligation (postcondition, call precondition, absence of panics) with z3.
mod builtins;
mod eval;
mod exec;
mod model;
mod prog;
mod smt;
mod tensor;
mod term;
mod val;

use exec::*;
use prog::*;
use serde_json::{json, Value};
use smt::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::path::PathBuf;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use term::*;
use val::*;

#[derive(Clone, Debug)]
struct Harness {
    name: String,
    prop: String,
    mode: String,
    game: String,
    tier: String,
    bounded: String,
    havoc: Vec<(String, String)>,
    subst: Vec<(String, String)>,
    order: bool,
}

fn doc_text(a: &syn::Attribute) -> Option<String> {
    if !a.path().is_ident("doc") {
        return None;
    }
    match &a.meta {
        syn::Meta::NameValue(nv) => match &nv.value {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
            _ => None,
        },
        _ => None,
    }
}

fn harnesses(p: &Program) -> Vec<Harness> {
    let mut out = vec![];
    for v in p.free.values() {
        for d in v {
            if !d.is_contract {
                continue;
            }
            for a in &d.attrs {
                let Some(t) = doc_text(a) else { continue };
                let t = t.trim();
                let Some(t) = t.strip_prefix("harness:") else { continue };
                let mut h = Harness { name: d.name.clone(), prop: String::new(), mode: "merge".into(), game: "Backgammon".into(), tier: "quick".into(), bounded: String::new(), havoc: vec![], subst: vec![], order: false };
                for kv in t.split_whitespace() {
                    let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
                    match k {
                        "prop" => h.prop = v.into(),
                        "mode" => h.mode = v.into(),
                        "game" => h.game = v.into(),
                        "tier" => h.tier = v.into(),
                        "bounded" => h.bounded = v.replace('_', " "),
                        "order" => h.order = true,
                        "havoc" => h.havoc.push(v.rsplit_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap()),
                        "subst" => h.subst.push(v.rsplit_once('=').or(v.rsplit_once('>')).map(|(a, b)| (a.to_string(), b.to_string())).unwrap()),
                        _ => {}
                    }
                }
                if h.mode != "native" {
                    out.push(h);
                }
            }
        }
    }
    out.sort_by(|a, b| a.name.cmp(&b.name));
    out
}

#[derive(Default)]
struct Report {
    items: usize,
    cut: usize,
    checks: usize,
    trivially: usize,
    smt: usize,
    discharged: usize,
    failed: Vec<Value>,
    undecided: Vec<String>,
    unsupported: BTreeMap<String, usize>,
    covers: BTreeMap<String, bool>,
    called: BTreeMap<String, usize>,
    models: BTreeMap<String, usize>,
    labels: BTreeMap<String, usize>,
    queries: usize,
    secs: f64,
    feas: usize,
    left: usize,
    wall: f64,
}

struct Shared {
    q: Mutex<(VecDeque<(usize, Vec<u32>)>, usize)>,
    cv: Condvar,
    rep: Vec<Mutex<Report>>,
    covered: Mutex<HashSet<(usize, String)>>,
    failed_labels: Mutex<HashMap<(usize, String), usize>>,
    deadline: Instant,
    start: Instant,
}

fn input_values(ex: &Ex, vals: &[String]) -> Vec<Value> {
    ex.inputs
        .iter()
        .zip(vals)
        .map(|(i, s)| {
            let v = match i.kind {
                "bool" => json!(s == "true"),
                "int" => json!(parse_num(s).unwrap_or(0.0) as i64),
                _ => json!(parse_num(s).unwrap_or(0.0)),
            };
            json!({"name": i.name, "value": v, "exact": s})
        })
        .collect()
}

struct Worker {
    tm: Option<Terms>,
    solver: Option<Solver>,
    vc: Option<Solver>,
    memo: HashMap<T, bool>,
    feas: HashMap<Vec<T>, bool>,
}

fn discharge(w: &mut Worker, ex: &mut Ex, sh: &Shared, hi: usize, timeout_ms: u64) {
    let obls = std::mem::take(&mut ex.obls);
    let mut todo: Vec<(T, usize)> = vec![];
    let mut disch = 0;
    for (i, o) in obls.iter().enumerate() {
        let pc = ex.tm.and(&o.pc);
        let n = ex.tm.not(o.cond);
        let vc = ex.tm.and2(pc, n);
        if vc == FALSE || w.memo.get(&vc) == Some(&false) {
            disch += 1;
            continue;
        }
        todo.push((vc, i));
    }
    let total = obls.len();
    let mut undecided = vec![];
    let mut failed = vec![];
    // one VC per distinct formula
    let mut by: HashMap<T, Vec<usize>> = HashMap::new();
    let mut order = vec![];
    for (vc, i) in todo {
        let e = by.entry(vc).or_default();
        if e.is_empty() {
            order.push(vc);
        }
        e.push(i);
    }
    let mut stack: Vec<Vec<T>> = order.chunks(48).map(|c| c.to_vec()).rev().collect();
    let mut bad_labels: HashSet<String> = HashSet::new();
    while let Some(chunk) = stack.pop() {
        let chunk: Vec<T> = chunk.into_iter().filter(|vc| !by[vc].iter().all(|i| bad_labels.contains(&obls[*i].label))).collect();
        if chunk.is_empty() {
            continue;
        }
        if Instant::now() > sh.deadline || eval::stop_early() {
            for vc in &chunk {
                undecided.push(format!("{} at {}: time budget", obls[by[vc][0]].label, obls[by[vc][0]].loc));
            }
            continue;
        }
        if w.vc.as_ref().map(|s| s.dead).unwrap_or(true) {
            w.vc = Some(Solver::start(timeout_ms));
        }
        let s = w.vc.as_mut().unwrap();
        let q = ex.tm.or(&chunk);
        let want: Vec<T> = ex.inputs.iter().map(|i| i.term).collect();
        if chunk.len() > 1 {
            match s.check_within(&ex.tm, &[q], 5000) {
                Some(false) => {
                    for vc in &chunk {
                        disch += by[vc].len();
                        w.memo.insert(*vc, false);
                    }
                }
                _ => {
                    let m = chunk.len() / 2;
                    stack.push(chunk[m..].to_vec());
                    stack.push(chunk[..m].to_vec());
                }
            }
        } else {
            let i = by[&chunk[0]][0];
            match s.decide(&ex.tm, &[q], &want) {
                Some(None) => {
                    disch += by[&chunk[0]].len();
                    w.memo.insert(chunk[0], false);
                }
                Some(Some(vals)) => {
                    let n = {
                        let mut f = sh.failed_labels.lock().unwrap();
                        let e = f.entry((hi, obls[i].label.clone())).or_insert(0);
                        *e += 1;
                        *e
                    };
                    bad_labels.insert(obls[i].label.clone());
                    eval::found_failure();
                    if n <= 6 {
                        failed.push(json!({"label": obls[i].label, "loc": obls[i].loc, "panic": obls[i].panic, "inputs": input_values(ex, &vals), "trail": ex.trail.taken}));
                    }
                }
                None => undecided.push(format!("{} at {}", obls[i].label, obls[i].loc)),
            }
        }
    }
    let mut r = sh.rep[hi].lock().unwrap();
    for o in &obls {
        *r.labels.entry(o.label.clone()).or_insert(0) += 1;
    }
    r.smt += total;
    r.discharged += disch;
    r.failed.extend(failed);
    r.undecided.extend(undecided);
    if let Some(s) = &w.vc {
        r.queries += s.queries;
        r.secs += s.secs;
    }
    if let Some(s) = w.vc.as_mut() {
        s.queries = 0;
        s.secs = 0.0;
    }
}

fn covers(w: &mut Worker, ex: &mut Ex, sh: &Shared, hi: usize) {
    let cs = std::mem::take(&mut ex.covers);
    for (l, pc, t) in cs {
        {
            let c = sh.covered.lock().unwrap();
            if c.contains(&(hi, l.clone())) {
                continue;
            }
        }
        sh.rep[hi].lock().unwrap().covers.entry(l.clone()).or_insert(false);
        let p = ex.tm.and(&pc);
        let f = ex.tm.and2(p, t);
        if f == FALSE {
            continue;
        }
        if w.vc.as_ref().map(|s| s.dead).unwrap_or(true) {
            w.vc = Some(Solver::start(20000));
        }
        if w.vc.as_mut().unwrap().check(&ex.tm, &[f]) == Some(true) {
            sh.covered.lock().unwrap().insert((hi, l.clone()));
            sh.rep[hi].lock().unwrap().covers.insert(l, true);
        }
    }
}

fn run_item(w: &mut Worker, prog: &'static Program, h: &Harness, hi: usize, prefix: Vec<u32>, sh: &Shared, timeout_ms: u64, keep_going: bool) {
    let Some(d) = prog.free.get(&h.name).and_then(|v| v.iter().find(|d| d.is_contract)) else { return };
    let root: &'static FnDef = unsafe { &*std::rc::Rc::as_ptr(d) };
    let mut ex = Ex::new(prog, &h.game, root, h.mode == "paths");
    if let Some(tm) = w.tm.take() {
        if tm.nodes.len() < 1_000_000 && !eval::memory_full() && h.mode == "paths" {
            ex.tm = tm;
            ex.solver = w.solver.take();
            ex.feas_memo = std::mem::take(&mut w.feas);
        } else {
            w.solver = None;
            w.vc = None;
            w.memo.clear();
            w.feas.clear();
        }
    }
    ex.deadline = sh.deadline;
    ex.havoc = h.havoc.iter().cloned().collect();
    ex.map_order = h.order;
    ex.subst = h.subst.iter().cloned().collect();
    ex.trail.prefix = prefix;
    let src = rc(Val::Opaque("Src".into()));
    let c = ex.alloc(src);
    let arg = rc(Val::Ref(Place { heap: false, cell: c, path: vec![] }));
    let res = ex.call_fn(root, vec![arg], None, None);
    // let the others at the new branches right away
    {
        let items = std::mem::take(&mut ex.trail.new_items);
        if !items.is_empty() {
            let mut q = sh.q.lock().unwrap();
            for it in items {
                q.0.push_front((hi, it));
            }
            sh.cv.notify_all();
        }
    }
    let _ = keep_going;
    {
        let mut r = sh.rep[hi].lock().unwrap();
        r.items += 1;
        match &res {
            Ok(_) => {}
            Err(Stop::Cut) => r.cut += 1,
            Err(Stop::Unsupported(m)) => {
                *r.unsupported.entry(m.clone()).or_insert(0) += 1;
            }
        }
        r.checks += ex.checks;
        r.trivially += ex.trivially;
        r.feas += ex.feas_queries;
        for (k, n) in &ex.called {
            *r.called.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &ex.models_used {
            *r.models.entry(k.clone()).or_insert(0) += n;
        }
        if let Some(s) = ex.solver.as_mut() {
            r.queries += s.queries;
            r.secs += s.secs;
            s.queries = 0;
            s.secs = 0.0;
        }
    }
    if std::env::var("DVC_V").is_ok() {
        eprintln!("[{:.1}s] {} {:?}: {} obligations, {} terms, {:?}", sh.start.elapsed().as_secs_f64(), h.name, ex.trail.taken, ex.obls.len(), ex.tm.nodes.len(), res.as_ref().map(|_| ()));
    }
    discharge(w, &mut ex, sh, hi, timeout_ms);
    covers(w, &mut ex, sh, hi);
    w.tm = Some(std::mem::replace(&mut ex.tm, Terms::new()));
    w.solver = ex.solver.take();
    w.feas = std::mem::take(&mut ex.feas_memo);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    let repo = PathBuf::from(get("--repo", "/repo/src"));
    let con = PathBuf::from(get("--contracts", "/verif/contracts"));
    let prop = get("--prop", "");
    let only = get("--harness", "");
    let tier = get("--tier", "quick");
    let threads: usize = get("--threads", "8").parse().unwrap();
    let budget: f64 = get("--budget", "600").parse().unwrap();
    let timeout_ms: u64 = get("--timeout", "60000").parse().unwrap();
    let out = get("--out", "");

    let p0 = match Program::load(&repo, &con) {
        Ok(p) => p,
        Err(e) => {
            println!("{}", json!({"error": e}));
            std::process::exit(3);
        }
    };
    let hs: Vec<Harness> = harnesses(&p0)
        .into_iter()
        .filter(|h| (prop.is_empty() || h.prop.split(',').any(|p| p == prop)) && (only.is_empty() || h.name == only) && (tier == "thorough" || h.tier == "quick"))
        .collect();
    if args.iter().any(|a| a == "--list") {
        for h in &hs {
            println!("{} {} {} {} {}", h.name, h.prop, h.mode, h.game, h.tier);
        }
        return;
    }
    let files = p0.files.clone();
    drop(p0);
    let start = Instant::now();
    let sh = Arc::new(Shared {
        q: Mutex::new((["quick", "thorough"].iter().flat_map(|t| hs.iter().enumerate().filter(move |(_, h)| (h.tier == "thorough") == (*t == "thorough")).map(|(i, _)| (i, vec![]))).collect(), 0)),
        cv: Condvar::new(),
        rep: hs.iter().map(|_| Mutex::new(Report::default())).collect(),
        covered: Mutex::new(HashSet::new()),
        failed_labels: Mutex::new(HashMap::new()),
        deadline: start + Duration::from_secs_f64(budget),
        start,
    });
    let mut js = vec![];
    for _ in 0..threads {
        let (sh, hs, repo, con) = (sh.clone(), hs.clone(), repo.clone(), con.clone());
        js.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let prog: &'static Program = Box::leak(Box::new(Program::load(&repo, &con).unwrap()));
                    let mut w = Worker { tm: None, solver: None, vc: None, memo: HashMap::new(), feas: HashMap::new() };
                    loop {
                        let item = {
                            let mut q = sh.q.lock().unwrap();
                            loop {
                                if let Some(it) = q.0.pop_front() {
                                    q.1 += 1;
                                    break Some(it);
                                }
                                if q.1 == 0 {
                                    break None;
                                }
                                q = sh.cv.wait(q).unwrap();
                            }
                        };
                        let Some((hi, prefix)) = item else { break };
                        if Instant::now() > sh.deadline || eval::stop_early() {
                            sh.rep[hi].lock().unwrap().left += 1;
                        } else {
                            let t0 = Instant::now();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                run_item(&mut w, prog, &hs[hi], hi, prefix, &sh, timeout_ms, true);
                            }));
                            if r.is_err() {
                                w = Worker { tm: None, solver: None, vc: None, memo: HashMap::new(), feas: HashMap::new() };
                                if let Ok(mut r) = sh.rep[hi].lock() {
                                    *r.unsupported.entry("internal error of the checker".into()).or_insert(0) += 1;
                                }
                            }
                            if let Ok(mut r) = sh.rep[hi].lock() {
                                r.wall += t0.elapsed().as_secs_f64();
                            }
                        }
                        let mut q = sh.q.lock().unwrap();
                        q.1 -= 1;
                        sh.cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for j in js {
        let _ = j.join();
    }
    let mut res = vec![];
    for (h, r) in hs.iter().zip(&sh.rep) {
        let r = r.lock().unwrap();
        res.push(json!({
            "name": h.name, "props": h.prop, "mode": h.mode, "game": h.game, "tier": h.tier, "bounded": h.bounded,
            "paths": r.items, "cut": r.cut, "left": r.left, "checks": r.checks, "trivially": r.trivially, "smt": r.smt,
            "discharged": r.discharged + r.trivially, "failed": r.failed, "undecided": r.undecided,
            "unsupported": r.unsupported, "covers": r.covers, "called": r.called, "models": r.models, "labels": r.labels,
            "queries": r.queries, "feasibility": r.feas, "solver_secs": r.secs, "cpu_secs": r.wall
        }));
    }
    let v = json!({"harnesses": res, "wall": start.elapsed().as_secs_f64(), "files": files});
    let s = serde_json::to_string_pretty(&v).unwrap();
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
}
