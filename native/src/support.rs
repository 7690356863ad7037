//! What the contracts use natively and the verifier models: configurations, tolerances, networks.
use config::{Config, FileFormat};

pub fn config_of(items: Vec<(&str, f64)>) -> Config {
    let mut b = Config::builder();
    for (k, v) in items {
        b = if v.fract() == 0.0 && !k.contains("const") && !k.contains("alpha") && !k.contains("epsilon") { b.set_override(k, v as i64).unwrap() } else { b.set_override(k, v).unwrap() };
    }
    let _ = FileFormat::Toml;
    b.build().unwrap()
}
/// the same with a text in place of one key's number
pub fn config_with_text(items: Vec<(&str, f64)>, key: &str) -> Config {
    Config::builder().add_source(config_of(items)).set_override(key, "none").unwrap().build().unwrap()
}
/// equal; natively up to rounding
pub fn same(a: f32, b: f32) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 2e-4 * (1.0 + a.abs().max(b.abs()))
}
/// at least; natively up to rounding
pub fn at_least(a: f32, b: f32) -> bool {
    a >= b || same(a, b)
}

// shared by all threads: code under contract may ask a game from several
static TABLE: std::sync::RwLock<(Vec<i64>, usize)> = std::sync::RwLock::new((vec![], 0));
/// numbers that games read; starts the numbering of games again
pub fn put_table(v: Vec<i64>) {
    *TABLE.write().unwrap() = (v, 0)
}
pub fn table(i: usize) -> i64 {
    TABLE.read().unwrap().0.get(i).copied().unwrap_or(0)
}
pub fn next_tag() -> usize {
    let mut t = TABLE.write().unwrap();
    t.1 += 1;
    t.1 - 1
}
/// an empty scratch directory tree, as far as the code under contract writes files
pub fn fresh_dir() {
    let d = std::env::current_dir().unwrap();
    assert!(d.ends_with("scratch"), "file contracts run in a scratch directory only");
    for x in ["models", "data", "games"] {
        let _ = std::fs::remove_dir_all(d.join(x));
    }
    for x in ["models/mock", "models/duel", "data"] {
        std::fs::create_dir_all(d.join(x)).unwrap();
    }
}
pub fn write_junk(p: &str) {
    std::fs::write(p, "no model").unwrap()
}
pub fn same_tensor(a: &tch::Tensor, b: &tch::Tensor) -> bool {
    a.size() == b.size() && a.to_kind(tch::Kind::Double).eq_tensor(&b.to_kind(tch::Kind::Double)).all().int64_value(&[]) == 1
}
pub fn same_network(a: &die_e::alphazero::nnet::ResNet, b: &die_e::alphazero::nnet::ResNet) -> bool {
    let (x, y) = (a.vs.variables(), b.vs.variables());
    x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| v.size() == w.size() && v.allclose(w, 1e-4, 1e-6, true)).unwrap_or(false))
}
pub fn debug_eq<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
pub fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// what a recorded game started from
fn initial(g: &impl serde::Serialize) -> serde_json::Value {
    serde_json::to_value(g).unwrap()["initial_state"].clone()
}
pub fn initial_id(g: &impl serde::Serialize) -> usize {
    initial(g)["id"].as_u64().unwrap() as usize
}
pub fn initial_player(g: &impl serde::Serialize) -> i8 {
    initial(g)["player"].as_i64().unwrap() as i8
}
/// the agent a recorded game names
pub fn agent_in(g: &impl serde::Serialize, which: &str) -> die_e::versus::Agent {
    serde_json::from_value(serde_json::to_value(g).unwrap()[which].clone()).unwrap()
}
