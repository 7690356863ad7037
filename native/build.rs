use std::fmt::Write;
fn main() {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../contracts");
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
    files.sort();
    let (mut mods, mut tab) = (String::new(), String::new());
    // the program itself, for the contracts of its commands
    let cli = std::env::var("CARGO_FEATURE_CLI").is_ok();
    if cli {
        let main = "/repo/src/main.rs";
        println!("cargo:rerun-if-changed={}", main);
        writeln!(mods, "#[allow(unused, clippy::all)]\npub mod cli_glue {{\ninclude!({:?});\ninclude!({:?});\n}}", main, concat!(env!("CARGO_MANIFEST_DIR"), "/src/cli_glue.rs")).unwrap();
    }
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        let m = f.file_stem().unwrap().to_string_lossy().to_string();
        if m == "cli" && !cli {
            continue;
        }
        writeln!(mods, "#[allow(unused, clippy::all)]\n#[path = {:?}]\npub mod {};", f.canonicalize().unwrap(), m).unwrap();
        let txt = std::fs::read_to_string(&f).unwrap();
        let mut props = String::new();
        for l in txt.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("/// harness:") {
                props = r.split_whitespace().find_map(|k| k.strip_prefix("prop=")).unwrap_or("").to_string();
            } else if let Some(r) = l.strip_prefix("pub fn ") {
                if !props.is_empty() {
                    let n = r.split('(').next().unwrap();
                    writeln!(tab, "({:?}, {:?}, {}::{} as fn(&mut Src)),", n, props, m, n).unwrap();
                }
                props.clear();
            }
        }
    }
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("contracts.rs");
    std::fs::write(out, format!("{}\nuse crate::src::Src;\npub const TABLE: &[(&str, &str, fn(&mut Src))] = &[\n{}];\n", mods, tab)).unwrap();
}
