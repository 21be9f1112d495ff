// lists the conformance corpus: every .ink with a reference-compiled .ink.json beside it
use std::{env, fs, path::Path};
fn walk(d: &Path, v: &mut Vec<String>) {
    let mut e: Vec<_> = fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    e.sort();
    for p in e {
        if p.is_dir() {
            walk(&p, v);
        } else if p.extension().map(|x| x == "ink").unwrap_or(false) {
            v.push(p.to_string_lossy().to_string());
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=/repo/conformance-tests/inkfiles");
    println!("cargo:rerun-if-changed=build.rs");
    let mut v = vec![];
    walk(Path::new("/repo/conformance-tests/inkfiles"), &mut v);
    let mut o = String::from("pub static CORPUS: &[(&str, &str, &str)] = &[\n");
    let mut inc = String::from("pub static SOURCES: &[(&str, &str)] = &[\n");
    for p in &v {
        let name = p.trim_start_matches("/repo/conformance-tests/inkfiles/");
        inc += &format!("({name:?}, include_str!({p:?})),\n");
        let j = format!("{p}.json");
        if Path::new(&j).exists() {
            o += &format!("({name:?}, include_str!({p:?}), include_str!({j:?})),\n");
        }
    }
    o += "];\n";
    inc += "];\n";
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("corpus.rs"), o + &inc).unwrap();
}
