//! self-tests of the engine
use crate::{h, sx};
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

#[unsafe(no_mangle)]
pub extern "C" fn t_play(_case: u64) {
    let src = "VAR x = 5\nHello {x+1}.\n* A\n  chose a\n* B\n  chose b\n- end\n-> END\n";
    let t = h::Tpl { name: "", src, vars: &["x"], counts: &[], ints: &["x"] };
    let mut s = h::load(&h::compile(src));
    h::set_ints(&mut s, &t, i32::MIN, i32::MAX);
    let mut d = h::Dec::new("c");
    let o = h::play(&mut s, &t, &mut d, 3, 20);
    sx::note(&o);
}

/// plays a corpus file along the first choices, printing everything (compared with the native run)
#[unsafe(no_mangle)]
pub extern "C" fn t_corpus(case: u64) {
    let (n, src, json) = CORPUS[case as usize];
    let _ = SOURCES;
    let t = h::Tpl { name: "", src, vars: &[], counts: &[], ints: &[] };
    sx::note(n);
    if let Ok(j) = bladeink_compiler::Compiler::new().compile(src) {
        let mut s = h::load(&j);
        let mut d = h::Dec::new("c");
        d.v = vec![0, 1, 0, 2, 1, 0, 0, 1];
        let o = h::play(&mut s, &t, &mut d, 8, 60);
        sx::note(&o);
    } else {
        sx::note("compile error");
    }
    let mut s = h::load(json.trim_start_matches('\u{feff}'));
    let mut d = h::Dec::new("c");
    d.v = vec![0, 1, 0, 2, 1, 0, 0, 1];
    let o = h::play(&mut s, &t, &mut d, 8, 60);
    sx::note(&o);
}

/// a template along decided choices
#[unsafe(no_mangle)]
pub extern "C" fn t_tpl(case: u64) {
    let t = &crate::stories::ALL[case as usize];
    let mut s = h::load(&h::compile(t.src));
    h::set_ints(&mut s, t, 0, 3);
    let mut d = h::Dec::new("c");
    let o = h::play(&mut s, t, &mut d, 3, 30);
    sx::note(&o);
}
