//! C18: dropping a story releases all it used; resets and loads do not accumulate
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::variable_observer::VariableObserver;
use std::cell::RefCell;
use std::rc::Rc;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

fn attach(s: &mut Story, t: &Tpl, l: &Log) {
    let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: l.clone() }));
    s.set_error_handler(e);
    let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 1 }));
    if let Some(v) = t.vars.first() {
        let _ = s.observe_variable(v, o);
    }
}

fn ops(t: &Tpl) -> Vec<Op> {
    let mut v = vec![Op::Go, Op::Maximal, Op::Flow("f1"), Op::Default, Op::Remove("f1"), Op::Reload, Op::Reset];
    if let Some(c) = t.counts.first() {
        v.push(Op::Jump(c, true, None));
    }
    match t.name {
        "funcs" => v.push(Op::Eval("fact", &[3])),
        "text" => v.push(Op::Eval("two", &[1])),
        "knots" => v.extend([Op::Eval("fun", &[1, 2]), Op::Jump("kb", false, Some(3)), Op::Eval("pfun", &[2])]),
        _ => {}
    }
    v
}

/// memory in use by everything that is alive
fn live() -> (u64, u64) {
    // buffers of the output exist from here on
    sx::note("measured");
    (sx::live_bytes(), sx::live_blocks())
}
fn grown(a: (u64, u64), b: (u64, u64), msg: &str) {
    if a != b {
        sx::note(&format!("{} bytes in {} blocks more", b.0 as i64 - a.0 as i64, b.1 as i64 - a.1 as i64));
        sx::fail(msg);
    }
}

fn cycle(j: &str, t: &Tpl, d: &mut Dec, ops: &[Op], n: u32) {
    let l = log();
    let mut s = load(j);
    attach(&mut s, t, &l);
    for v in t.ints {
        let x = d.next(5) as i32;
        let _ = s.set_variable(v, &bladeink::value_type::ValueType::Int(x));
    }
    hist(&mut s, t, d, ops, n);
}

/// create, play and drop, twice: the second time nothing may be left over
fn drops(t: &Tpl, n: u32) {
    let j = compile(t.src);
    let ops = ops(t);
    let mut d = Dec::new("op");
    cycle(&j, t, &mut d, &ops, n);
    d.v.reserve(64);
    let a = live();
    for _ in 0..2 {
        d.rewind();
        cycle(&j, t, &mut d, &ops, n);
    }
    grown(a, live(), "dropping a story does not release its memory");
    sx::cover("dropped");
}

/// one instance: after the same history, every reset and load leaves the same amount in use
fn instance(t: &Tpl, n: u32) {
    let j = compile(t.src);
    let ops = ops(t);
    let mut d = Dec::new("op");
    d.v.reserve(64);
    let l = log();
    let mut s = load(&j);
    attach(&mut s, t, &l);
    let first = save(&s);
    let reload = sx::choose("reload", 2) == 1;
    let mut seen: Option<(u64, u64)> = None;
    for round in 0..4 {
        d.rewind();
        hist(&mut s, t, &mut d, &ops, n);
        s.switch_to_default_flow();
        if reload {
            load_save(&mut s, &first);
            sx::cover("loaded");
        } else {
            if s.reset_state().is_err() {
                sx::fail("reset fails");
            }
            sx::cover("reset");
        }
        l.borrow_mut().clear();
        l.borrow_mut().shrink_to_fit();
        // what is resolved or cached lazily is there after the first rounds
        if round >= 1 {
            let now = live();
            if let Some(b) = seen {
                grown(b, now, "resetting or loading again uses more memory");
            }
            seen = Some(now);
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn c18_drop(case: u64) {
    drops(&stories::ALL[case as usize], 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_drop_deep(case: u64) {
    drops(&stories::ALL[case as usize], 6);
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_instance(case: u64) {
    instance(&stories::ALL[case as usize], 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_instance_deep(case: u64) {
    instance(&stories::ALL[case as usize], 4);
}

/// the reference compiler's stories, played along decided choices
#[unsafe(no_mangle)]
pub extern "C" fn c18_corpus(case: u64) {
    let (n, _, json) = CORPUS[case as usize];
    let _ = SOURCES;
    let t = Tpl { name: "corpus", src: "", vars: &[], counts: &[], ints: &[] };
    let j = json.trim_start_matches('\u{feff}');
    let mut d = Dec::new("c");
    let one = |d: &mut Dec| {
        let mut s = load(j);
        play(&mut s, &t, d, 2, 30);
        let k = save(&s);
        load_save(&mut s, &k);
        play(&mut s, &t, d, 1, 10);
    };
    one(&mut d);
    d.v.reserve(64);
    let a = live();
    for _ in 0..2 {
        d.rewind();
        one(&mut d);
    }
    sx::note(n);
    grown(a, live(), "dropping a story does not release its memory");
    sx::cover("dropped");
}
