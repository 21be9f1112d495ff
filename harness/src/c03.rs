//! C03: play depends on program, seed and host calls only. Both plays of a path live in one process;
//! between them the keys of the hash maps move on by a decided number, so that every map of the second
//! play iterates in another order.
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::variable_observer::VariableObserver;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::hash::{BuildHasher, RandomState};
use std::rc::Rc;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

/// lists with items of equal value in several origins, and everything that picks from them
pub const PICKS: Tpl = Tpl {
    name: "picks",
    src: r#"LIST la = a1 = 1, a2 = 2, (same) = 3, a4 = 4
LIST lb = b1 = 1, b2 = 2, same2 = 3, (b4) = 4
LIST lc = (c1) = 1, c2 = 2, (c3) = 3
VAR all = ()
VAR k = 1
VAR one = 1
VAR two = 2
VAR three = 3
VAR four = 4
VAR five = 5
-> top
=== top
~ all = LIST_ALL(la) + LIST_ALL(lb) + lc
All {all}.
Max {LIST_MAX(all)} min {LIST_MIN(all)} value {LIST_VALUE(all)}.
Range {LIST_RANGE(all, 1, 2)} inv {LIST_INVERT(lc + b4)}.
Random {LIST_RANDOM(all)} {LIST_RANDOM(all)} {LIST_RANDOM(all)}.
~ all = all - (a1, c3)
Less {all} {LIST_COUNT(all)} next {all + 1}.
{LIST_MIN(all) < LIST_MAX(all): lt|ge} {all > (a2, b2)} {all ^ (b1, b2, a1)}
{~s1|s2|s3|s4|s5} {RANDOM(1, 100)}
{shuffle:
- sa
- sb
- sc
}
~ one = k
~ two = k + one
~ three = two + one
~ four = three + k
~ five = four + k
* {k > 1} first {LIST_RANDOM(all)}
* second {all}
+ third
- -> top
"#,
    vars: &["la", "lb", "lc", "all", "k", "one", "two", "three", "four", "five"],
    counts: &["top"],
    ints: &["k"],
};

fn tpls(i: u64) -> &'static Tpl {
    if i == 0 { &PICKS } else { &stories::ALL[i as usize - 1] }
}

/// other keys for all maps that are made from here on
fn rekey(n: u32) {
    let k = sx::choose("map order", n);
    for _ in 0..k * 5 + 1 {
        std::hint::black_box(RandomState::new().hash_one(1));
    }
}

fn attach(s: &mut Story, t: &Tpl, l: &Log) {
    let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: l.clone() }));
    s.set_error_handler(e);
    for v in t.vars {
        let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 1 }));
        let _ = s.observe_variable(v, o);
    }
}

fn ops(t: &Tpl) -> Vec<Op> {
    let mut v = vec![Op::Go, Op::Flow("f1"), Op::Flow("f2"), Op::Default, Op::Reload];
    if let Some(c) = t.counts.first() {
        v.push(Op::Jump(c, true, None));
    }
    v
}

/// everything visible along one play
fn run(j: &str, t: &Tpl, seed: i32, d: &mut Dec, n: u32) -> (String, Vec<String>) {
    let l = log();
    let mut s = load(j);
    attach(&mut s, t, &l);
    set_seed(&mut s, seed);
    let mut o = String::new();
    let mut saves = vec![];
    for v in t.ints {
        let x = d.next(5) as i32;
        o += &res(s.set_variable(v, &bladeink::value_type::ValueType::Int(x)));
    }
    let ops = ops(t);
    for i in 0..n {
        // start with some lines, then any operation
        let k = if i < n / 2 { 0 } else { d.next(ops.len() as u32) as usize };
        o += &apply(&mut s, ops[k], d, None);
        o += &obs(&mut s, t);
        o += &drain(&l);
        o.push('\n');
        saves.push(save(&s));
    }
    (o, saves)
}
fn res<T>(r: Result<T, bladeink::story_error::StoryError>) -> String {
    match r {
        Ok(_) => "ok ".to_string(),
        Err(e) => format!("ERR {e} "),
    }
}

fn check(t: &Tpl, n: u32, seeds: u32, orders: u32) {
    let j = compile(t.src);
    let seed = [0, i32::MAX, 77, 1, -5][sx::choose("seed", seeds) as usize];
    let mut d = Dec::new("op");
    let (a, sa) = run(&j, t, seed, &mut d, n);
    rekey(orders);
    let j2 = compile(t.src);
    sx::check(j == j2, "compiling the same source again gives other output");
    d.rewind();
    let (b, sb) = run(&j2, t, seed, &mut d, n);
    sx::cover("compared");
    sx::note(&a);
    same(&a, &b, "the same program, seed and calls show something else");
    for (x, y) in sa.iter().zip(&sb) {
        same_json(x, y, "the same program, seed and calls save something else");
    }
    if a.contains("ERR") {
        sx::cover("failed");
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn c03_play(case: u64) {
    check(tpls(case), 6, 3, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn c03_play_deep(case: u64) {
    check(tpls(case), 10, 5, 6);
}

/// all sources of the corpus compile to the same text under every map order, and the stories play alike
#[unsafe(no_mangle)]
pub extern "C" fn c03_corpus(case: u64) {
    let (n, src, json) = CORPUS[case as usize];
    let _ = SOURCES;
    sx::note(n);
    let t = Tpl { name: "corpus", src: "", vars: &[], counts: &[], ints: &[] };
    let a = bladeink_compiler::Compiler::new().compile(src);
    let mut d = Dec::new("c");
    let jj = json.trim_start_matches('\u{feff}');
    let go = |d: &mut Dec, j: &str| {
        let mut s = load(j);
        set_seed(&mut s, 3);
        let o = play(&mut s, &t, d, 2, 30);
        (o, save(&s))
    };
    let (pa, sa) = go(&mut d, jj);
    rekey(6);
    let b = bladeink_compiler::Compiler::new().compile(src);
    match (&a, &b) {
        (Ok(x), Ok(y)) => sx::check(x == y, "compiling the same source again gives other output"),
        (Err(x), Err(y)) => sx::check(x.to_string() == y.to_string(), "compiling the same source again gives another error"),
        _ => sx::fail("compiling the same source again fails or not"),
    }
    d.rewind();
    let (pb, sb) = go(&mut d, jj);
    same(&pa, &pb, "the same program, seed and calls show something else");
    same_json(&sa, &sb, "the same program, seed and calls save something else");
    sx::cover("compared");
}

/// the list of functions the host has not bound, and other texts made from maps
#[unsafe(no_mangle)]
pub extern "C" fn c03_missing(_case: u64) {
    let src = "EXTERNAL fa(x)\nEXTERNAL fb(x)\nEXTERNAL fc(x)\nEXTERNAL fd(x)\nVAR a = 1\nVAR b = 2\nVAR c = 3\n-> top\n=== top\n~ temp t1 = 1\n~ temp t2 = 2\n~ temp t3 = 3\n{fa(1)} {fb(2)} {fc(3)} {fd(t1 + t2 + t3)}\n~ a = b\n~ b = c\n~ c = a\nend\n-> END\n";
    let j = compile(src);
    let go = || {
        let l = log();
        let mut s = load(&j);
        let t = Tpl { name: "", src: "", vars: &["a", "b", "c"], counts: &["top"], ints: &[] };
        attach(&mut s, &t, &l);
        let mut o = String::new();
        match s.cont() {
            Ok(x) => o += &x,
            Err(e) => {
                let _ = write!(o, "ERR {e}");
            }
        }
        o + &obs(&mut s, &t) + &drain(&l)
    };
    let a = go();
    rekey(6);
    let b = go();
    same(&a, &b, "a message depends on the order of a map");
    sx::cover("compared");
}
