//! C17: reset equals a new story; a jump with call-stack reset abandons tunnels and threads
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::variable_observer::VariableObserver;
use std::cell::RefCell;
use std::rc::Rc;

fn attach(s: &mut Story, t: &Tpl, l: &Log, handler: bool) {
    if handler {
        let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: l.clone() }));
        s.set_error_handler(e);
    }
    let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 1 }));
    if let Some(v) = t.vars.first() {
        if s.observe_variable(v, o).is_err() {
            sx::fail("declared global cannot be observed");
        }
    }
}

fn check_reset(a: &mut Story, la: &Log, json: &str, t: &Tpl, handler: bool, n: u32) {
    if let Err(e) = a.reset_state() {
        sx::note(&format!("{e}"));
        sx::fail("reset fails");
    }
    sx::cover("reset");
    let mut b = load(json);
    let lb = log();
    attach(&mut b, t, &lb, handler);
    set_seed(a, 7);
    set_seed(&mut b, 7);
    drain(la);
    drain(&lb);
    same(&obs(a, t), &obs(&mut b, t), "reset story looks different from a new one");
    same_json(&save(a), &save(&b), "reset story saves differently from a new one");
    let mut d = Dec::new("after");
    let ta = tail(a, t, &mut d, n) + &drain(la);
    d.rewind();
    let tb = tail(&mut b, t, &mut d, n) + &drain(&lb);
    same(&ta, &tb, "reset story plays differently from a new one");
    same(&obs(a, t), &obs(&mut b, t), "reset story ends differently from a new one");
    same_json(&save(a), &save(&b), "reset story finally saves differently from a new one");
    // flows other than the default are gone
    let fa = apply(a, Op::Flow("fa"), &mut d, None) + &obs(a, t);
    let fb = apply(&mut b, Op::Flow("fa"), &mut d, None) + &obs(&mut b, t);
    same(&fa, &fb, "a flow survives a reset");
}

fn tpl(case: u64, before: u32, after: u32) {
    let t = &stories::ALL[case as usize];
    let j = compile(t.src);
    let mut a = load(&j);
    let handler = sx::choose("handler", 2) == 1;
    let l = log();
    attach(&mut a, t, &l, handler);
    set_ints(&mut a, t, 0, if t.name == "faults" { 9 } else { 4 });
    let mut d = Dec::new("c");
    let n = sx::choose("resetat", before + 1);
    for _ in 0..n {
        if !a.can_continue() && a.get_current_choices().is_empty() {
            break;
        }
        apply(&mut a, Op::Go, &mut d, None);
    }
    check_reset(&mut a, &l, &j, t, handler, after);
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_tpl(case: u64) {
    tpl(case, 12, 8);
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_tpl_deep(case: u64) {
    tpl(case, 20, 12);
}

const OPS: &[Op] = &[Op::Go, Op::Flow("fa"), Op::Jump("ka", true, None), Op::Jump("kb", false, Some(3)), Op::Set("va", 42),
    Op::Eval("pfun", &[4]), Op::Reload, Op::Reset, Op::Remove("fa"), Op::Jump("nowhere", true, None)];
fn flows(n: u32, m: u32) {
    let t = &stories::KNOTS;
    let j = compile(t.src);
    let mut a = load(&j);
    let l = log();
    attach(&mut a, t, &l, true);
    let mut d = Dec::new("h");
    hist(&mut a, t, &mut d, OPS, n);
    check_reset(&mut a, &l, &j, t, true, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_flows(_case: u64) {
    flows(3, 5);
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_flows_deep(_case: u64) {
    flows(5, 6);
}

/// an unfinished time-limited continue refuses the reset; once finished the reset is complete
#[unsafe(no_mangle)]
pub extern "C" fn c17_jump(case: u64) {
    let t = &[&stories::KNOTS, &stories::FLOWS, &stories::FUNCS][case as usize];
    let to: &[&str] = &[&["ka", "kb.stitch", "atun"][..], &["begin", "outside", "deep"][..], &["main", "main.sub"][..]][case as usize];
    let j = compile(t.src);
    let mut a = load(&j);
    let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: log() }));
    a.set_error_handler(e);
    set_ints(&mut a, t, 0, 4);
    let mut d = Dec::new("c");
    if case == 0 && sx::choose("elsewhere", 2) == 1 && a.choose_path_string("ka", true, None).is_err() {
        sx::fail("a jump to a knot is refused");
    }
    let n = sx::choose("jumpat", 9);
    for _ in 0..n {
        apply(&mut a, Op::Go, &mut d, None);
    }
    let before = save(&a);
    let p = to[sx::choose("path", to.len() as u32) as usize];
    if let Err(e) = a.choose_path_string(p, true, None) {
        sx::note(&format!("{e}"));
        sx::fail("a jump to a knot is refused");
    }
    sx::cover("jumped");
    let after = save(&a);
    let x: serde_json::Value = serde_json::from_str(&before).unwrap();
    let y: serde_json::Value = serde_json::from_str(&after).unwrap();
    if x["variablesState"] != y["variablesState"] {
        note_diff(&before, &after);
        sx::fail("a jump changes variables");
    }
    let empty = serde_json::Map::new();
    let cx = x["visitCounts"].as_object().unwrap_or(&empty);
    let cy = y["visitCounts"].as_object().unwrap_or(&empty);
    for (k, v) in cx {
        let w = cy.get(k).and_then(|w| w.as_i64()).unwrap_or(0);
        let v = v.as_i64().unwrap_or(0);
        // entering a stitch also counts its knot
        if w < v || (w > v && !k.starts_with(p) && !p.starts_with(k.as_str())) {
            note_diff(&before, &after);
            sx::fail("a jump changes visit counts of other content");
        }
    }
    if !y["evalStack"].as_array().is_some_and(|e| e.is_empty()) {
        sx::note(&after);
        sx::fail("a jump with call-stack reset keeps what was being evaluated");
    }
    let f = &y["flows"]["DEFAULT_FLOW"];
    let th = f["callstack"]["threads"].as_array().unwrap();
    if th.len() != 1 || th[0]["callstack"].as_array().unwrap().len() != 1 {
        sx::note(&after);
        sx::fail("a jump with call-stack reset keeps tunnels, threads or functions");
    }
    if !th[0]["callstack"][0]["temp"].is_null() || !f["currentChoices"].as_array().unwrap().is_empty() {
        sx::note(&after);
        sx::fail("a jump with call-stack reset keeps temporaries or choices");
    }
    // the remainder does not depend on where the jump was made from: a new story brought to the same
    // variables and counts plays the same
    let mut b = load(&j);
    let mut z = y.clone();
    z["flows"]["DEFAULT_FLOW"]["outputStream"] = serde_json::json!([]);
    load_save(&mut b, &z.to_string());
    let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: log() }));
    b.set_error_handler(e);
    let mut d = Dec::new("after");
    let ta = tail(&mut a, t, &mut d, 6);
    d.rewind();
    let tb = tail(&mut b, t, &mut d, 6);
    same(&ta, &tb, "play after a jump depends on the abandoned position");
}
