//! C10: flows are independent
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;

const NAMES: [&str; 3] = ["DEFAULT_FLOW", "fa", "fb"];
/// per flow: knot, variables and counts it may touch
const T: [Tpl; 3] = [
    Tpl { vars: &["vm"], counts: &[], ..stories::KNOTS },
    Tpl { vars: &["va"], counts: &["ka", "atun"], ..stories::KNOTS },
    Tpl { vars: &["vb"], counts: &["kb", "bthread", "kb.stitch"], ..stories::KNOTS },
];

fn to(s: &mut Story, f: usize) {
    if f == 0 {
        s.switch_to_default_flow();
        return;
    }
    if let Err(e) = s.switch_flow(NAMES[f]) {
        sx::note(&format!("{e}"));
        sx::fail("switching the flow fails");
    }
}
/// one operation inside a flow
fn act(s: &mut Story, f: usize, started: &mut bool, kind: u32, d: &mut Dec) -> String {
    let mut o = String::new();
    if f > 0 && (!*started || kind == 1) {
        let op = if f == 1 { Op::Jump("ka", *started, None) } else { Op::Jump("kb", *started, Some(2)) };
        o += &apply(s, op, d, None);
    } else if kind == 2 {
        o += &apply(s, Op::Eval("pfun", &[3]), d, None);
    } else {
        o += &apply(s, Op::Go, d, None);
    }
    *started = true;
    o += &core(s, &T[f]);
    o.push('\n');
    o
}

fn run(n: u32, kinds: u32, saves: bool, remove: bool) {
    let j = compile(stories::KNOTS.src);
    let mut s = load(&j);
    let mut tr: [String; 3] = Default::default();
    let mut dec: [Dec; 3] = [Dec::new("d0"), Dec::new("d1"), Dec::new("d2")];
    let mut started = [false; 3];
    let mut plan: Vec<(usize, u32, bool)> = vec![];
    for _ in 0..n {
        let f = sx::choose("flow", 3) as usize;
        to(&mut s, f);
        let kind = if kinds > 1 { sx::choose("kind", kinds) } else { 0 };
        let removed = remove && f > 0 && started[f] && sx::choose("remove", 2) == 1;
        if removed {
            // removing while elsewhere, or while in it
            if sx::choose("elsewhere", 2) == 1 {
                to(&mut s, 3 - f);
            }
            if let Err(e) = s.remove_flow(NAMES[f]) {
                sx::note(&format!("{e}"));
                sx::fail("removing an existing flow fails");
            }
            started[f] = false;
            to(&mut s, f);
            sx::cover("removed");
        }
        tr[f] += &act(&mut s, f, &mut started[f], kind, &mut dec[f]);
        plan.push((f, kind, removed));
        // away and back
        let o = core(&mut s, &stories::KNOTS);
        let sv = save(&s);
        let g = (f + 1) % 3;
        to(&mut s, g);
        to(&mut s, f);
        same(&o, &core(&mut s, &stories::KNOTS), "switching away and back changes a flow");
        let _ = sv;
        if saves && sx::choose("save", 2) == 1 {
            let sv = save(&s);
            let mut b = load(&j);
            load_save(&mut b, &sv);
            same(&o, &core(&mut b, &stories::KNOTS), "a loaded story is in another state");
            s = b;
            sx::cover("saved");
        }
    }
    // what every flow shows in the end
    let mut fin: [String; 3] = Default::default();
    for f in 0..3 {
        to(&mut s, f);
        fin[f] = core(&mut s, &T[f]);
    }
    // solo runs
    for f in 0..3 {
        let mut s = load(&j);
        to(&mut s, f);
        let mut st = false;
        let mut o = String::new();
        dec[f].rewind();
        for (g, kind, removed) in &plan {
            if *g == f {
                if *removed {
                    if s.remove_flow(NAMES[f]).is_err() {
                        sx::fail("removing an existing flow fails");
                    }
                    st = false;
                    to(&mut s, f);
                }
                o += &act(&mut s, f, &mut st, *kind, &mut dec[f]);
            }
        }
        same(&tr[f], &o, "a flow's transcript depends on other flows");
        same(&fin[f], &core(&mut s, &T[f]), "a flow ends in another state because of other flows");
    }
    sx::cover("compared");
}
#[unsafe(no_mangle)]
pub extern "C" fn c10_interleave(_case: u64) {
    run(7, 1, false, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c10_kinds(_case: u64) {
    run(4, 3, false, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c10_saves(_case: u64) {
    run(4, 1, true, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c10_remove(_case: u64) {
    run(5, 1, false, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn c10_deep(case: u64) {
    match case {
        0 => run(9, 1, false, false),
        1 => run(6, 3, false, false),
        2 => run(6, 1, true, false),
        _ => run(6, 1, true, true),
    }
}
