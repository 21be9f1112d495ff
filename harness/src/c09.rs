//! C09: a rejected call changes nothing
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::rc::Rc;

struct Side {
    s: Story,
    log: Log,
    obs: Rc<RefCell<dyn VariableObserver>>,
}
fn side(json: &str, t: &Tpl) -> Side {
    let mut s = load(json);
    set_seed(&mut s, 3);
    let l = log();
    let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 1 }));
    for v in &t.vars[..1] {
        if s.observe_variable(v, o.clone()).is_err() {
            sx::fail("declared global cannot be observed");
        }
    }
    let e: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Ext { log: l.clone(), ret: |_| None }));
    if s.bind_external_function("ext", e, true).is_err() {
        sx::fail("cannot bind");
    }
    Side { s, log: l, obs: o }
}

const KINDS: u32 = 26;
/// makes the bad call; `false` if it does not apply here
fn bad(x: &mut Side, t: &Tpl, k: u32) -> bool {
    let s = &mut x.s;
    let stranger = || -> Rc<RefCell<dyn VariableObserver>> { Rc::new(RefCell::new(Obsr { log: log(), id: 9 })) };
    let n = s.get_current_choices().len();
    let err = match k {
        0 | 1 => {
            if s.can_continue() {
                return false;
            }
            if k == 0 { s.cont().is_err() } else { s.continue_async(5.0).is_err() }
        }
        2 => {
            let i = sx::u32("index") as usize;
            sx::assume(i >= n);
            s.choose_choice_index(i).is_err()
        }
        3 => s.choose_choice_index(usize::MAX).is_err(),
        4 => s.set_variable("undeclared", &ValueType::Int(1)).is_err(),
        5 => s.set_variable("", &ValueType::new::<&str>("x")).is_err(),
        6 => s.observe_variable("undeclared", stranger()).is_err(),
        7 => s.evaluate_function("nofun", Some(&ints(&[1])), &mut String::new()).is_err(),
        8 => s.evaluate_function([" ", ""][sx::choose("name", 2) as usize], None, &mut String::new()).is_err(),
        9 => {
            let v = s.get_variable("vt").or(s.get_variable("where"));
            let Some(v) = v else { return false };
            let f = if t.name == "knots" || t.name == "hosted" { "fun" } else { "addto" };
            s.evaluate_function(f, Some(&vec![ValueType::Int(1), v]), &mut String::new()).is_err()
        }
        10 => s.choose_path_string("nowhere", true, None).is_err(),
        11 => s.choose_path_string("nowhere.at.all", false, None).is_err(),
        12 => {
            let v = s.get_variable("vt").or(s.get_variable("where"));
            let Some(v) = v else { return false };
            let p = if t.name == "knots" || t.name == "hosted" { "ka" } else { "begin" };
            s.choose_path_string(p, sx::choose("reset", 2) == 1, Some(&vec![v])).is_err()
        }
        13 => s.remove_flow("zz").is_err(),
        14 => s.remove_flow("DEFAULT_FLOW").is_err(),
        15 => s.remove_variable_observer(&stranger(), None).is_err(),
        16 => s.remove_variable_observer(&stranger(), Some(t.vars[0])).is_err(),
        17 => s.remove_variable_observer(&x.obs, Some(t.vars[1])).is_err(),
        18 => s.remove_variable_observer(&x.obs, Some("undeclared")).is_err(),
        19 => {
            let e: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Ext { log: log(), ret: |_| None }));
            s.bind_external_function("ext", e, false).is_err()
        }
        20 => s.unbind_external_function("never").is_err(),
        21 => s.load_state(["", "{}", "[]", "{\"inkSaveVersion\":7}", "{\"inkSaveVersion\":10,\"flows\":3}"][sx::choose("save", 5) as usize]).is_err(),
        22 => {
            // a save whose last part is damaged
            let j = save(s);
            let j = match sx::choose("damage", 3) {
                0 => j[..j.len() - 1].to_string(),
                1 => j.replace("\"storySeed\":", "\"storySeed\":\"x\",\"y\":"),
                _ => j.replace("\"turnIdx\":", "\"turnIdx\":null,\"x\":"),
            };
            s.load_state(&j).is_err()
        }
        23 => {
            // a short path of symbolic characters naming nothing
            let l = 1 + sx::choose("len", 3);
            let mut p = String::new();
            for _ in 0..l {
                let c = sx::u8("ch");
                sx::assume((c as char).is_ascii_lowercase());
                p.push(c as char);
            }
            sx::assume(!(p == "ka") && !(p == "kb") && !(p == "fun") && !(p == "tun") && !(p == "top") && !(p == "two") && !(p == "say") && !(p == "pr"));
            s.choose_path_string(&p, sx::choose("reset", 2) == 1, None).is_err()
        }
        24 => s.choose_path_string(["", ".^", ".^.^.x", "^", "..", "99", "0.99.99", "-1"][sx::choose("odd", 8) as usize], true, None).is_err(),
        _ => {
            let _ = s.tags_for_content_at_path("nowhere");
            let _ = s.get_visit_count_at_path_string("nowhere");
            let _ = s.get_variable("undeclared");
            true
        }
    };
    if !err {
        // odd paths may denote something; then this is no rejected call
        if k == 24 {
            return false;
        }
        sx::note(&format!("kind {k}"));
        sx::fail("a call with a bad argument or in a wrong state is not rejected");
    }
    true
}

fn compare(a: &mut Side, b: &mut Side, t: &Tpl, k: u32, m: u32) {
    let k = format!("rejected call {k}");
    let (oa, ob) = (obs(&mut a.s, t), obs(&mut b.s, t));
    if oa != ob {
        sx::note(&k);
    }
    same(&oa, &ob, "a rejected call changes what the host sees");
    let (sa, sb) = (save(&a.s), save(&b.s));
    if sa != sb {
        sx::note(&k);
    }
    same_json(&sa, &sb, "a rejected call changes the saved state");
    let mut d = Dec::new("after");
    let mut rest = |x: &mut Side, d: &mut Dec| {
        let mut o = tail(&mut x.s, t, d, m) + &drain(&x.log);
        o += &apply(&mut x.s, Op::Set(t.vars[0], 3), d, None);
        o += &apply(&mut x.s, Op::Flow("fa"), d, None);
        o += &core(&mut x.s, t);
        o += &tail(&mut x.s, t, d, 1);
        o += &apply(&mut x.s, Op::Default, d, None);
        o += &core(&mut x.s, t);
        o + &drain(&x.log)
    };
    let ta = rest(a, &mut d);
    d.rewind();
    let tb = rest(b, &mut d);
    if ta != tb {
        sx::note(&k);
    }
    same(&ta, &tb, "a rejected call changes later play");
    same_json(&save(&a.s), &save(&b.s), "a rejected call changes the final state");
}

fn run(t: &Tpl, n: u32, m: u32, calls: u32, ops: &[Op]) {
    let j = compile(t.src);
    let mut a = side(&j, t);
    let mut b = side(&j, t);
    let mut d = Dec::new("h");
    let steps = sx::choose("at", n + 1);
    let ta = hist(&mut a.s, t, &mut d, ops, steps) + &drain(&a.log);
    d.rewind();
    let tb = hist(&mut b.s, t, &mut d, ops, steps) + &drain(&b.log);
    same(&ta, &tb, "two runs differ");
    let mut last = 0;
    for _ in 0..calls {
        last = sx::choose("call", KINDS);
        if !bad(&mut a, t, last) {
            sx::end();
        }
    }
    sx::cover("rejected");
    compare(&mut a, &mut b, t, last, m);
}
const GO: &[Op] = &[Op::Go];
#[unsafe(no_mangle)]
pub extern "C" fn c09_tpl(case: u64) {
    run(&stories::ALL[case as usize], 6, 3, 1, GO);
}
#[unsafe(no_mangle)]
pub extern "C" fn c09_tpl_deep(case: u64) {
    run(&stories::ALL[case as usize], 12, 5, 1, GO);
}
const OPS: &[Op] = &[Op::Go, Op::Flow("fa"), Op::Jump("ka", true, None), Op::Jump("kb", false, Some(3)), Op::Default];
#[unsafe(no_mangle)]
pub extern "C" fn c09_flows(_case: u64) {
    run(&stories::KNOTS, 3, 3, 1, OPS);
}
#[unsafe(no_mangle)]
pub extern "C" fn c09_flows_deep(_case: u64) {
    run(&stories::KNOTS, 4, 4, 2, OPS);
}
/// two rejected calls in a row
#[unsafe(no_mangle)]
pub extern "C" fn c09_two(_case: u64) {
    run(&stories::KNOTS, 4, 3, 2, GO);
}

/// a story that calls the host and fails in places
const HOSTED: Tpl = Tpl {
    name: "hosted",
    src: r#"EXTERNAL ext(a)
VAR x = 1
VAR y = 2
VAR vt = -> top
-> top
=== top
Line {ext(x)} one.
~ y = y + 1
{y == 4: {1 / (y - 4)}}
Two {ext(y)}.
* pick {ext(1)}
  ~ ext(7)
  Picked {y}.
* other
  -> sub ->
- Gathered {ext(x + y)}.
-> top
=== sub
Sub {ext(9)}.
->->
=== ka
In ka.
-> END
=== function fun(a, b)
~ return ext(a) + b
=== function ext(a)
~ return a
"#,
    vars: &["x", "y", "vt"],
    counts: &["top", "sub"],
    ints: &[],
};
#[unsafe(no_mangle)]
pub extern "C" fn c09_hosted(_case: u64) {
    run(&HOSTED, 5, 4, 1, GO);
}
#[unsafe(no_mangle)]
pub extern "C" fn c09_hosted_deep(_case: u64) {
    run(&HOSTED, 8, 6, 2, &[Op::Go, Op::Flow("fa"), Op::Default, Op::Jump("ka", true, None)]);
}
