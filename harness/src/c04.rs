//! C04: faults of a story are errors; nothing panics, arithmetic wraps, a reset story is fresh
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

/// statements over x and y, each of them a fault for some values
const FAULTS: [&str; 64] = [
    "{x + y} {x - y} {x * y}",
    "{x / y}",
    "{x % y}",
    "{-x} {not x}",
    "{x ? y} {x !? y} {x ^ y}",
    "{x < y} {x == y} {x >= y}",
    "{x && y} {x || y}",
    "{MIN(x, y)} {MAX(x, y)} {POW(x, 2)}",
    "{FLOOR(x)} {CEILING(x)} {INT(x)} {FLOAT(x)}",
    "~ x = RANDOM(x, y)",
    "~ SEED_RANDOM(x)",
    "{LIST_RANDOM(x)}",
    "{LIST_VALUE(x)} {LIST_COUNT(x)}",
    "{LIST_MIN(x)} {LIST_MAX(x)} {LIST_ALL(x)} {LIST_INVERT(x)}",
    "{LIST_RANGE(x, y, y)}",
    "{P(x)} {P(y)}",
    "{TURNS_SINCE(x)}",
    "{READ_COUNT(x)}",
    "-> x",
    "-> x ->\nback",
    "->-> x",
    "<- side(x)\nmore",
    "~ vf = x\n{vf()}",
    "~ temp t = x\n~ t = t + y\n{t}",
    "{none()}",
    "{none() + x}",
    "{x + none()}",
    "~ x = none()\n{x}",
    "\"{none()}\" {not none()}",
    "{none(): yes|no}",
    "~ bump(x)\n{x}",
    "~ bump(y)\n~ bump(x)\n{x}{y}",
    "~ x++\n~ y--\n{x} {y}",
    "~ x += y\n{x}",
    "~ x -= y\n{x}",
    "{ext(x)}",
    "~ ext(y)\nok",
    "{fall(x)}",
    "* {x} choice\n  taken\n+ {not x} other\n- gathered",
    "* {x > y} choice {x + y}\n  taken\n* -> here\n- (here) gathered",
    "* one {x / y}[hidden {y}] # tag {x}\n  taken\n- gathered",
    "{x: yes|no} {x && y: both}",
    "{x:\n- 0: zero\n- y: why\n- else: else\n}",
    "{x == 1 || y:\n  in\n- else:\n  out\n}",
    "->->",
    "~ vf = -> main\n~ y = vf()\nafter",
    "~ vf = -> side\n{vf()} after",
    "Text {x}",
    "Text {x} <>",
    "text # tag {x} {y / x}",
    "{stopping one {x}|two {x / y}|three}",
    "{~a|b|c} {&a|b} {!a|b}",
    "-> tun(x) ->\n{x}",
    "-> tun(x) -> tun(y) ->\n{x}",
    "<- side(x)\n<- side(y)\n",
    "{CHOICE_COUNT()} {TURNS()} {TURNS_SINCE(-> side)}",
    "~ both(x, y)\n{x} {y}",
    "~ temp t = -> side\n~ t = x\n{t}",
    "{x} {\"a{x}b\" == \"a{y}b\"} {\"{x}\" ? \"{y}\"}",
    "~ x = -> side\n~ y = x\n{x == y} {x != y} {x}",
    "~ x = (p1, p3)\n~ x += y\n~ x -= (p1)\n{x} {x + 1}",
    "~ P = P + 1\n~ P++\n~ P = P - y\n{P} {Q + x}",
    "{rec(3)} {x}",
    "{x}{y}\n-> fault_end",
];
fn story(i: usize) -> String {
    let mut s = String::from(
        "LIST P = p1, (p2), p3\nLIST Q = (qa), qb = 5\nVAR x = 0\nVAR y = 0\nVAR w = 0\nVAR vf = -> none\nEXTERNAL ext(a)\nEXTERNAL fall(a)\n-> main\n=== main\nMain {w}.\n~ w = w + 1\n* go\n  Gone {w} {x}.\n* stay\n  Stayed.\n- End {P}.\n-> END\n=== function none\n~ w = w + 1\n=== function fall(a)\n~ return a + 1\n=== function bump(ref r)\n~ r = r + 1\n=== function both(ref a, ref b)\n~ temp t = a\n~ a = b\n~ b = t + a\n=== function rec(n)\n{n > 0: {rec(n - 1)}}\n~ return n / x\n=== side(a)\n* side {a}\n  taken\n-> END\n=== tun(a)\ntun {a}\n{a == 2: ->-> side(1)}\n->->\n=== fault_end\nLast.\n",
    );
    {
        let f = FAULTS[i];
        let _ = write!(s, "=== k{i}\nBegin {i}.\n{f}\nAfter.\n-> END\n=== function f{i}\n{}\n", if f.contains("->") || f.contains("* ") || f.contains("<-") { "~ return x" } else { f });
    }
    s
}
struct Plus;
impl ExternalFunction for Plus {
    fn call(&mut self, _f: &str, args: Vec<ValueType>) -> Option<ValueType> {
        match args.first() {
            Some(ValueType::Int(_)) => None,
            a => a.cloned(),
        }
    }
}
const VARS: Tpl = Tpl { name: "faulty", src: "", vars: &["x", "y", "w", "P", "Q", "vf"], counts: &["main", "side", "tun"], ints: &[] };

fn operand(s: &mut Story, n: &str) -> ValueType {
    match sx::choose(&format!("{n}.kind"), 7) {
        0 => ValueType::Int(sx::i32(n)),
        1 => ValueType::Bool(sx::boolean(n)),
        2 => {
            let f = sx::f32(n);
            // where numbers become text, they are decided
            if sx::choose(&format!("{n}.any"), 2) == 1 { ValueType::Float([0.0f32, -1.5, 1.0e30, -3.0e9, f32::INFINITY, f32::NAN][sx::choose(&format!("{n}.f"), 6) as usize]) } else { ValueType::Float(f) }
        }
        3 => ValueType::new(["", "a", "12", "main"][sx::choose(n, 4) as usize]),
        4 => s.get_variable("P").or_else(|| s.get_variable("kettle")).unwrap_or(ValueType::Int(3)),
        5 => match s.get_variable("P") {
            Some(ValueType::List(mut l)) => {
                l.items.clear();
                ValueType::List(l)
            }
            _ => ValueType::Int(-4),
        },
        _ => s.get_variable("vf").or_else(|| s.get_variable("vt")).or_else(|| s.get_variable("where")).unwrap_or(ValueType::new("x y")),
    }
}
/// ints whose text matters are decided
fn small(s: &mut Story, n: &str) -> ValueType {
    match operand(s, n) {
        ValueType::Int(_) => ValueType::Int([0, 1, 2, -1, i32::MAX, i32::MIN][sx::choose(&format!("{n}.i"), 6) as usize]),
        ValueType::Float(_) => ValueType::Float([0.0, 2.5, -1.0e30, f32::NAN][sx::choose(&format!("{n}.g"), 4) as usize]),
        v => v,
    }
}
fn new_story(json: &str, ext: u32) -> Story {
    let mut s = load(json);
    if ext > 0 {
        s.set_allow_external_function_fallbacks(true);
    }
    if ext > 1 {
        let _ = s.bind_external_function("ext", Rc::new(RefCell::new(Plus)), ext > 2);
    }
    s
}
fn fresh_play(s: &mut Story) -> String {
    let mut d = Dec::new("");
    d.v = vec![0; 4];
    let mut o = obs(s, &VARS);
    o += &play(s, &VARS, &mut d, 2, 6);
    o
}

/// every fault statement with every pair of operands
fn fault(case: u64, deep: bool) {
    let ext = if FAULTS[case as usize].contains("ext(") || FAULTS[case as usize].contains("fall(") { sx::choose("ext", 4) } else { 3 };
    let json = compile(&story(case as usize));
    let mut s = new_story(&json, ext);
    let l = log();
    let handler = sx::choose("handler", 2) == 1;
    if handler {
        s.set_error_handler(Rc::new(RefCell::new(Errs { log: l.clone() })));
    }
    // what a fresh story does
    let fl = log();
    let b = {
        let mut f = new_story(&json, ext);
        if handler {
            f.set_error_handler(Rc::new(RefCell::new(Errs { log: fl.clone() })));
        }
        fresh_play(&mut f)
    };
    let reports = drain(&fl);
    let x = if deep { operand(&mut s, "x") } else { small(&mut s, "x") };
    let y = small(&mut s, "y");
    let _ = s.set_variable("x", &x);
    let _ = s.set_variable("y", &y);
    let mut faults = 0;
    let way = sx::choose("way", 3);
    match way {
        0 => {
            if s.choose_path_string(&format!("k{case}"), true, None).is_err() {
                sx::fail("a knot cannot be reached");
            }
        }
        1 => {
            let mut out = String::new();
            if s.evaluate_function(&format!("f{case}"), None, &mut out).is_err() {
                faults += 1;
            }
        }
        _ => {
            // in the middle of the story, in another flow
            let _ = s.cont();
            let _ = s.switch_flow("other");
            if s.choose_path_string(&format!("k{case}"), false, None).is_err() {
                sx::fail("a knot cannot be reached");
            }
        }
    }
    for _ in 0..5 {
        if s.can_continue() {
            if s.cont().is_err() {
                faults += 1;
            }
        } else if !s.get_current_choices().is_empty() {
            let _ = s.choose_choice_index(0);
        } else {
            break;
        }
        if !s.get_current_errors().is_empty() {
            faults += 1;
        }
        let _ = s.get_current_text();
        let _ = s.get_current_tags();
    }
    if faults > 0 || !l.borrow().is_empty() {
        sx::cover("fault");
    }
    // what the host may do next
    match sx::choose("then", 4) {
        0 => {
            if let Ok(j) = s.save_state() {
                let _ = s.load_state(&j);
            }
            let _ = s.cont();
        }
        1 => {
            let _ = s.switch_flow("third");
            let _ = s.choose_path_string("main", true, None);
            let _ = s.cont();
            s.switch_to_default_flow();
            let _ = s.cont();
        }
        2 => {
            let mut out = String::new();
            let _ = s.evaluate_function("bump", Some(&vec![x.clone()]), &mut out);
            let _ = s.continue_maximally();
        }
        _ => {}
    }
    l.borrow_mut().clear();
    match s.reset_state() {
        Ok(()) => {}
        Err(e) => {
            sx::note(&format!("{e}"));
            sx::fail("a story cannot be reset after a fault");
        }
    }
    let a = fresh_play(&mut s);
    same(&a, &b, "a story reset after a fault plays otherwise than a fresh one");
    same(&drain(&l), &reports, "a story reset after a fault reports otherwise than a fresh one");
    sx::cover("reset compared");
}
#[unsafe(no_mangle)]
pub extern "C" fn c04_fault(case: u64) {
    fault(case, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c04_fault_deep(case: u64) {
    fault(case, true);
}

/// ints of every size through every integer operation, in the build with overflow checks
#[unsafe(no_mangle)]
pub extern "C" fn c04_wrap(_case: u64) {
    const EX: [&str; 19] = ["x + y", "x - y", "x * y", "-x", "-(x + y)", "x + y - z", "MIN(x, -y)", "x + 1", "(x - 1) == y", "wrap(x)", "wrap(x - y)", "(p2) + x", "(p2) - x", "P(x)", "FLOOR(x) + FLOOR(y)", "x + y + z", "x / y", "x % y", "x mod -y"];
    let mut src = String::from("LIST P = p1, p2, p3\nVAR x = 0\nVAR y = 0\nVAR z = 0\nVAR r = 0\n-> END\n=== function wrap(ref n)\n~ n++\n~ n += 1\n~ return n\n");
    src = src.replace("wrap(ref n)", "wrap(n)");
    for (i, e) in EX.iter().enumerate() {
        let _ = write!(src, "=== e{i}\n~ r = {e}\nok\n-> END\n=== s{i}\n~ r = {e}\n~ x++\n~ y--\n~ x += y\n~ y -= x\n~ r = x - y\nok\n-> END\n");
    }
    let mut s = load(&compile(&src));
    let i = sx::choose("op", EX.len() as u32) as usize;
    let (x, y, z) = (sx::i32("x"), sx::i32("y"), sx::i32("z"));
    for (n, v) in [("x", x), ("y", y), ("z", z)] {
        let _ = s.set_variable(n, &ValueType::Int(v));
    }
    let form = if i > 15 { 0 } else { sx::choose("form", 2) };
    if s.choose_path_string(&format!("{}{i}", ["e", "s"][form as usize]), true, None).is_err() {
        sx::fail("a knot cannot be reached");
    }
    let r = s.cont();
    // what has no quotient is an error, not a crash
    if form == 0 && i > 15 {
        let y = if i == 18 { y.wrapping_neg() } else { y };
        let none = y == 0 || (x == i32::MIN && y == -1);
        if r.is_err() {
            sx::check(none, "a division that has a quotient fails");
            sx::cover("no quotient");
            return;
        }
        sx::check(!none, "a division without a quotient has a value");
        let Some(ValueType::Int(r)) = s.get_variable("r") else { sx::fail("integer arithmetic has no integer value") };
        if none {
            return;
        }
        let want = if i == 16 { x.wrapping_div(y) } else { x.wrapping_rem(y) };
        sx::check(r == want, "a division has another value than 32-bit arithmetic gives it");
        return;
    }
    if let Err(e) = r {
        sx::note(&format!("{e}"));
        sx::fail("integer arithmetic fails");
    }
    let want = if form == 1 {
        let (x, y) = (x.wrapping_add(1), y.wrapping_sub(1));
        let x = x.wrapping_add(y);
        let y = y.wrapping_sub(x);
        x.wrapping_sub(y)
    } else {
        match i {
            0 => x.wrapping_add(y),
            1 => x.wrapping_sub(y),
            2 => x.wrapping_mul(y),
            3 => x.wrapping_neg(),
            4 => x.wrapping_add(y).wrapping_neg(),
            5 => x.wrapping_add(y).wrapping_sub(z),
            6 => {
                let m = y.wrapping_neg();
                if x < m { x } else { m }
            }
            7 => x.wrapping_add(1),
            9 => x.wrapping_add(2),
            10 => x.wrapping_sub(y).wrapping_add(2),
            14 => x.wrapping_add(y),
            15 => x.wrapping_add(y).wrapping_add(z),
            _ => {
                sx::cover("list");
                return;
            }
        }
    };
    let Some(ValueType::Int(r)) = s.get_variable("r") else { sx::fail("integer arithmetic has no integer value") };
    sx::check(r == want, "integer arithmetic does not wrap to 32 bits");
    sx::cover("wrapped");
}

/// random numbers, shuffles and turn counters with extreme seeds and bounds
#[unsafe(no_mangle)]
pub extern "C" fn c04_random(_case: u64) {
    const SRC: &str = "LIST P = (p1), (p2), p3\nVAR x = 0\nVAR y = 0\n-> main\n=== main\n{RANDOM(x, y)} {LIST_RANDOM(P)} {~a|b|c} {TURNS_SINCE(-> main)} {TURNS()}\n{shuffle once:\n- so\n- se\n}\n~ SEED_RANDOM(x)\n{RANDOM(x, y)} {~d|e} {LIST_RANDOM(P)}\n+ again -> main\n";
    const SEEDS: [i32; 7] = [0, -1, i32::MIN, i32::MAX, i32::MAX - 1, 100, -77];
    let mut s = load(&compile(SRC));
    let seed = SEEDS[sx::choose("seed", 7) as usize];
    let prev = SEEDS[sx::choose("prev", 5) as usize];
    let turn = [0, i32::MAX, -1, i32::MIN][sx::choose("turn", 4) as usize];
    let mut j = save(&s);
    for (k, v) in [("\"storySeed\":", seed), ("\"previousRandom\":", prev), ("\"turnIdx\":", turn)] {
        let Some(a) = j.find(k).map(|a| a + k.len()) else { sx::fail("a save has no random state") };
        let b = a + j[a..].find([',', '}']).unwrap();
        j = format!("{}{}{}", &j[..a], v, &j[b..]);
    }
    if s.load_state(&j).is_err() {
        sx::end();
    }
    let (x, y) = [(0, 10), (i32::MIN, i32::MAX), (i32::MIN, -1), (i32::MAX, i32::MAX), (5, 4), (0, i32::MAX), (-1, i32::MAX), (i32::MIN, 0)][sx::choose("bounds", 8) as usize];
    let _ = s.set_variable("x", &ValueType::Int(x));
    let _ = s.set_variable("y", &ValueType::Int(y));
    for _ in 0..3 {
        while s.can_continue() {
            let _ = s.cont();
        }
        if !s.get_current_choices().is_empty() {
            let _ = s.choose_choice_index(0);
            sx::cover("again");
        }
    }
    if s.reset_state().is_err() {
        sx::fail("a story cannot be reset");
    }
    let _ = s.cont();
}

/// host calls with arguments of every kind between the lines of a story
fn any_text(n: &str, deep: bool) -> String {
    let fixed = ["", ".", "..", ".^", ".^.^.^", "0", "0.0", "0.c-0", "0.0.c-0", "-1", "ka", "ka.0", "ka.99", "kb.stitch", "kb.stitch.0", "ka.c-0", "ka.0.0.0", "top.one", "global decl", "fun", "va", "DEFAULT_FLOW", "other", "nobody", "99999999999999999999", "ka..0", ".ka", "top", "start.one", "ka.0.s", "0.g-0"];
    let k = sx::choose(n, fixed.len() as u32 + 3) as usize;
    if k < fixed.len() {
        return fixed[k].to_string();
    }
    let len = (k - fixed.len()) as u32 + if deep { 3 } else { 1 };
    let mut t = vec![];
    for i in 0..len {
        let c = sx::u8(&format!("{n}.{i}"));
        sx::assume((c >= 0x20) & (c < 0x7f));
        t.push(c);
    }
    String::from_utf8(t).unwrap()
}
fn host(s: &mut Story, n: u32, deep: bool) -> bool {
    match sx::choose(&format!("op{n}"), 20) {
        0 | 1 => {
            if s.can_continue() {
                let _ = s.cont();
            } else {
                let i = sx::u8(&format!("index{n}"));
                let _ = s.choose_choice_index(i as usize);
            }
        }
        2 => {
            let p = any_text("path", deep);
            let arg = sx::choose("arg", 4);
            let v = operand(s, "a");
            let a = match arg {
                0 => None,
                1 => Some(vec![]),
                2 => Some(vec![v]),
                _ => Some(vec![v, ValueType::Int(1), ValueType::Int(2)]),
            };
            let reset = sx::choose("reset", 2) == 1;
            let _ = s.choose_path_string(&p, reset, a.as_ref());
        }
        3 => {
            let p = any_text("path", deep);
            let v = operand(s, "a");
            let a = if sx::choose("arg", 2) == 1 { Some(vec![v.clone(), v]) } else { None };
            let mut out = String::new();
            let _ = s.evaluate_function(&p, a.as_ref(), &mut out);
        }
        4 => {
            let _ = s.get_visit_count_at_path_string(&any_text("path", deep));
        }
        5 => {
            let _ = s.tags_for_content_at_path(&any_text("path", deep));
        }
        6 => {
            let _ = s.switch_flow(&any_text("path", deep));
        }
        7 => {
            let _ = s.remove_flow(&any_text("path", deep));
        }
        8 => s.switch_to_default_flow(),
        9 => {
            let k = ["va", "vt", "x", "vm", "nobody"][sx::choose("var", 5) as usize];
            let v = operand(s, "a");
            let _ = s.set_variable(k, &v);
        }
        10 => {
            let _ = s.get_variable(&any_text("path", deep));
        }
        11 => {
            let l = log();
            let _ = s.observe_variable(&any_text("path", deep), Rc::new(RefCell::new(Obsr { log: l, id: 0 })));
        }
        12 => {
            let _ = s.bind_external_function(&any_text("path", deep), Rc::new(RefCell::new(Plus)), true);
        }
        13 => {
            let _ = s.unbind_external_function(&any_text("path", deep));
        }
        14 => {
            let _ = s.reset_state();
        }
        15 => {
            if let Ok(j) = s.save_state() {
                let _ = s.load_state(&j);
            }
        }
        16 => {
            let _ = s.continue_maximally();
        }
        17 => {
            let _ = s.get_current_text();
            let _ = s.get_current_tags();
            let _ = s.get_global_tags();
            let _ = s.get_current_path();
            let _ = s.build_string_of_hierarchy();
        }
        18 => {
            let _ = s.continue_async([0.0f32, 5.0, f32::NAN, -1.0, f32::INFINITY][sx::choose("ms", 5) as usize]);
        }
        _ => {
            let l = log();
            let o = Rc::new(RefCell::new(Obsr { log: l, id: 0 }));
            let _ = s.observe_variable("va", o.clone());
            let v = any_text("path", deep);
            let _ = s.remove_variable_observer(&(o as Rc<RefCell<dyn bladeink::story::variable_observer::VariableObserver>>), if sx::choose("all", 2) == 1 { Some(&v) } else { None });
        }
    }
    true
}
fn hosts(case: u64, deep: bool) {
    let t = &stories::ALL[case as usize];
    let json = compile(t.src);
    let mut s = load(&json);
    if sx::choose("handler", 2) == 1 {
        s.set_error_handler(Rc::new(RefCell::new(Errs { log: log() })));
    }
    if !t.ints.is_empty() {
        let v = ValueType::Int(sx::choose("first", 9) as i32);
        let _ = s.set_variable(t.ints[0], &v);
    }
    let start = sx::choose("start", if deep { 6 } else { 4 });
    let mut d = Dec::new("choice");
    let _ = tail(&mut s, t, &mut d, start);
    let n = if deep { 3 } else { 2 };
    for i in 0..n {
        host(&mut s, i, deep);
        let _ = s.get_current_choices();
        let _ = s.get_current_path();
        let _ = s.can_continue();
    }
    for _ in 0..4 {
        if s.can_continue() {
            let _ = s.cont();
        } else if !s.get_current_choices().is_empty() {
            let _ = s.choose_choice_index(0);
        }
    }
    sx::cover("played on");
    if t.name == "random" {
        sx::end();
    }
    // an error is not for ever: a reset story is like a fresh one
    // (a paused line has to be finished first)
    let mut left = 3;
    while s.can_continue() && left > 0 && s.get_current_text().is_err() {
        let _ = s.cont();
        left -= 1;
    }
    if let Err(e) = s.reset_state() {
        sx::note(&format!("{e}"));
        sx::fail("a story cannot be reset");
    }
    let mut d = Dec::new("again");
    let a = play(&mut s, t, &mut d, 1, 4);
    let mut f = load(&json);
    d.rewind();
    let b = play(&mut f, t, &mut d, 1, 4);
    same(&a, &b, "a reset story plays otherwise than a fresh one");
    sx::cover("reset compared");
}
#[unsafe(no_mangle)]
pub extern "C" fn c04_host(case: u64) {
    hosts(case, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c04_host_deep(case: u64) {
    hosts(case, true);
}
