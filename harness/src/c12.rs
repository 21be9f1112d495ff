//! C12: external functions are called as bound: right arguments, order and timing
use crate::h::*;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::rc::Rc;

/// what a host sees, in order: lines and external calls
type Events = Rc<RefCell<Vec<String>>>;

struct Host {
    ev: Events,
    a: i32,
    b: i32,
}
fn int(v: &ValueType) -> i32 {
    match v {
        ValueType::Int(i) => *i,
        _ => sx::fail("an int argument arrives as something else"),
    }
}
impl ExternalFunction for Host {
    fn call(&mut self, f: &str, args: Vec<ValueType>) -> Option<ValueType> {
        match f {
            "ext" => {
                if args.len() != 2 {
                    sx::fail("wrong number of arguments");
                }
                let id = int(&args[0]);
                sx::check(int(&args[1]) == self.a, "an external receives another value than the story passed");
                self.ev.borrow_mut().push(format!("call ext {id}"));
                Some(args[1].clone())
            }
            "sum" => {
                if args.len() != 3 {
                    sx::fail("wrong number of arguments");
                }
                let id = int(&args[0]);
                sx::check(int(&args[1]) == self.a && int(&args[2]) == self.b, "arguments arrive in another order");
                self.ev.borrow_mut().push(format!("call sum {id}"));
                Some(ValueType::Int(self.b))
            }
            "kinds" => {
                let s: Vec<String> = args.iter().map(val).collect();
                self.ev.borrow_mut().push(format!("call kinds {}", s.join(",")));
                Some(ValueType::new::<&str>("ret"))
            }
            "tell" => {
                self.ev.borrow_mut().push(format!("call tell {}", int(&args[0])));
                None
            }
            "yes" => {
                self.ev.borrow_mut().push("call yes".to_string());
                Some(ValueType::Bool(true))
            }
            _ => sx::fail("another function is called"),
        }
    }
}

const HEAD: &str = r#"EXTERNAL ext(k, v)
EXTERNAL sum(k, v, w)
EXTERNAL kinds(p1, p2, p3, p4)
EXTERNAL tell(k)
EXTERNAL yes()
LIST lst = (one), two
VAR a = 0
VAR b = 0
VAR r = 0
VAR st = ""
-> top
=== function fn(k)
~ temp z = ext(k, a)
~ return z
=== function outer(k)
~ return fn(k) == a
=== tun(k)
~ temp q = ext(k, a)
Tunnel {q > 0:pos|neg} {k}.
->->
=== thr(k)
Thread {ext(k, a) > 0:pos|neg} {k}.
-> DONE
"#;
const FALLBACK: &str = r#"=== function ext(k, v)
~ return v
=== function sum(k, v, w)
~ return w
=== function kinds(p1, p2, p3, p4)
~ return "ret"
=== function tell(k)
~ temp x = k
=== function yes()
~ return true
"#;

/// (source, events); `%` is the segment's number, `@` the word for the sign of a
const SEGS: &[(&str, &[&str])] = &[
    ("Line %.\n~ r = ext(%, a)\nGot {r > 0:pos|neg} %.\n", &["line Line %.", "call ext %", "line Got @ %."]),
    ("Text {ext(%, a) > 0:pos|neg} more %.\n", &["call ext %", "line Text @ more %."]),
    ("Before %.\n~ r = sum(%, ext(1%, a), b)\nAfter %.\n", &["line Before %.", "call ext 1%", "call sum %", "line After %."]),
    ("~ r = fn(%)\nIn function {r > 0:pos|neg} %.\n", &["call ext %", "line In function @ %."]),
    ("Outer {outer(%):yes|no} %.\n", &["call ext %", "line Outer yes %."]),
    ("{ext(%, a) > 0:\n  Cond pos %.\n- else:\n  Cond neg %.\n}\n", &["call ext %", "line Cond @ %."]),
    ("-> tun(%) ->\nBack %.\n", &["call ext %", "line Tunnel @ %.", "line Back %."]),
    ("Tell %.\n~ tell(%)\n~ tell(1%)\nTold %.\n", &["line Tell %.", "call tell %", "call tell 1%", "line Told %."]),
    ("Two {ext(%, a) > 0:pos|neg} and {ext(1%, a) > 0:pos|neg} %.\n", &["call ext %", "call ext 1%", "line Two @ and @ %."]),
    ("Kinds {kinds(\"x y\", 1.5, lst, true)} %.\n", &["call kinds s:x y,f:1.5,l:one,b:true", "line Kinds ret %."]),
    ("Glue <>\n~ r = ext(%, a)\nd {r > 0:pos|neg} %.\n", &["call ext %", "line Glue d @ %."]),
    ("~ temp n% = 0\n- (loop%)\n~ n% = n% + 1\n~ tell(n%)\n{n% < 3: -> loop%}\nLooped %.\n", &["call tell 1", "call tell 2", "call tell 3", "line Looped %."]),
    ("{yes() && ext(%, a) == a: Both %.}\n", &["call yes", "call ext %", "line Both %."]),
    ("<- thr(%)\nMain %.\n", &["call ext %", "line Thread @ %.", "line Main %."]),
    ("Tagged %. # t\n~ r = ext(%, a)\nDone %.\n", &["line Tagged %.", "call ext %", "line Done %."]),
    ("* {ext(%, a) == a} Pick %\n* Other %\n- Gathered %.\n", &["call ext %", "choices Pick %|Other %", "line Pick %", "line Gathered %."]),
    ("* Opt %\n  ~ r = ext(%, a)\n  Opted {r > 0:pos|neg} %.\n- Rejoin %.\n", &["choices Opt %", "line Opt %", "call ext %", "line Opted @ %.", "line Rejoin %."]),
    // from here on: refused when the function is not look-ahead safe
    ("~ st = \"s{ext(%, a) > 0:pos|neg}\"\nString {st} %.\n", &["call ext %", "line String s@ %."]),
    ("* Text {ext(%, a) > 0:pos|neg} %\n- Chosen %.\n", &["call ext %", "choices Text @ %", "line Text @ %", "line Chosen %."]),
    ("* Fn [{fn(%) > 0:pos|neg}] %\n- Chosen %.\n", &["call ext %", "choices Fn @", "line Fn %", "line Chosen %."]),
    ("~ st = \"{outer(%):o}\" + \"{ext(1%, a) > 0:pos|neg}\"\nOuter string {st} %.\n", &["call ext %", "call ext 1%", "line Outer string o@ %."]),
];
const INSTR: u32 = 17;

fn source(k: &[u32], fallback: bool) -> String {
    let mut s = HEAD.to_string();
    if fallback {
        s += FALLBACK;
    }
    s += "=== top\n";
    for (i, x) in k.iter().enumerate() {
        s += &SEGS[*x as usize].0.replace('%', &(i + 1).to_string());
    }
    s += "-> END\n";
    s
}
fn bind(s: &mut Story, ev: &Events, a: i32, b: i32, safe: bool) {
    let h: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Host { ev: ev.clone(), a, b }));
    for f in ["ext", "sum", "kinds", "tell", "yes"] {
        if s.bind_external_function(f, h.clone(), safe).is_err() {
            sx::fail("a function cannot be bound");
        }
    }
}
fn set(s: &mut Story, a: i32, b: i32) {
    if s.set_variable("a", &ValueType::Int(a)).is_err() || s.set_variable("b", &ValueType::Int(b)).is_err() {
        sx::fail("a declared global cannot be set");
    }
}
/// plays the story, always picking the first choice; lines and choices go to the events
fn play1(s: &mut Story, ev: &Events) -> Option<String> {
    for _ in 0..40 {
        if s.can_continue() {
            match s.cont() {
                Ok(l) => {
                    // running up to an external that must wait can make an empty line, as can a loop
                    if !l.trim().is_empty() {
                        ev.borrow_mut().push(format!("line {}", l.trim_end_matches('\n')));
                    }
                }
                Err(e) => return Some(e.to_string()),
            }
        } else {
            let c = s.get_current_choices();
            if c.is_empty() {
                return None;
            }
            let t: Vec<String> = c.iter().map(|c| c.text.clone()).collect();
            ev.borrow_mut().push(format!("choices {}", t.join("|")));
            if let Err(e) = s.choose_choice_index(0) {
                return Some(e.to_string());
            }
        }
    }
    sx::fail("the story does not end")
}

fn expected(k: &[u32], a: i32, calls: bool) -> Vec<String> {
    let word = if a > 0 { "pos" } else { "neg" };
    let mut v = vec![];
    for (i, x) in k.iter().enumerate() {
        for e in SEGS[*x as usize].1 {
            if calls || !e.starts_with("call") {
                v.push(e.replace('%', &(i + 1).to_string()).replace('@', word));
            }
        }
    }
    v
}
fn check_events(got: &[String], want: &[String], msg: &str) {
    if got != want {
        note_diff(&got.join(" / "), &want.join(" / "));
        sx::fail(msg);
    }
}

fn segs(n: u32) -> Vec<u32> {
    (0..n).map(|_| sx::choose("segment", SEGS.len() as u32)).collect()
}
fn run(n: u32, handler_too: bool) {
    let k = segs(n);
    let mode = sx::choose("mode", 5);
    let src = source(&k, mode != 4);
    let json = compile(&src);
    let mut s = load(&json);
    let ev: Events = Default::default();
    let errs = log();
    let handler = handler_too && sx::choose("handler", 2) == 1;
    if handler {
        let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: errs.clone() }));
        s.set_error_handler(e);
    }
    let (a, b) = (sx::i32("a"), sx::i32("b"));
    set(&mut s, a, b);
    match mode {
        0 => {
            bind(&mut s, &ev, a, b, false);
            let bad = k.iter().position(|x| *x >= INSTR);
            let e = play1(&mut s, &ev);
            let got: Vec<String> = ev.borrow().clone();
            match bad {
                None => {
                    if e.is_some() || !errs.borrow().is_empty() {
                        sx::note(&format!("{e:?} {:?}", errs.borrow()));
                        sx::fail("a correct call of an external is an error");
                    }
                    check_events(&got, &expected(&k, a, true), "an external that is not look-ahead safe runs at another time, or not exactly once");
                    sx::cover("unsafe");
                }
                Some(i) => {
                    if (e.is_none() && !handler) || (handler && errs.borrow().len() != 1) {
                        sx::note(&got.join(" / "));
                        sx::fail("a call that is not look-ahead safe inside a string is not refused");
                    }
                    // nothing after the call happens; what came before did
                    let want = expected(&k[..i], a, true);
                    let mut got = got;
                    // (apart from what was printed of the unfinished string or line)
                    got.truncate(got.len().min(want.len()).max(if got.len() > want.len() + 1 { got.len() } else { 0 }));
                    check_events(&got, &want, "a refused call disturbs what came before it");
                    if s.can_continue() {
                        sx::fail("the story goes on after an error");
                    }
                    sx::cover("refused");
                }
            }
        }
        1 => {
            bind(&mut s, &ev, a, b, true);
            if let Some(e) = play1(&mut s, &ev) {
                sx::note(&e);
                sx::fail("a correct call of an external is an error");
            }
            let all: Vec<String> = ev.borrow().clone();
            let got: Vec<String> = all.iter().filter(|e| !e.starts_with("call")).cloned().collect();
            check_events(&got, &expected(&k, a, false), "the output depends on how often a safe function is run");
            for c in expected(&k, a, true) {
                if c.starts_with("call") && !all.contains(&c) {
                    sx::note(&c);
                    sx::fail("an executed external call never reaches the host");
                }
            }
            for c in all.iter().filter(|c| c.starts_with("call")) {
                if !expected(&k, a, true).contains(c) {
                    sx::note(c);
                    sx::fail("an external is called that the story does not call");
                }
            }
            sx::cover("safe");
        }
        2 => {
            s.set_allow_external_function_fallbacks(true);
            if let Some(e) = play1(&mut s, &ev) {
                sx::note(&e);
                sx::fail("a fallback is not used");
            }
            let got: Vec<String> = ev.borrow().clone();
            check_events(&got, &expected(&k, a, false), "the output with a fallback function differs");
            sx::cover("fallback");
        }
        _ => {
            if mode == 4 {
                s.set_allow_external_function_fallbacks(true);
            }
            // part of the functions may be bound already
            if sx::choose("some", 2) == 1 {
                let h: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Host { ev: ev.clone(), a, b }));
                let _ = s.bind_external_function("tell", h, true);
            }
            if s.cont().is_ok() && !handler {
                sx::fail("the first continue of a story with an unbound external succeeds");
            }
            if !ev.borrow().is_empty() {
                sx::fail("a story with an unbound external plays");
            }
            // binding what is missing repairs it
            let _ = s.unbind_external_function("tell");
            bind(&mut s, &ev, a, b, true);
            if handler {
                sx::end();
            }
            if let Some(e) = play1(&mut s, &ev) {
                sx::note(&e);
                sx::fail("a story does not play after its externals were bound");
            }
            let got: Vec<String> = ev.borrow().iter().filter(|e| !e.starts_with("call")).cloned().collect();
            check_events(&got, &expected(&k, a, false), "a story whose externals were bound late plays differently");
            sx::cover("unbound");
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_one(_case: u64) {
    run(1, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_two(_case: u64) {
    run(2, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_three(_case: u64) {
    run(3, true);
}

/// calls made by a function the host evaluates between continues
#[unsafe(no_mangle)]
pub extern "C" fn c12_host(_case: u64) {
    let k = [sx::choose("segment", INSTR), sx::choose("segment", INSTR)];
    let json = compile(&source(&k, true));
    let mut s = load(&json);
    let ev: Events = Default::default();
    let (a, b) = (sx::i32("a"), sx::i32("b"));
    set(&mut s, a, b);
    bind(&mut s, &ev, a, b, sx::choose("safe", 2) == 1);
    let n = sx::choose("at", 6);
    for _ in 0..n {
        if s.can_continue() {
            let _ = s.cont();
        } else if !s.get_current_choices().is_empty() {
            let _ = s.choose_choice_index(0);
        }
    }
    ev.borrow_mut().clear();
    let (f, id) = [("fn", 61), ("outer", 62)][sx::choose("f", 2) as usize];
    let mut t = String::new();
    match s.evaluate_function(f, Some(&ints(&[id])), &mut t) {
        Ok(Some(v)) => {
            if f == "fn" {
                sx::check(matches!(v, ValueType::Int(x) if x == a), "a function returns another value than its external");
            } else if val(&v) != "b:true" {
                sx::fail("a function returns another value than its external");
            }
        }
        _ => sx::fail("a function that calls an external fails"),
    }
    check_events(&ev.borrow(), &[format!("call ext {id}")], "an external called by a function of the host runs another number of times");
    sx::cover("evaluated");
}

/// values of every kind come back as they were returned
#[unsafe(no_mangle)]
pub extern "C" fn c12_values(_case: u64) {
    struct R {
        v: Option<ValueType>,
    }
    impl ExternalFunction for R {
        fn call(&mut self, _f: &str, _a: Vec<ValueType>) -> Option<ValueType> {
            self.v.clone()
        }
    }
    let kind = sx::choose("kind", 6);
    if kind == 5 {
        // nothing
        let mut s = load(&compile("EXTERNAL get()\nOne.\n~ get()\nTwo [{get()}].\n-> END\n"));
        let r: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(R { v: None }));
        if s.bind_external_function("get", r, sx::choose("safe", 2) == 1).is_err() {
            sx::fail("cannot bind");
        }
        let o = format!("{:?} {:?} {:?}", s.cont().ok(), s.cont().ok(), s.can_continue());
        if o != "Some(\"One.\\n\") Some(\"Two [].\\n\") false" {
            sx::note(&o);
            sx::fail("an external function that returns nothing prints something");
        }
        return;
    }
    let mut s = load(&compile("EXTERNAL get()\nVAR v = 0\nVAR w = 0\nOne.\n~ v = get()\n~ w = v\nTwo {w == v:same|other}.\n-> END\n"));
    let v = match kind {
        0 => ValueType::Int(sx::i32("i")),
        1 => ValueType::Bool(sx::choose("b", 2) == 1),
        2 => ValueType::Float([0.0, 1.5, -2.25, 1e9, 0.1][sx::choose("f", 5) as usize]),
        3 => {
            let mut t = String::new();
            for _ in 0..sx::choose("len", 4) {
                let c = sx::u8("c");
                sx::assume((0x20..0x7f).contains(&c));
                t.push(c as char);
            }
            ValueType::new::<&str>(&t)
        }
        _ => match s.get_variable("v") {
            Some(v) => v,
            None => sx::fail("a declared global has no value"),
        },
    };
    let r: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(R { v: Some(v.clone()) }));
    if s.bind_external_function("get", r, sx::choose("safe", 2) == 1).is_err() {
        sx::fail("cannot bind");
    }
    for want in ["One.\n", "Two same.\n"] {
        match s.cont() {
            Ok(t) if t == want => {}
            Ok(t) => {
                sx::note(&t);
                sx::fail("another line is shown");
            }
            Err(e) => {
                sx::note(&e.to_string());
                sx::fail("a returned value is an error");
            }
        }
    }
    let g = s.get_variable("w");
    let ok = match (&v, &g) {
        (ValueType::Int(x), Some(ValueType::Int(y))) => x == y,
        (ValueType::Bool(x), Some(ValueType::Bool(y))) => x == y,
        (ValueType::Float(x), Some(ValueType::Float(y))) => x == y,
        (ValueType::String(x), Some(ValueType::String(y))) => x.string == y.string,
        _ => false,
    };
    sx::check(ok, "a returned value arrives changed");
    sx::cover("returned");
}
