//! C08: slicing a continue never changes the story
use crate::c11::OBS;
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

/// the clock of the process: stands still, and jumps past any limit where a pause is decided
static mut NOW: i64 = 1000;
static mut FIRST: bool = false;
/// pauses still to be decided
static mut ARMED: u32 = 0;
/// pause after every n-th step
static mut EVERY: u32 = 0;
static mut COUNT: u32 = 0;

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut Timespec) -> i32 {
    unsafe {
        if FIRST {
            FIRST = false;
            COUNT = 0;
        } else {
            COUNT += 1;
            if EVERY > 0 {
                if COUNT >= EVERY {
                    NOW += 1;
                }
            } else if ARMED > 0 && sx::choose("pause", 2) == 1 {
                ARMED -= 1;
                NOW += 1;
            }
        }
        (*t).s = NOW;
        (*t).ns = 0;
    }
    0
}

/// a story with functions the host must not be asked for too early
const EXT: Tpl = Tpl {
    name: "ext",
    src: r#"EXTERNAL slow(v)
EXTERNAL fast(v)
VAR a = 1
VAR b = 0
-> top
=== function both(k)
~ return slow(k) + fast(k)
=== top
Line {a}.
~ a = slow(a)
After {fast(a)} <>
~ b = fast(b)
glued {slow(b)}.
~ slow(5)
Next {both(a)}.
~ temp s = "x{fast(3)}"
String {s}.
* {slow(b) > 0} one {fast(1)}
* two
  ~ a = slow(a + 1)
  In two.
+ three
- Gather {slow(a)}.
~ b = b + slow(a)
{b < 20: -> top}
-> END
"#,
    vars: &["a", "b"],
    counts: &["top"],
    ints: &["a"],
};

fn tpl(i: u64) -> &'static Tpl {
    match i {
        0 => &EXT,
        1 => &OBS,
        _ => &stories::ALL[i as usize - 2],
    }
}

struct Side {
    s: Story,
    log: Log,
}
fn side(json: &str, t: &Tpl, handler: bool) -> Side {
    let mut s = load(json);
    set_seed(&mut s, 11);
    let l = log();
    if handler {
        let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: l.clone() }));
        s.set_error_handler(e);
    }
    let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 1 }));
    for v in t.vars {
        let _ = s.observe_variable(v, o.clone());
    }
    for (f, safe) in [("slow", false), ("fast", true)] {
        let e: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Ext {
            log: l.clone(),
            ret: |a| match &a[0] {
                ValueType::Int(i) => Some(ValueType::Int(i + 1)),
                v => Some(v.clone()),
            },
        }));
        let _ = s.bind_external_function(f, e, safe);
    }
    // a flow that is there to be removed
    if s.switch_flow("spare").is_err() {
        sx::fail("a flow cannot be made");
    }
    s.switch_to_default_flow();
    Side { s, log: l }
}

/// every call that changes state is refused while a continue is unfinished
fn guards(x: &mut Side, t: &Tpl, save0: &str) {
    let s = &mut x.s;
    let l = log();
    let o: Rc<RefCell<dyn VariableObserver>> = Rc::new(RefCell::new(Obsr { log: l.clone(), id: 9 }));
    let e: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Ext { log: l.clone(), ret: |_| None }));
    let k = t.counts[0];
    let r = [
        ("choose_choice_index", s.choose_choice_index(0).is_err()),
        ("choose_path_string", s.choose_path_string(k, true, None).is_err()),
        ("choose_path_string without reset", s.choose_path_string(k, false, None).is_err()),
        ("set_variable", s.set_variable(t.vars[0], &ValueType::Int(99)).is_err()),
        ("evaluate_function", s.evaluate_function("bump", Some(&ints(&[1])), &mut String::new()).is_err()),
        ("evaluate_function 2", s.evaluate_function(k, None, &mut String::new()).is_err()),
        ("switch_flow", s.switch_flow("other").is_err()),
        ("remove_flow", s.remove_flow("spare").is_err()),
        ("switch_flow to a known one", s.switch_flow("spare").is_err()),
        ("load_state", s.load_state(save0).is_err()),
        ("reset_state", s.reset_state().is_err()),
        ("observe_variable", s.observe_variable(t.vars[0], o.clone()).is_err()),
        ("remove_variable_observer", s.remove_variable_observer(&o, None).is_err()),
        ("bind_external_function", s.bind_external_function("newone", e, true).is_err()),
        ("unbind_external_function", s.unbind_external_function("slow").is_err()),
        ("continue_maximally", s.continue_maximally().is_err()),
        ("get_current_text", s.get_current_text().is_err()),
        ("get_current_tags", s.get_current_tags().is_err()),
    ];
    for (n, err) in r {
        if !err {
            sx::note(n);
            sx::fail("a call is not refused while a time-limited continue is unfinished");
        }
    }
    s.switch_to_default_flow();
    // looking does no harm
    let mut o = String::new();
    choices(s, &mut o);
    vars(s, t, &mut o);
    let _ = (s.can_continue(), s.get_current_path(), s.get_current_errors().len(), s.has_error());
    if !l.borrow().is_empty() {
        sx::fail("a refused call has an effect");
    }
}

/// one line; `how` 0: blocking, otherwise sliced
fn line(x: &mut Side, t: &Tpl, how: u32, guard: bool, save0: &str) -> String {
    let mut o = String::new();
    let err = if how == 0 {
        x.s.cont().err()
    } else {
        let mut n = 0;
        loop {
            unsafe { FIRST = true };
            let r = if n > 0 && how == 2 { x.s.cont().map(|_| ()) } else { x.s.continue_async(5.0) };
            if let Err(e) = r {
                break Some(e);
            }
            if x.s.get_current_text().is_ok() {
                break None;
            }
            n += 1;
            sx::cover("paused");
            if n > 3000 {
                sx::fail("a time-limited continue never finishes its line");
            }
            if guard {
                guards(x, t, save0);
                sx::cover("guarded");
            }
        }
    };
    match err {
        Some(e) => {
            let _ = write!(o, "ERR {e}");
        }
        None => match x.s.get_current_text() {
            Ok(s) => {
                let _ = write!(o, "> {s}");
            }
            Err(_) => sx::fail("no text after a completed line"),
        },
    }
    o += &obs(&mut x.s, t);
    o + "\n" + &drain(&x.log) + "\n"
}

fn play1(x: &mut Side, t: &Tpl, d: &mut Dec, how: u32, guard: bool, n: u32) -> (String, String) {
    let save0 = save(&x.s);
    let mut o = String::new();
    for _ in 0..n {
        if x.s.can_continue() {
            o += &line(x, t, how, guard, &save0);
        } else {
            let k = x.s.get_current_choices().len();
            if k == 0 {
                break;
            }
            let c = d.next(k as u32);
            if let Err(e) = x.s.choose_choice_index(c as usize) {
                let _ = write!(o, "choose ERR {e}");
            }
            o += &obs(&mut x.s, t);
        }
    }
    // usable again
    if x.s.set_variable(t.vars[0], &ValueType::Int(1)).is_err() {
        sx::fail("the story does not become usable again");
    }
    let _ = drain(&x.log);
    (o, save(&x.s))
}

fn run(case: u64, n: u32, pauses: u32) {
    let t = tpl(case);
    let j = compile(t.src);
    let handler = t.name == "faults" && sx::choose("handler", 2) == 1;
    let mut a = side(&j, t, handler);
    let mut b = side(&j, t, handler);
    for v in t.ints {
        // decided here: the positions of pauses are what this entry varies
        let x = sx::choose(v, if t.name == "faults" { 10 } else { 3 }) as i32;
        let _ = a.s.set_variable(v, &ValueType::Int(x));
        let _ = b.s.set_variable(v, &ValueType::Int(x));
        if t.name != "faults" {
            break;
        }
    }
    let mut d = Dec::new("c");
    let how = 1 + sx::choose("how", 2);
    let every = if pauses == 0 { 1 + sx::choose("every", 4) } else { 0 };
    let guard = sx::choose("guards", 2) == 1;
    unsafe {
        EVERY = every;
        ARMED = pauses;
    }
    let (ob, sb) = play1(&mut b, t, &mut d, how, guard, n);
    unsafe {
        ARMED = 0;
        EVERY = 0;
    }
    d.rewind();
    let (oa, sa) = play1(&mut a, t, &mut d, 0, false, n);
    same(&oa, &ob, "the story depends on how its continues are sliced");
    same_json(&sa, &sb, "the saved state depends on how continues are sliced");
    sx::cover("compared");
}
/// one pause at any internal step
#[unsafe(no_mangle)]
pub extern "C" fn c08_one(case: u64) {
    run(case, 7, 1);
}
/// a pause after every n-th step
#[unsafe(no_mangle)]
pub extern "C" fn c08_every(case: u64) {
    run(case, 9, 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn c08_one_deep(case: u64) {
    run(case, 14, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn c08_two(case: u64) {
    run(case, 5, 2);
}
