//! C13: every error and warning is delivered exactly once, by the continue that raises it
use crate::h::*;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

const KINDS: u32 = 12;

/// source of one slot; its line is `Line i`, and what it raises depends on the global `v<i>`
fn slot(k: u32, i: usize) -> String {
    match k {
        0 => format!("Line {i}.\n"),
        1 => format!("Line {i} {{v{i} > 5:{{u{i}}}|fine}}.\n"),
        2 => format!("{{v{i} > 5:\n  ~ x = u{i}\n}}\nLine {i}.\n"),
        3 => format!("Line {i} {{6 / v{i} > 2:a|b}}.\n"),
        4 => format!("~ x = 7 % v{i}\nLine {i}.\n"),
        5 => format!("Line {i} {{v{i} == 3: -> lost}}.\n"),
        6 => format!("{{v{i} == 3: -> tun ->}}\nLine {i}.\n"),
        7 => format!("Line {i} {{v{i} == 3: -> dv}}.\n"),
        8 => format!("Line {i} {{v{i} > 5:{{u{i}}}|fine}} {{6 / (v{i} - 7) > 2:a|b}}.\n"),
        9 => format!("Line {i} {{f(v{i})}}.\n"),
        10 => format!("+ [go {{6 / v{i} > 2:a|b}}]\n- Line {i}.\n"),
        _ => format!("+ [go {{v{i} > 5:{{u{i}}}|fine}}]\n- Line {i}.\n"),
    }
}
fn warns(k: u32, v: i32) -> bool {
    matches!(k, 1 | 2 | 8 | 11) && v > 5
}
fn fails(k: u32, v: i32) -> bool {
    match k {
        3 | 4 | 10 => v == 0,
        5 | 6 | 7 | 9 => v == 3,
        8 => v == 7,
        _ => false,
    }
}

#[derive(Clone)]
enum Ev {
    /// a continue: the slot of its line, slots that warn, whether it fails
    Cont(usize, Vec<usize>, bool),
    Choose,
}
fn expected(ks: &[u32], vs: &[i32]) -> Vec<Ev> {
    let mut r: Vec<Ev> = vec![];
    for i in 0..ks.len() {
        let (k, w, f) = (ks[i], warns(ks[i], vs[i]), fails(ks[i], vs[i]));
        if k == 10 && f {
            r.push(Ev::Cont(i, vec![], true));
            return r;
        }
        if k == 11 && w {
            if let Some(Ev::Cont(_, ws, _)) = r.last_mut() {
                ws.push(i);
            }
        }
        if k >= 10 {
            r.push(Ev::Choose);
        }
        r.push(Ev::Cont(i, if w && k != 11 { vec![i] } else { vec![] }, f && k != 10));
        if f {
            return r;
        }
    }
    r
}

fn count(v: &[String], what: &str) -> usize {
    v.iter().filter(|m| m.contains(what)).count()
}
fn want(i: usize) -> String {
    format!("Variable not found: 'u{i}'")
}

/// the clock moves past any limit whenever it is looked at: a limited continue pauses after every step
static mut NOW: i64 = 1000;
#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut Timespec) -> i32 {
    unsafe {
        NOW += 1;
        (*t).s = NOW;
        (*t).ns = 0;
    }
    0
}

struct Run<'a> {
    s: &'a mut Story,
    sliced: bool,
    l: Log,
    handler: bool,
}
impl Run<'_> {
    fn set_handler(&mut self) {
        let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: self.l.clone() }));
        self.s.set_error_handler(e);
        self.handler = true;
    }
    fn cont(&mut self) -> Result<String, bladeink::story_error::StoryError> {
        if !self.sliced {
            return self.s.cont();
        }
        loop {
            self.s.continue_async(1.0)?;
            match self.s.get_current_text() {
                Ok(t) => return Ok(t),
                Err(_) => {
                    sx::check(self.l.borrow().is_empty(), "a message is delivered before the line is complete");
                    sx::cover("paused");
                }
            }
        }
    }
    /// plays along `evs`; the handler is set before continue number `h`. `seen`: warnings that stay readable
    fn play(&mut self, evs: &[Ev], h: usize, mut version: bool) {
        let mut n = 0;
        let mut seen: Vec<String> = self.s.get_current_warnings().to_vec();
        for e in evs {
            match e {
                Ev::Choose => {
                    sx::check(!self.s.can_continue(), "story goes on where a choice is expected");
                    sx::check(self.s.get_current_choices().len() == 1, "one choice is expected");
                    if self.s.choose_choice_index(0).is_err() {
                        sx::fail("the choice cannot be chosen");
                    }
                    sx::check(self.l.borrow().is_empty(), "choosing delivers a message");
                }
                Ev::Cont(i, ws, err) => {
                    if n == h {
                        self.set_handler();
                        sx::check(self.l.borrow().is_empty(), "setting a handler delivers a message");
                    }
                    n += 1;
                    sx::check(self.s.can_continue(), "story stops early");
                    let r = self.cont();
                    let log: Vec<String> = std::mem::take(&mut *self.l.borrow_mut());
                    let errs = self.s.get_current_errors().to_vec();
                    let now = self.s.get_current_warnings().to_vec();
                    for m in &log {
                        sx::note(&format!("handler: {m}"));
                    }
                    if self.handler {
                        sx::cover("handler");
                        sx::check(r.is_ok(), "continue returns Err although there is an error handler");
                        let e = count(&log, "E RUNTIME ERROR");
                        let w = count(&log, "W RUNTIME WARNING");
                        sx::check(e + w == log.len(), "a message is neither an error nor a warning");
                        sx::check(e == *err as usize, "an error is not delivered to the handler exactly once");
                        let ver = count(&log, "Version of ink");
                        sx::check(ver <= version as usize, "a version warning is delivered again");
                        if version && n == 1 && h == 0 {
                            sx::check(ver == 1, "the version warning is not delivered to the handler");
                            sx::cover("version warning delivered");
                        }
                        if ver == 1 {
                            version = false;
                        }
                        for j in ws {
                            sx::check(count(&log, &want(*j)) == 1, "a warning is not delivered to the handler exactly once");
                            sx::cover("warning delivered");
                        }
                        sx::check(w == ws.len() + ver, "a warning is delivered by a continue that does not raise it");
                    } else {
                        sx::cover("no handler");
                        sx::check(log.is_empty(), "delivered without a handler");
                        match &r {
                            Ok(_) => sx::check(!*err, "an error does not make its continue return Err"),
                            Err(e) => {
                                sx::check(*err, "a continue returns Err without an error of its own");
                                sx::check(errs.len() == 1 && errs[0].contains("RUNTIME ERROR"), "the error is not readable exactly once");
                                sx::check(e.to_string().contains(&errs[0]), "the Err does not carry the error");
                            }
                        }
                        sx::check(errs.len() == *err as usize, "errors that were not raised are readable");
                        for j in ws {
                            sx::check(count(&now, &want(*j)) == 1, "a warning is not readable exactly once");
                            sx::cover("warning readable");
                        }
                        let new = now.iter().filter(|m| !seen.contains(m)).count();
                        sx::check(new == ws.len(), "a warning that was not raised is readable");
                        seen = now;
                    }
                    if let (Ok(t), false) = (&r, *err) {
                        let line = format!("Line {i}");
                        if !t.starts_with(&line) {
                            sx::note(t);
                            sx::fail("not the expected line");
                        }
                    }
                    if *err {
                        sx::cover("error");
                        sx::check(!self.s.can_continue(), "an error does not stop the story");
                        sx::check(self.s.get_current_choices().is_empty(), "choices are offered after an error");
                    }
                }
            }
        }
        sx::check(!self.s.can_continue() && self.s.get_current_choices().is_empty(), "story goes on after its end");
    }
    /// nothing is delivered by calls on a stopped story
    fn stopped(&mut self) {
        let (e, w) = (self.s.get_current_errors().to_vec(), self.s.get_current_warnings().to_vec());
        sx::check(self.s.cont().is_err(), "a stopped story continues");
        sx::check(self.s.continue_maximally().is_ok() || !e.is_empty(), "continuing maximally fails without an error");
        sx::check(self.s.choose_choice_index(0).is_err(), "a stopped story has a choice");
        sx::check(self.l.borrow().is_empty(), "a message is delivered again");
        sx::check(self.s.get_current_errors() == &e[..], "errors do not stay readable");
        sx::check(self.s.get_current_warnings() == &w[..], "warnings do not stay readable");
    }
}

fn slots(n: usize, first: u32) {
    let mut src = String::from("VAR x = 0\nVAR dv = -> top\n");
    for i in 0..n {
        let _ = writeln!(src, "VAR v{i} = 1");
    }
    src.push_str("~ dv = 5\n-> top\n=== top\n");
    let mut ks = vec![];
    for i in 0..n {
        let k = if i == 0 { first } else { sx::choose("kind", KINDS) };
        src += &slot(k, i);
        ks.push(k);
    }
    src.push_str("-> END\n");
    for i in 0..n {
        let _ = writeln!(src, "~ temp u{i} = 1");
    }
    src.push_str("=== lost\nLost.\n=== tun\nIn tunnel.\n=== function f(a)\n{a == 3:\n  ~ return 1 / (a - 3)\n}\n~ return a > 1\n");
    let mut j = compile(&src);
    let version = sx::choose("old version", 2) == 1;
    if version {
        j = j.replacen("\"inkVersion\":21", "\"inkVersion\":20", 1);
        sx::check(j.contains("\"inkVersion\":20"), "no version in the compiled story");
    }
    let mut s = load(&j);
    if version {
        sx::check(count(s.get_current_warnings(), "Version of ink") == 1, "the version warning is not readable");
    }
    let mut vs = vec![];
    for i in 0..n {
        let v = sx::i32("v");
        sx::assume(v >= -2 && v <= 9);
        if s.set_variable(&format!("v{i}"), &bladeink::value_type::ValueType::Int(v)).is_err() {
            sx::fail("declared global cannot be set");
        }
        vs.push(v);
    }
    let evs = expected(&ks, &vs);
    let h = sx::choose("handler at", n as u32 + 1) as usize;
    let mut r = Run { s: &mut s, sliced: sx::choose("sliced", 2) == 1, l: log(), handler: false };
    r.play(&evs, if h == n { usize::MAX } else { h }, version);
    r.stopped();
    match sx::choose("then", 3) {
        0 => {
            // reset: nothing is left, everything is raised once again
            if r.s.reset_state().is_err() {
                sx::fail("reset fails");
            }
            sx::check(r.s.get_current_errors().is_empty() && r.s.get_current_warnings().is_empty(), "messages survive a reset");
            for i in 0..n {
                let _ = r.s.set_variable(&format!("v{i}"), &bladeink::value_type::ValueType::Int(vs[i]));
            }
            r.play(&evs, usize::MAX, false);
            sx::cover("reset");
        }
        1 => {
            if r.s.choose_path_string("top", true, None).is_err() {
                sx::fail("redirecting fails");
            }
            let stuck = r.s.has_error();
            sx::check(r.l.borrow().is_empty(), "redirecting delivers a message");
            if !stuck {
                // warnings that stay readable without a handler are not raised anew for the host to see
                if !r.handler && !r.s.get_current_warnings().is_empty() {
                    r.set_handler();
                }
                r.play(&evs, usize::MAX, false);
                sx::cover("redirected");
            } else {
                sx::check(r.s.cont().is_err(), "a story with an unhandled error continues");
            }
        }
        _ => {
            // a handler set after the fact gets nothing of what was reported already
            if !r.handler {
                r.set_handler();
            }
            r.stopped();
            if r.s.choose_path_string("top", true, None).is_ok() && r.s.can_continue() {
                r.play(&evs, usize::MAX, false);
                sx::cover("late handler");
            }
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn c13_two(case: u64) {
    slots(2, case as u32);
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_three(case: u64) {
    slots(3, case as u32);
}
