//! C11: observers see each committed change once, with the final value
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::ErrorHandler;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::rc::Rc;

/// changes in look-ahead, by reference, in functions, back and forth, around externals
pub const OBS: Tpl = Tpl {
    name: "obs",
    src: r#"EXTERNAL slow(v)
LIST lst = (one), two, three
VAR a = 1
VAR b = 2
VAR c = 0
VAR s = "s"
VAR d = -> top
-> top
=== function inc(ref v, by)
~ v = v + by
~ return v
=== function twice(k)
~ temp a2 = k
~ inc(a2, 1)
~ c = c + a2
~ c = c - a2
text {inc(a, 0) > 0:pos|neg}
~ return k
=== top
First line.
~ a = a + 1
~ b = b - 1
~ b = b + 1
Second <>
~ inc(c, b)
~ lst += two
glued{a > 5: much|less}.
~ temp t = twice(a)
~ a = slow(t)
~ a = a * 2
After slow.
{a == b:
  ~ s = s + "x"
}
~ c = slow(b)
Then. # tag
* {inc(c, 1) > 3} [one]
  ~ d = -> other
* two
  ~ a = 0
  ~ a = 7
  ~ a = 0
+ three
  ~ lst = ()
  -> top
- Gather.
~ b = a
-> d
=== other
Other line.
~ a++
-> END
"#,
    vars: &["a", "b", "c", "s", "d", "lst"],
    counts: &["top", "other"],
    ints: &["a", "b"],
};

type Rec = Rc<RefCell<Vec<(u32, String, ValueType)>>>;
struct Ob {
    log: Rec,
    id: u32,
}
impl VariableObserver for Ob {
    fn changed(&mut self, n: &str, v: &ValueType) {
        self.log.borrow_mut().push((self.id, n.to_string(), v.clone()));
    }
}
fn eqv(a: &ValueType, b: &ValueType) -> bool {
    match (a, b) {
        (ValueType::Int(x), ValueType::Int(y)) => x == y,
        (ValueType::Bool(x), ValueType::Bool(y)) => x == y,
        (ValueType::Float(x), ValueType::Float(y)) => x == y,
        (ValueType::String(x), ValueType::String(y)) => x.string == y.string,
        _ => val(a) == val(b),
    }
}

struct W<'a> {
    s: Story,
    t: &'a Tpl,
    log: Rec,
    obs: Vec<Rc<RefCell<dyn VariableObserver>>>,
    /// registrations: observer, variable
    reg: Vec<(u32, &'static str)>,
}
impl<'a> W<'a> {
    fn new(t: &'a Tpl, handler: bool) -> W<'a> {
        let mut j = compile(t.src);
        if !handler {
            // a story of an older compiler: there is a warning from the start
            j = j.replacen("\"inkVersion\":21", "\"inkVersion\":20", 1);
        }
        let mut s = load(&j);
        if handler {
            let e: Rc<RefCell<dyn ErrorHandler>> = Rc::new(RefCell::new(Errs { log: log() }));
            s.set_error_handler(e);
        }
        if t.name == "obs" {
            let e: Rc<RefCell<dyn ExternalFunction>> = Rc::new(RefCell::new(Ext { log: log(), ret: |a| Some(a[0].clone()) }));
            if s.bind_external_function("slow", e, sx::choose("safe", 2) == 1).is_err() {
                sx::fail("cannot bind");
            }
        }
        let log: Rec = Default::default();
        let obs = (0..3).map(|id| -> Rc<RefCell<dyn VariableObserver>> { Rc::new(RefCell::new(Ob { log: log.clone(), id })) }).collect();
        W { s, t, log, obs, reg: vec![] }
    }
    fn add(&mut self, o: u32, v: &'static str) {
        if self.reg.contains(&(o, v)) {
            return;
        }
        if self.s.observe_variable(v, self.obs[o as usize].clone()).is_err() {
            sx::fail("a declared global cannot be observed");
        }
        self.reg.push((o, v));
        if !self.log.borrow().is_empty() {
            sx::fail("registering an observer notifies");
        }
    }
    fn remove(&mut self, o: u32, v: Option<&'static str>) {
        let had = self.reg.iter().any(|r| r.0 == o && v.is_none_or(|v| v == r.1));
        let r = self.s.remove_variable_observer(&self.obs[o as usize], v);
        if had && r.is_err() {
            sx::fail("a registered observer cannot be removed");
        }
        self.reg.retain(|r| !(r.0 == o && v.is_none_or(|v| v == r.1)));
    }
    fn vals(&self) -> Vec<Option<ValueType>> {
        self.t.vars.iter().map(|v| self.s.get_variable(v)).collect()
    }
    /// notifications of one outermost continue
    fn settle(&mut self, before: &[Option<ValueType>], what: &str, several: bool) {
        let after = self.vals();
        let l: Vec<_> = self.log.borrow_mut().drain(..).collect();
        for (o, n, _) in &l {
            if !self.reg.iter().any(|r| r.0 == *o && r.1 == n) {
                sx::note(&format!("{what}: observer {o} variable {n}"));
                sx::fail("a notification reaches an observer that is not registered for the variable");
            }
        }
        for (o, v) in &self.reg {
            let i = self.t.vars.iter().position(|x| x == v).unwrap();
            let ns: Vec<_> = l.iter().filter(|x| x.0 == *o && x.1 == *v).collect();
            let (Some(b), Some(a)) = (&before[i], &after[i]) else { sx::fail("a declared global has no value") };
            if ns.len() > 1 && !several {
                sx::note(&format!("{what}: observer {o} variable {v} notified {} times", ns.len()));
                sx::fail("a variable is notified twice in one continue");
            }
            match ns.last() {
                Some(n) => sx::check(eqv(&n.2, a), "a notification carries another value than the variable has when the call returns"),
                None => {
                    let same = eqv(b, a);
                    if !sx::is_symbolic(same as u64) && !same {
                        sx::note(&format!("{what}: observer {o} variable {v}: {} -> {}", val(b), val(a)));
                    }
                    sx::check(same, "a changed variable is not notified");
                }
            }
            if !ns.is_empty() {
                sx::cover("notified");
            }
        }
    }
    fn go(&mut self, d: &mut Dec) {
        let b = self.vals();
        if self.s.can_continue() {
            let _ = self.s.cont();
            self.settle(&b, "cont", false);
        } else {
            let n = self.s.get_current_choices().len();
            if n > 0 {
                let c = d.next(n as u32);
                let _ = self.s.choose_choice_index(c as usize);
                self.settle(&b, "choose", false);
            }
        }
    }
    fn set(&mut self, v: &'static str, x: ValueType) {
        let o = self.reg.iter().filter(|r| r.1 == v).count();
        if self.s.set_variable(v, &x).is_err() {
            sx::fail("a declared global cannot be set");
        }
        let l: Vec<_> = self.log.borrow_mut().drain(..).collect();
        if l.len() != o || !self.reg.iter().filter(|r| r.1 == v).all(|r| l.iter().any(|x| x.0 == r.0 && x.1 == v)) {
            sx::note(&format!("{v}: {} notifications", l.len()));
            sx::fail("a host assignment does not notify each observer of the variable once");
        }
        for n in &l {
            sx::check(eqv(&n.2, &x), "a host assignment notifies another value");
        }
    }
}

fn story(i: u64) -> &'static Tpl {
    if i == 0 { &OBS } else { &stories::ALL[i as usize - 1] }
}

fn run(t: &Tpl, steps: u32) {
    let mut w = W::new(t, sx::choose("handler", 2) == 1);
    for (i, v) in t.vars.iter().enumerate() {
        w.add(0, v);
        if i < 2 {
            w.add(1, v);
        }
    }
    let (lo, hi) = if t.name == "obs" { (-3, 12) } else { (0, if t.name == "faults" { 9 } else { 4 }) };
    for v in t.ints {
        let x = if t.name == "random" {
            sx::choose(v, 5) as i32
        } else {
            let x = sx::i32(v);
            sx::assume(x >= lo && x <= hi);
            x
        };
        w.set(v, ValueType::Int(x));
    }
    let mut d = Dec::new("c");
    for _ in 0..steps {
        if !w.s.can_continue() && w.s.get_current_choices().is_empty() {
            break;
        }
        w.go(&mut d);
    }
}
/// every committed change along play
#[unsafe(no_mangle)]
pub extern "C" fn c11_play(case: u64) {
    run(story(case), 12);
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_play_deep(case: u64) {
    run(story(case), 22);
}

fn ops(t: &Tpl, n: u32, tail: u32) {
    let mut w = W::new(t, true);
    w.add(0, t.vars[0]);
    w.add(0, t.vars[1]);
    w.add(1, t.vars[0]);
    let f: (&str, &'static [i32]) = match t.name {
        "obs" => ("twice", &[3]),
        "flows" => ("nofun", &[]),
        _ => ("fun", &[1, 2]),
    };
    let k: &str = if t.name == "obs" { "other" } else { "ka" };
    let mut d = Dec::new("c");
    for _ in 0..n {
        let b = w.vals();
        match sx::choose("op", 13) {
            0 => w.go(&mut d),
            1 => {
                let x = sx::i32("set");
                sx::assume((-3..=12).contains(&x));
                w.set(t.vars[0], ValueType::Int(x))
            },
            2 => w.set(t.vars[1], ValueType::Int(5)),
            3 => w.remove(0, None),
            4 => w.remove(0, Some(t.vars[0])),
            5 => w.remove(1, Some(t.vars[1])),
            6 => w.remove(2, None),
            7 => w.add(2, t.vars[1]),
            8 => w.add(0, t.vars[0]),
            9 => {
                let _ = w.s.evaluate_function(f.0, Some(&ints(f.1)), &mut String::new());
                // every continue of the function is an outermost one
                w.settle(&b, "evaluate", true);
            }
            10 => {
                let _ = w.s.reset_state();
                w.log.borrow_mut().clear();
            }
            11 => {
                let j = save(&w.s);
                load_save(&mut w.s, &j);
                w.log.borrow_mut().clear();
            }
            _ => {
                let _ = w.s.choose_path_string(k, true, None);
                w.settle(&b, "jump", false);
            }
        }
    }
    for _ in 0..tail {
        w.go(&mut d);
    }
    w.set(t.vars[0], ValueType::Int(77));
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_ops(case: u64) {
    ops([&OBS, &stories::KNOTS][case as usize], 3, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_ops_deep(case: u64) {
    ops([&OBS, &stories::KNOTS][case as usize], 4, 5);
}
