//! Helpers shared by the properties: building stories, observing them, playing them under decided
//! choices.
#![allow(dead_code)]
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

/// deterministic randomness for `rand` in both builds
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) };
    }
    len as isize
}

pub fn compile(src: &str) -> String {
    match bladeink_compiler::Compiler::new().compile(src) {
        Ok(j) => j,
        Err(e) => {
            sx::note(&format!("compile error: {e}"));
            sx::fail("story source does not compile")
        }
    }
}

pub fn load(json: &str) -> Story {
    match Story::new(json) {
        Ok(s) => s,
        Err(e) => {
            sx::note(&format!("load error: {e}"));
            sx::fail("compiled story does not load")
        }
    }
}

/// the first difference of two transcripts, as notes
pub fn note_diff(a: &str, b: &str) {
    sx::note(&format!("first : {a}"));
    sx::note(&format!("second: {b}"));
}
pub fn same(a: &str, b: &str, msg: &str) {
    if a.len() != b.len() {
        note_diff(a, b);
        sx::fail(msg);
    }
    let eq = a.as_bytes() == b.as_bytes();
    if sx::is_symbolic(eq as u64) {
        sx::check(eq, msg);
    } else if !eq {
        note_diff(a, b);
        sx::fail(msg);
    }
}

pub fn val(v: &ValueType) -> String {
    match v {
        ValueType::Bool(b) => format!("b:{b}"),
        ValueType::Int(i) => format!("i:{i}"),
        ValueType::Float(f) => format!("f:{f}"),
        ValueType::List(l) => format!("l:{l}"),
        ValueType::String(s) => format!("s:{}", s.string),
        ValueType::DivertTarget(p) => format!("->{p}"),
        ValueType::VariablePointer(_) => "ptr".to_string(),
    }
}

#[derive(Clone, Copy)]
pub struct Tpl {
    pub name: &'static str,
    pub src: &'static str,
    /// globals observed
    pub vars: &'static [&'static str],
    /// paths whose visit counts are observed
    pub counts: &'static [&'static str],
    /// int globals the host sets to symbolic values
    pub ints: &'static [&'static str],
}

pub fn choices(s: &Story, o: &mut String) {
    for c in s.get_current_choices() {
        let _ = write!(o, "\n * {} #{:?}", c.text, c.tags);
    }
}

pub fn vars(s: &Story, t: &Tpl, o: &mut String) {
    for v in t.vars {
        match s.get_variable(v) {
            Some(x) => {
                let _ = write!(o, "\n {v}={}", val(&x));
            }
            None => {
                let _ = write!(o, "\n {v}=none");
            }
        }
    }
    for c in t.counts {
        match s.get_visit_count_at_path_string(c) {
            Ok(n) => {
                let _ = write!(o, "\n {c}:{n}");
            }
            Err(_) => {
                let _ = write!(o, "\n {c}:err");
            }
        }
    }
}

/// everything a host can see at this point
pub fn obs(s: &mut Story, t: &Tpl) -> String {
    let mut o = core(s, t);
    let _ = write!(o, "\n err={:?} warn={:?}", s.get_current_errors(), s.get_current_warnings());
    o
}

/// the same without undelivered errors and warnings (which are not part of a save)
pub fn core(s: &mut Story, t: &Tpl) -> String {
    let mut o = String::new();
    let _ = write!(o, "can={}", s.can_continue());
    match s.get_current_text() {
        Ok(x) => {
            let _ = write!(o, " text={x}");
        }
        Err(_) => o.push_str(" text=err"),
    }
    match s.get_current_tags() {
        Ok(x) => {
            let _ = write!(o, " tags={x:?}");
        }
        Err(_) => o.push_str(" tags=err"),
    }
    choices(s, &mut o);
    vars(s, t, &mut o);
    o
}

/// one line: result of cont plus everything visible after it
pub fn step(s: &mut Story, t: &Tpl) -> String {
    let r = match s.cont() {
        Ok(x) => format!("> {x}"),
        Err(e) => format!("> ERR {e}"),
    };
    r + &obs(s, t)
}

/// decisions shared by two lockstep plays: recorded on first use, repeated on the second
#[derive(Default)]
pub struct Dec {
    pub v: Vec<u32>,
    pub pos: usize,
    pub name: &'static str,
}
impl Dec {
    pub fn new(name: &'static str) -> Dec {
        Dec { v: vec![], pos: 0, name }
    }
    pub fn next(&mut self, n: u32) -> u32 {
        if self.pos < self.v.len() {
            let r = self.v[self.pos];
            self.pos += 1;
            return if r < n { r } else { 0 };
        }
        let c = sx::choose(self.name, n);
        self.v.push(c);
        self.pos += 1;
        c
    }
    pub fn rewind(&mut self) {
        self.pos = 0;
    }
}

/// plays at most `lines` lines and `depth` choices, returning the transcript of everything visible
pub fn play(s: &mut Story, t: &Tpl, d: &mut Dec, mut depth: u32, mut lines: u32) -> String {
    let mut o = String::new();
    loop {
        while s.can_continue() {
            if lines == 0 {
                return o;
            }
            lines -= 1;
            o += &step(s, t);
            o.push('\n');
        }
        let n = s.get_current_choices().len();
        if n == 0 || depth == 0 {
            return o;
        }
        depth -= 1;
        let c = d.next(n as u32);
        let _ = write!(o, "choose {c}");
        if let Err(e) = s.choose_choice_index(c as usize) {
            let _ = write!(o, " ERR {e}");
            return o;
        }
        o += &obs(s, t);
        o.push('\n');
    }
}

pub fn set_ints(s: &mut Story, t: &Tpl, lo: i32, hi: i32) -> Vec<i32> {
    let mut r = vec![];
    for v in t.ints {
        // random numbers are not computed symbolically
        let x = if t.name == "random" {
            lo + sx::choose(v, (hi - lo + 1) as u32) as i32
        } else {
            let x = sx::i32(v);
            sx::assume(x >= lo && x <= hi);
            x
        };
        if s.set_variable(v, &ValueType::Int(x)).is_err() {
            sx::fail("declared global cannot be set");
        }
        r.push(x);
    }
    r
}

pub type Log = Rc<RefCell<Vec<String>>>;
pub fn log() -> Log {
    Rc::new(RefCell::new(vec![]))
}
pub struct Ext {
    pub log: Log,
    pub ret: fn(&[ValueType]) -> Option<ValueType>,
}
impl ExternalFunction for Ext {
    fn call(&mut self, f: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let a: Vec<String> = args.iter().map(val).collect();
        self.log.borrow_mut().push(format!("call {f}({})", a.join(",")));
        (self.ret)(&args)
    }
}
pub struct Obsr {
    pub log: Log,
    pub id: u32,
}
impl VariableObserver for Obsr {
    fn changed(&mut self, n: &str, v: &ValueType) {
        self.log.borrow_mut().push(format!("obs{} {n}={}", self.id, val(v)));
    }
}
pub struct Errs {
    pub log: Log,
}
impl ErrorHandler for Errs {
    fn error(&mut self, m: &str, t: ErrorType) {
        self.log.borrow_mut().push(format!("{} {m}", if t == ErrorType::Error { "E" } else { "W" }));
    }
}
pub fn drain(l: &Log) -> String {
    let mut v = l.borrow_mut();
    let s = v.join("\n");
    v.clear();
    s
}

/// structural equality of two JSON texts, object key order aside
pub fn same_json(a: &str, b: &str, msg: &str) {
    let (Ok(x), Ok(y)) = (serde_json::from_str::<serde_json::Value>(a), serde_json::from_str::<serde_json::Value>(b)) else {
        sx::note(a);
        sx::note(b);
        sx::fail("a save is not valid JSON");
    };
    if x != y {
        note_diff(a, b);
        sx::fail(msg);
    }
}

/// host operations of a history
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// next line, or a decided choice
    Go,
    Flow(&'static str),
    Default,
    Remove(&'static str),
    Jump(&'static str, bool, Option<i32>),
    Set(&'static str, i32),
    Eval(&'static str, &'static [i32]),
    /// save and load the save into the same story
    Reload,
    Reset,
    Maximal,
    /// jump whose arguments cannot be passed
    Nop,
}
pub fn ints(v: &[i32]) -> Vec<ValueType> {
    v.iter().map(|x| ValueType::Int(*x)).collect()
}
fn res<T: std::fmt::Debug>(r: Result<T, bladeink::story_error::StoryError>) -> String {
    match r {
        Ok(x) => format!("{x:?}"),
        Err(e) => format!("ERR {e}"),
    }
}
pub fn apply(s: &mut Story, op: Op, d: &mut Dec, seed: Option<i32>) -> String {
    let mut o = format!("[{op:?}] ");
    match op {
        Op::Go => {
            if s.can_continue() {
                o += &res(s.cont());
            } else {
                let n = s.get_current_choices().len();
                if n > 0 {
                    let c = d.next(n as u32);
                    let _ = write!(o, "choose {c} ");
                    o += &res(s.choose_choice_index(c as usize));
                }
            }
        }
        Op::Maximal => o += &res(s.continue_maximally()),
        Op::Flow(n) => o += &res(s.switch_flow(n)),
        Op::Default => s.switch_to_default_flow(),
        Op::Remove(n) => o += &res(s.remove_flow(n)),
        Op::Jump(p, reset, arg) => {
            let a = arg.map(|x| ints(&[x]));
            o += &res(s.choose_path_string(p, reset, a.as_ref()));
        }
        Op::Set(v, x) => o += &res(s.set_variable(v, &ValueType::Int(x))),
        Op::Eval(f, a) => {
            let mut txt = String::new();
            match s.evaluate_function(f, Some(&ints(a)), &mut txt) {
                Ok(v) => {
                    let _ = write!(o, "{:?} {txt:?}", v.as_ref().map(val));
                }
                Err(e) => {
                    let _ = write!(o, "ERR {e}");
                }
            }
        }
        Op::Reload => match s.save_state() {
            Ok(j) => o += &res(s.load_state(&j)),
            Err(e) => o += &format!("ERR {e}"),
        },
        Op::Reset => {
            o += &res(s.reset_state());
            let _ = seed;
        }
        Op::Nop => {}
    }
    o
}
/// `n` operations drawn from `ops`; the transcript
pub fn hist(s: &mut Story, t: &Tpl, d: &mut Dec, ops: &[Op], n: u32) -> String {
    let mut o = String::new();
    for _ in 0..n {
        let k = d.next(ops.len() as u32) as usize;
        o += &apply(s, ops[k], d, None);
        o += &core(s, t);
        o.push('\n');
    }
    o
}
/// how much of a story is left is observed by playing it: `n` times next line or choice
pub fn tail(s: &mut Story, t: &Tpl, d: &mut Dec, n: u32) -> String {
    let mut o = String::new();
    for _ in 0..n {
        if !s.can_continue() && s.get_current_choices().is_empty() {
            break;
        }
        o += &apply(s, Op::Go, d, None);
        o += &core(s, t);
        o.push('\n');
    }
    o
}
pub fn save(s: &Story) -> String {
    match s.save_state() {
        Ok(j) => j,
        Err(e) => {
            sx::note(&format!("{e}"));
            sx::fail("saving fails")
        }
    }
}
pub fn load_save(s: &mut Story, j: &str) {
    if let Err(e) = s.load_state(j) {
        sx::note(j);
        sx::note(&format!("{e}"));
        sx::fail("a save does not load");
    }
}

/// puts a story seed into a save
pub fn set_seed(s: &mut Story, seed: i32) {
    let j = save(s);
    let k = "\"storySeed\":";
    let a = j.find(k).unwrap() + k.len();
    let b = a + j[a..].find(',').unwrap();
    let j = format!("{}{}{}", &j[..a], seed, &j[b..]);
    load_save(s, &j);
}
