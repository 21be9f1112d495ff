//! C05: the corpus sources compiled by this compiler against the reference-compiled stories, in
//! lockstep along every choice path.
use crate::h::*;
use crate::sx;
use bladeink::story::Story;
use bladeink::value_type::ValueType;
use std::fmt::Write;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

fn include(n: &str) -> Result<String, bladeink_compiler::CompilerError> {
    for (p, s) in SOURCES {
        if p.ends_with(n) && (p.len() == n.len() || p.as_bytes()[p.len() - n.len() - 1] == b'/') {
            return Ok(s.to_string());
        }
    }
    Err(bladeink_compiler::CompilerError::invalid_source("no such file"))
}

/// the names of the globals a compiled story declares
fn globals(json: &str) -> Vec<String> {
    fn walk(v: &serde_json::Value, o: &mut Vec<String>) {
        match v {
            serde_json::Value::Array(a) => a.iter().for_each(|x| walk(x, o)),
            serde_json::Value::Object(m) => {
                if let Some(n) = m.get("VAR=").and_then(|n| n.as_str())
                    && !m.contains_key("re")
                {
                    o.push(n.to_string());
                }
                m.values().for_each(|x| walk(x, o));
            }
            _ => {}
        }
    }
    let Ok(v) = serde_json::from_str::<serde_json::Value>(json) else { sx::fail("not JSON") };
    let mut o = vec![];
    walk(&v, &mut o);
    o.sort();
    o.dedup();
    o
}

struct Fixed(Log);
impl bladeink::story::external_functions::ExternalFunction for Fixed {
    fn call(&mut self, f: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let a: Vec<String> = args.iter().map(val).collect();
        self.0.borrow_mut().push(format!("{f}({})", a.join(",")));
        Some(ValueType::Int(a.len() as i32 + 40))
    }
}

fn open(json: &str, l: &Log, bind: bool) -> Story {
    let mut s = load(json);
    set_seed(&mut s, 3);
    if bind {
        {
            let _ = s.bind_external_function("externalFunction", std::rc::Rc::new(std::cell::RefCell::new(Fixed(l.clone()))), true);
        }
    } else {
        s.set_allow_external_function_fallbacks(true);
    }
    s
}

/// everything the statement lists
fn look(s: &mut Story, names: &[String], o: &mut String) {
    if s.can_continue() {
        match s.cont() {
            Ok(x) => {
                let _ = write!(o, "> {x}");
            }
            // the text of a message names paths, which need not agree
            Err(_) => o.push_str("> ERR"),
        }
        let _ = write!(o, "{:?}", s.get_current_tags().unwrap_or_default());
    }
    let _ = write!(o, " {}", s.can_continue());
    choices(s, o);
    for n in names {
        if let Some(v) = s.get_variable(n) {
            // targets are compared by being targets
            match v {
                ValueType::DivertTarget(_) => o.push_str("\n ->"),
                v => {
                    let _ = write!(o, "\n {n}={}", val(&v));
                }
            }
        }
    }
    o.push('\n');
}

fn pair(case: u64, depth: u32, lines: u32) {
    let (n, src, json) = CORPUS[case as usize];
    sx::note(n);
    let rj = json.trim_start_matches('\u{feff}');
    let shuffled = n.contains("shuffle");
    let j = match bladeink_compiler::Compiler::new().compile_with_file_handler(src, include) {
        Ok(j) => j,
        Err(e) => {
            sx::note(&format!("{e}"));
            sx::fail("a corpus source does not compile")
        }
    };
    let names = globals(rj);
    let mine = globals(&j);
    sx::check(names == mine, "the compiled story declares other globals than the reference story");
    let bind = src.contains("EXTERNAL") && sx::choose("bind", 2) == 0;
    let (la, lb) = (log(), log());
    let mut a = open(&j, &la, bind);
    let mut b = open(rj, &lb, bind);
    let (ga, gb) = (a.get_global_tags().unwrap_or_default(), b.get_global_tags().unwrap_or_default());
    sx::check(ga == gb, "the global tags differ from the reference story");
    let mut depth = depth;
    let mut lines = lines;
    let (mut ta, mut tb) = (String::new(), String::new());
    if shuffled {
        return shuffles(a, b, &names);
    }
    loop {
        while a.can_continue() && b.can_continue() && lines > 0 {
            lines -= 1;
            ta.clear();
            tb.clear();
            look(&mut a, &names, &mut ta);
            look(&mut b, &names, &mut tb);
            same(&ta, &tb, "the compiled story shows something else than the reference story");
            let (x, y) = (drain(&la), drain(&lb));
            same(&x, &y, "the compiled story calls its externals differently");
        }
        sx::cover("compared");
        if lines == 0 {
            return;
        }
        ta.clear();
        tb.clear();
        look(&mut a, &names, &mut ta);
        look(&mut b, &names, &mut tb);
        same(&ta, &tb, "the compiled story ends somewhere else than the reference story");
        let n = a.get_current_choices().len();
        if n == 0 || depth == 0 {
            return;
        }
        depth -= 1;
        let c = sx::choose("choice", n as u32) as usize;
        if a.choose_choice_index(c).is_err() != b.choose_choice_index(c).is_err() {
            sx::fail("a choice is refused by one story only");
        }
    }
}

/// shuffled stories are played under many seeds: every step shows the same set of possible lines,
/// and over the first round of the shuffle so do the lines seen so far (as a multiset)
fn shuffles(mut a: Story, mut b: Story, names: &[String]) {
    const SEEDS: i32 = 48;
    let go = |s: &mut Story| {
        let mut sets: Vec<Vec<String>> = vec![];
        for seed in 0..SEEDS {
            s.reset_state().unwrap_or_else(|_| sx::fail("a story cannot be reset"));
            set_seed(s, seed * 7 + 1);
            let mut seen: Vec<String> = vec![];
            for k in 0..8 {
                let mut o = String::new();
                let mut n = 0;
                loop {
                    look(s, names, &mut o);
                    n += 1;
                    if !s.can_continue() || n > 5 {
                        break;
                    }
                }
                seen.push(o);
                let mut x = if k < 3 { seen.clone() } else { seen[k..].to_vec() };
                x.sort();
                if sets.len() <= k {
                    sets.push(vec![]);
                }
                let x = x.join("|");
                if !sets[k].contains(&x) {
                    sets[k].push(x);
                }
                if s.get_current_choices().is_empty() || s.choose_choice_index(0).is_err() {
                    break;
                }
            }
        }
        for x in sets.iter_mut() {
            x.sort();
        }
        format!("{sets:?}")
    };
    let x = go(&mut a);
    let y = go(&mut b);
    same(&x, &y, "the compiled story shuffles other lines than the reference story");
    sx::cover("compared");
}

#[unsafe(no_mangle)]
pub extern "C" fn c05_pair(case: u64) {
    pair(case, 9, 600);
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_pair_deep(case: u64) {
    pair(case, 40, 4000);
}
