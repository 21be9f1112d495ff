//! C01: compiled stories play exactly as the Ink language defines.
//!
//! A generated program exists twice: as source text, which the compiler and the runtime under test
//! turn into lines and choices, and as statements, which the reference interpreter below plays by
//! the rules of the language.
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::value_type::ValueType;
use bladeink_compiler::{Compiler, CompilerOptions};
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

// ---- programs ----

#[derive(Clone, Debug)]
enum E {
    Int(i32),
    Str(&'static str),
    Var(&'static str),
    /// read count of a knot, stitch or label
    Count(String),
    TurnsSince(String),
    ChoiceCount,
    Turns,
    Bin(&'static str, Box<E>, Box<E>),
    Not(Box<E>),
    Call(&'static str, Vec<E>),
    /// a place as a value
    Target(String),
    /// READ_COUNT of a place
    Reads(String),
    Const(&'static str, i32),
    /// items of the list, as bits
    Items(u8),
    Neg(Box<E>),
    /// a function of the language
    Fun(&'static str, Vec<E>),
    /// a string with something in it
    Fmt(&'static str, Box<E>),
}
/// text and what is printed after it
type Tg = (String, Option<E>);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Stopping,
    Cycle,
    Once,
}
#[derive(Clone, Debug)]
enum Div {
    To(String),
    /// with an argument
    With(String, Vec<E>),
    /// where a variable says
    Var(&'static str),
    Tunnel(String, Vec<E>),
    TunnelVar(&'static str),
    /// a tunnel and then somewhere else
    TunnelThen(String, String),
    Back,
    BackTo(String),
    Done,
    End,
}
#[derive(Clone, Debug)]
enum In {
    T(String),
    P(E),
    Cond(E, Vec<In>, Option<Vec<In>>),
    Seq(Kind, Vec<Vec<In>>),
    Glue,
    /// the last of a branch
    D(Div),
}
#[derive(Clone, Debug, Default)]
struct Choice {
    sticky: bool,
    fallback: bool,
    label: Option<String>,
    conds: Vec<E>,
    start: Vec<In>,
    only: Vec<In>,
    inner: Vec<In>,
    /// `[` and `]` are there
    bracket: bool,
    start_tag: Option<Tg>,
    only_tag: Option<Tg>,
    inner_tag: Option<Tg>,
    div: Option<Div>,
    body: Vec<S>,
}
#[derive(Clone, Debug)]
enum S {
    Line(Vec<In>, Vec<Tg>, Option<Div>),
    TagLine(Tg),
    Div(Div),
    Set(&'static str, E),
    Add(&'static str, i32),
    Temp(&'static str, E),
    Call(E),
    If(Vec<(Option<E>, Vec<S>)>),
    Switch(E, Vec<(E, Vec<S>)>, Option<Vec<S>>),
    Seq(Kind, Vec<Vec<S>>),
    Thread(String, Vec<E>),
    Choice(Choice),
    Gather(Option<String>),
    Return(E),
}
#[derive(Clone, Debug, PartialEq)]
enum What {
    Knot,
    Stitch,
    Function,
}
#[derive(Clone, Debug)]
struct Flow {
    what: What,
    /// the last name
    name: String,
    path: String,
    params: Vec<&'static str>,
    /// parameters by reference
    refs: bool,
    body: Vec<S>,
}
#[derive(Clone, Debug, Default)]
struct Prog {
    /// how lines are indented, which means nothing
    by: &'static str,
    globals: Vec<(&'static str, E)>,
    consts: Vec<(&'static str, i32)>,
    /// without the counts nobody asks for
    lean: bool,
    /// comments and empty lines between the lines, names in short, 0 for none
    noise: u64,
    top: Vec<S>,
    flows: Vec<Flow>,
}

// ---- as source ----

const ITEMS: [&str; 3] = ["la", "lb", "lc"];
fn items(m: u8) -> String {
    (0..3).filter(|i| m >> i & 1 != 0).map(|i| ITEMS[i]).collect::<Vec<_>>().join(", ")
}
thread_local! {
    /// the flow being written, and what decides how
    static WRITING: RefCell<(String, u64)> = RefCell::default();
}
fn decide(n: u64) -> u64 {
    WRITING.with(|w| {
        let mut w = w.borrow_mut();
        if w.1 == 0 {
            return 0;
        }
        w.1 = w.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        (w.1 >> 33) % n
    })
}
/// a name that means the same here
fn short(p: &str) -> String {
    if decide(2) == 0 {
        return p.to_string();
    }
    let here = WRITING.with(|w| w.borrow().0.clone());
    let knot = here.split('.').next().unwrap();
    for h in [here.as_str(), knot] {
        if let Some(x) = p.strip_prefix(h)
            && let Some(x) = x.strip_prefix('.')
        {
            return x.to_string();
        }
    }
    p.to_string()
}
fn op(o: &'static str) -> &'static str {
    match (o, decide(2)) {
        ("and", 1) => "&&",
        ("or", 1) => "||",
        ("mod", 1) => "%",
        ("?", 1) => "has",
        ("!?", 1) => "hasnt",
        _ => o,
    }
}
fn args(a: &[E]) -> String {
    a.iter().map(top).collect::<Vec<_>>().join(", ")
}
fn es(e: &E) -> String {
    match e {
        E::Reads(p) => format!("READ_COUNT(-> {})", short(p)),
        E::Const(c, _) => c.to_string(),
        E::Items(m) if m.count_ones() == 1 => items(*m),
        E::Items(m) => format!("({})", items(*m)),
        E::Int(i) => i.to_string(),
        E::Str(s) => format!("\"{s}\""),
        E::Var(v) => v.to_string(),
        E::Count(p) => short(p),
        E::TurnsSince(p) => format!("TURNS_SINCE(-> {})", short(p)),
        E::ChoiceCount => "CHOICE_COUNT()".into(),
        E::Turns => "TURNS()".into(),
        E::Bin(..) => format!("({})", top(e)),
        E::Neg(a) => match **a {
            E::Int(_) | E::Var(_) => format!("-{}", es(a)),
            _ => format!("-({})", top(a)),
        },
        E::Fun(f, a) => format!("{f}({})", args(a)),
        E::Fmt(s, e) => format!("\"{}{{{}}}\"", escaped(s), top(e)),
        E::Not(a) if matches!(**a, E::Count(_) | E::Var(_)) => format!("{}{}", ["not ", "!"][decide(2) as usize], es(a)),
        E::Not(a) => format!("not ({})", top(a)),
        E::Target(p) => format!("-> {}", short(p)),
        E::Call(f, a) => format!("{f}({})", a.iter().map(es).collect::<Vec<_>>().join(", ")),
    }
}
fn binds(o: &str) -> u32 {
    match o {
        "and" | "or" => 1,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 2,
        "?" | "!?" | "^" => 3,
        "+" => 4,
        "-" => 5,
        "*" => 6,
        "/" => 7,
        _ => 8,
    }
}
/// one side of an operator, between parentheses where they are needed or sometimes where not
fn side(o: &str, e: &E, right: bool) -> String {
    match e {
        E::Bin(i, ..) if (binds(i) > binds(o) || (binds(i) == binds(o) && !right)) && decide(2) == 1 => top(e),
        _ => es(e),
    }
}
/// without the outer parentheses (a lone name between them would be a list)
fn top(e: &E) -> String {
    match e {
        E::Bin(o, a, b) => {
            let (l, r) = (side(o, a, false), side(o, b, true));
            if decide(8) == 1 && !["and", "or", "mod", "?", "!?"].contains(o) { format!("{l}{o}{r}") } else { format!("{l} {} {r}", op(o)) }
        }
        _ => es(e),
    }
}
/// (a mark of exclamation behind a brace makes it a sequence)
fn behind_brace(e: &E) -> String {
    let t = top(e);
    match t.strip_prefix('!') {
        Some(t) => format!("not {t}"),
        None => t,
    }
}
fn ds(d: &Div) -> String {
    match d {
        Div::To(p) => format!("-> {}", short(p)),
        Div::With(p, a) => format!("-> {}({})", short(p), args(a)),
        Div::TunnelVar(v) => format!("-> {v} ->"),
        Div::Var(v) => format!("-> {v}"),
        Div::Tunnel(p, a) if a.is_empty() => format!("-> {p} ->"),
        Div::Tunnel(p, a) => format!("-> {p}({}) ->", args(a)),
        Div::TunnelThen(p, q) => format!("-> {p} -> {}", short(q)),
        Div::Back => "->->".into(),
        Div::BackTo(p) => format!("->-> {}", short(p)),
        Div::Done => "-> DONE".into(),
        Div::End => "-> END".into(),
    }
}
fn mark(k: Kind) -> &'static str {
    match k {
        Kind::Stopping => "",
        Kind::Cycle => "&",
        Kind::Once => "!",
    }
}
fn ins(v: &[In]) -> String {
    let mut o = String::new();
    for (k, i) in v.iter().enumerate() {
        match i {
            In::T(t) => o += &escaped(t),
            In::P(e) => {
                let _ = write!(o, "{{{}}}", behind_brace(e));
            }
            In::Cond(e, a, b) => {
                let _ = write!(o, "{{{}: {}", behind_brace(e), ins(a));
                if let Some(b) = b {
                    let _ = write!(o, "|{}", ins(b));
                }
                o += "}";
            }
            In::Seq(k, a) => {
                let _ = write!(o, "{{{}{}}}", mark(*k), a.iter().map(|a| ins(a)).collect::<Vec<_>>().join("|"));
            }
            In::Glue => o += "<>",
            In::D(d) => {
                if k > 0 {
                    o += " ";
                }
                o += &ds(d);
            }
        }
    }
    o
}
fn escaped(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        if "|{}#[]\\<>~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
fn tag(o: &mut String, t: &Option<Tg>) {
    if let Some(t) = t {
        let _ = write!(o, " # {}", tg(t));
    }
}
fn tg(t: &Tg) -> String {
    match &t.1 {
        Some(e) => format!("{} {{{}}}", escaped(&t.0), top(e)),
        None => escaped(&t.0),
    }
}
fn pad(o: &mut String, depth: usize, by: &str) {
    for _ in 0..depth {
        *o += by;
    }
}
fn block(o: &mut String, b: &[S], depth: usize, by: &str) {
    let mut behind = false;
    for (k, s) in b.iter().enumerate() {
        // (what follows a dash on its line needs no room before it)
        if !(k == 0 && o.ends_with("- ")) && !behind {
            pad(o, depth, by);
        }
        behind = false;
        match s {
            S::Line(v, tags, d) => {
                *o += &ins(v);
                for t in tags {
                    let _ = write!(o, " # {}", tg(t));
                }
                if let Some(d) = d {
                    // (the text before it ends with one space, however it is written)
                    let gap = match (by, v.last()) {
                        ("", Some(In::T(_))) => "",
                        ("\t", _) => "  ",
                        _ => " ",
                    };
                    let _ = write!(o, "{gap}{}", ds(d));
                }
            }
            S::TagLine(t) => {
                let _ = write!(o, "# {}", tg(t));
            }
            S::Div(d) => *o += &ds(d),
            S::Set(v, e) => {
                let gap = ["", " "][(decide(4) != 1) as usize];
                let _ = match e {
                    E::Bin(op, a, b) if ["+", "-"].contains(op) && matches!(**a, E::Var(x) if x == *v) && decide(2) == 1 => write!(o, "~{gap}{v} {op}= {}", top(b)),
                    _ => write!(o, "~{gap}{v}{gap}={gap}{}", top(e)),
                };
            }
            S::Add(v, n) => match n {
                1 => {
                    let _ = write!(o, "~ {v}++");
                }
                -1 => {
                    let _ = write!(o, "~ {v}--");
                }
                n if *n < 0 => {
                    let _ = write!(o, "~ {v} -= {}", -n);
                }
                n => {
                    let _ = write!(o, "~ {v} += {n}");
                }
            },
            S::Temp(v, e) => {
                let _ = write!(o, "~ temp {v} = {}", top(e));
            }
            S::Call(e) => {
                let _ = write!(o, "~ {}", es(e));
            }
            S::If(b) => {
                // the first condition may stand after the brace
                let mut rest = &b[..];
                if by.len() < 2 && b.len() <= 2 && b[1..].iter().all(|b| b.0.is_none()) {
                    let _ = writeln!(o, "{{ {}:", behind_brace(b[0].0.as_ref().unwrap()));
                    block(o, &b[0].1, depth, by);
                    rest = &b[1..];
                } else {
                    *o += "{\n";
                }
                for (c, b) in rest {
                    match c {
                        Some(c) => {
                            pad(o, depth, by);
                            let _ = writeln!(o, "- {}:", top(c));
                        }
                        None => {
                            pad(o, depth, by);
                            *o += ["- else:\n", "-else:\n", "-  else :\n"][decide(3) as usize];
                        }
                    }
                    block(o, b, depth, by);
                }
                pad(o, depth, by);
                *o += "}";
            }
            S::Switch(e, c, d) => {
                let _ = writeln!(o, "{{ {}:", top(e));
                for (c, b) in c {
                    pad(o, depth, by);
                    let _ = writeln!(o, "- {}:", top(c));
                    block(o, b, depth, by);
                }
                if let Some(b) = d {
                    pad(o, depth, by);
                    *o += ["- else:\n", "-else:\n", "-  else :\n"][decide(3) as usize];
                    block(o, b, depth, by);
                }
                pad(o, depth, by);
                *o += "}";
            }
            S::Seq(k, b) => {
                let _ = writeln!(
                    o,
                    "{{ {}:",
                    match k {
                        Kind::Stopping => "stopping",
                        Kind::Cycle => "cycle",
                        Kind::Once => "once",
                    }
                );
                for b in b {
                    pad(o, depth, by);
                    *o += "- ";
                    block(o, b, depth, by);
                }
                pad(o, depth, by);
                *o += "}";
            }
            S::Thread(p, a) => {
                let _ = write!(o, "<- {p}");
                if !a.is_empty() {
                    let _ = write!(o, "({})", args(a));
                }
            }
            S::Choice(c) => {
                let tight = decide(4) == 1;
                for _ in 0..=depth {
                    *o += if c.sticky { "+" } else { "*" };
                    if !tight {
                        *o += " ";
                    }
                }
                if let Some(l) = &c.label {
                    let _ = write!(o, "{}({l}) ", if decide(4) == 1 { " " } else { "" });
                }
                for (k, e) in c.conds.iter().enumerate() {
                    let gap = if k + 1 < c.conds.len() && decide(3) == 1 { "\n   " } else { " " };
                    let _ = write!(o, "{{{}}}{gap}", top(e));
                }
                *o += &ins(&c.start);
                tag(o, &c.start_tag);
                if c.bracket {
                    if c.start_tag.is_some() {
                        *o += " ";
                    }
                    *o += "[";
                    *o += &ins(&c.only);
                    tag(o, &c.only_tag);
                    *o += "]";
                    *o += &ins(&c.inner);
                    tag(o, &c.inner_tag);
                }
                if c.fallback && c.div.is_none() {
                    *o += " ->";
                }
                if let Some(d) = &c.div {
                    let _ = write!(o, " {}", ds(d));
                }
                *o += "\n";
                block(o, &c.body, depth + 1, by);
                continue;
            }
            S::Gather(l) => {
                let tight = decide(4) == 1;
                for _ in 0..=depth {
                    *o += if tight { "-" } else { "- " };
                }
                if let Some(l) = l {
                    let _ = write!(o, "({l})");
                }
                // a line, or a choice, may stand right behind it
                match b.get(k + 1) {
                    Some(S::Line(..) | S::Set(..) | S::Add(..) | S::Choice(_) | S::Div(_) | S::Thread(..) | S::TagLine(_)) if decide(3) == 1 => {
                        if tight || l.is_some() {
                            *o += " ";
                        }
                        behind = true;
                        continue;
                    }
                    _ => {}
                }
            }
            S::Return(e) => {
                let _ = write!(o, "~ return {}", top(e));
            }
        }
        *o += "\n";
    }
}
fn source(p: &Prog) -> String {
    WRITING.with(|w| *w.borrow_mut() = (String::new(), p.noise));
    let mut o = String::new();
    for (v, e) in &p.consts {
        let _ = writeln!(o, "CONST {v} = {e}");
    }
    for (v, e) in &p.globals {
        let _ = match e {
            E::Items(m) => writeln!(o, "LIST {v} = {}", (0..3).map(|i| if m >> i & 1 != 0 { format!("({})", ITEMS[i]) } else { ITEMS[i].to_string() }).collect::<Vec<_>>().join(", ")),
            e => writeln!(o, "VAR {v} = {}", es(e)),
        };
    }
    block(&mut o, &p.top, 0, p.by);
    for f in &p.flows {
        WRITING.with(|w| w.borrow_mut().0 = f.path.clone());
        let ps: Vec<String> = f.params.iter().map(|p| if f.refs { format!("ref {p}") } else if *p == "w" { "-> w".to_string() } else { p.to_string() }).collect();
        let ps = if ps.is_empty() { if f.what == What::Function { "()".to_string() } else { String::new() } } else { format!("({})", ps.join(", ")) };
        let _ = match f.what {
            What::Knot => writeln!(o, "{}{}{ps}{}", ["=== ", "== ", "==", "====  "][decide(4) as usize], f.name, [" ===", "", " ==", "==="][decide(4) as usize]),
            What::Stitch => writeln!(o, "{}{}{ps}", ["= ", "=", "=  "][decide(3) as usize], f.name),
            What::Function => writeln!(o, "{}function {}{ps}{}", ["=== ", "== ", "==", "=== "][decide(4) as usize], f.name, [" ===", "", " ==", "==="][decide(4) as usize]),
        };
        block(&mut o, &f.body, 0, p.by);
    }
    if p.noise == 0 {
        return o;
    }
    // what means nothing
    let mut n = String::new();
    for l in o.lines() {
        // (within the conditions of a choice)
        let cut = l.starts_with("   {") && n.trim_end().ends_with('}');
        match decide(if cut { 1 } else { 24 }) {
            1 => n += "\n",
            2 => n += "// it is - {said}\n",
            3 => n += "/* one\n * two */\n",
            4 => n += "    \n",
            5 => n += "/* before */ ",
            // (before the first case of a block there is no place for it)
            6 if !cut && !n.trim_end().trim_end_matches("// so").trim_end_matches("/* so */").trim_end().ends_with([':', '{']) => n += "TODO: {it} -> is * said\n",
            _ => {}
        }
        n += l;
        // (spaces at the end of a choice are a part of its text)
        match decide(if l.trim_start().starts_with(['*', '+']) { 1 } else { 16 }) {
            1 => n += " // so",
            2 => n += " /* so */",
            3 => n += "  ",
            _ => {}
        }
        n += "\n";
    }
    n
}

// ---- the reference interpreter: the program as a list of steps ----

#[derive(Clone, Debug)]
struct Point {
    once: bool,
    fallback: bool,
    conds: Vec<E>,
    /// where its text is made: ends with Op::EndText
    text: usize,
    /// where the flow goes on once it is chosen
    chosen: usize,
    /// counter of how often it was chosen
    count: usize,
}
#[derive(Clone, Debug)]
enum Op {
    Text(String),
    Line,
    Glue,
    Tag(Tg),
    Print(E),
    Jump(usize),
    Unless(E, usize),
    Seq(Kind, usize, Vec<usize>, usize),
    Visit(usize),
    Goto(String),
    With(String, Vec<E>),
    GotoVar(&'static str),
    Tunnel(String, Vec<E>),
    TunnelVar(&'static str),
    Back(Option<String>),
    Done,
    End,
    Thread(String, Vec<E>),
    Set(&'static str, E),
    Temp(&'static str, E),
    /// a subject of a switch, kept under a name
    Do(E),
    Choice(Point),
    EndText,
    Return(E),
    /// no more content
    Out,
}
#[derive(Default)]
struct Code {
    ops: Vec<Op>,
    /// path -> (where it starts, its counter)
    places: Vec<(String, usize, usize)>,
    /// knots and stitches: where they start and end, and their counter
    regions: Vec<(usize, usize, usize)>,
    counters: usize,
    /// the last place that can be jumped to
    joined: usize,
    flows: Vec<(String, Vec<&'static str>, bool)>,
    flow: String,
}
impl Code {
    /// a place that can be jumped to
    fn at(&mut self) -> usize {
        self.joined = self.ops.len();
        self.joined
    }
    fn push(&mut self, o: Op) -> usize {
        // text is one piece from one thing to the next
        if self.joined < self.ops.len()
            && let (Some(Op::Text(a)), Op::Text(b)) = (self.ops.last_mut(), &o)
        {
            *a += b;
            return self.ops.len() - 1;
        }
        self.ops.push(o);
        self.ops.len() - 1
    }
    fn counter(&mut self) -> usize {
        self.counters += 1;
        self.counters - 1
    }
    fn div(&mut self, d: &Div) {
        let o = match d {
            Div::To(p) => Op::Goto(p.clone()),
            Div::With(p, e) => Op::With(p.clone(), e.clone()),
            Div::Var(v) => Op::GotoVar(v),
            Div::TunnelVar(v) => Op::TunnelVar(v),
            Div::Tunnel(p, e) => Op::Tunnel(p.clone(), e.clone()),
            Div::TunnelThen(p, q) => {
                for p in p.split(" -> ") {
                    self.push(Op::Tunnel(p.into(), vec![]));
                }
                Op::Goto(q.clone())
            }
            Div::Back => Op::Back(None),
            Div::BackTo(p) => Op::Back(Some(p.clone())),
            Div::Done => Op::Done,
            Div::End => Op::End,
        };
        self.push(o);
    }
    fn ins(&mut self, v: &[In]) {
        for (k, i) in v.iter().enumerate() {
            match i {
                In::T(t) => {
                    self.push(Op::Text(t.clone()));
                }
                In::P(e) => {
                    self.push(Op::Print(e.clone()));
                }
                In::Cond(e, a, b) => {
                    let u = self.push(Op::Unless(e.clone(), 0));
                    // (the space after the colon is a part of the text)
                    if !a.is_empty() {
                        self.push(Op::Text(" ".into()));
                    }
                    self.ins(a);
                    let j = self.push(Op::Jump(0));
                    self.ops[u] = Op::Unless(e.clone(), self.at());
                    if let Some(b) = b {
                        self.ins(b);
                    }
                    self.ops[j] = Op::Jump(self.at());
                }
                In::Seq(kind, a) => {
                    let c = self.counter();
                    let s = self.push(Op::Line);
                    let mut at = vec![];
                    let mut ends = vec![];
                    for a in a {
                        at.push(self.at());
                        self.ins(a);
                        ends.push(self.push(Op::Jump(0)));
                    }
                    let end = self.at();
                    for e in ends {
                        self.ops[e] = Op::Jump(end);
                    }
                    self.ops[s] = Op::Seq(*kind, c, at, end);
                }
                In::Glue => {
                    self.push(Op::Glue);
                }
                In::D(d) => {
                    // one space between text and a divert on its line
                    if k > 0 {
                        self.push(Op::Text(" ".into()));
                    }
                    self.div(d)
                }
            }
        }
    }
    fn calls(v: &E) -> bool {
        match v {
            E::Call(..) | E::Fun(..) | E::TurnsSince(_) | E::Reads(_) | E::ChoiceCount | E::Turns => true,
            E::Bin(_, a, b) => Self::calls(a) || Self::calls(b),
            E::Not(a) | E::Neg(a) | E::Fmt(_, a) => Self::calls(a),
            _ => false,
        }
    }
    fn label(&mut self, l: &str, at: usize, c: usize) {
        self.places.push((format!("{}.{l}", self.flow), at, c));
    }
    /// steps of a block; returns the places where its loose ends are to be joined
    fn block(&mut self, b: &[S]) -> Vec<usize> {
        let mut loose: Vec<usize> = vec![];
        let mut choices = false;
        for s in b {
            match s {
                S::Line(v, tags, d) => {
                    self.ins(v);
                    for t in tags {
                        self.push(Op::Text(" ".into()));
                        self.push(Op::Tag(t.clone()));
                    }
                    if let Some(d) = d {
                        if tags.is_empty() {
                            self.push(Op::Text(" ".into()));
                        }
                        self.div(d);
                    }
                    self.push(Op::Line);
                }
                S::TagLine(t) => {
                    self.push(Op::Tag(t.clone()));
                }
                S::Div(d) => self.div(d),
                S::Set(v, e) => {
                    self.push(Op::Set(v, e.clone()));
                    if Self::calls(e) {
                        self.push(Op::Line);
                    }
                }
                S::Add(v, n) => {
                    self.push(Op::Set(v, E::Bin("+", Box::new(E::Var(v)), Box::new(E::Int(*n)))));
                }
                S::Temp(v, e) => {
                    self.push(Op::Temp(v, e.clone()));
                    if Self::calls(e) {
                        self.push(Op::Line);
                    }
                }
                S::Call(e) => {
                    self.push(Op::Do(e.clone()));
                    self.push(Op::Line);
                }
                S::If(br) => {
                    let mut ends = vec![];
                    for (c, b) in br {
                        let u = c.as_ref().map(|c| (self.push(Op::Unless(c.clone(), 0)), c.clone()));
                        self.push(Op::Line);
                        self.block(b);
                        ends.push(self.push(Op::Jump(0)));
                        if let Some((u, c)) = u {
                            self.ops[u] = Op::Unless(c, self.at());
                        }
                    }
                    let end = self.at();
                    for e in ends {
                        self.ops[e] = Op::Jump(end);
                    }
                    self.push(Op::Line);
                }
                S::Switch(e, cs, d) => {
                    let mut br: Vec<(Option<E>, Vec<S>)> = cs.iter().map(|(c, b)| (Some(E::Bin("==", Box::new(e.clone()), Box::new(c.clone()))), b.clone())).collect();
                    if let Some(d) = d {
                        br.push((None, d.clone()));
                    }
                    self.block(&[S::If(br)]);
                }
                S::Seq(kind, bs) => {
                    let c = self.counter();
                    let s = self.push(Op::Line);
                    let mut at = vec![];
                    let mut ends = vec![];
                    for b in bs {
                        at.push(self.at());
                        self.push(Op::Line);
                        self.block(b);
                        ends.push(self.push(Op::Jump(0)));
                    }
                    let end = self.at();
                    for e in ends {
                        self.ops[e] = Op::Jump(end);
                    }
                    self.ops[s] = Op::Seq(*kind, c, at, end);
                    self.push(Op::Line);
                }
                S::Thread(p, a) => {
                    self.push(Op::Thread(p.clone(), a.clone()));
                }
                S::Choice(c) => {
                    choices = true;
                    let count = self.counter();
                    let p = self.push(Op::Line);
                    let over = self.push(Op::Jump(0));
                    // what is offered
                    let text = self.at();
                    self.ins(&c.start);
                    if let Some(t) = &c.start_tag {
                        self.push(Op::Text(" ".into()));
                        self.push(Op::Tag(t.clone()));
                    }
                    self.ins(&c.only);
                    if let Some(t) = &c.only_tag {
                        self.push(Op::Text(" ".into()));
                        self.push(Op::Tag(t.clone()));
                    }
                    self.push(Op::EndText);
                    // what is said once it is chosen
                    let chosen = self.push(Op::Visit(count));
                    if let Some(l) = &c.label {
                        self.label(l, chosen, count);
                    }
                    self.ins(&c.start);
                    if let Some(t) = &c.start_tag {
                        self.push(Op::Text(" ".into()));
                        self.push(Op::Tag(t.clone()));
                    }
                    self.ins(&c.inner);
                    if let Some(t) = &c.inner_tag {
                        self.push(Op::Text(" ".into()));
                        self.push(Op::Tag(t.clone()));
                    }
                    if let Some(d) = &c.div {
                        if !c.fallback {
                            self.push(Op::Text(" ".into()));
                        }
                        self.div(d);
                    }
                    self.push(Op::Line);
                    loose.extend(self.block(&c.body));
                    loose.push(self.push(Op::Out));
                    self.ops[p] = Op::Choice(Point { once: !c.sticky, fallback: c.fallback, conds: c.conds.clone(), text, chosen, count });
                    self.ops[over] = Op::Jump(self.at());
                }
                S::Gather(l) => {
                    if choices {
                        // the flow that offered the choices does not go on by itself
                        self.push(Op::Out);
                    }
                    choices = false;
                    let here = self.at();
                    for e in loose.drain(..) {
                        self.ops[e] = Op::Jump(here);
                    }
                    let c = self.counter();
                    self.push(Op::Visit(c));
                    if let Some(l) = l {
                        self.label(l, here, c);
                    }
                }
                S::Return(e) => {
                    self.push(Op::Return(e.clone()));
                }
            }
        }
        if choices {
            self.push(Op::Out);
        } else if !loose.is_empty() {
            unreachable!()
        }
        loose
    }
}
fn program(p: &Prog) -> Code {
    let mut c = Code::default();
    c.flow = String::new();
    c.block(&p.top);
    c.push(Op::Out);
    for (i, f) in p.flows.iter().enumerate() {
        c.flow = f.path.clone();
        let n = c.counter();
        let at = c.at();
        c.places.push((f.path.clone(), at, n));
        c.flows.push((f.path.clone(), f.params.clone(), f.refs));
        c.block(&f.body);
        // a knot without content of its own starts with its first stitch
        if f.body.is_empty()
            && let Some(s) = p.flows.get(i + 1)
            && s.what == What::Stitch
        {
            c.push(Op::Goto(s.path.clone()));
        }
        c.push(Op::Out);
        let end = c.at();
        c.regions.push((at, end, n));
        // a stitch belongs to its knot
        if f.what == What::Stitch
            && let Some(k) = p.flows[..i].iter().rposition(|f| f.what == What::Knot)
        {
            c.regions[k].1 = end;
        }
    }
    c
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i32),
    B(bool),
    S(String),
    /// a reference to a global, or to a temporary of a call
    Ref(Option<usize>, &'static str),
    Target(String),
    L(u8),
    Void,
}
impl V {
    fn int(&self) -> i32 {
        match self {
            V::I(i) => *i,
            V::B(b) => *b as i32,
            _ => sx::fail("the reference interpreter: not a number"),
        }
    }
    fn truth(&self) -> bool {
        match self {
            V::I(i) => *i != 0,
            V::B(b) => *b,
            _ => sx::fail("the reference interpreter: not a condition"),
        }
    }
    fn show(&self) -> String {
        match self {
            V::I(i) => i.to_string(),
            V::B(b) => b.to_string(),
            V::S(s) => s.clone(),
            V::L(m) => items(*m),
            _ => String::new(),
        }
    }
}
type Temps = Vec<(&'static str, V)>;
#[derive(Clone, Debug)]
struct Frame {
    pc: usize,
    tunnel: bool,
    temps: Temps,
}
#[derive(Clone, Debug)]
struct Offer {
    text: String,
    tags: Vec<String>,
    fallback: bool,
    chosen: usize,
    thread: Vec<Frame>,
}
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Text(String),
    Line,
    Glue,
    Tag(String),
}
struct Machine<'a> {
    code: &'a Code,
    globals: Vec<(&'static str, V)>,
    threads: Vec<Vec<Frame>>,
    /// functions being called: temporaries and where their text starts (None: it has started)
    calls: Vec<(Temps, Option<usize>)>,
    counts: Vec<i32>,
    turns: Vec<Option<i32>>,
    turn: i32,
    out: Vec<Tok>,
    offers: Vec<Offer>,
    steps: u32,
    over: bool,
    strange: bool,
    /// it stopped because it was told to
    told: bool,
}
fn white(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c == '\t')
}
impl Machine<'_> {
    // ---- output ----
    fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if !white(s) {
            self.starts();
        }
        self.out.push(Tok::Text(s.to_string()));
    }
    /// glue has done its work once there is text after it, and the text of functions has started
    fn starts(&mut self) {
        self.out.retain(|t| *t != Tok::Glue);
        for c in &mut self.calls {
            c.1 = None;
        }
    }
    fn line(&mut self) {
        let glued = self.out.contains(&Tok::Glue);
        let starting = self.calls.last().is_some_and(|c| c.1.is_some());
        if glued || starting {
            return;
        }
        for t in self.out.iter().rev() {
            match t {
                Tok::Line => return,
                Tok::Text(s) if !white(s) => {
                    self.out.push(Tok::Line);
                    return;
                }
                Tok::Tag(_) => {
                    self.out.push(Tok::Line);
                    return;
                }
                _ => {}
            }
        }
    }
    fn glue(&mut self) {
        let mut from = None;
        for (i, t) in self.out.iter().enumerate().rev() {
            match t {
                Tok::Line => from = Some(i),
                Tok::Text(s) if white(s) => {}
                Tok::Glue => {}
                _ => break,
            }
        }
        if let Some(f) = from {
            let tail: Vec<Tok> = self.out.drain(f..).filter(|t| !matches!(t, Tok::Line | Tok::Text(_))).collect();
            self.out.extend(tail);
        }
        self.out.push(Tok::Glue);
    }
    /// spaces and line ends at the end of a function's text
    fn trim(&mut self, from: usize) {
        let mut i = self.out.len();
        while i > from {
            i -= 1;
            match &self.out[i] {
                Tok::Line => {}
                Tok::Text(s) if white(s) => {}
                Tok::Glue => continue,
                _ => break,
            }
            self.out.remove(i);
        }
    }

    // ---- values ----
    fn temps(&mut self) -> &mut Temps {
        if let Some(c) = self.calls.last_mut() {
            return &mut c.0;
        }
        &mut self.threads.last_mut().unwrap().last_mut().unwrap().temps
    }
    fn get(&mut self, v: &str) -> V {
        let x = match self.temps().iter().find(|t| t.0 == v) {
            Some(t) => t.1.clone(),
            None => self.globals.iter().find(|g| g.0 == v).unwrap().1.clone(),
        };
        match x {
            V::Ref(None, g) => self.globals.iter().find(|x| x.0 == g).unwrap().1.clone(),
            V::Ref(Some(l), t) => self.level(l).iter().find(|x| x.0 == t).unwrap().1.clone(),
            x => x,
        }
    }
    /// the temporaries of a call, 0 for the flow itself
    fn level(&mut self, l: usize) -> &mut Temps {
        match l {
            0 => &mut self.threads.last_mut().unwrap().last_mut().unwrap().temps,
            l => &mut self.calls[l - 1].0,
        }
    }
    fn set(&mut self, v: &str, x: V) {
        let mut name = v.to_string();
        if let Some(t) = self.temps().iter_mut().find(|t| t.0 == v) {
            match t.1 {
                V::Ref(None, g) => name = g.to_string(),
                V::Ref(Some(l), n) => {
                    self.level(l).iter_mut().find(|t| t.0 == n).unwrap().1 = x;
                    return;
                }
                _ => {
                    t.1 = x;
                    return;
                }
            }
        }
        self.globals.iter_mut().find(|g| g.0 == name).unwrap().1 = x;
    }
    fn place(&self, p: &str) -> (usize, usize) {
        match self.code.places.iter().find(|x| x.0 == p) {
            Some(x) => (x.1, x.2),
            None => {
                sx::note(p);
                sx::fail("the reference interpreter: no such place")
            }
        }
    }
    fn eval(&mut self, e: &E) -> V {
        match e {
            E::Int(i) => V::I(*i),
            E::Target(p) => V::Target(p.clone()),
            E::Items(m) => V::L(*m),
            E::Const(_, i) => V::I(*i),
            E::Reads(p) => V::I(self.counts[self.place(p).1]),
            E::Str(s) => V::S(s.to_string()),
            E::Var("true") => V::B(true),
            E::Var("false") => V::B(false),
            E::Var(v) => self.get(v),
            E::Count(p) => V::I(self.counts[self.place(p).1]),
            E::TurnsSince(p) => V::I(match self.turns[self.place(p).1] {
                Some(t) => self.turn - t,
                None => -1,
            }),
            E::ChoiceCount => V::I(self.offers.len() as i32),
            E::Turns => V::I(self.turn + 1),
            E::Not(a) => V::B(!self.eval(a).truth()),
            E::Bin(o, a, b) => {
                let a = self.eval(a);
                let b = self.eval(b);
                if let (V::S(a), V::S(b)) = (&a, &b) {
                    return match *o {
                        "+" => V::S(format!("{a}{b}")),
                        "==" => V::B(a == b),
                        "?" => V::B(a.contains(b.as_str())),
                        "!?" => V::B(!a.contains(b.as_str())),
                        _ => V::B(a != b),
                    };
                }
                if let ("+", V::S(a)) = (*o, &a) {
                    return V::S(format!("{a}{}", b.show()));
                }
                if let (V::L(a), V::L(b)) = (&a, &b) {
                    return match *o {
                        "+" => V::L(a | b),
                        "-" => V::L(a & !b),
                        "^" => V::L(a & b),
                        // an empty list is in no list
                        "?" => V::B(*a != 0 && *b != 0 && a & b == *b),
                        "!?" => V::B(!(*a != 0 && *b != 0 && a & b == *b)),
                        ">" | "<" => {
                            let (a, b) = if *o == ">" { (*a, *b) } else { (*b, *a) };
                            // all of one are greater than all of the other
                            V::B(a != 0 && (b == 0 || a.trailing_zeros() >= 8 - b.leading_zeros()))
                        }
                        "==" => V::B(a == b),
                        _ => V::B(a != b),
                    };
                }
                match *o {
                    "and" => return V::B(a.truth() & b.truth()),
                    "or" => return V::B(a.truth() | b.truth()),
                    _ => {}
                }
                let (a, b) = (a.int(), b.int());
                match *o {
                    "+" => V::I(a.wrapping_add(b)),
                    "-" => V::I(a.wrapping_sub(b)),
                    "*" => V::I(a.wrapping_mul(b)),
                    "mod" => V::I(a.wrapping_rem(b)),
                    "/" => V::I(a.wrapping_div(b)),
                    "==" => V::B(a == b),
                    "!=" => V::B(a != b),
                    "<" => V::B(a < b),
                    ">" => V::B(a > b),
                    "<=" => V::B(a <= b),
                    _ => V::B(a >= b),
                }
            }
            E::Neg(a) => V::I(self.eval(a).int().wrapping_neg()),
            E::Fmt(s, e) => {
                let v = self.eval(e).show();
                V::S(format!("{s}{v}"))
            }
            E::Fun(f, args) => {
                let a = self.eval(&args[0]);
                if let V::L(m) = a {
                    let low = m & m.wrapping_neg();
                    let high = if m == 0 { 0 } else { 1 << (7 - m.leading_zeros()) };
                    return match *f {
                        "LIST_MIN" => V::L(low),
                        "LIST_MAX" => V::L(high),
                        "LIST_VALUE" => V::I(if m == 0 { 0 } else { 8 - m.leading_zeros() as i32 }),
                        "LIST_INVERT" => V::L(!m & 7),
                        _ => V::L(7),
                    };
                }
                if args.len() == 1 {
                    return V::I(a.int());
                }
                let (a, b) = (a.int(), self.eval(&args[1]).int());
                V::I(if (*f == "MIN") == (a < b) { a } else { b })
            }
            E::Call("LIST_COUNT", args) => {
                let V::L(m) = self.eval(&args[0]) else {
                    sx::fail("the reference interpreter: not a list");
                };
                V::I(m.count_ones() as i32)
            }
            E::Call(f, args) => {
                let (_, params, refs) = self.code.flows.iter().find(|x| x.0 == *f).unwrap().clone();
                let mut t: Temps = vec![];
                for (p, a) in params.iter().zip(args) {
                    let v = match a {
                        E::Var(g) if refs => {
                            let level = self.calls.len();
                            match self.temps().iter().find(|t| t.0 == *g) {
                                Some((_, V::Ref(l, n))) => V::Ref(*l, n),
                                Some(_) => V::Ref(Some(level), g),
                                None => V::Ref(None, g),
                            }
                        }
                        _ => self.eval(a),
                    };
                    t.push((p, v));
                }
                let start = self.out.len();
                self.calls.push((t, Some(start)));
                let mut pc = self.place(f).0;
                let r = loop {
                    match self.code.ops[pc].clone() {
                        Op::Out | Op::Done => break V::Void,
                        Op::Return(e) => break self.eval(&e),
                        op => match self.simple(&op, pc) {
                            Some(n) => pc = n,
                            None => sx::fail("the reference interpreter: flow in a function"),
                        },
                    }
                    if self.over() {
                        break V::I(0);
                    }
                };
                let c = self.calls.pop().unwrap();
                self.trim(c.1.unwrap_or(0));
                r
            }
        }
    }
    fn over(&mut self) -> bool {
        self.steps += 1;
        self.over |= self.steps > 3000;
        self.over
    }
    /// a step that stays in its flow: where it goes on
    fn simple(&mut self, op: &Op, pc: usize) -> Option<usize> {
        match op {
            Op::Text(t) => self.text(t),
            Op::Line => self.line(),
            Op::Glue => self.glue(),
            Op::Tag(t) => {
                // (glue stays in front of a tag, which ink leaves open)
                self.strange |= self.out.contains(&Tok::Glue);
                self.starts();
                let mut text = t.0.clone();
                if let Some(e) = &t.1 {
                    let v = self.eval(e).show();
                    text = format!("{text} {v}").trim().to_string();
                }
                self.out.push(Tok::Tag(text));
            }
            Op::Print(e) => {
                let v = self.eval(e);
                self.text(&v.show());
            }
            Op::Jump(p) => return Some(*p),
            Op::Unless(e, p) => {
                if !self.eval(e).truth() {
                    return Some(*p);
                }
            }
            Op::Seq(k, c, at, end) => {
                let n = self.counts[*c] as usize;
                self.counts[*c] += 1;
                return Some(match k {
                    Kind::Stopping => at[n.min(at.len() - 1)],
                    Kind::Cycle => at[n % at.len()],
                    Kind::Once => *at.get(n).unwrap_or(end),
                });
            }
            Op::Visit(c) => {
                self.counts[*c] += 1;
                self.turns[*c] = Some(self.turn);
            }
            Op::Set(v, e) => {
                let x = self.eval(e);
                self.set(v, x);
            }
            Op::Temp(v, e) => {
                let x = self.eval(e);
                let t = self.temps();
                t.retain(|t| t.0 != *v);
                t.push((v, x));
            }
            Op::Do(e) => {
                self.eval(e);
            }
            _ => return None,
        }
        Some(pc + 1)
    }
    /// the flow goes from one place to another: counts what it comes into
    fn enter(&mut self, from: usize, to: usize) {
        for (a, b, c) in &self.code.regions {
            if (*a..*b).contains(&to) && !(*a..*b).contains(&from) {
                self.counts[*c] += 1;
                self.turns[*c] = Some(self.turn);
            }
        }
    }
    /// goes to a place that is a value: it is entered, wherever from
    fn land(&mut self, p: &str) {
        let (at, c) = self.place(p);
        // (and it alone, not what it is a part of)
        // (labels are counted where they are)
        if !matches!(self.code.ops[at], Op::Visit(x) if x == c) {
            self.counts[c] += 1;
            self.turns[c] = Some(self.turn);
        }
        self.frame().pc = at;
    }
    fn given(&mut self, p: &str, a: &[E]) -> Temps {
        let params = self.code.flows.iter().find(|x| x.0 == p).map(|x| x.1.clone()).unwrap_or_default();
        params.into_iter().zip(a.iter().map(|e| self.eval(e)).collect::<Vec<_>>()).collect()
    }
    fn frame(&mut self) -> &mut Frame {
        self.threads.last_mut().unwrap().last_mut().unwrap()
    }
    /// until there is nothing left but to choose
    fn run(&mut self) {
        loop {
            if self.over() {
                return;
            }
            let pc = self.frame().pc;
            let op = self.code.ops[pc].clone();
            if let Some(n) = self.simple(&op, pc) {
                self.frame().pc = n;
                continue;
            }
            match op {
                Op::Goto(p) => {
                    let at = self.place(&p).0;
                    self.enter(pc, at);
                    self.frame().pc = at;
                }
                Op::With(p, a) => {
                    let given = self.given(&p, &a);
                    let at = self.place(&p).0;
                    self.enter(pc, at);
                    let t = self.temps();
                    t.retain(|t| given.iter().all(|g| g.0 != t.0));
                    t.extend(given);
                    self.frame().pc = at;
                }
                Op::TunnelVar(v) => {
                    let V::Target(p) = self.get(v) else {
                        sx::fail("the reference interpreter: not a place");
                    };
                    self.frame().pc = pc + 1;
                    self.threads.last_mut().unwrap().push(Frame { pc: 0, tunnel: true, temps: vec![] });
                    self.land(&p);
                }
                Op::GotoVar(v) => {
                    let V::Target(p) = self.get(v) else {
                        sx::fail("the reference interpreter: not a place");
                    };
                    self.land(&p);
                }
                Op::Tunnel(p, a) => {
                    let temps = self.given(&p, &a);
                    self.frame().pc = pc + 1;
                    let at = self.place(&p).0;
                    self.enter(pc, at);
                    self.threads.last_mut().unwrap().push(Frame { pc: at, tunnel: true, temps });
                }
                Op::Back(p) => {
                    let t = self.threads.last_mut().unwrap();
                    if !t.last().unwrap().tunnel {
                        sx::fail("the reference interpreter: a return outside a tunnel");
                    }
                    t.pop();
                    if let Some(p) = p {
                        self.land(&p);
                    }
                }
                Op::Thread(p, a) => {
                    let given = self.given(&p, &a);
                    self.frame().pc = pc + 1;
                    let at = self.place(&p).0;
                    self.enter(pc, at);
                    let mut t = self.threads.last().unwrap().clone();
                    let f = t.last_mut().unwrap();
                    f.pc = at;
                    f.temps.retain(|t| given.iter().all(|g| g.0 != t.0));
                    f.temps.extend(given);
                    self.threads.push(t);
                }
                Op::Choice(p) => {
                    self.frame().pc = pc + 1;
                    let mut show = true;
                    for c in &p.conds {
                        show &= self.eval(c).truth();
                    }
                    if p.once && self.counts[p.count] > 0 {
                        show = false;
                    }
                    if !show {
                        continue;
                    }
                    let out = std::mem::take(&mut self.out);
                    let mut q = p.text;
                    while !matches!(self.code.ops[q], Op::EndText) {
                        let op = self.code.ops[q].clone();
                        q = self.simple(&op, q).unwrap();
                    }
                    let made = std::mem::replace(&mut self.out, out);
                    let mut text = String::new();
                    let mut tags = vec![];
                    for t in made {
                        match t {
                            Tok::Text(t) => text += &t,
                            Tok::Tag(t) => tags.push(t),
                            _ => {}
                        }
                    }
                    let thread = self.threads.last().unwrap().clone();
                    self.offers.push(Offer { text: text.trim().to_string(), tags, fallback: p.fallback, chosen: p.chosen, thread });
                }
                op @ (Op::Out | Op::Done) => {
                    self.told = matches!(op, Op::Done);
                    if self.threads.len() > 1 {
                        self.threads.pop();
                        continue;
                    }
                    // nothing to choose but what chooses itself
                    if !self.offers.is_empty() && self.offers.iter().all(|o| o.fallback) {
                        let o = self.offers[0].clone();
                        self.take(o);
                        continue;
                    }
                    return;
                }
                Op::End => {
                    self.told = true;
                    self.offers.clear();
                    return;
                }
                op => {
                    sx::note(&format!("{op:?}"));
                    sx::fail("the reference interpreter: an unexpected step")
                }
            }
        }
    }
    fn take(&mut self, o: Offer) {
        self.threads = vec![o.thread];
        self.frame().pc = o.chosen;
        self.offers.clear();
    }
    fn choose(&mut self, i: usize) {
        let o = self.offers.iter().filter(|o| !o.fallback).nth(i).unwrap().clone();
        self.turn += 1;
        self.out.clear();
        self.take(o);
    }
    /// the lines of this turn: what was put out, cut at the line ends
    fn lines(&self) -> Vec<(String, Vec<String>)> {
        let mut r = vec![];
        let mut text = String::new();
        let mut tags = vec![];
        for t in self.out.iter().chain([&Tok::Line]) {
            match t {
                Tok::Text(t) => text += t,
                Tok::Glue => {}
                Tok::Tag(t) => tags.push(t.clone()),
                Tok::Line => {
                    let words: Vec<&str> = text.split([' ', '\t']).filter(|w| !w.is_empty()).collect();
                    let l = words.join(" ");
                    if !l.is_empty() || !tags.is_empty() {
                        r.push((l, std::mem::take(&mut tags)));
                    }
                    text.clear();
                }
            }
        }
        r
    }
}

// ---- side by side ----

#[derive(Default)]
struct Heard(Vec<String>);
impl ErrorHandler for Heard {
    fn error(&mut self, m: &str, _: ErrorType) {
        self.0.push(m.to_string());
    }
}
fn bad(src: &str, what: &str, real: &str, reference: &str) -> ! {
    sx::note(src);
    sx::note(&format!("real     : {real}"));
    sx::note(&format!("reference: {reference}"));
    sx::fail(what)
}
/// plays a program both ways along decided choices
fn compare(p: &Prog, ints: &[&'static str], depth: u32) {
    let src = source(p);
    if p.flows.iter().any(|f| matches!(f.body.iter().find(|s| !matches!(s, S::Gather(_))), Some(S::Choice(c)) if c.fallback && c.conds.is_empty())) {
        // (where to count a knot twice is what the runtime of the language does)
        sx::cover("a knot starts with a fallback");
        return;
    }
    sx::fuel(3_000_000_000);
    let compiler = Compiler::with_options(CompilerOptions { count_all_visits: !p.lean, ..Default::default() });
    let json = match compiler.compile(&src) {
        Ok(j) => j,
        Err(e) => bad(&src, "a program of the core language does not compile", &e.to_string(), ""),
    };
    let mut s = match Story::new(&json) {
        Ok(s) => s,
        Err(e) => bad(&src, "a compiled program does not load", &e.to_string(), ""),
    };
    let heard = Rc::new(RefCell::new(Heard::default()));
    s.set_error_handler(heard.clone());
    let code = program(p);
    let mut m = Machine {
        globals: vec![],
        threads: vec![vec![Frame { pc: 0, tunnel: false, temps: vec![] }]],
        calls: vec![],
        counts: vec![0; code.counters],
        turns: vec![None; code.counters],
        turn: -1,
        out: vec![],
        offers: vec![],
        steps: 0,
        over: false,
        strange: false,
        told: false,
        code: &code,
    };
    for (v, e) in &p.globals {
        let x = m.eval(e);
        m.globals.push((v, x));
    }
    for v in ints {
        // any number
        let x = sx::i32(v);
        if s.set_variable(v, &ValueType::Int(x)).is_err() {
            bad(&src, "a declared variable cannot be set", v, "");
        }
        m.set(v, V::I(x));
    }
    let mut path = String::new();
    for d in 0..=depth {
        m.run();
        if m.over {
            // (a loop, which is outside the bounds)
            sx::cover("too long");
            return;
        }
        if m.strange {
            sx::cover("glue before a tag");
            return;
        }
        let want = m.lines();
        let mut got: Vec<(String, Vec<String>)> = vec![];
        let mut n = 0;
        let mut ended = false;
        while s.can_continue() {
            match s.cont() {
                Ok(t) => {
                    let tags = s.get_current_tags().unwrap_or_default();
                    if let Some(x) = t.strip_suffix('\n') {
                        got.push((x.to_string(), tags));
                        ended = false;
                    } else if !t.is_empty() || !tags.is_empty() {
                        if ended {
                            bad(&src, "a line goes on after another without an end", &t, "");
                        }
                        got.push((t, tags));
                        ended = true;
                    }
                    if got.last().is_some_and(|l| l.0.is_empty() && l.1.is_empty()) {
                        got.pop();
                    }
                }
                Err(e) => bad(&src, "a program of the core language fails", &format!("{path}: {e}"), &format!("{want:?}")),
            }
            n += 1;
            if n > 200 {
                bad(&src, "a program does not come to an end that should", &format!("{path}: {got:?}"), &format!("{want:?}"));
            }
        }
        if got.len() != want.len() {
            bad(&src, "the lines are not those of the language", &format!("{path}: {got:?}"), &format!("{want:?}"));
        }
        for (a, b) in got.iter().zip(&want) {
            if a.0.len() != b.0.len() || a.0 != b.0 {
                bad(&src, "a line is not the one of the language", &format!("{path}: {got:?}"), &format!("{want:?}"));
            }
            if a.1 != b.1 {
                bad(&src, "the tags of a line are not those of the language", &format!("{path}: {got:?}"), &format!("{want:?}"));
            }
        }
        if !got.is_empty() {
            sx::cover("line");
        }
        let offers: Vec<(String, Vec<String>)> = m.offers.iter().filter(|o| !o.fallback).map(|o| (o.text.clone(), o.tags.clone())).collect();
        let choices: Vec<(String, Vec<String>)> = s.get_current_choices().iter().map(|c| (c.text.clone(), c.tags.clone())).collect();
        if offers != choices {
            bad(&src, "the choices are not those of the language", &format!("{path}: {choices:?}"), &format!("{offers:?}"));
        }
        for (v, x) in &m.globals {
            let same = match (s.get_variable(v), x) {
                (Some(ValueType::Int(a)), V::I(b)) => a == *b,
                (Some(ValueType::Bool(a)), V::B(b)) => a == *b,
                (Some(ValueType::String(a)), V::S(b)) => a.string == *b,
                (Some(ValueType::DivertTarget(a)), V::Target(b)) => a.to_string() == *b,
                (Some(ValueType::List(a)), V::L(b)) => a.items.values().fold(0, |m, i| m | 1 << (i - 1)) == *b && a.items.len() == b.count_ones() as usize,
                _ => false,
            };
            if !same {
                bad(&src, "a variable has not the value the language gives it", &format!("{path}: {v}={:?}", s.get_variable(v).map(|v| crate::h::val(&v))), &format!("{x:?}"));
            }
        }
        if (m.told || !m.offers.is_empty()) && !heard.borrow().0.is_empty() {
            bad(&src, "a program of the core language complains", &format!("{path}: {:?}", heard.borrow().0), "");
        }
        for f in p.flows.iter().filter(|f| f.what != What::Function && !p.lean) {
            let want = m.counts[m.place(&f.path).1];
            match s.get_visit_count_at_path_string(&f.path) {
                Ok(n) if n == want => {}
                r => bad(&src, "a visit count is not the one of the language", &format!("{path}: {} {r:?}", f.path), &format!("{want}")),
            }
        }
        if offers.is_empty() {
            sx::cover("end");
            return;
        }
        if d == depth {
            return;
        }
        let c = sx::choose("choice", offers.len() as u32) as usize;
        let _ = write!(path, "{c} ");
        if let Err(e) = s.choose_choice_index(c) {
            bad(&src, "an offered choice cannot be chosen", &e.to_string(), "");
        }
        m.choose(c);
        sx::cover("choice");
    }
}

// ---- programs drawn by a generator ----

struct G {
    seed: u64,
    /// decided by the solver instead
    free: bool,
    uid: u32,
    /// where a divert leads without going in circles: knots after this one
    knots: Vec<String>,
    here: usize,
    stitches: Vec<String>,
    labels: Vec<String>,
    functions: bool,
    temps: Vec<&'static str>,
    /// something is chosen before this is reached again
    guarded: bool,
    tunnel: bool,
    left: i32,
    /// more of the language
    more: bool,
}
impl G {
    fn pick(&mut self, n: u32) -> u32 {
        if self.free {
            return sx::choose("program", n);
        }
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.seed >> 33) as u32) % n
    }
    fn chance(&mut self, of: u32) -> bool {
        self.pick(of) == 0
    }
    fn word(&mut self) -> String {
        self.uid += 1;
        let u = self.uid;
        if self.more && self.chance(4) {
            return match self.pick(18) {
                12 => format!("w{u}|v"),
                13 => format!("w{u}#v"),
                14 => format!("w{u} {{v}}"),
                15 => format!("w{u} [v]"),
                16 => format!("w{u}\\v"),
                17 => format!("w{u} -> <> ~ (v|"),
                0 => format!("w{u}, v"),
                1 => format!("w{u} (v)"),
                2 => format!("w{u}'v"),
                3 => format!("w{u} - v"),
                4 => format!("w{u}."),
                5 => format!("w{u}/v"),
                6 => format!("w\u{e9}{u}"),
                7 => format!("w\u{65e5}{u}"),
                8 => format!("w{u}*v"),
                9 => format!("w{u} + v"),
                10 => format!("w{u} = 1"),
                _ => format!("w{u}!"),
            };
        }
        format!("w{u}")
    }
    fn tg(&mut self) -> Tg {
        let w = self.word();
        let e = (self.more && self.chance(3)).then(|| E::Var(["x", "s"][self.pick(2) as usize]));
        (w, e)
    }
    fn int(&mut self) -> E {
        if self.more && self.chance(6) {
            return match self.pick(13) {
                10 => E::Turns,
                11 => E::ChoiceCount,
                12 => E::Fun(["INT", "FLOOR", "CEILING"][self.pick(3) as usize], vec![self.small()]),
                6 => E::Neg(Box::new(self.small())),
                7 => E::Fun(["MIN", "MAX"][self.pick(2) as usize], vec![self.small(), self.small()]),
                8 => E::Fun("LIST_VALUE", vec![E::Var("L")]),
                9 => {
                    let a = E::Bin(["+", "-", "*"][self.pick(3) as usize], Box::new(self.small()), Box::new(self.small()));
                    let b = E::Bin(["+", "-", "*"][self.pick(3) as usize], Box::new(a), Box::new(self.small()));
                    if self.chance(2) { E::Bin("/", Box::new(b), Box::new(E::Int(2))) } else { E::Bin("-", Box::new(self.small()), Box::new(b)) }
                }
                0 => E::Const("CC", 2),
                1 => {
                    let p = self.any_place();
                    E::Reads(p)
                }
                2 => E::Call("LIST_COUNT", vec![E::Var("L")]),
                3 if self.functions => E::Call("fac", vec![E::Int(self.pick(4) as i32)]),
                4 if self.functions => E::Call("f2", vec![self.small(), self.small()]),
                _ => E::Bin("mod", Box::new(self.small()), Box::new(E::Int(3))),
            };
        }
        match self.pick(9) {
            0 | 1 => E::Int(self.pick(4) as i32),
            2 | 3 => E::Var(["x", "y"][self.pick(2) as usize]),
            4 => {
                let p = self.any_place();
                E::Count(p)
            }
            5 if !self.temps.is_empty() => E::Var(self.temps[0]),
            6 if self.functions => {
                let a = self.small();
                E::Call("fv", vec![a])
            }
            7 => E::Bin(["+", "-", "*"][self.pick(3) as usize], Box::new(self.small()), Box::new(self.small())),
            8 => {
                let p = self.any_knot();
                E::TurnsSince(p)
            }
            _ => self.small(),
        }
    }
    fn small(&mut self) -> E {
        match self.pick(3) {
            0 => E::Int(self.pick(4) as i32),
            1 => E::Var("x"),
            _ => E::Var("y"),
        }
    }
    fn any_knot(&mut self) -> String {
        let n = self.pick(self.knots.len() as u32) as usize;
        self.knots[n].clone()
    }
    fn any_place(&mut self) -> String {
        let all = self.knots.len() + self.stitches.len() + self.labels.len();
        let n = self.pick(all as u32) as usize;
        self.knots.iter().chain(&self.stitches).chain(&self.labels).nth(n).unwrap().clone()
    }
    fn cond(&mut self) -> E {
        if self.more && self.chance(8) {
            let s = |s| Box::new(E::Var(s));
            return match self.pick(3) {
                0 => E::Bin([">", "<", "==", "!="][self.pick(4) as usize], s("L"), Box::new(E::Items(self.pick(8) as u8))),
                1 => E::Bin(["?", "!?"][self.pick(2) as usize], s("s"), Box::new(E::Str(["u", "uq", "v"][self.pick(3) as usize]))),
                _ => E::Bin("==", Box::new(E::Fmt("v", Box::new(self.small()))), Box::new(E::Str(["v1", "v2"][self.pick(2) as usize]))),
            };
        }
        if self.more && self.chance(7) {
            let i = E::Items(1 << self.pick(3));
            return E::Bin(["?", "!?"][self.pick(2) as usize], Box::new(E::Var("L")), Box::new(i));
        }
        match self.pick(8) {
            0 => E::Var("b"),
            1 => E::Bin("==", Box::new(E::Var("s")), Box::new(E::Str("u"))),
            2 => {
                let p = self.any_place();
                E::Not(Box::new(E::Count(p)))
            }
            3 => {
                let p = self.any_place();
                E::Bin(">", Box::new(E::Count(p)), Box::new(E::Int(self.pick(2) as i32)))
            }
            4 => {
                let a = self.cond();
                let b = E::Bin("<", Box::new(self.small()), Box::new(self.small()));
                E::Bin(["and", "or"][self.pick(2) as usize], Box::new(a), Box::new(b))
            }
            5 => E::Bin(">", Box::new(E::Var("z")), Box::new(self.small())),
            6 => E::Bin("==", Box::new(self.int()), Box::new(self.int())),
            _ => E::Bin(["<", ">=", "!=", "<="][self.pick(4) as usize], Box::new(self.int()), Box::new(self.int())),
        }
    }
    fn kind(&mut self) -> Kind {
        [Kind::Stopping, Kind::Cycle, Kind::Once][self.pick(3) as usize]
    }
    fn inline(&mut self, deep: u32) -> Vec<In> {
        let mut v = vec![In::T(self.word())];
        for _ in 0..self.pick(3) {
            if !self.more || !self.chance(5) {
                v.push(In::T(" ".into()));
            }
            v.push(match self.pick(if deep > 0 { 6 } else { 3 }) {
                0 => In::T(self.word()),
                1 => In::P(self.int()),
                2 if self.more && self.chance(3) => In::P(E::Var("L")),
                2 if self.more && self.chance(2) => In::P(match self.pick(6) {
                    0 => E::Var("b"),
                    1 => E::Bin(["==", "<", ">="][self.pick(3) as usize], Box::new(self.small()), Box::new(self.small())),
                    2 => E::Not(Box::new(E::Var("x"))),
                    3 => E::Fmt(["v", "q {", "w|"][self.pick(3) as usize], Box::new(self.small())),
                    4 => E::Bin("+", Box::new(E::Var("s")), Box::new(self.small())),
                    _ => E::Fun(["LIST_MIN", "LIST_MAX", "LIST_INVERT", "LIST_ALL"][self.pick(4) as usize], vec![E::Var("L")]),
                }),
                2 => In::P(E::Var("s")),
                3 => {
                    let c = self.cond();
                    let mut a = self.inline(deep - 1);
                    let mut b = if self.chance(2) { Some(self.inline(deep - 1)) } else { None };
                    // spaces inside
                    if self.more {
                        if self.chance(4) {
                            a.push(In::T(" ".into()));
                        }
                        if let Some(b) = &mut b
                            && self.chance(4)
                        {
                            let at = b.len() * self.pick(2) as usize;
                            b.insert(at, In::T(" ".into()));
                        }
                    }
                    In::Cond(c, a, b)
                }
                4 => {
                    let k = self.kind();
                    let n = 2 + self.pick(2);
                    let mut a = vec![];
                    for _ in 0..n {
                        a.push(if self.chance(4) { vec![] } else { self.inline(deep - 1) });
                    }
                    if self.more {
                        for (n, a) in a.iter_mut().enumerate() {
                            if !a.is_empty() && self.chance(5) {
                                let last = (n == 0 && k == Kind::Stopping) as u32;
                                let at = a.len() * (last | self.pick(2)) as usize;
                                a.insert(at, In::T(" ".into()));
                            }
                        }
                    }
                    In::Seq(k, a)
                }
                _ if self.functions && self.more && self.chance(3) => In::P(E::Call("fy", vec![E::Int(self.pick(3) as i32)])),
                _ if self.functions => In::P(E::Call(["ft", "fx"][self.pick(2) as usize], vec![])),
                _ => In::T(self.word()),
            });
        }
        v
    }
    /// text without anything that happens
    fn calm(&mut self) -> Vec<In> {
        let mut v = vec![In::T(self.word())];
        if self.chance(4) {
            v.push(In::T(" ".into()));
            if self.more && self.chance(2) {
                let c = E::Bin(["<", "=="][self.pick(2) as usize], Box::new(self.small()), Box::new(self.small()));
                let b = self.chance(2).then(|| vec![In::T(self.word())]);
                v.push(In::Cond(c, vec![In::T(self.word())], b));
            } else {
                v.push(In::P(E::Var(["x", "s"][self.pick(2) as usize])));
            }
        }
        v
    }
    fn forward(&mut self) -> Option<String> {
        let n = self.knots.len() - 1 - self.here;
        if n == 0 {
            return None;
        }
        let k = self.pick(n as u32) as usize;
        Some(self.knots[self.here + 1 + k].clone())
    }
    /// somewhere to go that comes to an end
    fn target(&mut self) -> Option<String> {
        if self.guarded {
            return Some(match self.pick(3) {
                0 if !self.labels.is_empty() => {
                    let n = self.pick(self.labels.len() as u32) as usize;
                    self.labels[n].clone()
                }
                1 if !self.stitches.is_empty() => {
                    let n = self.pick(self.stitches.len() as u32) as usize;
                    self.stitches[n].clone()
                }
                _ => self.any_knot(),
            });
        }
        self.forward()
    }
    fn div(&mut self) -> Div {
        if self.tunnel {
            return if self.chance(6) && self.guarded { Div::BackTo(self.any_knot()) } else { Div::Back };
        }
        match self.pick(9) {
            0 => Div::End,
            1 => Div::Done,
            8 => match self.forward() {
                // one or more tunnels in a row
                Some(p) => {
                    let n = 1 + self.pick(3) as usize;
                    Div::TunnelThen(vec!["t0"; n].join(" -> "), p)
                }
                None => Div::End,
            },
            2 if self.guarded => Div::Var("d"),
            3 if self.more && (self.here < 2 || self.guarded) => match self.pick(3) {
                0 => Div::With("kp".into(), vec![self.small(), self.small()]),
                1 => match self.target() {
                    Some(p) => Div::With("kd".into(), vec![E::Target(p)]),
                    None => Div::Done,
                },
                _ => Div::With("kp.sp".into(), vec![self.int(), E::Str("a")]),
            },
            3 if self.here < 2 || self.guarded => Div::With("kp".into(), vec![self.small()]),
            _ => match self.target() {
                Some(p) => Div::To(p),
                None => Div::End,
            },
        }
    }
    fn tun(&mut self) -> Div {
        if self.more && self.chance(3) {
            return match self.pick(3) {
                0 => Div::Tunnel("td".into(), vec![E::Target("t0".into())]),
                1 => Div::Tunnel("t1.st".into(), vec![self.small(), self.int()]),
                _ => Div::TunnelVar("e"),
            };
        }
        match self.pick(3) {
            0 => Div::Tunnel("t0".into(), vec![]),
            1 => Div::Tunnel("t1".into(), vec![self.small()]),
            _ => Div::Tunnel("t0".into(), vec![]),
        }
    }
    fn tags(&mut self) -> Vec<Tg> {
        if self.more && self.chance(12) {
            return vec![self.tg(), self.tg()];
        }
        if self.chance(6) { vec![self.tg()] } else { vec![] }
    }
    /// a statement of the rest of the language
    fn other(&mut self) -> S {
        match self.pick(8) {
            6 => {
                let v = ["x", "y"][self.pick(2) as usize];
                S::Set(v, E::Bin(["+", "-"][self.pick(2) as usize], Box::new(E::Var(v)), Box::new(self.int())))
            }
            7 => match self.pick(3) {
                0 => S::Set("L", E::Bin("^", Box::new(E::Var("L")), Box::new(E::Items(self.pick(8) as u8)))),
                1 => S::Set("L", E::Fun(["LIST_MIN", "LIST_MAX", "LIST_INVERT", "LIST_ALL"][self.pick(4) as usize], vec![E::Var("L")])),
                _ => S::Set("s", E::Fmt(["v", "u"][self.pick(2) as usize], Box::new(self.small()))),
            },
            0 => S::Set("L", E::Items(self.pick(8) as u8)),
            1 => S::Set("L", E::Bin(["+", "-"][self.pick(2) as usize], Box::new(E::Var("L")), Box::new(E::Items(1 << self.pick(3))))),
            2 if self.functions => S::Call(E::Call("fy", vec![E::Int(self.pick(4) as i32)])),
            3 if self.functions => S::Call(E::Call("fs", vec![E::Var("x"), E::Var("y")])),
            4 if self.functions && self.temps.contains(&"i") => S::Call(E::Call(["fr", "fn"][self.pick(2) as usize], vec![E::Var("i")])),
            5 if self.temps.contains(&"i") => S::Set("i", self.int()),
            _ => S::Add("y", 1),
        }
    }
    /// statements without choices
    fn plain(&mut self, deep: u32, n: u32, flow: bool) -> Vec<S> {
        let mut v = vec![];
        for _ in 0..n {
            self.left -= 1;
            if self.more && self.chance(7) {
                let s = self.other();
                v.push(s);
                continue;
            }
            let s = match self.pick(if deep > 0 { 14 } else { 9 }) {
                0 | 1 => {
                    let l = self.inline(2);
                    let t = self.tags();
                    S::Line(l, t, None)
                }
                2 => S::Set(["x", "y"][self.pick(2) as usize], self.int()),
                3 => S::Add(["x", "y"][self.pick(2) as usize], [1, -1, 2, -3][self.pick(4) as usize]),
                4 => {
                    let mut l = self.inline(1);
                    if self.chance(2) {
                        l.insert(0, In::Glue);
                    } else {
                        if self.chance(2) {
                            l.push(In::T(" ".into()));
                        }
                        l.push(In::Glue);
                    }
                    S::Line(l, vec![], None)
                }
                5 if self.functions => S::Call(match self.pick(3) {
                    0 => E::Call("ft", vec![]),
                    1 => E::Call("fr", vec![E::Var(["x", "y"][self.pick(2) as usize])]),
                    _ => E::Call("fv", vec![self.small()]),
                }),
                6 if flow && !self.tunnel => match self.tun() {
                    d if self.chance(2) => S::Div(d),
                    d => {
                        let l = self.inline(1);
                        let t = self.tags();
                        S::Line(l, t, Some(d))
                    }
                },
                7 => S::TagLine(self.tg()),
                8 => S::Set("s", [E::Str("u"), E::Str("v"), E::Bin("+", Box::new(E::Var("s")), Box::new(E::Str("q")))][self.pick(3) as usize].clone()),
                9 | 10 => {
                    let n = 1 + self.pick(2);
                    let mut br = vec![];
                    for _ in 0..n {
                        let c = self.cond();
                        let b = self.branch(deep - 1, flow);
                        br.push((Some(c), b));
                    }
                    if self.chance(2) {
                        let b = self.branch(deep - 1, flow);
                        br.push((None, b));
                    }
                    S::If(br)
                }
                11 => {
                    let k = self.kind();
                    let n = 2 + self.pick(2);
                    let mut b = vec![];
                    for _ in 0..n {
                        b.push(self.branch(0, false));
                    }
                    S::Seq(k, b)
                }
                12 => {
                    let e = self.small();
                    let mut cs = vec![];
                    for i in 0..1 + self.pick(2) {
                        let b = self.branch(0, false);
                        cs.push((E::Int(i as i32), b));
                    }
                    let d = if self.chance(2) { Some(self.branch(0, false)) } else { None };
                    S::Switch(e, cs, d)
                }
                _ if flow => {
                    let c = self.cond();
                    let d = self.div();
                    let t = vec![In::T(self.word()), In::D(d)];
                    S::Line(vec![In::T(self.word()), In::T(" ".into()), In::Cond(c, t, None)], vec![], None)
                }
                _ => {
                    let l = self.inline(1);
                    S::Line(l, vec![], None)
                }
            };
            v.push(s);
        }
        v
    }
    fn branch(&mut self, deep: u32, flow: bool) -> Vec<S> {
        let mut b = vec![];
        // begins with text, so that what follows the dash is a line
        let l = self.inline(1);
        b.push(S::Line(l, vec![], None));
        let n = self.pick(2);
        b.extend(self.plain(deep, n, flow));
        if flow && self.chance(4) {
            let d = self.div();
            b.push(S::Div(d));
        }
        b
    }
    fn label(&mut self, flow: &str) -> Option<String> {
        if self.chance(3) {
            self.uid += 1;
            let l = format!("l{}", self.uid);
            self.labels.push(format!("{flow}.{l}"));
            return Some(l);
        }
        None
    }
    fn choice(&mut self, depth: u32, flow: &str, fallback: bool) -> Choice {
        let mut c = Choice { sticky: (!fallback || self.more) && self.chance(3), fallback, ..Default::default() };
        c.label = self.label(flow);
        if self.chance(3) {
            c.conds.push(self.cond());
            if self.chance(3) {
                c.conds.push(self.cond());
            }
        }
        if !fallback {
            c.start = self.calm();
            match self.pick(4) {
                0 => {
                    c.bracket = true;
                    c.only = self.calm();
                    c.start = vec![];
                }
                1 => {
                    c.bracket = true;
                    c.only = vec![In::T(" ".into()), In::T(self.word())];
                    c.inner = vec![In::T(" ".into())];
                    let i = self.inline(1);
                    c.inner.extend(i);
                }
                _ => {}
            }
            match self.pick(10) {
                0 if !c.bracket => c.start_tag = Some(self.tg()),
                1 if c.bracket => c.only_tag = Some(self.tg()),
                2 if !c.inner.is_empty() => c.inner_tag = Some(self.tg()),
                _ => {}
            }
        }
        let guarded = self.guarded;
        self.guarded = guarded || !fallback;
        let tagged = c.start_tag.is_some() || c.inner_tag.is_some();
        if (self.chance(4) || self.left < 0) && !tagged {
            c.div = Some(self.div());
        } else {
            let n = self.pick(3);
            c.body = self.plain(1, n, true);
            if depth < 2 && self.left > 0 && self.chance(3) {
                let w = self.weave(depth + 1, flow);
                c.body.extend(w);
            } else if self.chance(4) {
                let d = self.div();
                c.body.push(S::Div(d));
            }
        }
        self.guarded = guarded;
        c
    }
    fn weave(&mut self, depth: u32, flow: &str) -> Vec<S> {
        let mut v = vec![];
        let rounds = 1 + self.pick(2);
        for r in 0..rounds {
            if self.chance(5) && !self.tunnel {
                if self.more && self.chance(2) {
                    let a = self.int();
                    v.push(S::Thread("h1".into(), vec![a, E::Str("a")]));
                } else {
                    v.push(S::Thread("h0".into(), vec![]));
                }
            }
            if self.more && self.chance(5) {
                let c = self.choice(depth, flow, true);
                v.push(S::Choice(c));
            }
            for _ in 0..1 + self.pick(3) - u32::from(self.more && self.chance(6)) {
                let c = self.choice(depth, flow, false);
                v.push(S::Choice(c));
            }
            if self.more && self.chance(4) {
                let c = self.choice(depth, flow, true);
                v.push(S::Choice(c));
            }
            if self.chance(3) {
                let c = self.choice(depth, flow, true);
                v.push(S::Choice(c));
            }
            if r + 1 < rounds || self.chance(2) {
                let l = self.label(flow);
                v.push(S::Gather(l));
                let n = self.pick(3);
                let p = self.plain(1, n, true);
                v.extend(p);
            }
        }
        v
    }
    fn body(&mut self, flow: &str) -> Vec<S> {
        self.guarded = false;
        self.temps.clear();
        self.left = 12;
        let mut v = vec![];
        if self.chance(4) {
            v.push(S::Temp("i", self.int()));
            self.temps.push("i");
        }
        let n = self.pick(4);
        v.extend(self.plain(2, n, true));
        if !self.chance(4) {
            let w = self.weave(0, flow);
            v.extend(w);
        }
        if self.tunnel {
            // every way through a tunnel leads back
            if matches!(v.last(), Some(S::Choice(_))) {
                v.push(S::Gather(None));
            }
            v.push(S::Div(Div::Back));
        } else if !matches!(v.last(), Some(S::Choice(_))) && !self.chance(5) {
            let d = self.div();
            v.push(S::Div(d));
        }
        v
    }
    fn prog(&mut self) -> Prog {
        let mut p = Prog { by: ["    ", "", "\t", " "][self.pick(4) as usize], ..Default::default() };
        p.globals = vec![
            ("x", E::Int(self.pick(4) as i32)),
            ("y", E::Int(self.pick(4) as i32)),
            ("z", E::Int(0)),
            ("s", E::Str(["u", "v"][self.pick(2) as usize])),
            ("b", E::Var(["true", "false"][self.pick(2) as usize])),
            ("d", E::Target(["k0", "k2"][self.pick(2) as usize].into())),
        ];
        if self.more {
            p.consts.push(("CC", 2));
            p.globals.push(("L", E::Items(self.pick(8) as u8)));
            p.globals.push(("e", E::Target("t0".into())));
            p.noise = (self.pick(1 << 20) as u64) << 1 | 1;
            p.lean = self.chance(4);
        }
        self.knots = vec!["k0".into(), "k1".into(), "k2".into()];
        self.functions = true;
        let flow = |what, path: &str, params: Vec<&'static str>, body| Flow { what, name: path.rsplit('.').next().unwrap().to_string(), path: path.to_string(), params, refs: ["fr", "fn", "fs"].contains(&path), body };
        if self.chance(2) {
            let n = self.pick(3);
            p.top = self.plain(1, n, false);
        }
        p.top.push(S::Div(Div::To("k0".into())));
        for k in 0..3 {
            self.here = k;
            let name = self.knots[k].clone();
            self.stitches.clear();
            self.labels.clear();
            let stitch = k < 2 && self.chance(3);
            if stitch {
                self.stitches.push(format!("{name}.s0"));
            }
            let own = !stitch || self.chance(2);
            let body = if own { self.body(&name) } else { vec![] };
            p.flows.push(flow(What::Knot, &name, vec![], body));
            if stitch {
                let path = format!("{name}.s0");
                let body = self.body(&path);
                p.flows.push(flow(What::Stitch, &path, vec![], body));
            }
        }
        self.stitches.clear();
        self.labels.clear();
        self.here = 2;
        self.tunnel = true;
        let body = self.body("t0");
        p.flows.push(flow(What::Knot, "t0", vec![], body));
        self.labels.clear();
        let mut body = vec![S::Line(vec![In::T(self.word()), In::T(" ".into()), In::P(E::Var("n"))], vec![], None)];
        self.temps = vec!["n"];
        body.extend(self.plain(1, 1, true));
        body.push(S::Div(Div::Back));
        p.flows.push(flow(What::Knot, "t1", vec!["n"], body));
        if self.more {
            self.temps = vec!["n", "m"];
            let mut body = vec![S::Line(vec![In::T(self.word()), In::P(E::Var("n")), In::T(" ".into()), In::P(E::Var("m"))], vec![], None)];
            body.extend(self.plain(1, 1, true));
            let c = self.choice(1, "t1.st", false);
            body.push(S::Choice(c));
            body.push(S::Gather(None));
            body.push(S::Line(vec![In::P(E::Var("m"))], vec![], Some(Div::Back)));
            p.flows.push(flow(What::Stitch, "t1.st", vec!["n", "m"], body));
            self.temps.clear();
            let body = vec![S::Line(vec![In::T(self.word())], vec![], None), S::Div(Div::TunnelVar("w")), S::Line(vec![In::T(self.word())], vec![], Some(Div::Back))];
            p.flows.push(flow(What::Knot, "td", vec!["w"], body));
        }
        self.tunnel = false;
        self.temps.clear();
        self.labels.clear();
        let mut body = vec![S::Line(vec![In::T(self.word()), In::T(" ".into()), In::P(E::Var("q"))], vec![], None), S::Set("d", E::Target("k1".into())), S::Div(Div::To("k2".into()))];
        let mut params = vec!["q"];
        if self.more {
            params.push("r");
            body.insert(1, S::Line(vec![In::P(E::Var("r")), In::T(self.word())], vec![], None));
        }
        p.flows.push(flow(What::Knot, "kp", params, body));
        if self.more {
            let body = vec![S::Line(vec![In::T(self.word()), In::P(E::Var("q"))], vec![], None), S::Div(Div::With("kp".into(), vec![E::Var("r"), E::Var("q")]))];
            p.flows.push(flow(What::Stitch, "kp.sp", vec!["q", "r"], body));
            let body = vec![S::Line(vec![In::T(self.word())], vec![], Some(Div::Var("w")))];
            p.flows.push(flow(What::Knot, "kd", vec!["w"], body));
            // a thread with arguments, which its choices keep
            let mut body = vec![];
            for _ in 0..1 + self.pick(2) {
                let mut c = self.choice(1, "h1", false);
                if !c.bracket {
                    c.start.push(In::T(" ".into()));
                    c.start.push(In::P(E::Var("q")));
                }
                c.body.insert(0, S::Line(vec![In::P(E::Var("q")), In::T(" ".into()), In::P(E::Var("r"))], vec![], None));
                body.push(S::Choice(c));
            }
            p.flows.push(flow(What::Knot, "h1", vec!["q", "r"], body));
            self.labels.clear();
        }
        // a thread: text and choices
        let mut body = self.plain(0, 1, false);
        for _ in 0..1 + self.pick(2) {
            let c = self.choice(1, "h0", false);
            body.push(S::Choice(c));
        }
        if self.chance(2) {
            body.push(S::Gather(None));
            let d = self.div();
            body.push(S::Div(d));
        }
        p.flows.push(flow(What::Knot, "h0", vec![], body));
        self.labels.clear();
        self.functions = false;
        let n = 1 + self.pick(2);
        let body = self.plain(1, n, false);
        p.flows.push(flow(What::Function, "ft", vec![], body));
        let n = self.pick(2);
        let mut body = self.plain(1, n, false);
        body.push(S::Add("x", 1));
        body.push(S::Return(E::Var("x")));
        p.flows.push(flow(What::Function, "fx", vec![], body));
        let body = vec![S::Set("n", E::Bin("+", Box::new(E::Var("n")), Box::new(E::Int(1))))];
        p.flows.push(flow(What::Function, "fr", vec!["n"], body));
        self.temps = vec!["n"];
        let body = vec![S::If(vec![(Some(E::Bin(">", Box::new(E::Var("n")), Box::new(E::Var("y")))), vec![S::Return(E::Int(1))])]), S::Return(E::Bin("+", Box::new(E::Var("n")), Box::new(E::Int(1))))];
        p.flows.push(flow(What::Function, "fv", vec!["n"], body));
        if self.more {
            let n = || Box::new(E::Var("n"));
            let less = || E::Bin("-", n(), Box::new(E::Int(1)));
            let some = || E::Bin(">", n(), Box::new(E::Int(0)));
            let again = E::Bin("+", n(), Box::new(E::Call("fac", vec![less()])));
            p.flows.push(flow(What::Function, "fac", vec!["n"], vec![S::If(vec![(Some(some()), vec![S::Return(again)])]), S::Return(E::Int(0))]));
            let body = vec![S::Line(vec![In::T(self.word()), In::T(" ".into()), In::P(E::Var("n"))], vec![], None), S::If(vec![(Some(some()), vec![S::Call(E::Call("fy", vec![less()]))])])];
            p.flows.push(flow(What::Function, "fy", vec!["n"], body));
            let body = vec![S::Call(E::Call("fr", vec![E::Var("n")])), S::Set("n", E::Bin("*", n(), Box::new(E::Int(2))))];
            p.flows.push(flow(What::Function, "fn", vec!["n"], body));
            let body = vec![S::Temp("t", E::Var("n")), S::Set("n", E::Var("m")), S::Set("m", E::Var("t"))];
            p.flows.push(flow(What::Function, "fs", vec!["n", "m"], body));
            let body = vec![S::Return(E::Bin("-", n(), Box::new(E::Bin("*", Box::new(E::Var("m")), Box::new(E::Int(2))))))];
            p.flows.push(flow(What::Function, "f2", vec!["n", "m"], body));
        }
        p
    }
}
fn gen_at(k: u64) -> G {
    G {
        seed: k.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(12345),
        free: false,
        uid: 0,
        knots: vec![],
        here: 0,
        stitches: vec![],
        labels: vec![],
        functions: false,
        temps: vec![],
        guarded: false,
        tunnel: false,
        left: 0,
        more: false,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c01_programs(k: u64) {
    played(gen_at(k))
}
/// programs of more of the language: arguments, lists, recursion, references, comments
#[unsafe(no_mangle)]
pub extern "C" fn c01_more(k: u64) {
    played(G { more: true, ..gen_at(k) })
}
fn played(mut g: G) {
    for _ in 0..4 {
        g.pick(2);
    }
    #[allow(unused_mut)]
    let mut p = g.prog();
    #[cfg(feature = "native")]
    smaller::drop(&mut p);
    compare(&p, &["z"], 4);
}

// ---- every two constructs next to each other, wherever they can be ----

const CONSTRUCTS: u32 = 23;
const PLACES: u64 = 9;
fn word(s: &str) -> Vec<In> {
    vec![In::T(s.to_string())]
}
/// a construct; without those that lead elsewhere where they cannot stand
fn construct(k: u32, n: &str, flow: bool) -> Option<S> {
    let w = |x: &str| format!("{x}{n}");
    let line = |v| S::Line(v, vec![], None);
    let z = |o, i| E::Bin(o, Box::new(E::Var("z")), Box::new(E::Int(i)));
    let one = |x: &str| vec![S::Line(word(&w(x)), vec![], None)];
    Some(match k {
        0 => line(word(&w("a"))),
        1 => line(vec![In::T(w("b ")), In::Glue]),
        2 => line(vec![In::Glue, In::T(w("c"))]),
        3 => line(vec![In::Cond(z(">", 0), word(&w("d")), None)]),
        4 => S::TagLine((w("e"), None)),
        5 => S::Line(word(&w("f")), vec![(w("g"), None)], None),
        6 => S::Call(E::Call("ft", vec![])),
        7 => line(vec![In::P(E::Call("ft", vec![]))]),
        8 => S::If(vec![(Some(z(">", 1)), one("h")), (Some(z("==", 0)), vec![S::Add("x", 1)]), (None, one("i"))]),
        9 => S::Seq(Kind::Stopping, vec![one("j"), one("k")]),
        10 => S::Set("y", E::Call("fv", vec![E::Var("z")])),
        11 => S::Switch(E::Var("z"), vec![(E::Int(0), one("l")), (E::Int(2), one("m"))], None),
        12 => line(vec![In::T(w("n ")), In::Seq(Kind::Once, vec![word("o"), vec![]]), In::T(" ".into()), In::P(E::Var("x"))]),
        13 => line(vec![In::P(E::Call("fx", vec![])), In::Cond(z("<", 2), word("p"), Some(word("q")))]),
        14 => S::Add("x", 2),
        15 if flow => S::Div(Div::Tunnel("t0".into(), vec![])),
        16 if flow => S::Line(word(&w("r")), vec![], Some(Div::Tunnel("t0".into(), vec![]))),
        17 if flow => S::Thread("h0".into(), vec![]),
        20 if flow => S::If(vec![(Some(z(">", 0)), vec![S::Line(word(&w("v")), vec![], Some(Div::Var("d")))])]),
        21 if flow => S::If(vec![(Some(z("<", 0)), vec![S::Line(word(&w("w")), vec![], Some(Div::With("kp".into(), vec![E::Var("x")])))])]),
        22 if flow => S::Set("d", E::Target("k2".into())),
        18 if flow => line(vec![In::T(w("s ")), In::Cond(z("<", 1), vec![In::T("t".into()), In::D(Div::To("k1".into()))], None)]),
        19 if flow => S::If(vec![(Some(z("<", 3)), vec![S::Line(word(&w("u")), vec![], None), S::Div(Div::To("k1".into()))])]),
        _ => return None,
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn c01_pairs(k: u64) {
    let mut g = gen_at(0);
    g.free = true;
    let flow = ![2, 6].contains(&k);
    let (a, b) = (g.pick(CONSTRUCTS), g.pick(CONSTRUCTS));
    // not within themselves
    let own: &[u32] = [&[6, 7][..], &[15, 16], &[17]].get(k.wrapping_sub(6) as usize).copied().unwrap_or(&[]);
    if own.contains(&a) || own.contains(&b) {
        sx::assume(false);
        return;
    }
    let (Some(a), Some(b)) = (construct(a, "1", flow), construct(b, "2", flow)) else {
        sx::assume(false);
        return;
    };
    let line = |w: &str| S::Line(word(w), vec![], None);
    let choice = |w: &str, body| S::Choice(Choice { start: word(w), body, ..Default::default() });
    let pair = vec![a, b];
    let mut body = vec![];
    let mut function = vec![line("x1")];
    let mut tunnel = vec![line("v1")];
    let mut thread = vec![];
    match k {
        0 => body.extend(pair),
        // within a conditional
        1 => {
            let mut p = vec![line("w1")];
            p.extend(pair);
            body.push(S::If(vec![(Some(E::Bin(">", Box::new(E::Var("z")), Box::new(E::Int(0)))), p), (None, vec![line("w2")])]));
        }
        // within alternatives
        2 => {
            let mut p = vec![line("w1")];
            p.extend(pair);
            body.push(S::Seq(Kind::Cycle, vec![p, vec![line("w2")]]));
        }
        // what a choice leads to
        3 => body.push(choice("w3", pair)),
        // after a gather
        4 => body.extend([vec![choice("w4", vec![]), choice("w5", vec![line("w6")]), S::Gather(None)], pair].concat()),
        // on the gather's line
        5 => body.extend([vec![choice("w4", vec![]), S::Gather(Some("lg".into()))], pair].concat()),
        6 => function.extend(pair),
        7 => tunnel.extend(pair),
        _ => thread.extend(pair),
    }
    // what they are next to
    let mut main = vec![line("w7")];
    if k == 8 {
        main.push(S::Thread("h0".into(), vec![]));
    } else if k == 6 {
        main.push(S::Line(vec![In::T("w8 ".into()), In::P(E::Call("ft", vec![])), In::T(" w9".into())], vec![], None));
    } else if k == 7 {
        main.push(S::Line(word("w8"), vec![], Some(Div::Tunnel("t0".into(), vec![]))));
    }
    main.extend(body);
    if k == 3 {
        main.push(choice("wa", vec![]));
        main.push(S::Gather(None));
    }
    main.push(line("wb"));
    main.push(S::Choice(Choice { sticky: true, start: word("wc"), ..Default::default() }));
    main.push(S::Gather(None));
    main.push(S::Line(word("wd"), vec![], Some(Div::To("k1".into()))));
    tunnel.push(S::Div(Div::Back));
    thread.push(choice("wt", vec![line("wu")]));
    thread.push(S::Gather(None));
    thread.push(S::Div(Div::Done));
    let f = |what, n: &str, params, body| Flow { what, name: n.into(), path: n.into(), params, refs: false, body };
    let p = Prog {
        consts: vec![],
        lean: false,
        noise: 0,
        by: ["    ", ""][k as usize % 2],
        globals: vec![("x", E::Int(0)), ("y", E::Int(0)), ("z", E::Int(0)), ("d", E::Target("k1".into()))],
        top: vec![S::Div(Div::To("k0".into()))],
        flows: vec![
            f(What::Knot, "k0", vec![], main),
            f(What::Knot, "k1", vec![], vec![S::Line(vec![In::T("we ".into()), In::P(E::Count("k0".into()))], vec![], None), S::Div(Div::End)]),
            f(What::Knot, "k2", vec![], vec![S::Line(vec![In::T("wf ".into()), In::P(E::Count("k2".into()))], vec![], Some(Div::End))]),
            f(What::Knot, "kp", vec!["n"], vec![S::Line(vec![In::T("wg ".into()), In::P(E::Var("n"))], vec![], Some(Div::Var("d")))]),
            f(What::Knot, "t0", vec![], tunnel),
            f(What::Knot, "h0", vec![], thread),
            f(What::Function, "ft", vec![], function),
            f(What::Function, "fx", vec![], vec![S::Add("x", 1), S::Return(E::Var("x"))]),
            f(What::Function, "fv", vec!["n"], vec![S::Return(E::Bin("+", Box::new(E::Var("n")), Box::new(E::Int(1))))]),
        ],
    };
    compare(&p, &["z"], 2);
}

/// leaves out parts of a program, to find the part that matters (native, by hand)
#[cfg(feature = "native")]
mod smaller {
    use super::*;
    struct D {
        set: Vec<u32>,
        n: u32,
    }
    impl D {
        fn go(&mut self) -> bool {
            self.n += 1;
            self.set.contains(&(self.n - 1))
        }
        fn ins(&mut self, v: &mut Vec<In>) {
            v.retain_mut(|i| {
                if self.go() {
                    return false;
                }
                match i {
                    In::Cond(_, a, b) => {
                        self.ins(a);
                        if b.is_some() && self.go() {
                            *b = None;
                        }
                        if let Some(b) = b {
                            self.ins(b);
                        }
                    }
                    In::Seq(_, a) => a.iter_mut().for_each(|a| self.ins(a)),
                    _ => {}
                }
                true
            });
        }
        fn block(&mut self, v: &mut Vec<S>, branch: bool) {
            let mut first = true;
            v.retain_mut(|s| {
                let kept = std::mem::take(&mut first) && branch;
                if self.go() && !kept && !matches!(s, S::Gather(_) | S::Return(_)) {
                    return false;
                }
                match s {
                    S::Line(v, t, d) => {
                        self.ins(v);
                        if self.go() {
                            t.clear();
                        }
                        if d.is_some() && self.go() {
                            *d = None;
                        }
                    }
                    S::If(b) => b.retain_mut(|b| {
                        if self.go() {
                            return false;
                        }
                        self.block(&mut b.1, true);
                        true
                    }),
                    S::Switch(_, c, d) => {
                        c.iter_mut().for_each(|c| self.block(&mut c.1, true));
                        if d.is_some() && self.go() {
                            *d = None;
                        }
                        if let Some(d) = d {
                            self.block(d, true);
                        }
                    }
                    S::Seq(_, b) => b.iter_mut().for_each(|b| self.block(b, true)),
                    S::Choice(c) => {
                        if self.go() {
                            c.label = None;
                        }
                        if self.go() {
                            c.conds.clear();
                        }
                        if self.go() {
                            c.start_tag = None;
                            c.only_tag = None;
                            c.inner_tag = None;
                        }
                        if c.div.is_some() && self.go() {
                            c.div = None;
                        }
                        self.block(&mut c.body, false);
                    }
                    S::Gather(l) => {
                        if self.go() {
                            *l = None;
                        }
                    }
                    _ => {}
                }
                true
            });
        }
    }
    pub fn drop(p: &mut Prog) {
        let Ok(e) = std::env::var("DROP") else { return };
        let mut d = D { set: e.split(',').filter_map(|x| x.parse().ok()).collect(), n: 0 };
        d.block(&mut p.top, false);
        for f in &mut p.flows {
            d.block(&mut f.body, false);
        }
        p.flows.retain(|_| !d.go());
        println!("PARTS {}", d.n);
    }
}
