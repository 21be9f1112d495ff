//! C06: the compiler is total and deterministic, and its output is well formed
use crate::h::{compile, same};
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink_compiler::{Compiler, CompilerError};
use serde_json::Value as Json;
use std::collections::HashSet;
use std::fmt::Write;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

// ---- the references of a compiled story, resolved by the rules of its format ----

struct Node<'a> {
    /// None for anything but a container
    content: Vec<usize>,
    named: Vec<(String, usize)>,
    container: bool,
    parent: usize,
    json: &'a Json,
}
struct Tree<'a> {
    n: Vec<Node<'a>>,
}
const NONE: usize = usize::MAX;
fn build<'a>(t: &mut Tree<'a>, j: &'a Json, parent: usize) -> usize {
    let id = t.n.len();
    t.n.push(Node { content: vec![], named: vec![], container: j.is_array(), parent, json: j });
    if let Json::Array(a) = j {
        let Some((last, items)) = a.split_last() else { bad("a container without an end") };
        let mut content = vec![];
        let mut named = vec![];
        match last {
            Json::Null => {}
            Json::Object(m) => {
                for (k, v) in m {
                    if k != "#f" && k != "#n" {
                        if !v.is_array() {
                            bad("named content is not a container");
                        }
                        named.push((k.clone(), build(t, v, id)));
                    }
                }
            }
            _ => bad("a container does not end with null or its named content"),
        }
        for x in items {
            let c = build(t, x, id);
            content.push(c);
            if let Json::Array(b) = x
                && let Some(Json::Object(m)) = b.last()
                && let Some(Json::String(s)) = m.get("#n")
            {
                if named.iter().any(|(k, _)| k == s) {
                    sx::note(s);
                    bad("two contents of one container with one name");
                }
                named.push((s.clone(), c));
            }
        }
        t.n[id].content = content;
        t.n[id].named = named;
    }
    id
}
fn bad(msg: &str) -> ! {
    sx::fail(msg)
}
/// what a path leads to, exactly
fn resolve(t: &Tree, from: usize, path: &str) -> Option<usize> {
    let (mut at, rest) = match path.strip_prefix('.') {
        // relative: the first step up of an object that is no container is to its container
        Some(r) => (from, r),
        None => (0, path),
    };
    if path.is_empty() {
        return None;
    }
    for c in rest.split('.') {
        if c == "^" {
            at = t.n[at].parent;
            if at == NONE {
                return None;
            }
            continue;
        }
        if !t.n[at].container {
            return None;
        }
        at = if !c.is_empty() && c.bytes().all(|b| b.is_ascii_digit()) {
            *t.n[at].content.get(c.parse::<usize>().ok()?)?
        } else {
            t.n[at].named.iter().find(|(k, _)| k == c)?.1
        };
    }
    Some(at)
}
fn need(t: &Tree, id: usize, v: &Json, what: &str, container: bool) {
    let Json::String(p) = v else { bad("a path that is no text") };
    match resolve(t, id, p) {
        Some(x) if !container || t.n[x].container => {}
        _ => {
            sx::note(&format!("{what} {p}"));
            bad(&format!("{what} leads nowhere"))
        }
    }
    sx::cover(what);
}
/// temporaries of the flow that an object is in: the child of the root it is below
fn flow(t: &Tree, mut id: usize) -> usize {
    while t.n[id].parent != NONE && t.n[id].parent != 0 {
        id = t.n[id].parent;
    }
    id
}
fn references(j: &Json) {
    let root = j.get("root").unwrap_or_else(|| bad("no root"));
    let mut t = Tree { n: vec![] };
    if !root.is_array() {
        bad("the root is no container");
    }
    build(&mut t, root, NONE);
    let mut globals: HashSet<&str> = HashSet::new();
    let mut temps: HashSet<(usize, &str)> = HashSet::new();
    let Some(Json::Object(lists)) = j.get("listDefs") else { bad("no list definitions") };
    let decl = t.n[0].named.iter().find(|(k, _)| k == "global decl").map(|x| x.1).unwrap_or(NONE);
    for (id, n) in t.n.iter().enumerate() {
        if let Json::Object(m) = n.json {
            if let Some(Json::String(v)) = m.get("VAR=")
                && flow(&t, id) == decl
                && m.get("re").is_none()
            {
                globals.insert(v);
            }
            if let Some(Json::String(v)) = m.get("temp=") {
                temps.insert((flow(&t, id), v));
            }
        }
    }
    let item = |n: &str| {
        lists.keys().any(|k| k == n)
            || match n.split_once('.') {
                Some((l, i)) => lists.get(l).and_then(|x| x.get(i)).is_some(),
                None => lists.values().any(|x| x.get(n).is_some()),
            }
    };
    let known = |id: usize, n: &str| globals.contains(n) || temps.contains(&(flow(&t, id), n)) || n.starts_with("$r");
    for (id, n) in t.n.iter().enumerate() {
        let Json::Object(m) = n.json else { continue };
        for (k, v) in m {
            match k.as_str() {
                "->" | "f()" | "->t->" => {
                    if m.contains_key("var") {
                        let Json::String(s) = v else { bad("no name") };
                        if !known(id, s) {
                            sx::note(s);
                            bad("a divert to an unknown variable");
                        }
                    } else {
                        need(&t, id, v, if k == "->" { "divert" } else if k == "f()" { "function call" } else { "tunnel" }, k != "->");
                    }
                }
                "^->" => need(&t, id, v, "divert target", false),
                "*" => need(&t, id, v, "choice target", true),
                "CNT?" => need(&t, id, v, "read count", true),
                "VAR?" => {
                    let Json::String(s) = v else { bad("no name") };
                    if !known(id, s) && !item(s) {
                        sx::note(s);
                        bad("an unknown variable");
                    }
                    sx::cover("variable");
                }
                "^var" => {
                    let Json::String(s) = v else { bad("no name") };
                    if !known(id, s) {
                        sx::note(s);
                        bad("a reference to an unknown variable");
                    }
                }
                "VAR=" if m.contains_key("re") => {
                    let Json::String(s) = v else { bad("no name") };
                    if !known(id, s) {
                        sx::note(s);
                        bad("an assignment to an unknown variable");
                    }
                    sx::cover("assignment");
                }
                "temp=" if m.contains_key("re") => {
                    let Json::String(s) = v else { bad("no name") };
                    if !known(id, s) {
                        sx::note(s);
                        bad("an assignment to an unknown temporary");
                    }
                }
                _ => {}
            }
        }
    }
}

fn lines(src: &str) -> usize {
    // an empty text has one, empty, line
    src.split('\n').count()
}
fn error_line(e: &CompilerError, src: &str) {
    let l = match e {
        CompilerError::InvalidSource { line, .. } | CompilerError::UnsupportedFeature { line, .. } => *line,
    };
    if let Some(l) = l {
        sx::check(l >= 1 && l <= lines(src), "an error names a line that does not exist");
        sx::cover("line");
    }
}
/// everything the property says about one text
fn whole(src: &str) -> Option<String> {
    sx::fuel(100_000_000 + 400_000 * src.len() as u64);
    let c = Compiler::new();
    match c.compile(src) {
        Err(e) => {
            sx::cover("error");
            error_line(&e, src);
            None
        }
        Ok(j) => {
            sx::cover("compiled");
            match serde_json::from_str::<Json>(&j) {
                Err(e) => {
                    sx::note(&format!("{e}"));
                    bad("the output is not JSON")
                }
                Ok(v) => references(&v),
            }
            if let Err(e) = Story::new(&j) {
                sx::note(&format!("{e}"));
                bad("a compiled story does not load");
            }
            Some(j)
        }
    }
}
/// the same text again, with the hash maps in another order
fn again(src: &str, first: &Result<String, CompilerError>) {
    sx::hash_xor(0x9e37_79b9_7f4a_7c15);
    let second = Compiler::new().compile(src);
    sx::hash_xor(0);
    match (first, &second) {
        (Ok(a), Ok(b)) => same(a, b, "one text compiles to two stories"),
        (Err(a), Err(b)) => same(&format!("{a}"), &format!("{b}"), "one text gives two errors"),
        _ => bad("one text compiles and does not"),
    }
    sx::cover("again");
}

/// the corpus as it is
#[unsafe(no_mangle)]
pub extern "C" fn c06_corpus(k: u64) {
    let (name, src) = SOURCES[k as usize];
    if src.contains("INCLUDE") {
        sx::end();
    }
    sx::note(name);
    sx::fuel(20_000_000_000);
    let _ = whole(src);
    again(src, &Compiler::new().compile(src));
    let _ = Compiler::new().compile_to_stats(src);
}

/// one construct each
const SNIPPETS: &[&str] = &[
    "VAR x = 1\nHi {x} # t\n* [a] b\n-> END\n",
    "VAR x = 5\n{x > 2: A|B} <>\n{&a|b|{~c|d}}\n",
    "LIST L = a, (b), c = 7\nVAR y = (a, c)\n{L ? b} {LIST_COUNT(y)}\n~ y += c\n",
    "CONST C = 3\nEXTERNAL ext(p, q)\n~ ext(C, \"s\")\n{ext(1, -2.5)}\n=== function ext(p, q)\n~ return p + q * 2\n",
    "-> k(2) ->\n-> k.s\n=== k(p)\n{p}\n->->\n= s\n* (l) [x]\n- (g) {l} -> g\n",
    "<- th(-> done)\n-> DONE\n=== th(-> d)\n+ {CHOICE_COUNT() < 2} c\n-> d\n=== done\n-> END\n",
    "~ temp t = RANDOM(1, 6) % 4\n{t:\n- 0: zero\n- 1: one\n- else: {t}\n}\n",
    "{\n- x == 1: a\n~ x = 2\n- else: b\n}\nVAR x = 0\n",
    "VAR d = -> k\n-> d\n=== k\n{k > 1 && not (d == -> k) || TURNS_SINCE(-> k) >= 0: -> END}\n~ f(d)\n-> k\n=== function f(ref v)\n~ v = -> k\n",
    "{stopping:\n- one\n- two\n  * x\n}\n{shuffle once:\n- p\n- q\n}\n/* c */ // d\nTODO: e\n",
    "* a\n** b # u\n*** {1} c -> k\n--- (g3) x\n-- y\n- z \\{ esc \\| -> k\n=== k ===\n->-> \n",
    "- (top) é “x” {\"s{1}t\"}\n* \\\n+ -> top\n",
];
fn any_char(name: &str) -> Vec<u8> {
    match sx::choose("kind", 3) {
        0 => {
            let c = sx::u8(name);
            sx::assume(c < 0x80);
            vec![c]
        }
        1 => "é".as_bytes().to_vec(),
        _ => "\u{2028}".as_bytes().to_vec(),
    }
}
fn position(name: &str, n: usize) -> usize {
    let v = sx::u32(name);
    sx::assume(v < n as u32);
    sx::concrete(v as u64) as usize
}
/// a text with a character replaced, put in or taken out anywhere, or cut off
fn mutated(src: &str, times: u32) -> String {
    let mut v = src.as_bytes().to_vec();
    for _ in 0..times {
        let how = sx::choose("how", 4);
        let p = position("at", v.len() + (how == 1) as usize);
        if p < v.len() && v[p] >= 0x80 {
            sx::end();
        }
        match how {
            0 => {
                v.splice(p..p + 1, any_char("c"));
            }
            1 => {
                v.splice(p..p, any_char("c"));
            }
            2 => {
                v.remove(p);
            }
            _ => v.truncate(p),
        }
        if v.is_empty() {
            break;
        }
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => sx::end(),
    }
}
fn twice(src: &str) {
    whole(src);
    again(src, &Compiler::new().compile(src));
    let _ = Compiler::new().compile_to_stats(src);
}
fn source(k: u64) -> String {
    match SNIPPETS.get(k as usize) {
        Some(s) => s.to_string(),
        None => stories::ALL[(k as usize - SNIPPETS.len()) % stories::ALL.len()].src.to_string(),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_bytes(k: u64) {
    whole(&mutated(&source(k), 1));
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_bytes_deep(k: u64) {
    twice(&mutated(&source(k), 2))
}

/// any few characters where something is expected
const HOLES: &[(&str, &str)] = &[
    ("", ""),
    ("a", "b\n"),
    ("{", "}\n"),
    ("VAR x = 1\n{x", "}\n"),
    ("VAR x = 1\n~ x", "\n"),
    ("VAR x = ", "\n"),
    ("~ temp t = ", "\n{t}\n"),
    ("* ", "\n- b\n"),
    ("* [", "] c\n"),
    ("-> ", "\n=== k\n= s\n-> END\n"),
    ("-> k", "\n=== k(a)\n-> END\n"),
    ("=== k", "\n-> END\n"),
    ("LIST L = ", "\n{L}\n"),
    ("LIST l = a\n{LIST_", "}\n"),
    ("VAR x = 1\n{", "x: a|b}\n"),
    ("VAR x = 1\n{x:\n", "- 1: a\n}\n"),
    ("{", "a|b}\n"),
    ("x # ", "\ny\n"),
    ("VAR x = 1\n{\"", "\" + x}\n"),
    ("-> k\n=== k\n", "\n-> END\n"),
    ("<- k", "\n=== k\n-> END\n"),
    ("=== function f(", ")\n~ return 1\n"),
    ("VAR x = 1\n* {x ", "} a\n"),
    ("* (", ") a\n- (g) b\n-> g\n"),
    ("{f(", ")}\n=== function f(a)\n~ return a\n"),
    ("EXTERNAL ", "\n"),
    ("CONST ", "\n{C}\n"),
    ("VAR é = 1\n~ é = ", "\n{é}\n"),
    ("{\"é\" == ", "}\n"),
    ("a\n* b\n", " c\n- d\n"),
    ("VAR x = 1\n{x == 1:\n  a\n", "\n}\n"),
    ("{\n", "\n}\n"),
];
fn hole(k: u64, max: u32) {
    let (a, b) = HOLES[k as usize];
    let n = sx::choose("length", max + 1);
    let mut v = a.as_bytes().to_vec();
    for _ in 0..n {
        let c = sx::u8("c");
        sx::assume(c < 0x80);
        v.push(c);
    }
    v.extend(b.bytes());
    whole(std::str::from_utf8(&v).unwrap());
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_hole(k: u64) {
    hole(k, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_hole_deep(k: u64) {
    hole(k, 4)
}

/// pieces of the language in any sequence
const TOKENS: &[&str] = &[
    "a", "x", "1", " ", "\n", "{", "}", "|", ":", "-", "*", "->", "~ ", "(", ")", "[", "]", "\"", "#", "=", "<>", "//", "/*", "\\", "&", "!", ",", "é", "k", "+", "else", "temp ", "return", "<-",
    "===", "->->", "VAR ", "LIST ", "f(", "ref ", "not ", "?", ".", "@", "/", "%", "1.5", "true", "END", "stopping", "INCLUDE ", "TODO:", "\t", "^", "_", "99999999999", "&&", "||",
];
const FRAMES: &[(&str, &str)] = &[
    ("VAR x = 1\n", "\n-> END\n=== k\n-> END\n=== function f(a)\n~ return a\n"),
    ("VAR x = 1\n{", "}\n-> END\n=== k\n-> END\n=== function f(a)\n~ return a\n"),
    ("VAR x = 1\n~ x = ", "\n-> END\n=== k\n-> END\n=== function f(a)\n~ return a\n"),
    ("VAR x = 1\n* ", "\n-> END\n=== k\n-> END\n=== function f(a)\n~ return a\n"),
    ("VAR x = 1\n-> k\n=== k\n- (x) a\n{x:\n", "\n}\n-> END\n=== function f(a)\n~ return a\n"),
    ("VAR x = 1\n-> k\n=== k", "\n-> END\n=== function f(a)\n~ return a\n"),
];
fn tokens(k: u64, n: u32) {
    let (a, b) = FRAMES[k as usize];
    let mut s = a.to_string();
    for _ in 0..n {
        s.push_str(TOKENS[sx::choose("token", TOKENS.len() as u32) as usize]);
    }
    whole(&(s + b));
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_tokens(k: u64) {
    tokens(k, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_tokens_deep(k: u64) {
    tokens(k, 4)
}

/// whole lines in any sequence
const LINES: &[&str] = &[
    "text", "* a", "** b", "*** c", "+ [d] e", "- f", "-- g", "- (l) h", "* (l) i", "-> k", "-> k.s", "-> l", "-> END", "-> DONE", "->->", "=== k", "=== k(p)", "=== function f", "=== function f(ref p)",
    "= s", "= s(p)", "~ x = 2", "~ x++", "~ temp t = x", "~ return 1", "~ f()", "~ f(x)", "{x:", "{x > 1:", "- 1: j", "- else: m", "- else:", "}", "{", "{x: a|b}", "{f()}", "{f(x)}", "{t}", "{p}",
    "{stopping:", "{x: -> k}", "<- k", "-> k ->", "-> k -> k.s", "VAR x = 1", "VAR x = -> k", "VAR y = x", "CONST c = 1", "LIST x = a, b", "LIST m = x, l", "EXTERNAL f()", "INCLUDE q", "# tag", "* -> k", "* {l} n",
    "{k} {k.s} {l} {k.l}", "{TURNS_SINCE(-> l)}", "<> o <>", "/*", "*/", "// p", "\\", "* \\", "é {x}", "* [", "{x: {x: -> l}}", "* {x} {p} -> s",
];
fn sequence(n: u32, first: Option<u64>) {
    let mut s = String::new();
    for i in 0..n {
        let c = match first {
            Some(f) if i == 0 => f as usize,
            _ => sx::choose("line", LINES.len() as u32) as usize,
        };
        s += LINES[c];
        s.push('\n');
    }
    if sx::choose("with", 2) == 1 {
        s += "VAR x = 1\n=== k(p)\n-> END\n= s\n- (l) q\n-> END\n=== function f(p)\n~ return p\n";
    }
    whole(&s);
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_lines(k: u64) {
    sequence(3, Some(k))
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_lines_deep(k: u64) {
    sequence(4, Some(k))
}

/// sources of the corpus with a line missing, twice, or in another place
#[unsafe(no_mangle)]
pub extern "C" fn c06_moved(k: u64) {
    let (name, src) = SOURCES[k as usize];
    sx::note(name);
    let mut l: Vec<&str> = src.lines().collect();
    let p = position("line", l.len());
    match sx::choose("how", 3) {
        0 => {
            l.remove(p);
        }
        1 => {
            l.insert(p, l[p]);
        }
        _ => {
            if p + 1 < l.len() {
                l.swap(p, p + 1);
            }
        }
    }
    whole(&(l.join("\n") + "\n"));
}

/// a name where a name is needed: known ones compile, others are refused
#[unsafe(no_mangle)]
pub extern "C" fn c06_names(_: u64) {
    const NAMES: &[&str] = &["k", "k.s", "s", "k.l", "k.s.m", "m", "g", "x", "v", "L", "a", "L.a", "f", "ext", "t", "C", "zz", "k.zz", "k.s.zz", "L.zz", "zz.s", "kk", "DONE", "END", "p", "f.q", "k.t"];
    const USES: &[&str] = &[
        "-> @", "-> @ ->", "<- @", "{x: -> @}", "* a -> @", "* -> @", "{@}", "{x: {@}|b}", "{@: a}", "{@ == 1}", "{@()}", "~ @()", "~ @ = 1", "~ @++", "{TURNS_SINCE(-> @)}", "~ temp u = -> @", "~ v = -> @", "{f(@)}", "{LIST_COUNT(@)}",
        "* {@} b", "+ [{@}] c", "# t {@}", "{\"q{@}\"}", "{READ_COUNT(-> @)}", "-> k.w(@)", "-> k.d(-> @)", "->-> @", "{stopping:\n- {@}\n- -> @\n}", "{x:\n- @: b\n}", "{~{@}|c}", "{f(-> @)}", "{g2(@)}", "{(@)}", "VAR y = @", "VAR y = -> @", "LIST M = (@)", "~ temp q = (L.a, @)",
    ];
    let n = NAMES[sx::choose("name", NAMES.len() as u32) as usize];
    let u = USES[sx::choose("use", USES.len() as u32) as usize].replace('@', n);
    let at = sx::choose("where", 4);
    let put = |i: u32| if i == at { u.as_str() } else { "r" };
    let mut s = String::new();
    let _ = write!(
        s,
        "VAR x = 1\nVAR v = -> k\nCONST C = 2\nLIST L = a, b\nEXTERNAL ext()\n{}\n- (g) top\n-> k\n=== k\n~ temp t = 1\n- (l) {}\n-> s\n= s\n- (m) {}\n-> END\n= w(p)\n{{p}}\n-> END\n= d(-> p)\n-> p\n=== function f(p)\n{}\n~ return p\n=== function g2(ref p)\n~ p = 1\n",
        put(0), put(1), put(2), put(3)
    );
    let ok = whole(&s);
    let bare = n.split('.').next_back().unwrap();
    // (an item between the parentheses of a LIST declares itself)
    if (bare == "zz" || n == "zz.s" || n == "kk") && !u.starts_with("LIST M") {
        if ok.is_some() {
            sx::note(&s);
            bad("an unknown name compiles");
        }
        sx::cover("unknown");
    }
}

/// nested as deep as it goes
#[unsafe(no_mangle)]
pub extern "C" fn c06_nest(k: u64) {
    const DEEP: &[(&str, &str, &str)] = &[
        ("{(", "1", ")}"),
        ("(", "1", ")"),
        ("{x:", "a", "}"),
        ("{x|", "a", "}"),
        ("{\"", "a", "\"}"),
        ("not ", "x", ""),
        ("-", "x", ""),
        ("f(", "x", ")"),
        ("*", " a", ""),
        ("{x:\n", "a\n", "}\n"),
        ("* ", "a", "\n"),
        ("x + ", "1", ""),
        ("{", "x", "}"),
        ("[", "x", "]"),
    ];
    let (a, m, b) = DEEP[k as usize % DEEP.len()];
    let n = [3, 20, 120, 1000, 4000][sx::choose("depth", 5) as usize];
    let s = format!("VAR x = 1\n{}{}{m}{}\n=== function f(p)\n~ return p\n", ["", "{", "~ x = ", "* "][k as usize / DEEP.len()], a.repeat(n), b.repeat(n) + if k as usize / DEEP.len() == 1 { "}" } else { "" });
    sx::fuel(3_000_000_000);
    match Compiler::new().compile(&s) {
        Ok(j) => {
            if let Err(e) = Story::new(&j) {
                sx::note(&format!("{e}"));
                bad("a compiled story does not load");
            }
            sx::cover("compiled");
        }
        Err(e) => {
            error_line(&e, &s);
            sx::cover("error");
        }
    }
}
/// the sources of the templates, twice, with the maps of the compiler in different orders
#[unsafe(no_mangle)]
pub extern "C" fn c06_again(k: u64) {
    twice(&source(k));
    let _ = compile(&source(k));
}
