//! C19: every piece of content is addressable by its own path
use crate::h::{Dec, compile, load, same, save};
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::verif_hooks::*;
use serde_json::Value as Json;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

type Obj = Rc<dyn RTObject>;
fn at(x: &Obj) -> *const () {
    Rc::as_ptr(x) as *const ()
}
fn container(x: &Obj) -> Option<Rc<Container>> {
    x.clone().into_any().downcast::<Container>().ok()
}
/// every object of the content, once
fn walk(c: &Rc<Container>, v: &mut Vec<Obj>) {
    v.push(c.clone());
    for x in &c.content {
        match container(x) {
            Some(k) => walk(&k, v),
            None => v.push(x.clone()),
        }
    }
    let mut names: Vec<&String> = c.named_content.keys().collect();
    names.sort();
    for n in names {
        let x: Obj = c.named_content[n].clone();
        if !c.content.iter().any(|y| at(y) == at(&x)) {
            walk(&c.named_content[n], v);
        }
    }
}
/// what any hasher is given
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash(p: &Path) -> Vec<u8> {
    let mut h = Fed(Vec::new());
    p.hash(&mut h);
    h.0
}
fn same_hash(p: &Path, q: &Path) {
    let (a, b) = (hash(p), hash(q));
    if a.len() != b.len() {
        bad(p, "equal paths hash otherwise");
    }
    sx::check(a == b, "equal paths hash otherwise");
}
fn bad(p: &Path, msg: &str) -> ! {
    sx::note(&format!("path {p}"));
    sx::fail(msg)
}
/// the text of a path reads back as the path
fn round_trip(p: &Path) {
    let t = p.to_string();
    let q = Path::new_with_components_string(Some(&t));
    if !(q == *p) {
        bad(p, "the text of a path reads back as another path");
    }
    if q.is_relative() != p.is_relative() {
        bad(p, "the text of a path reads back relative or absolute otherwise");
    }
    if q.len() != p.len() {
        bad(p, "the text of a path reads back with another length");
    }
    same_hash(&q, p);
    same(&q.to_string(), &t, "the text of a path is not what its text reads as");
}
/// the path leads from the root to this very object
fn resolves(root: &Rc<Container>, p: &Path, x: &Obj, msg: &str) {
    let r = root.content_at_path(p, 0, -1);
    if r.approximate {
        bad(p, &format!("{msg}: only found approximately"));
    }
    if at(&r.obj) != at(x) {
        bad(p, &format!("{msg}: leads to another object"));
    }
}
fn object(root: &Rc<Container>, x: &Obj) {
    let p = Object::get_path(x.as_ref());
    resolves(root, &p, x, "the path of an object");
    if p.is_relative() {
        bad(&p, "the path of an object is relative");
    }
    round_trip(&p);
    let again = Object::get_path(x.as_ref());
    if !(again == p) {
        bad(&p, "an object has two paths");
    }
    // absolute paths resolve from anywhere
    let r = Object::resolve_path(x.clone(), &p);
    if r.approximate || at(&r.obj) != at(x) {
        bad(&p, "an object does not resolve its own path");
    }
    // and as a position
    if !p.is_empty() {
        match pointer_at_path(root, &p) {
            Err(e) => {
                sx::note(&format!("{e}"));
                bad(&p, "no position at the path of an object")
            }
            Ok(q) => match q.resolve() {
                Some(y) if at(&y) == at(x) => {}
                _ => bad(&p, "the position at the path of an object is another"),
            },
        }
    }
    if let Some(c) = container(x) {
        for i in 0..=c.content.len() as i32 {
            position(root, &Pointer::new(Some(c.clone()), i));
        }
        if !c.get_path().is_empty() {
            position(root, &Pointer::new(Some(c.clone()), -1));
        }
    }
    sx::cover("addressed");
}
/// a position reads back as itself: what is there is the same, or the end of the same container
fn position(root: &Rc<Container>, p: &Pointer) {
    let path = p.get_path().unwrap();
    round_trip(&path);
    let Ok(q) = pointer_at_path(root, &path) else { bad(&path, "a position does not read back") };
    let same = match (p.resolve(), q.resolve()) {
        (Some(a), Some(b)) => at(&a) == at(&b),
        (None, None) => p.index == q.index && p.container.is_some() && q.container.is_some() && Rc::ptr_eq(p.container.as_ref().unwrap(), q.container.as_ref().unwrap()),
        _ => false,
    };
    if !same {
        bad(&path, "a position reads back as another");
    }
    if p.index >= 0 && (q.index != p.index || !Rc::ptr_eq(q.container.as_ref().unwrap(), p.container.as_ref().unwrap())) {
        bad(&path, "a position reads back in another container or at another index");
    }
}
/// what an object refers to is found without approximation, and so written down
fn references(root: &Rc<Container>, x: &Obj) {
    let mut target = None;
    if let Ok(d) = x.clone().into_any().downcast::<Divert>() {
        if d.is_external || d.has_variable_target() {
            return;
        }
        let Ok(p) = d.get_target_pointer() else { bad(&Object::get_path(x.as_ref()), "the target of a divert does not exist") };
        let Some(t) = p.resolve() else { bad(&Object::get_path(x.as_ref()), "there is nothing at the target of a divert") };
        let Some(q) = d.get_target_path() else { bad(&Object::get_path(x.as_ref()), "a divert has no path") };
        let r = root.content_at_path(&q, 0, -1);
        // the start of a container or the container itself
        let ok = at(&r.obj) == at(&t) || container(&r.obj).is_some_and(|c| p.index == 0 && Rc::ptr_eq(&c, p.container.as_ref().unwrap()));
        if r.approximate || !ok {
            bad(&q, "the target path of a divert leads elsewhere");
        }
        target = Some((r.obj, d.get_target_path_string().unwrap()));
    } else if let Ok(c) = x.clone().into_any().downcast::<ChoicePoint>() {
        let p = c.get_path_on_choice();
        let Some(t) = c.get_choice_target() else { bad(&p, "the target of a choice does not exist") };
        let t: Obj = t;
        resolves(root, &p, &t, "the path of a choice");
        target = Some((t, c.get_path_string_on_choice()));
    } else if let Ok(v) = x.clone().into_any().downcast::<VariableReference>() {
        if v.path_for_count.is_none() {
            return;
        }
        let p = v.path_for_count.clone().unwrap();
        let r = Object::resolve_path(x.clone(), &p);
        if r.approximate {
            bad(&p, "the target of a read count does not exist");
        }
        target = Some((r.obj, v.get_path_string_for_count().unwrap()));
    }
    if let Some((t, text)) = target {
        let p = Path::new_with_components_string(Some(&text));
        round_trip(&p);
        let r = Object::resolve_path(x.clone(), &p);
        if r.approximate || at(&r.obj) != at(&t) {
            bad(&p, "the compact path of a reference leads elsewhere");
        }
        sx::cover("reference");
    }
}
/// from one object to another, relative
fn between(root: &Rc<Container>, a: &Obj, b: &Obj) {
    let _ = Object::get_path(a.as_ref());
    let pb = Object::get_path(b.as_ref());
    let rel = Object::convert_path_to_relative(a, &pb);
    let r = Object::resolve_path(a.clone(), &rel);
    if r.approximate || at(&r.obj) != at(b) {
        sx::note(&format!("from {} to {pb}", Object::get_path(a.as_ref())));
        bad(&rel, "a relative path leads elsewhere");
    }
    round_trip(&rel);
    if rel.is_relative() {
        sx::cover("relative");
    }
    let text = Object::compact_path_string(a.clone(), &pb);
    let p = Path::new_with_components_string(Some(&text));
    let r = Object::resolve_path(a.clone(), &p);
    if r.approximate || at(&r.obj) != at(b) {
        sx::note(&format!("from {} to {pb}", Object::get_path(a.as_ref())));
        bad(&p, "a compact path leads elsewhere");
    }
    let _ = root;
}
fn doc(k: u64) -> Option<String> {
    let k = k as usize;
    let n = stories::ALL.len();
    if k < n {
        return Some(compile(stories::ALL[k].src));
    }
    let k = k - n;
    if k < CORPUS.len() {
        return Some(CORPUS[k].2.trim_start_matches('\u{feff}').to_string());
    }
    let (_, src) = SOURCES.get(k - CORPUS.len())?;
    if src.contains("INCLUDE") {
        return None;
    }
    bladeink_compiler::Compiler::new().compile(src).ok()
}
fn index(name: &str, n: usize) -> usize {
    let v = sx::u32(name);
    sx::assume(v < n as u32);
    sx::concrete(v as u64) as usize
}

/// every object of a story; and, in either order of asking, the paths stay the same
#[unsafe(no_mangle)]
pub extern "C" fn c19_objects(k: u64) {
    sx::fuel(20_000_000_000);
    let Some(d) = doc(k) else { sx::end() };
    let s = load(&d);
    let root = content(&s);
    let mut v = Vec::new();
    walk(&root, &mut v);
    if sx::choose("backwards", 2) == 1 {
        v.reverse();
    }
    for x in &v {
        object(&root, x);
    }
    for x in &v {
        references(&root, x);
    }
}
/// from every object to every other
fn pairs(k: u64) {
    sx::fuel(20_000_000_000);
    let Some(d) = doc(k) else { sx::end() };
    let s = load(&d);
    let root = content(&s);
    let mut v = Vec::new();
    walk(&root, &mut v);
    let a = index("from", v.len());
    for b in 0..v.len() {
        between(&root, &v[a], &v[b]);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_pairs(k: u64) {
    pairs(k)
}

fn path_bytes(name: &str, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let c = sx::u8(name);
            sx::assume(c >= 0x21 && c < 0x7f);
            c
        })
        .collect()
}
/// any text read as a path: written down it reads as the same path
fn texts(max: u32) {
    let n = sx::choose("length", max + 1) as usize;
    let mut v = path_bytes("c", n);
    if sx::choose("wide", 2) == 1 {
        v.extend("é.ü".bytes());
    }
    let t = String::from_utf8(v).unwrap();
    sx::fuel(60_000_000);
    let p = Path::new_with_components_string(Some(&t));
    round_trip(&p);
    sx::check(p.is_relative() == t.starts_with('.'), "a path is relative exactly if its text starts with a dot");
    sx::cover("text");
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_texts(_: u64) {
    texts(4)
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_texts_deep(_: u64) {
    texts(6)
}
/// two texts: equal paths have equal hashes and texts, and the other way round
fn two(max: u32) {
    let n = 1 + sx::choose("length", max) as usize;
    let m = 1 + sx::choose("other length", max) as usize;
    let a = String::from_utf8(path_bytes("a", n)).unwrap();
    let b = String::from_utf8(path_bytes("b", m)).unwrap();
    sx::fuel(60_000_000);
    let p = Path::new_with_components_string(Some(&a));
    let q = Path::new_with_components_string(Some(&b));
    let eq = p == q;
    if eq {
        same_hash(&p, &q);
        same(&p.to_string(), &q.to_string(), "equal paths have different texts");
        sx::cover("equal");
    } else {
        let (x, y) = (p.to_string(), q.to_string());
        sx::check(x.len() != y.len() || x.as_bytes() != y.as_bytes(), "different paths have one text");
        sx::cover("different");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_two(_: u64) {
    two(2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_two_deep(_: u64) {
    two(4)
}
/// paths made of components: any index and any name a container can have
fn parts(deep: bool) {
    let n = 1 + sx::choose("components", if deep { 4 } else { 3 });
    let mut v = Vec::new();
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push('.');
        }
        match sx::choose("component", 3) {
            0 => {
                // an index with up to three digits
                let x = sx::u32("index");
                sx::assume(x < if deep { 100_000 } else { 1000 });
                v.push(Component::new_i(x as usize));
                t += &x.to_string();
            }
            1 => {
                v.push(Component::to_parent());
                t.push('^');
            }
            _ => {
                let l = 1 + sx::choose("length", if deep { 3 } else { 2 }) as usize;
                let s = String::from_utf8(path_bytes("n", l)).unwrap();
                sx::assume(!s.contains('.') && !s.bytes().all(|c| c.is_ascii_digit()));
                v.push(Component::new(&s));
                t += &s;
            }
        }
    }
    let relative = sx::choose("relative", 2) == 1;
    sx::fuel(60_000_000);
    let p = Path::new(&v, relative);
    round_trip(&p);
    same(&p.to_string(), &format!("{}{t}", if relative { "." } else { "" }), "the text of a path is not that of its components");
    // appended, one and all at once
    let q = Path::new(&v[..v.len() - 1], false).path_by_appending_component(v[v.len() - 1].clone());
    let r = Path::new(&v, false);
    if !(q == r) {
        bad(&r, "a component appended gives another path");
    }
    same_hash(&q, &r);
    same(&q.to_string(), &t, "the text of a path is not that of its components");
    round_trip(&q);
    sx::cover("components");
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_parts(_: u64) {
    parts(false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_parts_deep(_: u64) {
    parts(true)
}

/// stories with any names: a named container among the content, one beside it, a label; names may
/// be those of each other
fn names(deep: bool) {
    let max = if deep { 3 } else { 2 };
    let mut name = |what: &str| {
        let n = 1 + sx::choose("length", max) as usize;
        let v: Vec<u8> = (0..n)
            .map(|_| {
                let c = sx::u8(what);
                sx::assume(matches!(c, b'0'..=b'9' | b'a'..=b'c' | b'-' | b'+' | b'^' | b'$' | b'_' | b'.' | b' '));
                c
            })
            .collect();
        String::from_utf8(v).unwrap()
    };
    let k = sx::choose("names", 3);
    let a = if k == 0 { name("a") } else { "g-0".into() };
    let b = if k == 1 || k == 2 { name("b") } else { "g-1".into() };
    let c = if k == 2 { name("c") } else { "kn".into() };
    let d = format!(
        r##"{{"inkVersion":21,"root":[["^x",["^a",["^b",null],{{"#n":"{a}"}}],["^c",{{"#n":"{b}"}}],[["^d",{{"#n":"{a}"}}],null],{{"#n":"{b}","{c}":["^e",{{"f":["^g",null]}}]}}],"done",{{"{b}":["^k",["^l",{{"#n":"{a}"}}],{{"#f":3}}],"kn2":["^m",null],"#f":1}}],"listDefs":{{}}}}"##
    );
    sx::fuel(60_000_000);
    let Ok(s) = Story::new(&d) else {
        sx::cover("refused");
        sx::end()
    };
    let root = content(&s);
    let mut v = Vec::new();
    walk(&root, &mut v);
    for x in &v {
        object(&root, x);
    }
    let i = index("from", v.len());
    for y in &v {
        between(&root, &v[i], y);
    }
    sx::cover("named");
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_names(_: u64) {
    names(false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_names_deep(_: u64) {
    names(true)
}

/// every position and path in a save leads to content of the story
fn in_save(root: &Rc<Container>, j: &Json) {
    match j {
        Json::Array(a) => a.iter().for_each(|x| in_save(root, x)),
        Json::Object(m) => {
            for (k, v) in m {
                match (k.as_str(), v) {
                    ("cPath", Json::String(t)) => {
                        let p = Path::new_with_components_string(Some(t));
                        round_trip(&p);
                        same(&p.to_string(), t, "a path in a save is not as it is written");
                        let r = root.content_at_path(&p, 0, -1);
                        if r.approximate {
                            bad(&p, "a position in a save is only found approximately");
                        }
                        let Some(c) = container(&r.obj) else { bad(&p, "a position in a save is not a container") };
                        let i = m.get("idx").and_then(|x| x.as_i64()).unwrap_or(i64::MIN);
                        if i < -1 || i > c.content.len() as i64 {
                            bad(&p, "a position in a save has no such index");
                        }
                        position(root, &Pointer::new(Some(c), i as i32));
                        sx::cover("position");
                    }
                    ("targetPath" | "originalChoicePath" | "previousContentObject" | "^->", Json::String(t)) => {
                        let p = Path::new_with_components_string(Some(t));
                        round_trip(&p);
                        let r = root.content_at_path(&p, 0, -1);
                        if r.approximate {
                            // the end of a container has a position, but nothing is there
                            let end = match pointer_at_path(root, &p) {
                                Ok(q) => q.container.is_some_and(|c| q.index == c.content.len() as i32),
                                _ => false,
                            };
                            if !end || k == "targetPath" {
                                sx::note(k);
                                bad(&p, "a path in a save is only found approximately");
                            }
                        }
                        sx::cover("path");
                    }
                    ("visitCounts" | "turnIndices", Json::Object(n)) => {
                        for t in n.keys() {
                            let p = Path::new_with_components_string(Some(t));
                            let r = root.content_at_path(&p, 0, -1);
                            if r.approximate || container(&r.obj).is_none() {
                                bad(&p, "a counted path in a save does not exist");
                            }
                            same(&Object::get_path(r.obj.as_ref()).to_string(), t, "a counted path is not that of its container");
                        }
                    }
                    _ => in_save(root, v),
                }
            }
        }
        _ => {}
    }
}
fn saves(k: u64, ops: u32) {
    let n = stories::ALL.len() as u64;
    let t = &stories::ALL[(k % n) as usize];
    let mut s = load(&compile(t.src));
    let root = content(&s);
    let mut d = Dec::new("choice");
    sx::fuel(2_000_000_000);
    for _ in 0..ops {
        if s.can_continue() {
            let _ = s.cont();
        } else if !s.get_current_choices().is_empty() {
            let n = s.get_current_choices().len() as u32;
            let c = d.next(n) as usize;
            let _ = s.choose_choice_index(c);
        } else {
            break;
        }
        let j: Json = serde_json::from_str(&save(&s)).unwrap();
        in_save(&root, &j);
        if let Some(p) = s.get_current_path() {
            let p = Path::new_with_components_string(Some(&p));
            if root.content_at_path(&p, 0, -1).approximate {
                bad(&p, "the current path is only found approximately");
            }
        }
    }
    sx::cover("saves");
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_saves(k: u64) {
    saves(k, 8)
}
#[unsafe(no_mangle)]
pub extern "C" fn c19_saves_deep(k: u64) {
    saves(k, 16)
}
/// the saves of the reference-compiled stories along every choice
#[unsafe(no_mangle)]
pub extern "C" fn c19_corpus(k: u64) {
    sx::fuel(20_000_000_000);
    let Some(d) = doc(k) else { sx::end() };
    let Ok(mut s) = Story::new(&d) else { sx::end() };
    s.set_allow_external_function_fallbacks(true);
    let root = content(&s);
    let mut d = Dec::new("choice");
    for _ in 0..14 {
        if s.can_continue() {
            let _ = s.cont();
        } else if !s.get_current_choices().is_empty() {
            let n = s.get_current_choices().len() as u32;
            let c = d.next(n) as usize;
            let _ = s.choose_choice_index(c);
        } else {
            break;
        }
        if s.has_error() {
            break;
        }
        let Ok(j) = s.save_state() else { sx::fail("a story cannot be saved") };
        in_save(&root, &serde_json::from_str::<Json>(&j).unwrap());
        if let Some(p) = s.get_current_path() {
            let p = Path::new_with_components_string(Some(&p));
            if root.content_at_path(&p, 0, -1).approximate {
                bad(&p, "the current path is only found approximately");
            }
        }
    }
    sx::cover("saves");
}
/// the host jumps to any named content by its path
#[unsafe(no_mangle)]
pub extern "C" fn c19_jump(k: u64) {
    sx::fuel(2_000_000_000);
    let Some(d) = doc(k) else { sx::end() };
    let Ok(mut s) = Story::new(&d) else { sx::end() };
    let root = content(&s);
    let mut v = Vec::new();
    walk(&root, &mut v);
    let i = 1 + index("to", v.len() - 1);
    let p = Object::get_path(v[i].as_ref());
    if s.choose_path_string(&p.to_string(), true, None).is_err() {
        bad(&p, "cannot jump to a path of the story");
    }
    let Some(q) = s.get_current_path() else { bad(&p, "no position after a jump") };
    let q = Path::new_with_components_string(Some(&q));
    let Ok(x) = pointer_at_path(&root, &q) else { bad(&q, "no position after a jump") };
    match x.resolve() {
        Some(y) if at(&y) == at(&v[i]) => sx::cover("jumped"),
        // the start of a container
        _ if x.index == 0 && container(&v[i]).is_some_and(|c| Rc::ptr_eq(&c, x.container.as_ref().unwrap())) => sx::cover("jumped"),
        _ => {
            sx::note(&format!("to {p}"));
            bad(&q, "a jump goes elsewhere")
        }
    }
}
