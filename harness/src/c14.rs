//! C14: both loaders build the same story
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::value_type::ValueType;
use bladeink::verif_hooks::*;
use serde_json::Value as Json;
use std::fmt::Write;
use std::rc::Rc;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

/// everything there is in a container: kinds, texts, numbers, flags, names, in order
pub fn listing(c: &Rc<Container>, depth: usize, o: &mut String) {
    let _ = write!(o, "[{:?} f{} v{}t{}s{}", c.name, c.get_count_flags(), c.visits_should_be_counted as u8, c.turn_index_should_be_counted as u8, c.counting_at_start_only as u8);
    for x in &c.content {
        o.push('\n');
        object(x, depth + 1, o);
    }
    let mut names: Vec<&String> = c.named_content.keys().collect();
    names.sort();
    for n in names {
        let k = &c.named_content[n];
        o.push_str("\n named ");
        o.push_str(n);
        let x: Rc<dyn RTObject> = k.clone();
        match c.content.iter().position(|y| std::ptr::eq(Rc::as_ptr(y) as *const (), Rc::as_ptr(&x) as *const ())) {
            Some(i) => {
                let _ = write!(o, " @{i}");
            }
            None => listing(k, depth + 1, o),
        }
        let _ = write!(o, " parent {}", k.get_object().get_parent().is_some_and(|p| Rc::ptr_eq(&p, c)));
    }
    o.push(']');
}
fn object(x: &Rc<dyn RTObject>, depth: usize, o: &mut String) {
    if let Ok(c) = x.clone().into_any().downcast::<Container>() {
        return listing(&c, depth, o);
    }
    if let Ok(v) = x.clone().into_any().downcast::<Value>() {
        match &v.value {
            ValueType::Bool(b) => {
                let _ = write!(o, "bool {b}");
            }
            ValueType::Int(i) => {
                o.push_str("int ");
                hex(*i as u32, o);
            }
            ValueType::Float(f) => {
                o.push_str("float ");
                hex(f.to_bits(), o);
            }
            ValueType::String(s) => {
                o.push_str("text ");
                o.push_str(&s.string);
                let _ = write!(o, " {}", s.is_non_whitespace());
            }
            ValueType::List(l) => {
                let mut it: Vec<(String, i32)> = l.items.iter().map(|(k, v)| (format!("{k}|{:?}", k.get_origin_name()), *v)).collect();
                it.sort();
                o.push_str("list ");
                for (k, v) in it {
                    o.push_str(&k);
                    o.push(' ');
                    hex(v as u32, o);
                }
                let mut e = l.clone();
                e.items.clear();
                let _ = write!(o, " of {:?}", e.get_origin_names());
            }
            ValueType::DivertTarget(p) => {
                let _ = write!(o, "target {p} {}", p.is_relative());
            }
            ValueType::VariablePointer(_) => json(x, o),
        }
        return;
    }
    json(x, o);
}
fn json(x: &Rc<dyn RTObject>, o: &mut String) {
    match write_rtobject(x.clone()) {
        Ok(j) => flat(&j, o),
        Err(_) => {
            let _ = write!(o, "{x}");
        }
    }
}
/// as text, without escapes
fn flat(j: &Json, o: &mut String) {
    match j {
        Json::String(s) => {
            o.push('"');
            o.push_str(s);
            o.push('"');
        }
        Json::Object(m) => {
            for (k, v) in m {
                o.push_str(k);
                o.push(':');
                flat(v, o);
                o.push(' ');
            }
        }
        Json::Array(a) => {
            for v in a {
                flat(v, o);
                o.push(' ');
            }
        }
        _ => {
            let _ = write!(o, "{j}");
        }
    }
}
fn hex(v: u32, o: &mut String) {
    for i in (0..8).rev() {
        let d = ((v >> (4 * i)) & 15) as u8;
        // no branch on the digit
        o.push((b'a' + d) as char);
    }
}
fn lists(doc: &str, l: &ListDefinitionsOrigin, o: &mut String) {
    let Ok(j) = serde_json::from_str::<Json>(doc) else { return };
    let Some(m) = j.get("listDefs").and_then(|x| x.as_object()) else { return };
    let mut m: Vec<(&String, &Json)> = m.iter().collect();
    m.sort_by_key(|x| x.0);
    for &(n, items) in &m {
        match l.get_list_definition(n) {
            None => {
                let _ = write!(o, "\nlist {n}: none");
            }
            Some(d) => {
                let mut d = d.clone();
                let _ = write!(o, "\nlist {n} {}:", d.get_name());
                let mut it: Vec<(String, i32)> = d.get_items().iter().map(|(k, v)| (k.get_full_name(), *v)).collect();
                it.sort();
                for (k, v) in it {
                    o.push(' ');
                    o.push_str(&k);
                    hex(v as u32, o);
                }
            }
        }
        let mut keys: Vec<&String> = items.as_object().into_iter().flat_map(|x| x.keys()).collect();
        keys.sort();
        for i in keys {
            let f = format!("{n}.{i}");
            // the plain name of an item of several lists is looked up in no particular order
            let amb = m.iter().filter(|(_, x)| x.get(i.as_str()).is_some()).count() > 1;
            for q in if amb { vec![&f] } else { vec![&f, i] } {
                match l.find_single_item_list_with_name(q) {
                    None => o.push_str(" -"),
                    Some(v) => {
                        let v: Rc<dyn RTObject> = v.clone();
                        object(&v, 0, o)
                    }
                }
            }
        }
    }
}
fn all(doc: &str, l: &Loaded) -> String {
    let mut o = format!("version {}\n", l.0);
    listing(&l.1, 0, &mut o);
    lists(doc, &l.2, &mut o);
    o
}
/// both loaders on the text; `good`: a compiled story, which has to load
fn both(doc: &str, good: bool) -> Option<String> {
    let a = bladeink::verif_hooks::load(doc, false);
    let b = bladeink::verif_hooks::load(doc, true);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let x = all(doc, &a);
            let y = all(doc, &b);
            same(&x, &y, "the loaders build different stories");
            sx::cover("compared");
            Some(x)
        }
        (Err(e), Err(_)) => {
            if good {
                sx::note(&format!("{e}"));
                sx::note(doc);
                sx::fail("a compiled story does not load");
            }
            sx::cover("refused");
            None
        }
        (Ok(_), Err(e)) => {
            sx::note(&format!("streaming: {e}"));
            sx::note(doc);
            sx::fail("only the default loader loads the story")
        }
        (Err(e), Ok(_)) => {
            if good {
                sx::note(&format!("default: {e}"));
                sx::note(doc);
                sx::fail("only the streaming loader loads the story");
            }
            None
        }
    }
}

/// a compiled story by hand, with every kind of object; `@n@` are the holes
const HAND: &str = r##"{"inkVersion":21,"root":[["^a@0@","\n",{"#":"@1@"},["ev",{"^->":"0.1.$r1"},{"temp=":"$r"},"str",{"->":".^.s"},[{"#n":"$r1"}],"/str",-1.5e2,true,7,"/ev",{"*":".^.^.c-0","flg":20},{"s":["^x@2@",{"->":"$r","var":true},null],"#f":5}],{"c-0":["\n",{"f()":"fn"},{"x()":"ext@3@","exArgs":2},{"->t->":"fn"},{"CNT?":"fn"},{"VAR?":"v@4@"},{"VAR=":"v","re":true},{"^var":"v@5@","ci":-1},{"list":{"l.a@6@":1,"l.b":-2},"origins":["l","m@7@"]},{"list":{},"origins":["l"]},{"->":"0","c":true},"void","nop",["^in",["^deep @8@",null],{"#n":"q@9@"}],"end",{"#f":7}],"#n":"w"}],"done",{"fn":["^@10@","~ret",{"#f":1}],"global decl":["ev",1e1,false,{"VAR=":"v"},"/ev","end",null],"#f":1}],"listDefs":{"l":{"a":1,"b":-2},"m":{"a":3,"c@11@":4}}}"##;
const HOLES: u32 = 12;

fn hand(hole: u32, text: &str) -> String {
    let mut o = String::new();
    for (i, p) in HAND.split('@').enumerate() {
        if i % 2 == 0 {
            o.push_str(p);
        } else if p.parse::<u32>() == Ok(hole) {
            o.push_str(text);
        }
    }
    o
}
fn bits(name: &str, lo: u8, hi: u8) -> u8 {
    let c = sx::u8(name);
    sx::assume(c >= lo && c <= hi);
    c
}
fn hexdigit(name: &str) -> u8 {
    let c = sx::u8(name);
    sx::assume(c.is_ascii_hexdigit());
    c
}
/// one character of a JSON string, in any of its forms
fn character(kinds: u32, v: &mut Vec<u8>) {
    let push_u = |v: &mut Vec<u8>| v.extend(b"\\u");
    match sx::choose("form", kinds) {
        0 => {
            let c = bits("c", 0x20, 0x7f);
            sx::assume(c != b'"' && c != b'\\');
            v.push(c);
        }
        1 => {
            v.push(b'\\');
            let c = sx::u8("e");
            sx::assume(matches!(c, b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't'));
            v.push(c);
        }
        2 => {
            // any \u that isn't half of a pair
            push_u(v);
            let h = hexdigit("h0");
            sx::assume(h != b'd' && h != b'D');
            v.push(h);
            v.extend([hexdigit("h1"), hexdigit("h2"), hexdigit("h3")]);
        }
        3 => {
            push_u(v);
            v.push(b'd');
            v.extend([bits("h1", b'0', b'7'), hexdigit("h2"), hexdigit("h3")]);
        }
        4 => {
            // a pair
            push_u(v);
            v.push(if sx::choose("case", 2) == 0 { b'd' } else { b'D' });
            let h = sx::u8("h1");
            sx::assume(matches!(h, b'8' | b'9' | b'a' | b'b' | b'A' | b'B'));
            v.push(h);
            v.extend([hexdigit("h2"), hexdigit("h3")]);
            push_u(v);
            v.push(b'D');
            let h = sx::u8("l1");
            sx::assume(matches!(h, b'c' | b'd' | b'e' | b'f' | b'C' | b'D' | b'E' | b'F'));
            v.push(h);
            v.extend([hexdigit("l2"), hexdigit("l3")]);
        }
        5 => {
            v.push(bits("u0", 0xc2, 0xdf));
            v.push(bits("u1", 0x80, 0xbf));
        }
        6 => {
            v.push(bits("u0", 0xe1, 0xec));
            v.push(bits("u1", 0x80, 0xbf));
            v.push(bits("u2", 0x80, 0xbf));
        }
        _ => {
            v.push(bits("u0", 0xf1, 0xf3));
            v.push(bits("u1", 0x80, 0xbf));
            v.push(bits("u2", 0x80, 0xbf));
            v.push(bits("u3", 0x80, 0xbf));
        }
    }
}
fn text(deep: bool) {
    let hole = sx::choose("hole", HOLES);
    let mut v = Vec::new();
    let n = 1 + sx::choose("characters", if deep { 3 } else { 2 });
    for _ in 0..n {
        // names are looked up by their hash: only a few forms there
        character(8, &mut v);
    }
    // what follows an escape is as it is
    v.extend(b"z");
    let Ok(t) = std::str::from_utf8(&v) else { sx::fail("not UTF-8") };
    sx::fuel(60_000_000);
    both(&hand(hole, t), true);
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_text(_: u64) {
    text(false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_text_deep(_: u64) {
    text(true)
}

/// a number of any form at any place where there is a number
fn number(deep: bool) {
    let mut v: Vec<u8> = Vec::new();
    let digits = |v: &mut Vec<u8>, n: u32, zero: bool| {
        for i in 0..n {
            v.push(bits("d", if i == 0 && !zero && n > 1 { b'1' } else { b'0' }, b'9'));
        }
    };
    if sx::choose("sign", 2) == 1 {
        v.push(b'-');
    }
    let form = sx::choose("form", 6);
    let n = 1 + sx::choose("digits", if deep { 12 } else { 3 });
    digits(&mut v, n, false);
    if matches!(form, 1 | 3 | 5) {
        v.push(b'.');
        digits(&mut v, 1 + sx::choose("decimals", if deep { 4 } else { 2 }), true);
    }
    if form >= 2 {
        v.push(if sx::choose("E", 2) == 0 { b'e' } else { b'E' });
        if form >= 4 {
            v.push(if sx::choose("e sign", 2) == 0 { b'+' } else { b'-' });
        }
        digits(&mut v, 1 + sx::choose("exponent", if deep { 3 } else { 1 }), true);
    }
    let t = String::from_utf8(v).unwrap();
    let at = sx::choose("at", 10);
    // only integers are flags, indices, counts and values of list items
    if at >= 3 && form != 0 {
        sx::end();
    }
    let (a, b) = [
        ("-1.5e2,", ","),
        (",7,", ","),
        (",1e1,", ","),
        ("\"flg\":20", "}"),
        ("\"#f\":5", "}"),
        ("\"ci\":-1", "}"),
        ("\"exArgs\":2", "}"),
        ("\"l.a\":1", ","),
        ("{\"a\":1", ","),
        ("\"inkVersion\":21", ","),
    ][at as usize];
    let h = hand(99, "");
    let key = &a[..a.find(|c: char| c == ':' || c == ',').unwrap() + 1];
    let new = match at {
        0 => format!("{t}{b}"),
        1 | 2 => format!(",{t}{b}"),
        _ => format!("{key}{t}"),
    };
    let doc = h.replacen(a, &new, 1);
    sx::fuel(60_000_000);
    both(&doc, false);
    // what is too old or too new for one loader is for the other
    if at == 9 && bladeink::verif_hooks::load(&doc, false).is_ok() != bladeink::verif_hooks::load(&doc, true).is_ok() {
        sx::note(&doc);
        sx::fail("the loaders take different versions");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_number(_: u64) {
    number(false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_number_deep(_: u64) {
    number(true)
}

/// the places between tokens
fn gaps(d: &str) -> Vec<usize> {
    let b = d.as_bytes();
    let mut v = vec![0];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                v.push(i + 1);
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => v.push(i + 1),
            _ => {
                if matches!(b.get(i + 1), Some(b',' | b'}' | b']')) {
                    v.push(i + 1)
                }
            }
        }
        i += 1;
    }
    v.dedup();
    v
}
/// the keys of every object in another order
fn reorder(j: &Json, how: u32, o: &mut String) {
    match j {
        Json::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            match how {
                0 => k.reverse(),
                1 => {
                    if k.len() > 1 {
                        k.rotate_left(1)
                    }
                }
                2 => {
                    if k.len() > 2 {
                        k.swap(1, 2)
                    }
                }
                _ => {}
            }
            o.push('{');
            for (i, x) in k.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "{}:", Json::String(x.to_string()));
                reorder(&m[x.as_str()], how, o);
            }
            o.push('}');
        }
        Json::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                reorder(x, how, o);
            }
            o.push(']');
        }
        _ => {
            let _ = write!(o, "{j}");
        }
    }
}
/// every character of every string as an escape
fn escaped(d: &str) -> String {
    let b: Vec<char> = d.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        o.push(b[i]);
        if b[i] != '"' {
            i += 1;
            continue;
        }
        i += 1;
        while b[i] != '"' {
            if b[i] == '\\' {
                o.push(b[i]);
                o.push(b[i + 1]);
                i += 2;
                continue;
            }
            let mut u = [0u16; 2];
            for x in b[i].encode_utf16(&mut u) {
                let _ = write!(o, "\\u{x:04x}");
            }
            i += 1;
        }
        o.push('"');
        i += 1;
    }
    o
}
fn layout(doc: &str, k: u32, plain: &str) {
    let d = match k {
        0 => doc.to_string(),
        1 => serde_json::to_string_pretty(&serde_json::from_str::<Json>(doc).unwrap()).unwrap(),
        2..=5 => {
            let mut o = String::new();
            reorder(&serde_json::from_str::<Json>(doc).unwrap(), k - 2, &mut o);
            o
        }
        6 => escaped(doc),
        _ => {
            // white space at every gap
            let mut o = String::new();
            let mut p = 0;
            for (i, g) in gaps(doc).into_iter().enumerate() {
                o.push_str(&doc[p..g]);
                o.push_str(["\r\n", " \t", "\n\n  ", "\t"][i % 4]);
                p = g;
            }
            o + &doc[p..]
        }
    };
    sx::fuel(2_000_000_000);
    if let Some(x) = both(&d, true)
        && !plain.is_empty()
    {
        same(&x, plain, "the layout of the text changes the story");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_layout(k: u64) {
    layouts(k, false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_layout_deep(k: u64) {
    layouts(k, true)
}
fn layouts(k: u64, deep: bool) {
    let h = match k {
        0 => hand(99, ""),
        k => compile(stories::ALL[(k as usize - 1) % stories::ALL.len()].src),
    };
    let plain = both(&h, true).unwrap();
    let how = sx::choose("how", 10);
    if how < 8 {
        return layout(&h, how, &plain);
    }
    // any white space at any gap
    let g = gaps(&h);
    let n = sx::u32("gap");
    sx::assume(n < g.len() as u32);
    let g = g[sx::concrete(n as u64) as usize];
    let mut v = h.as_bytes().to_vec();
    for _ in 0..if deep { 1 + sx::choose("n", 3) } else { how - 7 } {
        let c = sx::u8("w");
        sx::assume(matches!(c, b' ' | b'\t' | b'\n' | b'\r'));
        v.insert(g, c);
    }
    let d = String::from_utf8(v).unwrap();
    sx::fuel(60_000_000 + 20_000 * d.len() as u64);
    let x = both(&d, true).unwrap();
    same(&x, &plain, "the layout of the text changes the story");
}

/// the reference-compiled stories and what this compiler makes of every source
#[unsafe(no_mangle)]
pub extern "C" fn c14_corpus(k: u64) {
    sx::fuel(20_000_000_000);
    let k = k as usize;
    let doc = if k < CORPUS.len() {
        CORPUS[k].2.trim_start_matches('\u{feff}').to_string()
    } else {
        let (_, src) = SOURCES[k - CORPUS.len()];
        if src.contains("INCLUDE") {
            sx::end();
        }
        match bladeink_compiler::Compiler::new().compile(src) {
            Ok(j) => j,
            Err(_) => sx::end(),
        }
    };
    let how = sx::choose("layout", 8);
    layout(&doc, how, "");
}

/// what `Story::new` makes is what the loaders make
#[unsafe(no_mangle)]
pub extern "C" fn c14_story(k: u64) {
    sx::fuel(2_000_000_000);
    let k = k as usize;
    let doc = match k {
        0 => hand(99, ""),
        k if k <= stories::ALL.len() => compile(stories::ALL[k - 1].src),
        k => CORPUS[k - 1 - stories::ALL.len()].2.trim_start_matches('\u{feff}').to_string(),
    };
    let a = both(&doc, true).unwrap();
    let s = match Story::new(&doc) {
        Ok(s) => s,
        Err(e) => {
            sx::note(&format!("{e}"));
            if k == 0 {
                // not a story that runs
                sx::end();
            }
            sx::fail("a compiled story does not load")
        }
    };
    let mut o = format!("version {}\n", serde_json::from_str::<Json>(&doc).unwrap()["inkVersion"]);
    listing(&content(&s), 0, &mut o);
    same(&o, &a[..o.len().min(a.len())], "a story differs from what was loaded");
    sx::cover("story");
}
