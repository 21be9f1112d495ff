//! C15: a malformed story or save is refused with an error
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use serde_json::{Value, json};

/// a position in a text of `n` bytes
fn at(name: &str, n: usize) -> usize {
    let v = sx::u32(name);
    sx::assume(v < n as u32);
    sx::concrete(v as u64) as usize
}
const NUMBERS: &str = "LIST L = a, (b), c = 9\nVAR x = -3\nVAR f = 1.5\nVAR d = -> k\nVAR s = \"q\"\nEXTERNAL ext(p)\n{x > 2: A \"b\"|C} <>\n* [one] # t\n  {ext(x)} {L}\n+ {f < 2} two\n-> k ->\n- (g) {g} {~u|v}\n-> END\n=== k(-> p, ref r)\n~ temp t = r + 1\n<- th\n{LIST_RANGE(L, 1, t)}\n->->\n=== th\n* t -> END\n=== function ext(p)\n~ return p\n";
/// a compiled story written by hand: every form of a number, an escape and an object
const HAND: &str = r##"{"inkVersion":21,"root":[["^a\u00e9\ud83d\ude00\n\"\\\/\t",{"#":"tag"},"\n",["ev",{"^->":"0.1.$r1"},{"temp=":"$r"},"str",{"->":".^.s"},[{"#n":"$r1"}],"/str",-1.5e2,true,"/ev",{"*":".^.^.c-0","flg":20},{"s":["^x",{"->":"$r","var":true},null],"#f":5}],{"c-0":["\n",{"f()":"fn"},{"x()":"ext","exArgs":2},{"->t->":"fn"},{"CNT?":"fn"},{"VAR?":"v"},{"VAR=":"v","re":true},{"^var":"v","ci":-1},{"list":{"l.a":1,"l.b":-2},"origins":["l"]},{"->":"0","c":true},"void","end",{"#f":7}],"#n":"w"}],"done",{"fn":["~ret",{"#f":1}],"global decl":["ev",1e1,{"VAR=":"v"},"/ev","end",null],"#f":1}],"listDefs":{"l":{"a":1,"b":-2}}}"##;
fn doc(k: u64) -> String {
    match k {
        0 => HAND.to_string(),
        1 => compile("VAR x = 1\nHi {x}.\n* a\n- b\n-> k\n=== k\nt # g\n-> END\n"),
        2 => compile(&NUMBERS.replace("k(-> p, ref r)", "k").replace("temp t = r", "temp t = x")),
        _ => compile(stories::ALL[(k as usize - 3) % stories::ALL.len()].src),
    }
}

/// loads the text as a story
fn story(j: &str) {
    sx::fuel(60_000_000 + 40_000 * j.len() as u64);
    match Story::new(j) {
        Ok(_) => sx::cover("accepted"),
        Err(_) => sx::cover("refused"),
    }
}

pub struct Base {
    story: Story,
    tpl: &'static Tpl,
    save: String,
    fresh: String,
}
/// a story somewhere in the middle, and its save
fn base(k: u64) -> Base {
    let (t, ops): (&'static crate::h::Tpl, &[Op]) = match k {
        0 => (&stories::CHOICES, &[Op::Go, Op::Go, Op::Go, Op::Go, Op::Go]),
        1 => (&stories::FLOWS, &[Op::Go, Op::Go, Op::Go]),
        2 => (&stories::FLOWS, &[Op::Go, Op::Go, Op::Go, Op::Go, Op::Go, Op::Go, Op::Go]),
        3 => (&stories::KNOTS, &[Op::Go, Op::Flow("other"), Op::Jump("ka", false, None), Op::Go, Op::Go, Op::Go]),
        4 => (&stories::LISTS, &[Op::Go, Op::Go, Op::Go]),
        5 => (&stories::TEXT, &[Op::Go, Op::Go]),
        _ => (&stories::FUNCS, &[Op::Go, Op::Go, Op::Go]),
    };
    let json = compile(t.src);
    let mut s = load(&json);
    let mut d = Dec::new("");
    d.v = vec![0; 20];
    for op in ops {
        apply(&mut s, *op, &mut d, None);
    }
    let save = save(&s);
    let mut f = load(&json);
    let fresh = fresh_play(&mut f, t);
    Base { story: s, tpl: t, save, fresh }
}
fn fresh_play(s: &mut Story, t: &Tpl) -> String {
    let mut d = Dec::new("");
    d.v = vec![0; 4];
    let mut o = obs(s, t);
    o += &play(s, t, &mut d, 2, 6);
    o
}
/// loads the text as a save; after a refusal the story can be reset
fn saved(b: &mut Base, j: &str) {
    sx::fuel(60_000_000 + 40_000 * j.len() as u64);
    if b.story.load_state(j).is_ok() {
        sx::cover("accepted");
        return;
    }
    sx::cover("refused");
    if let Err(e) = b.story.reset_state() {
        sx::note(&format!("{e}"));
        sx::fail("a story cannot be reset after a refused save");
    }
    let r = fresh_play(&mut b.story, b.tpl);
    same(&r, &b.fresh, "a story reset after a refused save plays otherwise than a fresh one");
    sx::cover("reset compared");
}

/// characters of the text replaced by any others, put in, taken out, or all after them missing
fn bytes(t: &str, deep: bool) -> String {
    let how = sx::choose("how", 6);
    let p = at("at", t.len());
    let mut v = t.as_bytes().to_vec();
    // only whole characters are changed
    if v[p] >= 0x80 {
        sx::end();
    }
    let mut c = |n: &str| {
        let c = sx::u8(n);
        sx::assume(c < 0x80);
        c
    };
    match how {
        0 => v[p] = c("c"),
        1 => v.insert(p, c("c")),
        2 => {
            v.remove(p);
        }
        3 => v.truncate(p),
        4 => {
            v[p] = c("c");
            if deep && p + 1 < v.len() && v[p + 1] < 0x80 {
                v[p + 1] = c("d");
            }
        }
        _ => {
            v.splice(p..p + 1, "é".bytes());
        }
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => sx::end(),
    }
}

/// paths to every node
fn nodes<'a>(v: &'a Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                nodes(x, here, out);
                here.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                here.push(k.clone());
                nodes(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn find<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            Value::Object(m) => m.get_mut(k).unwrap(),
            _ => sx::end(),
        };
    }
    v
}
fn values() -> Vec<Value> {
    vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(2147483648u64),
        json!(-2147483649i64),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1.5),
        json!(1e300),
        json!(""),
        json!("^x"),
        json!("^"),
        json!("x"),
        json!("\n"),
        json!("ev"),
        json!("done"),
        json!("<>"),
        json!("0.0.0"),
        json!(".^.^.^.^.^.^"),
        json!("99.x"),
        json!([]),
        json!([[]]),
        json!([null]),
        json!(["^x", {"#n": 5}]),
        json!([{"#f": "x"}]),
        json!([{"k": 1}]),
        json!({}),
        json!({"a": 1}),
        json!({"->": 1}),
        json!({"->": ""}),
        json!({"->": "nowhere.9", "var": 1}),
        json!({"*": "", "flg": -1}),
        json!({"*": ".^", "flg": 4294967296u64}),
        json!({"VAR=": 1}),
        json!({"^var": "x", "ci": "y"}),
        json!({"x()": "f", "exArgs": -1}),
        json!({"list": {"a": 1}}),
        json!({"list": {"P.p9": "x"}}),
        json!({"list": 3}),
        json!({"list": {}, "origins": [1]}),
        json!({"originalChoicePath": "x"}),
        json!({"#": null}),
        json!({"0": []}),
    ]
}
/// one node of the document changed
fn restructure(t: &str) -> String {
    let Ok(mut v) = serde_json::from_str::<Value>(t) else { sx::fail("a document of the engine is not JSON") };
    let mut ps = vec![];
    nodes(&v, &mut vec![], &mut ps);
    let p = &ps[at("node", ps.len())];
    let vals = values();
    let k = sx::choose("change", vals.len() as u32 + 6) as usize;
    if k < vals.len() {
        *find(&mut v, p) = vals[k].clone();
        return v.to_string();
    }
    let Some((last, parent)) = p.split_last() else { sx::end() };
    let q = find(&mut v, parent);
    match (k - vals.len(), q) {
        // taken out
        (0, Value::Array(a)) => {
            a.remove(last.parse::<usize>().unwrap());
        }
        (0, Value::Object(m)) => {
            m.remove(last);
        }
        // twice
        (1, Value::Array(a)) => {
            let i = last.parse::<usize>().unwrap();
            let x = a[i].clone();
            a.insert(i, x);
        }
        // exchanged with the next, or moved to the end
        (2, Value::Array(a)) => {
            let i = last.parse::<usize>().unwrap();
            if i + 1 == a.len() {
                sx::end();
            }
            a.swap(i, i + 1);
        }
        (3, Value::Array(a)) => {
            let i = last.parse::<usize>().unwrap();
            a.truncate(i);
        }
        // under another name
        (4, Value::Object(m)) => {
            let x = m.remove(last).unwrap();
            let n = ["", "#", "0", "x y", "->", "list", "threads", "flows"][sx::choose("name", 8) as usize];
            m.insert(n.to_string(), x);
        }
        (5, Value::Object(m)) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            let i = ks.iter().position(|k| k == last).unwrap();
            if i + 1 == ks.len() {
                sx::end();
            }
            let (a, b) = (m[&ks[i]].clone(), m[&ks[i + 1]].clone());
            m.insert(ks[i].clone(), b);
            m.insert(ks[i + 1].clone(), a);
        }
        _ => sx::end(),
    }
    v.to_string()
}

#[unsafe(no_mangle)]
pub extern "C" fn c15_bytes(case: u64) {
    story(&bytes(&doc(case), false));
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_bytes_deep(case: u64) {
    story(&bytes(&doc(case), true));
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_nodes(case: u64) {
    story(&restructure(&doc(case)));
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_save_bytes(case: u64) {
    let mut b = base(case);
    let j = bytes(&b.save, false);
    saved(&mut b, &j);
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_save_bytes_deep(case: u64) {
    let mut b = base(case);
    let j = bytes(&b.save, true);
    saved(&mut b, &j);
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_save_nodes(case: u64) {
    let mut b = base(case);
    let j = restructure(&b.save);
    saved(&mut b, &j);
}
/// two nodes of a save changed
#[unsafe(no_mangle)]
pub extern "C" fn c15_save_two(case: u64) {
    let mut b = base(case);
    let j = restructure(&b.save);
    let j = restructure(&j);
    saved(&mut b, &j);
}

/// short texts of any characters
#[unsafe(no_mangle)]
pub extern "C" fn c15_short(case: u64) {
    const AROUND: [(&str, &str); 12] = [
        ("", ""),
        ("{", "}"),
        ("{\"inkVersion\":21,\"root\":[", "],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[\"", "\",null],\"listDefs\":{}}"),
        ("{\"inkVersion\":", ",\"root\":[null],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[null],\"listDefs\":{", "}}"),
        ("{\"inkVersion\":21,\"root\":[{\"", "\":\"x\"},null],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[{\"->\":\"", "\"},null],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[\"^\\", "\",null],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[", ",null],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[{\"#f\":", "}],\"listDefs\":{}}"),
        ("{\"inkVersion\":21,\"root\":[\"^\\u", "\",null],\"listDefs\":{}} "),
    ];
    let (a, b) = AROUND[case as usize];
    let n = sx::choose("len", 4);
    let mut t = a.as_bytes().to_vec();
    for i in 0..n {
        let c = sx::u8(&format!("c{i}"));
        sx::assume(c < 0x80);
        t.push(c);
    }
    t.extend_from_slice(b.as_bytes());
    let Ok(t) = String::from_utf8(t) else { sx::end() };
    story(&t);
}
/// arrays and objects in one another
#[unsafe(no_mangle)]
pub extern "C" fn c15_nest(case: u64) {
    const N: [usize; 10] = [1, 60, 120, 124, 126, 127, 128, 129, 1000, 20000];
    let n = N[sx::choose("depth", N.len() as u32) as usize];
    let (open, close) = [("[", "]"), ("[", ",null]"), ("{\"a\":", "}"), ("[[", ",{\"#n\":\"x\"}]]"), ("[{\"k\":", "}]"), ("[", "")][sx::choose("brackets", 6) as usize];
    let inner = ["", "null", "\"^x\"", "1"][sx::choose("inner", 4) as usize];
    let x = format!("{}{inner}{}", open.repeat(n), close.repeat(n));
    let docs = [
        x.clone(),
        format!("{{\"inkVersion\":21,\"root\":{x},\"listDefs\":{{}}}}"),
        format!("{{\"inkVersion\":21,\"root\":[null],\"listDefs\":{{\"l\":{x}}}}}"),
        format!("{{\"inkVersion\":21,\"root\":[\"done\",{{\"k\":{x}}}],\"listDefs\":{{}}}}"),
        format!("{{\"inkVersion\":21,\"root\":[null],\"listDefs\":{{}},\"extra\":{x}}}"),
        format!("{{\"inkVersion\":21,\"root\":[{{\"list\":{x}}},null],\"listDefs\":{{}}}}"),
    ];
    if case == 0 {
        story(&docs[sx::choose("where", docs.len() as u32) as usize]);
    } else {
        let mut b = base(0);
        let i = b.save.find("\"variablesState\":{").unwrap() + "\"variablesState\":{".len();
        let j = match sx::choose("where", 4) {
            0 => x,
            1 => format!("{}\"x\":{x},{}", &b.save[..i], &b.save[i..]),
            2 => b.save.replacen("\"callstack\":{", &format!("\"callstack\":{{\"y\":{x},"), 1),
            _ => format!("{{\"extra\":{x},{}", &b.save[1..]),
        };
        saved(&mut b, &j);
    }
}
