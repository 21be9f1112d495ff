//! C07: expressions against an independent evaluator of Ink's rules
use crate::h::*;
use crate::sx;
use bladeink::story::Story;
use bladeink::value_type::ValueType;
use std::fmt::Write;

/// declared items in the order of (value, list, name)
const ITEMS: [(&str, &str, i32); 6] = [("P", "p1", 1), ("P", "p2", 2), ("Q", "qa", 2), ("P", "p3", 3), ("Q", "qb", 3), ("Q", "qc", 7)];
const ALLP: u8 = 0b001011;
const ALLQ: u8 = 0b110100;
const DECL: &str = "LIST P = p1, p2, p3\nLIST Q = qa = 2, qb, qc = 7\nVAR all = (p1, p2, p3, qa, qb, qc)\n";

#[derive(Clone, Debug, PartialEq)]
enum V {
    B(bool),
    I(i32),
    F(f32),
    S(String),
    /// members, and the lists an empty one remembers (1: P, 2: Q)
    L(u8, u8),
    D(u8),
}
use V::*;

fn names(m: u8, o: u8) -> u8 {
    if m == 0 {
        return o;
    }
    (if m & ALLP != 0 { 1 } else { 0 }) | (if m & ALLQ != 0 { 2 } else { 0 })
}
fn universe(o: u8) -> u8 {
    (if o & 1 != 0 { ALLP } else { 0 }) | (if o & 2 != 0 { ALLQ } else { 0 })
}
fn lo(m: u8) -> i32 {
    ITEMS[m.trailing_zeros() as usize].2
}
fn hi(m: u8) -> i32 {
    ITEMS[7 - m.leading_zeros() as usize].2
}
fn with_value(list: &str, v: i32) -> u8 {
    let mut m = 0;
    for (i, it) in ITEMS.iter().enumerate() {
        if it.0 == list && it.2 == v {
            m |= 1 << i;
        }
    }
    m
}
fn truth(v: &V) -> Option<bool> {
    Some(match v {
        B(b) => *b,
        I(i) => *i != 0,
        F(f) => *f != 0.0,
        S(s) => !s.is_empty(),
        L(m, _) => *m != 0,
        D(_) => return None,
    })
}
fn text(v: &V) -> String {
    match v {
        B(b) => if *b { "true" } else { "false" }.to_string(),
        I(i) => i.to_string(),
        F(f) => f.to_string(),
        S(s) => s.clone(),
        L(m, _) => {
            let mut o = String::new();
            for (i, it) in ITEMS.iter().enumerate() {
                if m & (1 << i) != 0 {
                    if !o.is_empty() {
                        o += ", ";
                    }
                    o += it.1;
                }
            }
            o
        }
        D(_) => String::new(),
    }
}
/// numbers: bools count as ints
fn num(v: &V) -> Option<V> {
    match v {
        B(b) => Some(I(*b as i32)),
        I(_) | F(_) => Some(v.clone()),
        _ => None,
    }
}
fn float(v: &V) -> f32 {
    match v {
        I(i) => *i as f32,
        F(f) => *f,
        _ => 0.0,
    }
}
fn powi(x: f64, n: i32) -> f64 {
    let mut r = 1.0;
    for _ in 0..n.abs() {
        r *= x;
    }
    if n < 0 { 1.0 / r } else { r }
}

/// the value of `a op b`; None where Ink reports an error
fn bin(op: &str, a: &V, b: &V) -> Option<V> {
    if let (L(m, o), I(n)) = (a, b) {
        if op == "+" || op == "-" {
            let mut r = 0;
            for i in 0..6 {
                if m & (1 << i) != 0 {
                    let v = ITEMS[i].2;
                    r |= with_value(ITEMS[i].0, if op == "+" { v.wrapping_add(*n) } else { v.wrapping_sub(*n) });
                }
            }
            let _ = o;
            return Some(L(r, 0));
        }
    }
    let and = op == "&&" || op == "and";
    let or = op == "||" || op == "or";
    if let (L(m, o), L(n, _)) = (a, b) {
        let (m, n) = (*m, *n);
        return Some(match op {
            "+" => L(m | n, names(m, *o)),
            "-" => L(m & !n, names(m, *o)),
            "^" => L(m & n, 0),
            "?" | "has" => B(m != 0 && n != 0 && m & n == n),
            "!?" | "hasnt" => B(!(m != 0 && n != 0 && m & n == n)),
            "==" => B(m == n),
            "!=" => B(m != n),
            ">" => B(m != 0 && (n == 0 || lo(m) > hi(n))),
            ">=" => B(m != 0 && (n == 0 || (lo(m) >= lo(n) && hi(m) >= hi(n)))),
            "<" => B(n != 0 && (m == 0 || hi(m) < lo(n))),
            "<=" => B(n != 0 && (m == 0 || (hi(m) <= hi(n) && lo(m) <= lo(n)))),
            _ if and => B(m != 0 && n != 0),
            _ if or => B(m != 0 || n != 0),
            _ => return None,
        });
    }
    if matches!(a, L(..)) || matches!(b, L(..)) {
        if and || or {
            let (x, y) = (truth(a), truth(b));
            // the left side decides first
            return match (x, y) {
                (Some(false), _) if and => Some(B(false)),
                (Some(true), _) if or => Some(B(true)),
                (Some(_), Some(y)) => Some(B(y)),
                _ => None,
            };
        }
        return None;
    }
    if let (D(x), D(y)) = (a, b) {
        return match op {
            "==" => Some(B(x == y)),
            "!=" => Some(B(x != y)),
            _ => None,
        };
    }
    if matches!(a, D(_)) || matches!(b, D(_)) {
        return None;
    }
    if matches!(a, S(_)) || matches!(b, S(_)) {
        let (x, y) = (text(a), text(b));
        return Some(match op {
            "+" => S(x + &y),
            "==" => B(x == y),
            "!=" => B(x != y),
            "?" | "has" => B(contains(&x, &y)),
            "!?" | "hasnt" => B(!contains(&x, &y)),
            _ => return None,
        });
    }
    let (a, b) = (num(a)?, num(b)?);
    if let (I(x), I(y)) = (&a, &b) {
        let (x, y) = (*x, *y);
        return Some(match op {
            "+" => I(x.wrapping_add(y)),
            "-" => I(x.wrapping_sub(y)),
            "*" => I(x.wrapping_mul(y)),
            "/" | "%" | "mod" => {
                if y == 0 || (x == i32::MIN && y == -1) {
                    return None;
                }
                if op == "/" { I(x / y) } else { I(x % y) }
            }
            "==" => B(x == y),
            "!=" => B(x != y),
            "<" => B(x < y),
            "<=" => B(x <= y),
            ">" => B(x > y),
            ">=" => B(x >= y),
            "MIN" => I(if x < y { x } else { y }),
            "MAX" => I(if x > y { x } else { y }),
            "POW" => F(powi(x as f64, y) as f32),
            _ if and => B(x != 0 && y != 0),
            _ if or => B(x != 0 || y != 0),
            _ => return None,
        });
    }
    let (x, y) = (float(&a), float(&b));
    Some(match op {
        "+" => F(x + y),
        "-" => F(x - y),
        "*" => F(x * y),
        "/" => F(x / y),
        "%" | "mod" => F(x % y),
        "==" => B(x == y),
        "!=" => B(x != y),
        "<" => B(x < y),
        "<=" => B(x <= y),
        ">" => B(x > y),
        ">=" => B(x >= y),
        "MIN" => F(if x < y { x } else { y }),
        "MAX" => F(if x > y { x } else { y }),
        "POW" => F(powi(x as f64, y as i32) as f32),
        _ if and => B(x != 0.0 && y != 0.0),
        _ if or => B(x != 0.0 || y != 0.0),
        _ => return None,
    })
}
fn contains(x: &str, y: &str) -> bool {
    let (x, y) = (x.as_bytes(), y.as_bytes());
    if y.len() > x.len() {
        return false;
    }
    for i in 0..=x.len() - y.len() {
        let mut eq = true;
        for j in 0..y.len() {
            eq = eq & (x[i + j] == y[j]);
        }
        if eq {
            return true;
        }
    }
    false
}
fn un(op: &str, a: &V) -> Option<V> {
    if let L(m, o) = a {
        let m = *m;
        return Some(match op {
            "not " | "!" => I((m == 0) as i32),
            "LIST_COUNT" => I(m.count_ones() as i32),
            "LIST_MIN" => L(if m == 0 { 0 } else { 1 << m.trailing_zeros() }, 0),
            "LIST_MAX" => L(if m == 0 { 0 } else { 1 << (7 - m.leading_zeros()) }, 0),
            "LIST_VALUE" => I(if m == 0 { 0 } else { hi(m) }),
            "LIST_ALL" => L(universe(names(m, *o)), 0),
            "LIST_INVERT" => L(universe(names(m, *o)) & !m, 0),
            _ => return None,
        });
    }
    match op {
        "P" | "Q" => {
            return match a {
                I(n) => Some(L(with_value(op, *n), 0)),
                _ => None,
            };
        }
        _ => {}
    }
    let a = num(a)?;
    Some(match (op, a) {
        ("-", I(x)) => I(x.wrapping_neg()),
        ("-", F(x)) => F(-x),
        ("not ", I(x)) | ("!", I(x)) => B(x == 0),
        ("not ", F(x)) | ("!", F(x)) => B(x == 0.0),
        ("FLOOR", I(x)) | ("CEILING", I(x)) | ("INT", I(x)) => I(x),
        ("FLOAT", I(x)) => F(x as f32),
        ("FLOAT", F(x)) => F(x),
        ("FLOOR", F(x)) => F(x.floor()),
        ("CEILING", F(x)) => F(x.ceil()),
        ("INT", F(x)) => I(x as i32),
        _ => return None,
    })
}
fn range(l: &V, a: &V, b: &V) -> Option<V> {
    let L(m, o) = l else { return None };
    if *m == 0 {
        return Some(L(0, 0));
    }
    let from = match a {
        I(i) => *i,
        L(n, _) if *n != 0 => lo(*n),
        _ => 0,
    };
    let to = match b {
        I(i) => *i,
        L(n, _) if *n != 0 => hi(*n),
        _ => i32::MAX,
    };
    let mut r = 0;
    for i in 0..6 {
        if m & (1 << i) != 0 && ITEMS[i].2 >= from && ITEMS[i].2 <= to {
            r |= 1 << i;
        }
    }
    Some(L(r, names(*m, *o)))
}

fn precedence(op: &str) -> u8 {
    match op {
        "&&" | "||" | "and" | "or" => 1,
        "==" | "!=" | "<" | "<=" | ">" | ">=" => 2,
        "?" | "!?" | "has" | "hasnt" | "^" => 3,
        "+" => 4,
        "-" => 5,
        "*" => 6,
        "/" => 7,
        _ => 8,
    }
}

/// what the host passes for a value
fn to_host(s: &Story, v: &V) -> ValueType {
    match v {
        B(b) => ValueType::Bool(*b),
        I(i) => ValueType::Int(*i),
        F(f) => ValueType::Float(*f),
        S(t) => ValueType::new(t.as_str()),
        L(m, _) => match s.get_variable("all") {
            Some(ValueType::List(mut l)) => {
                l.items.retain(|k, _| (0..6).any(|i| m & (1 << i) != 0 && ITEMS[i].1 == k.get_item_name()));
                ValueType::List(l)
            }
            _ => sx::fail("the list of all items is not a list"),
        },
        D(_) => sx::fail("not passed by the host"),
    }
}
fn mask(l: &ValueType) -> Option<u8> {
    let ValueType::List(l) = l else { return None };
    let mut m = 0;
    for (k, v) in &l.items {
        let mut found = false;
        for (i, it) in ITEMS.iter().enumerate() {
            if it.1 == k.get_item_name() && k.get_origin_name().map(|n| n == it.0).unwrap_or(false) && *v == it.2 {
                m |= 1 << i;
                found = true;
            }
        }
        if !found {
            return None;
        }
    }
    Some(m)
}
/// is `got` the value `want`?
fn agrees(got: &ValueType, want: &V) -> bool {
    match (got, want) {
        (ValueType::Bool(a), B(b)) => a == b,
        (ValueType::Int(a), I(b)) => a == b,
        (ValueType::Float(a), F(b)) => {
            let eq = (a == b) | (a.is_nan() & b.is_nan());
            eq
        }
        (ValueType::String(a), S(b)) => a.string.len() == b.len() && a.string.as_bytes() == b.as_bytes(),
        (ValueType::List(_), L(m, _)) => mask(got) == Some(*m),
        (ValueType::DivertTarget(p), D(d)) => p.to_string() == if *d == 0 { "da" } else { "db" },
        _ => false,
    }
}
fn expect(what: &str, got: &ValueType, want: &V) {
    let same_kind = matches!((got, want), (ValueType::Bool(_), B(_)) | (ValueType::Int(_), I(_)) | (ValueType::Float(_), F(_)) | (ValueType::String(_), S(_)) | (ValueType::List(_), L(..)) | (ValueType::DivertTarget(_), D(_)));
    if !same_kind {
        sx::note(what);
        sx::fail("an expression has a value of another type than Ink gives it");
    }
    let ok = agrees(got, want);
    if !sx::is_symbolic(ok as u64) && !ok {
        sx::note(what);
        sx::note(&format!("got {} want {}", val(got), text(want)));
    }
    sx::check(ok, "an expression has another value than Ink gives it");
}

const MASKS: [u8; 10] = [0, 0b000001, 0b000010, 0b000100, 0b001000, 0b010011, 0b110000, 0b001011, 0b111111, 0b100100];
/// how a value is drawn
#[derive(Clone, Copy, PartialEq)]
enum Draw {
    /// all ints, all floats, symbolic characters
    Full,
    /// values whose text is short
    Short,
    /// values of a table
    Table,
}
const FLOATS: [f32; 8] = [0.0, 1.0, -2.5, 0.125, 3.0, 100.75, -0.5, 2.0];
const INTS: [i32; 8] = [0, 1, -3, 2, 7, -1, 4, 13];
fn draw(name: &str, kinds: &[u8], how: Draw, deep: bool) -> V {
    match kinds[sx::choose(&format!("{name}.kind"), kinds.len() as u32) as usize] {
        b'B' => B(sx::boolean(name)),
        b'I' => match how {
            Draw::Full => I(sx::i32(name)),
            Draw::Short => {
                let i = sx::i32(name);
                sx::assume(i >= -12 && i <= 120);
                I(i)
            }
            Draw::Table => I(INTS[sx::choose(name, INTS.len() as u32) as usize]),
        },
        b'F' => match how {
            Draw::Full => {
                let f = sx::f32(name);
                sx::assume(f.is_finite());
                F(f)
            }
            _ => F(FLOATS[sx::choose(name, FLOATS.len() as u32) as usize]),
        },
        b'S' => {
            if how == Draw::Table {
                return S(["", "a", "ab", "7", "true", "-0.5"][sx::choose(name, 6) as usize].to_string());
            }
            let n = sx::choose(&format!("{name}.len"), if deep { 4 } else { 3 });
            let mut t = vec![];
            for i in 0..n {
                let c = sx::u8(&format!("{name}.{i}"));
                // letters and digits, so that numbers can be equal to it
                sx::assume((c >= b'0' && c <= b'9') | (c >= b'a' && c <= b'z') | (c == b'-'));
                t.push(c);
            }
            S(String::from_utf8(t).unwrap())
        }
        b'L' => {
            let m = if deep { sx::choose(name, 64) as u8 } else { MASKS[sx::choose(name, MASKS.len() as u32) as usize] };
            L(m, 0)
        }
        _ => D(sx::choose(name, 2) as u8),
    }
}
/// the position where it is evaluated follows from the values
fn place(x: &V, y: &V, i: usize) -> u32 {
    let k = |v: &V| match v {
        L(m, o) => (*m ^ (*m >> 3)) as u32 + *o as u32,
        I(i) => *i as u32,
        B(b) => *b as u32,
        F(f) => f.to_bits() >> 22,
        S(s) => s.len() as u32,
        D(d) => *d as u32,
    };
    (k(x).wrapping_add(k(y).wrapping_mul(3)).wrapping_add(i as u32)) % 4
}
/// puts a value into a declared variable; the value as the story has it
fn put(s: &mut Story, name: &str, v: V) -> V {
    match &v {
        D(d) => {
            if s.choose_path_string(&format!("set_{name}_{d}"), true, None).is_err() || s.cont().is_err() {
                sx::fail("a divert target cannot be assigned");
            }
            v
        }
        L(m, _) => {
            // an empty list remembers the lists of the value it replaces
            let o = if *m == 0 { sx::choose(&format!("{name}.origin"), 3) as u8 } else { 0 };
            if *m == 0 {
                for k in 0..2 {
                    if o & (1 << k) != 0 {
                        let i = V::L(1 << [0, 2][k], 0);
                        let x = to_host(s, &i);
                        let _ = s.set_variable(name, &x);
                    }
                }
            }
            let x = to_host(s, &v);
            if s.set_variable(name, &x).is_err() {
                sx::fail("a declared variable cannot be set");
            }
            L(*m, o)
        }
        _ => {
            let x = to_host(s, &v);
            if s.set_variable(name, &x).is_err() {
                sx::fail("a declared variable cannot be set");
            }
            v
        }
    }
}

const BIN: [&str; 21] = ["+", "-", "*", "/", "%", "mod", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "and", "or", "?", "!?", "has", "hasnt", "^"];
const FUN2: [&str; 3] = ["MIN", "MAX", "POW"];
const UN: [&str; 3] = ["-", "not ", "!"];
const FUN1: [&str; 12] = ["FLOOR", "CEILING", "INT", "FLOAT", "LIST_COUNT", "LIST_MIN", "LIST_MAX", "LIST_VALUE", "LIST_ALL", "LIST_INVERT", "P", "Q"];
const KINDS: &[u8] = b"IFBSLD";

fn source(exprs: &[String]) -> String {
    let mut s = String::from(DECL);
    s += "VAR x = 0\nVAR y = 0\nVAR z = 0\nVAR r = 0\nVAR u = 0\n-> END\n=== da\na\n-> END\n=== db\nb\n-> END\n";
    for n in ["x", "y", "z"] {
        for (i, d) in ["da", "db"].iter().enumerate() {
            let _ = write!(s, "=== set_{n}_{i}\n~ {n} = -> {d}\nok\n-> END\n");
        }
    }
    s += "=== ask_all\n~ u = LIST_ALL(r)\nok\n-> END\n=== ask_invert\n~ u = LIST_INVERT(r)\nok\n-> END\n";
    for (i, e) in exprs.iter().enumerate() {
        let _ = write!(s, "=== e{i}\n~ r = {e}\nok\n-> END\n=== f{i}\n{{{e}:yes|no}}.\n-> END\n=== t{i}\n~ temp v = {e}\n~ r = v\nok\n-> END\n=== a{i}\n~ r = id({e})\nok\n-> END\n=== s{i}\nV={{{e}}}.\n-> END\n=== q{i}\n~ r = \"{{{e}}}+\"\nok\n-> END\n");
    }
    s += "=== function id(k)\n~ return k\n";
    s
}
fn jump(s: &mut Story, path: &str) -> Result<String, ()> {
    if let Err(e) = s.choose_path_string(path, true, None) {
        sx::note(&format!("{e}"));
        sx::fail("a knot cannot be reached");
    }
    s.cont().map_err(|_| ())
}

/// evaluates expression `i` in a decided position and compares
fn evaluate(s: &mut Story, i: usize, what: &str, want: Option<V>, forms: u32) {
    let form = sx::choose("form", forms);
    evaluate_in(s, i, what, want, form);
}
fn evaluate_in(s: &mut Story, i: usize, what: &str, want: Option<V>, form: u32) {
    let path = format!("{}{i}", ["e", "f", "t", "a", "s", "q"][form as usize]);
    if form == 1 {
        // truthiness
        let t = want.as_ref().and_then(truth);
        let r = jump(s, &path);
        match (&r, t) {
            (Ok(x), Some(b)) => {
                sx::cover("condition");
                let ok = x.as_str() == if b { "yes.\n" } else { "no.\n" };
                if !ok {
                    sx::note(what);
                }
                sx::check(ok, "a condition is decided otherwise than Ink does");
            }
            (Err(_), None) => sx::cover("error"),
            (Ok(_), None) => {
                sx::note(what);
                sx::fail("a condition that Ink refuses has a truth value")
            }
            (Err(_), Some(_)) => {
                sx::note(what);
                sx::note(&format!("{:?}", s.get_current_errors()));
                sx::fail("a condition that Ink decides is an error")
            }
        }
        return;
    }
    let r = jump(s, &path);
    match (&r, &want) {
        (Err(_), None) => sx::cover("error"),
        (Ok(_), None) => {
            sx::note(what);
            sx::fail("an expression that Ink refuses has a value")
        }
        (Err(_), Some(_)) => {
            sx::note(what);
            sx::note(&format!("{:?}", s.get_current_errors()));
            sx::fail("an expression that has a value in Ink is an error")
        }
        (Ok(t), Some(v)) => {
            if form == 4 {
                let e = format!("V={}.\n", text(v));
                same(t, &e, "an expression is printed otherwise than Ink does");
                sx::cover("printed");
                return;
            }
            let Some(got) = s.get_variable("r") else { sx::fail("a global is missing") };
            if form == 5 {
                expect(what, &got, &S(text(v) + "+"));
                sx::cover("in a string");
                return;
            }
            expect(what, &got, v);
            sx::cover("value");
            if let L(m, o) = v {
                // what an empty result remembers of its lists
                for (p, w) in [("ask_all", universe(names(*m, *o))), ("ask_invert", universe(names(*m, *o)) & !*m)] {
                    if jump(s, p).is_err() {
                        sx::fail("LIST_ALL of a list is an error");
                    }
                    let got = s.get_variable("u").unwrap();
                    expect(&format!("{what} then {p}"), &got, &L(w, 0));
                }
                sx::cover("list");
            }
        }
    }
}

/// two operands: every operator and function of two, all ints and floats
fn binary(deep: bool, lists: bool) {
    if lists && sx::choose("order", 2) == 1 {
        sx::hash_xor(0x5bd1_e995_9d1b_54a3);
    }
    let mut ex: Vec<String> = BIN.iter().map(|o| format!("x {o} y")).collect();
    ex.extend(FUN2.iter().map(|f| format!("{f}(x, y)")));
    let mut s = load(&compile(&source(&ex)));
    // powers, of the table, apart (c07_power)
    let i = sx::choose("op", ex.len() as u32 - if lists { 0 } else { 1 }) as usize;
    let op = if i < BIN.len() { BIN[i] } else { FUN2[i - BIN.len()] };
    let concrete = lists;
    let kinds: &[u8] = if lists { KINDS } else { b"IFBSD" };
    let mut x = draw("x", kinds, if concrete { Draw::Table } else { Draw::Full }, deep);
    let mut y = draw("y", kinds, if concrete { Draw::Table } else { Draw::Full }, deep);
    if lists && (!matches!((&x, &y), (L(..), _) | (_, L(..))) || matches!((&x, &y), (L(..), L(..)))) {
        sx::end();
    }
    // what has no number: two of a kind do
    if lists && !deep && [&x, &y].iter().any(|v| matches!(v, S(s) if s != "a" && s != "") || matches!(v, F(f) if *f != 1.0 && *f != -2.5)) {
        sx::end();
    }
    // a list and a number: every number
    if matches!((lists, &x, &y), (true, L(..), I(i)) if *i != 0) {
        sx::end();
    }
    if let (true, L(..), I(_)) = (lists, &x, &y) {
        y = draw("yn", b"I", Draw::Full, deep);
    }
    let f = matches!((&x, &y), (F(_), _) | (_, F(_)));
    if (op == "%" || op == "mod") && f {
        // remainders of floats
        if !matches!(x, S(_) | L(..) | D(_)) && !matches!(y, S(_) | L(..) | D(_)) {
            x = draw("xt", b"IF", Draw::Table, deep);
            y = draw("yt", b"IF", Draw::Table, deep);
        }
    }
    // numbers that become text
    if matches!((&x, &y), (S(_), _) | (_, S(_))) && matches!(op, "+" | "==" | "!=" | "?" | "!?" | "has" | "hasnt") {
        for (v, n) in [(&mut x, "xs"), (&mut y, "ys")] {
            if matches!(v, I(_)) {
                *v = draw(n, b"I", Draw::Short, deep);
            } else if matches!(v, F(_)) {
                *v = draw(n, b"F", Draw::Table, deep);
            }
        }
    }
    let x = put(&mut s, "x", x);
    let y = put(&mut s, "y", y);
    let want = bin(op, &x, &y);
    // what is refused is refused in every position (c07_sets, c07_mix); one here
    if want.is_none() && !deep {
        return evaluate_in(&mut s, i, &ex[i], want, [0, 2, 3, 1][i % 4]);
    }
    // the text of an arbitrary int or float is not compared here
    evaluate(&mut s, i, &ex[i], want, 4);
}
/// two lists: every operator, items of either list and of both, in two orders of their maps
#[unsafe(no_mangle)]
pub extern "C" fn c07_sets(op: u64) {
    let order = sx::choose("order", 2);
    if order == 1 {
        sx::hash_xor(0x5bd1_e995_9d1b_54a3);
    }
    let i = op as usize;
    let (op, ex) = if i < BIN.len() { (BIN[i], format!("x {} y", BIN[i])) } else { (FUN2[i - BIN.len()], format!("{}(x, y)", FUN2[i - BIN.len()])) };
    let ex = [ex];
    let mut s = load(&compile(&source(&ex)));
    let x = draw("x", b"L", Draw::Table, false);
    let y = draw("y", b"L", Draw::Table, false);
    let (x, y) = (put(&mut s, "x", x), put(&mut s, "y", y));
    let want = bin(op, &x, &y);
    let form = (place(&x, &y, i) + order) % 4;
    evaluate_in(&mut s, 0, &ex[0], want, form);
}
/// powers: every two values of the tables
#[unsafe(no_mangle)]
pub extern "C" fn c07_power(_case: u64) {
    let ex = ["POW(x, y)".to_string()];
    let mut s = load(&compile(&source(&ex)));
    let x = draw("x", b"IFD", Draw::Table, true);
    let y = draw("y", b"IFD", Draw::Table, true);
    if matches!(y, F(f) if f != f.trunc()) {
        sx::end();
    }
    let (x, y) = (put(&mut s, "x", x), put(&mut s, "y", y));
    let want = bin("POW", &x, &y);
    evaluate(&mut s, 0, &ex[0], want, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_binary(_case: u64) {
    binary(false, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_binary_deep(_case: u64) {
    binary(true, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_lists(_case: u64) {
    binary(false, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_lists_deep(_case: u64) {
    binary(true, true);
}

/// one operand
fn unary(deep: bool) {
    if sx::choose("order", 2) == 1 {
        sx::hash_xor(0x5bd1_e995_9d1b_54a3);
    }
    let mut ex: Vec<String> = UN.iter().map(|o| format!("{o}x")).collect();
    ex.extend(FUN1.iter().map(|f| format!("{f}(x)")));
    ex.push("x".to_string());
    let mut s = load(&compile(&source(&ex)));
    let i = sx::choose("op", ex.len() as u32) as usize;
    let x = draw("x", KINDS, Draw::Full, deep);
    let op = if i < UN.len() {
        UN[i]
    } else if i < UN.len() + FUN1.len() {
        FUN1[i - UN.len()]
    } else {
        ""
    };
    if let (F(f), "INT") = (&x, op) {
        sx::assume(*f > -2.0e9 && *f < 2.0e9);
    }
    let x = put(&mut s, "x", x);
    let want = if op.is_empty() { Some(x.clone()) } else { un(op, &x) };
    evaluate(&mut s, i, &ex[i], want, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_unary(_case: u64) {
    unary(false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_unary_deep(_case: u64) {
    unary(true);
}

/// printing and string building
#[unsafe(no_mangle)]
pub extern "C" fn c07_print(_case: u64) {
    let ex: Vec<String> = ["x", "x + y", "x == y", "MAX(x, y)", "LIST_ALL(x)"].iter().map(|s| s.to_string()).collect();
    let mut s = load(&compile(&source(&ex)));
    let i = sx::choose("op", ex.len() as u32) as usize;
    let mut x = draw("x", b"IFBSL", Draw::Short, false);
    let y = if i == 0 || i == 4 { I(0) } else { draw("y", b"IFBSL", Draw::Table, false) };
    if matches!((&x, &y), (I(_), F(_))) {
        x = draw("xt", b"I", Draw::Table, false);
    }
    let x = put(&mut s, "x", x);
    let y = put(&mut s, "y", y);
    let want = match i {
        0 => Some(x.clone()),
        1 => bin("+", &x, &y),
        2 => bin("==", &x, &y),
        3 => bin("MAX", &x, &y),
        _ => un("LIST_ALL", &x),
    };
    let form = 4 + sx::choose("where", 2);
    let path = format!("{}{i}", ["s", "q"][form as usize - 4]);
    let r = jump(&mut s, &path);
    match (&r, &want) {
        (Err(_), None) => sx::cover("error"),
        (Ok(t), Some(v)) => {
            if form == 4 {
                let e = format!("V={}.\n", text(v));
                same(t, &e, "an expression is printed otherwise than Ink does");
                sx::cover("printed");
            } else {
                let Some(got) = s.get_variable("r") else { sx::fail("a global is missing") };
                expect(&ex[i], &got, &S(text(v) + "+"));
                sx::cover("in a string");
            }
        }
        _ => {
            sx::note(&ex[i]);
            sx::note(&format!("{r:?}"));
            sx::fail("printing an expression fails where Ink prints it, or the other way round")
        }
    }
}

/// LIST_RANGE
#[unsafe(no_mangle)]
pub extern "C" fn c07_range(_case: u64) {
    if sx::choose("order", 2) == 1 {
        sx::hash_xor(0x5bd1_e995_9d1b_54a3);
    }
    let ex = vec!["LIST_RANGE(x, y, z)".to_string()];
    let mut s = load(&compile(&source(&ex)));
    let x = draw("x", b"LI", Draw::Full, false);
    let y = draw("y", b"ILF", Draw::Full, false);
    let z = draw("z", b"ILB", Draw::Full, false);
    let x = put(&mut s, "x", x);
    let y = put(&mut s, "y", y);
    let z = put(&mut s, "z", z);
    let want = range(&x, &y, &z);
    evaluate(&mut s, 0, &ex[0], want, 1);
}

/// two operators: precedence and grouping, all ints
fn chain(v: &[V], ops: &[&str]) -> Option<V> {
    // operands and operators by precedence climbing
    fn climb(v: &[V], ops: &[&str], at: &mut usize, min: u8) -> Option<V> {
        let mut l = Some(v[*at].clone());
        while *at < ops.len() && precedence(ops[*at]) > min {
            let op = ops[*at];
            *at += 1;
            let r = climb(v, ops, at, precedence(op));
            l = match (l, r) {
                (Some(l), Some(r)) => bin(op, &l, &r),
                _ => None,
            };
        }
        l
    }
    climb(v, ops, &mut 0, 0)
}
fn two_ops(case: u64, lists: bool, deep: bool) {
    let ops: &[&str] = if lists { &["+", "-", "^", "?", "!?", "==", "!=", "<", ">=", "&&", "||"] } else { &BIN[..16] };
    let o1 = ops[case as usize % ops.len()];
    let shapes = 6;
    let mut ex = vec![];
    for o2 in ops {
        ex.push(format!("x {o1} y {o2} z"));
        ex.push(format!("(x {o1} y) {o2} z"));
        ex.push(format!("x {o1} (y {o2} z)"));
        ex.push(format!("-x {o1} y {o2} z"));
        ex.push(format!("x {o1} not y {o2} z"));
        ex.push(format!("x {o1} MAX(y {o2} z, x)"));
    }
    let mut src = String::from(DECL);
    src += "VAR x = 0\nVAR y = 0\nVAR z = 0\nVAR r = 0\n-> END\n";
    for (i, e) in ex.iter().enumerate() {
        let _ = write!(src, "=== e{i}\n~ r = {e}\nok\n-> END\n");
    }
    let mut s = load(&compile(&src));
    let i2 = sx::choose("op2", ops.len() as u32) as usize;
    let shape = sx::choose("shape", shapes);
    let o2 = ops[i2];
    let i = i2 * shapes as usize + shape as usize;
    let kinds: &[u8] = if lists { b"L" } else { b"I" };
    let hard = |o: &str| ["*", "/", "%", "mod"].contains(&o);
    let v: Vec<V> = ["x", "y", "z"]
        .iter()
        .map(|n| {
            let v = if lists { L([0, 0b000001, 0b000011, 0b010100, 0b111111][sx::choose(n, 5) as usize], 0) } else { draw(n, kinds, if !deep && *n != "x" && hard(o1) && hard(o2) { Draw::Table } else { Draw::Full }, false) };
            let h = to_host(&s, &v);
            if s.set_variable(n, &h).is_err() {
                sx::fail("a declared variable cannot be set");
            }
            v
        })
        .collect();
    if !deep && !lists && (hard(o1) || hard(o2)) {
        // products and quotients of wide numbers are decided by the thorough tier
        for a in &v {
            if let I(i) = a {
                sx::assume((*i >= -60) & (*i <= 60));
            }
        }
    }
    let (x, y, z) = (v[0].clone(), v[1].clone(), v[2].clone());
    let b = |op: &str, a: Option<V>, b: Option<V>| match (a, b) {
        (Some(a), Some(b)) => bin(op, &a, &b),
        _ => None,
    };
    let want = match shape {
        0 => chain(&[x, y, z], &[o1, o2]),
        1 => b(o2, bin(o1, &x, &y), Some(z)),
        2 => b(o1, Some(x), bin(o2, &y, &z)),
        3 => un("-", &x).and_then(|x| chain(&[x, y, z], &[o1, o2])),
        4 => un("not ", &y).and_then(|y| chain(&[x, y, z], &[o1, o2])),
        _ => {
            let m = b("MAX", bin(o2, &y, &z), Some(x.clone()));
            b(o1, Some(x), m)
        }
    };
    let r = jump(&mut s, &format!("e{i}"));
    match (&r, &want) {
        (Err(_), None) => sx::cover("error"),
        (Ok(_), Some(w)) => {
            let got = s.get_variable("r").unwrap();
            expect(&ex[i], &got, w);
            sx::cover("value");
        }
        _ => {
            sx::note(&ex[i]);
            sx::note(&format!("{r:?}"));
            sx::fail("an expression of two operators is an error where Ink gives a value, or the other way round")
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_two(case: u64) {
    two_ops(case, false, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_two_deep(case: u64) {
    two_ops(case, false, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_two_lists(case: u64) {
    two_ops(case, true, false);
}

/// trees of two operators over operands of decided types, where a value made by one operator is converted by the other
#[unsafe(no_mangle)]
pub extern "C" fn c07_mix(case: u64) {
    const OPS: [&str; 12] = ["+", "-", "*", "/", "%", "==", "!=", "<", ">=", "&&", "||", "?"];
    let o1 = OPS[case as usize % OPS.len()];
    let mut ex = vec![];
    for o2 in OPS {
        ex.push(format!("(x {o1} y) {o2} z"));
        ex.push(format!("x {o2} (y {o1} z)"));
        ex.push(format!("x {o1} not(y {o2} z)"));
        ex.push(format!("\"{{x}}\" {o1} y {o2} z"));
    }
    let mut src = String::from(DECL);
    src += "VAR x = 0\nVAR y = 0\nVAR z = 0\nVAR r = 0\n-> END\n";
    for (i, e) in ex.iter().enumerate() {
        let _ = write!(src, "=== e{i}\n~ r = {e}\nok\n-> END\n");
    }
    let mut s = load(&compile(&src));
    let i2 = sx::choose("op2", OPS.len() as u32) as usize;
    let shape = sx::choose("shape", 4);
    let o2 = OPS[i2];
    let hard = |o: &str| ["*", "/", "%"].contains(&o);
    let texts = shape == 3 || o1 == "?" || o2 == "?" || o1 == "+" || o2 == "+";
    let v: Vec<V> = ["x", "y", "z"]
        .iter()
        .map(|n| {
            let how = if hard(o1) || hard(o2) || texts { Draw::Table } else { Draw::Full };
            let v = match draw(n, b"IBSLF", how, false) {
                F(_) if how == Draw::Full => F(FLOATS[sx::choose(n, FLOATS.len() as u32) as usize]),
                v => v,
            };
            put(&mut s, n, v)
        })
        .collect();
    let (x, y, z) = (v[0].clone(), v[1].clone(), v[2].clone());
    let b = |op: &str, a: Option<V>, b: Option<V>| match (a, b) {
        (Some(a), Some(b)) => bin(op, &a, &b),
        _ => None,
    };
    let want = match shape {
        0 => b(o2, bin(o1, &x, &y), Some(z)),
        1 => b(o2, Some(x), bin(o1, &y, &z)),
        2 => b(o1, Some(x), bin(o2, &y, &z).and_then(|v| un("not ", &v))),
        _ => chain(&[S(text(&x)), y, z], &[o1, o2]),
    };
    let i = i2 * 4 + shape as usize;
    let r = jump(&mut s, &format!("e{i}"));
    match (&r, &want) {
        (Err(_), None) => sx::cover("error"),
        (Ok(_), Some(w)) => {
            let got = s.get_variable("r").unwrap();
            expect(&ex[i], &got, w);
            sx::cover("value");
        }
        _ => {
            sx::note(&format!("{} with {} {} {}: {want:?}", ex[i], text(&v[0]), text(&v[1]), text(&v[2])));
            sx::note(&format!("{r:?} {:?}", s.get_current_errors()));
            sx::fail("an expression of mixed types is an error where Ink gives a value, or the other way round")
        }
    }
}

/// operands written in the source, and assignment statements
fn literals(all: bool) {
    const LITS: [&str; 14] = ["0", "7", "-3", "2147483647", "1.5", "-0.25", "\"ab\"", "\"\"", "true", "false", "(p1, qa)", "()", "p2", "(Q.qb)"];
    let lit = |i: usize| match i {
        0 => I(0),
        1 => I(7),
        2 => I(-3),
        3 => I(i32::MAX),
        4 => F(1.5),
        5 => F(-0.25),
        6 => S("ab".into()),
        7 => S(String::new()),
        8 => B(true),
        9 => B(false),
        10 => L(0b000101, 0),
        11 => L(0, 0),
        12 => L(0b000010, 0),
        _ => L(0b010000, 0),
    };
    const OPS: [&str; 8] = ["+", "-", "*", "/", "==", "<", "and", "?"];
    let i = sx::choose("left", LITS.len() as u32) as usize;
    let n = if all { LITS.len() as u32 } else { 5 };
    let j = [1usize, 5, 6, 12, 8, 0, 2, 3, 4, 7, 9, 10, 11, 13][sx::choose("right", n) as usize];
    let k = sx::choose("op", OPS.len() as u32) as usize;
    let (a, b, op) = (LITS[i], LITS[j], OPS[k]);
    let (va, vb) = (lit(i), lit(j));
    let src = format!(
        "{DECL}VAR v = {a}\nCONST c = {b}\nVAR r = 0\nVAR u = 0\n-> END\n=== function id(k)\n~ return k\n=== k0\n~ r = {a} {op} {b}\nok\n-> END\n=== k1\n~ r = v {op} c\nok\n-> END\n=== k2\n~ temp t = {a}\n~ t = t {op} {b}\n~ r = t\nok\n-> END\n=== k3\n~ r = v\n~ r += {b}\nok\n-> END\n=== k4\n~ temp t = {a}\n~ t -= c\n~ r = t\nok\n-> END\n=== k5\n~ r = v\n~ r++\nok\n-> END\n=== k6\n~ temp t = {a}\n~ t--\n~ r = t\nok\n-> END\n=== k7\n~ r = id({a}) {op} id({b})\nok\n-> END\n=== k8\n~ r = not {a}\nok\n-> END\n=== k9\n~ r = - {a}\nok\n-> END\n"
    );
    let form = sx::choose("form", 10);
    if form > 2 && form < 7 && k > 0 || form > 7 && (k > 0 || j != 1) {
        sx::end();
    }
    // a minus before a list in parentheses and the like is no expression
    if form == 9 && (i == 2 || i == 5) {
        sx::end();
    }
    let mut s = load(&compile(&src));
    expect("initial value", &s.get_variable("v").unwrap(), &va);
    let one = I(1);
    let want = match form {
        0 | 1 | 2 | 7 => bin(op, &va, &vb),
        3 => bin("+", &va, &vb),
        4 => bin("-", &va, &vb),
        5 => bin("+", &va, &one),
        6 => bin("-", &va, &one),
        8 => un("not ", &va),
        _ => un("-", &va),
    };
    let r = jump(&mut s, &format!("k{form}"));
    match (&r, &want) {
        (Err(_), None) => sx::cover("error"),
        (Ok(_), Some(w)) => {
            let got = s.get_variable("r").unwrap();
            expect(&format!("form {form}: {a} {op} {b}"), &got, w);
            sx::cover("value");
        }
        _ => {
            sx::note(&format!("form {form}: {a} {op} {b}"));
            sx::note(&format!("{r:?} want {want:?}"));
            sx::fail("an expression of literals is an error where Ink gives a value, or the other way round")
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_literals(_case: u64) {
    literals(false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_literals_deep(_case: u64) {
    literals(true);
}
