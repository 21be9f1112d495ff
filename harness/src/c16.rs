//! C16: evaluating a function from the host
use crate::h::*;
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::value_type::ValueType;

const SRC: &str = r#"VAR g = 3
VAR h = 0
LIST ls = a, (b), c
-> start
=== function pure(x, y)
~ return x * 3 + y
=== function cond(x)
{ x > 2:
  ~ return "big"
- else:
  ~ return "small"
}
=== function prints(x)
One {x}.
Two <>
{x > 1: more|less}
~ return x + g
=== function silent(x)
~ temp q = x
~ q = q + 1
=== function rec(x)
{ x <= 0:
  ~ return 0
}
~ return x + rec(x - 1)
=== function lst(x)
~ return ls + LIST_ALL(ls)
=== function seq(x)
text only
=== function flt(x)
~ return x / 2.0
=== function nested(x)
pre {prints(x)} post
~ return pure(x, 1)
=== start
Start {g}. # tag a
~ h = h + 1
-> tun(h) ->
Glue <>
here {h}. # tag b # tag c
<- th(h)
* one {pure(h, 1)} # ct
  ~ temp loc = h + 2
  took {loc}
  -> tun(loc) ->
  back {loc}
* two
  -> start
* -> fallback
- Gathered {start}.
{h < 3: -> start}
-> END
=== tun(v)
~ temp w = v * 2
Tunnel {v} {w}.
+ in tunnel {w}
  picked {w}
- out {w}.
->->
=== th(k)
* from thread {k}
  thread took {k}
  -> start
=== fallback
Fell.
-> END
"#;
const T: Tpl = Tpl { name: "c16", src: SRC, vars: &["g", "h", "ls"], counts: &["start", "tun", "th", "fallback"], ints: &["g"] };
const F: &[(&str, u32)] = &[("pure", 2), ("cond", 1), ("prints", 1), ("silent", 1), ("rec", 1), ("lst", 1), ("seq", 1), ("flt", 1), ("nested", 1)];

fn strip(j: &str) -> String {
    // counts of the functions may differ
    let mut v: serde_json::Value = serde_json::from_str(j).unwrap();
    for k in ["visitCounts", "turnIndices"] {
        if let Some(m) = v[k].as_object_mut() {
            m.retain(|n, _| !F.iter().any(|(f, _)| n == f || n.starts_with(&format!("{f}."))));
        }
    }
    v.to_string()
}
fn show(r: &Result<Option<ValueType>, bladeink::story_error::StoryError>, txt: &str) -> String {
    match r {
        Ok(v) => format!("{:?} {txt:?}", v.as_ref().map(val)),
        Err(e) => format!("ERR {e}"),
    }
}

/// what the function must return and print, for arguments (x, y) and global g
fn expected(f: &str, x: i32, y: i32, g: i32) -> String {
    let pt = |x: i32| format!("One {x}.\nTwo {}\n", if x > 1 { "more" } else { "less" });
    match f {
        "pure" => format!("Some(\"i:{}\") \"\"", x * 3 + y),
        "cond" => format!("Some(\"s:{}\") \"\"", if x > 2 { "big" } else { "small" }),
        "prints" => format!("Some(\"i:{}\") {:?}", x + g, pt(x)),
        "silent" => "None \"\"".to_string(),
        "rec" => format!("Some(\"i:{}\") \"\"", x * (x + 1) / 2),
        "lst" => "Some(\"l:a, b, c\") \"\"".to_string(),
        "seq" => "None \"text only\\n\"".to_string(),
        "flt" => format!("Some(\"f:{}\") \"\"", x as f32 / 2.0),
        _ => {
            let t = format!("pre One {x}.\nTwo {}{} post\n", if x > 1 { "more" } else { "less" }, x + g);
            format!("Some(\"i:{}\") {t:?}", x * 3 + 1)
        }
    }
}

fn run(n: u32, m: u32, twice: u32) {
    let j = compile(T.src);
    let (mut a, mut b) = (load(&j), load(&j));
    set_seed(&mut a, 5);
    set_seed(&mut b, 5);
    let g = sx::i32("g");
    sx::assume(g >= 0 && g <= 9);
    for s in [&mut a, &mut b] {
        if s.set_variable("g", &ValueType::Int(g)).is_err() {
            sx::fail("declared global cannot be set");
        }
    }
    let mut d = Dec::new("c");
    let mut d2 = Dec::new("c");
    for _ in 0..twice {
        let k = sx::choose("at", n);
        for _ in 0..k {
            let x = apply(&mut a, Op::Go, &mut d, None);
            d2.v = d.v.clone();
            let y = apply(&mut b, Op::Go, &mut d2, None);
            same(&x, &y, "story differs after a function evaluation");
        }
        let (f, na) = F[sx::choose("f", F.len() as u32) as usize];
        let (x, y) = (sx::i32("x"), sx::i32("y"));
        sx::assume(x >= 0 && x <= 4 && y >= 0 && y <= 4);
        let args = if na == 2 { ints(&[x, y]) } else { ints(&[x]) };
        let before = obs(&mut a, &T);
        let mut t1 = String::new();
        let r1 = a.evaluate_function(f, Some(&args), &mut t1);
        let mut t2 = String::new();
        let r2 = a.evaluate_function(f, Some(&args), &mut t2);
        let (s1, s2) = (show(&r1, &t1), show(&r2, &t2));
        same(&s1, &s2, "a function without side effects returns another result when repeated");
        // more arguments than parameters: whatever the value is, nothing stays behind
        let mut more = args.clone();
        more.push(ValueType::Int(3));
        more.push(ValueType::Int(2));
        let mut t3 = String::new();
        let _ = a.evaluate_function(f, Some(&more), &mut t3);
        let e = expected(f, x, y, g);
        same(&s1, &e, "a function evaluated by the host returns another value or text than its body says");
        let after = obs(&mut a, &T);
        same(&before, &after, "evaluating a function changes text, tags, choices or variables");
        same_json(&strip(&save(&a)), &strip(&save(&b)), "evaluating a function changes the saved state");
        sx::cover("evaluated");
    }
    let mut d = Dec::new("after");
    let ta = tail(&mut a, &T, &mut d, m);
    d.rewind();
    let tb = tail(&mut b, &T, &mut d, m);
    same(&ta, &tb, "later play differs after a function evaluation");
    same_json(&strip(&save(&a)), &strip(&save(&b)), "the final state differs after a function evaluation");
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_eval(_case: u64) {
    run(12, 5, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_eval_deep(_case: u64) {
    run(10, 8, 2);
}

/// in several flows
fn flows(n: u32, m: u32) {
    const OPS: &[Op] = &[Op::Go, Op::Flow("fa"), Op::Default, Op::Jump("ka", true, None), Op::Jump("kb", false, Some(3)), Op::Reload];
    let t = &stories::KNOTS;
    let j = compile(t.src);
    let (mut a, mut b) = (load(&j), load(&j));
    set_seed(&mut a, 5);
    set_seed(&mut b, 5);
    let mut d = Dec::new("h");
    hist(&mut a, t, &mut d, OPS, n);
    d.rewind();
    hist(&mut b, t, &mut d, OPS, n);
    let (x, y) = (sx::i32("x"), sx::i32("y"));
    sx::assume(x >= 0 && x <= 9 && y >= 0 && y <= 9);
    let mut txt = String::new();
    let r = a.evaluate_function("pfun", Some(&ints(&[x])), &mut txt);
    same(&show(&r, &txt), &format!("Some(\"i:{}\") {:?}", x + 1, format!("says {x}\n")), "wrong function result");
    let mut txt = String::new();
    let r = a.evaluate_function("fun", Some(&ints(&[x, y])), &mut txt);
    same(&show(&r, &txt), &format!("Some(\"i:{}\") \"\"", x * 10 + y), "wrong function result");
    let t2 = Tpl { counts: &["ka", "kb", "atun", "bthread", "kb.stitch"], ..*t };
    same(&obs(&mut a, &t2), &obs(&mut b, &t2), "evaluating a function changes what the host sees (flows)");
    let mut d = Dec::new("after");
    let mut rest = |s: &mut Story, d: &mut Dec| {
        let mut o = tail(s, &t2, d, m);
        for f in ["fa", "DEFAULT_FLOW"] {
            o += &apply(s, Op::Flow(f), d, None);
            o += &core(s, &t2);
            o += &tail(s, &t2, d, 2);
        }
        o
    };
    let ta = rest(&mut a, &mut d);
    d.rewind();
    let tb = rest(&mut b, &mut d);
    sx::cover("evaluated in a flow");
    same(&ta, &tb, "later play differs after a function evaluation (flows)");
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_flows(_case: u64) {
    flows(3, 4);
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_flows_deep(_case: u64) {
    flows(5, 4);
}

/// refused calls: name built from symbolic characters; arguments that are no ink values
#[unsafe(no_mangle)]
pub extern "C" fn c16_refuse(_case: u64) {
    let t = &stories::KNOTS;
    let j = compile(t.src);
    let (mut a, mut b) = (load(&j), load(&j));
    set_seed(&mut a, 5);
    set_seed(&mut b, 5);
    let mut d = Dec::new("c");
    let n = sx::choose("at", 5);
    for _ in 0..n {
        apply(&mut a, Op::Go, &mut d, None);
    }
    d.rewind();
    for _ in 0..n {
        apply(&mut b, Op::Go, &mut d, None);
    }
    let mut txt = String::new();
    let r = match sx::choose("kind", 3) {
        0 => {
            let l = sx::choose("len", 4);
            let mut name = String::new();
            for _ in 0..l {
                let c = sx::u8("ch");
                sx::assume(c < 0x80);
                name.push(c as char);
            }
            // no knot has a name this short, except these
            sx::assume(!(name == "ka") && !(name == "kb") && !(name == "fun"));
            a.evaluate_function(&name, None, &mut txt)
        }
        1 => {
            let v = a.get_variable("vt").unwrap();
            a.evaluate_function("fun", Some(&vec![ValueType::Int(1), v]), &mut txt)
        }
        _ => {
            let names = ["", " ", "\t\n", "nofun", "fun ", "kb.stitch.x", "main", "global declx"];
            a.evaluate_function(names[sx::choose("name", 8) as usize], Some(&ints(&[1])), &mut txt)
        }
    };
    if r.is_ok() {
        sx::fail("evaluating an unknown function or with unusable arguments succeeds");
    }
    sx::cover("refused");
    same(&txt, "", "a refused evaluation prints");
    same(&obs(&mut a, t), &obs(&mut b, t), "a refused evaluation changes what the host sees");
    same_json(&save(&a), &save(&b), "a refused evaluation changes the state");
    let mut d = Dec::new("after");
    let ta = tail(&mut a, t, &mut d, 5);
    d.rewind();
    let tb = tail(&mut b, t, &mut d, 5);
    same(&ta, &tb, "a refused evaluation changes later play");
}
