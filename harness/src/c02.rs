//! C02: a save loaded into a fresh story behaves as the original
use crate::h::*;
use crate::stories;
use crate::sx;

/// at the save point: load into a fresh story, compare everything visible, save again, then both in
/// lockstep
fn compare(a: &mut bladeink::story::Story, json: &str, t: &Tpl, dn: u32) {
    let sv = save(a);
    let mut b = load(json);
    load_save(&mut b, &sv);
    sx::cover("save loaded");
    let oa = core(a, t);
    let ob = core(&mut b, t);
    same(&oa, &ob, "loaded story differs at the save point");
    let sv2 = save(&b);
    same_json(&sv, &sv2, "saving the loaded story gives a different save");
    let mut d = Dec::new("after");
    let ta = tail(a, t, &mut d, dn);
    d.rewind();
    let tb = tail(&mut b, t, &mut d, dn);
    same(&ta, &tb, "loaded story plays differently");
}

/// every template, saved after any number of lines/choices
fn c02_play(case: u64, before: u32, after: u32) {
    let t = &stories::ALL[case as usize];
    let j = compile(t.src);
    let mut a = load(&j);
    set_ints(&mut a, t, 0, 4);
    let mut d = Dec::new("c");
    let n = sx::choose("saveat", before + 1);
    for _ in 0..n {
        if !a.can_continue() && a.get_current_choices().is_empty() {
            sx::end();
        }
        apply(&mut a, Op::Go, &mut d, None);
    }
    compare(&mut a, &j, t, after);
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_tpl(case: u64) {
    c02_play(case, 12, 8);
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_tpl_deep(case: u64) {
    c02_play(case, 20, 12);
}

const FOPS: &[Op] = &[Op::Go, Op::Flow("fa"), Op::Default, Op::Jump("ka", true, None), Op::Jump("kb", true, Some(2)),
    Op::Jump("kb", false, Some(3)), Op::Remove("fa"), Op::Flow("fb")];
/// several flows, jumps
fn flows(n: u32, m: u32) {
    let t = &stories::KNOTS;
    let j = compile(t.src);
    let mut a = load(&j);
    set_ints(&mut a, t, 0, 4);
    let mut d = Dec::new("h");
    hist(&mut a, t, &mut d, FOPS, n);
    let sv = save(&a);
    let mut b = load(&j);
    load_save(&mut b, &sv);
    same(&core(&mut a, t), &core(&mut b, t), "loaded story differs at the save point (flows)");
    same_json(&sv, &save(&b), "saving the loaded story gives a different save (flows)");
    let mut da = Dec::new("x");
    // every flow afterwards, in a fixed order
    let rest = |s: &mut bladeink::story::Story, d: &mut Dec| {
        let mut o = tail(s, t, d, m);
        for f in ["fa", "fb", "DEFAULT_FLOW"] {
            o += &apply(s, Op::Flow(f), d, None);
            o += &core(s, t);
            o += &tail(s, t, d, m);
        }
        o
    };
    let ta = rest(&mut a, &mut da);
    da.rewind();
    let tb = rest(&mut b, &mut da);
    sx::cover("flows compared");
    same(&ta, &tb, "loaded story plays differently (flows)");
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_flows(_case: u64) {
    flows(4, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_flows_deep(_case: u64) {
    flows(6, 3);
}

/// values: every kind of global and temporary round-trips, ints over the full range
#[unsafe(no_mangle)]
pub extern "C" fn c02_values(case: u64) {
    let src = r#"LIST la = one, (two), three = 9
LIST lb = two, four
VAR i = 0
VAR f = 1.5
VAR s = ""
VAR b = true
VAR l = ()
VAR d = -> k2
VAR m1 = 0
VAR m2 = 0
VAR m3 = 0
VAR m4 = 0
{m1:
  ~ l += la.two
}
{m2:
  ~ l += lb.two
}
{m3:
  ~ l += la.three
}
{m4:
  ~ l += lb.four
}
-> k1
=== k1
~ temp ti = i
~ temp tf = f
~ temp ts = s
~ temp tb = b
~ temp tl = l
~ temp td = d
Line one.
Now {ti} {tf} {ts} {tb} {tl} {i} {f} {s} {b} {l}.
{l ? la.two: has} {l == lb: eqb} {LIST_ALL(l)} {LIST_INVERT(l)} {LIST_COUNT(l)} {ti + 1} {tf * 2.0} {b == tb: sameb}
-> d
=== k2
End two {b: yes|no}.
* [stay] -> k1
* go -> END
"#;
    let t = &Tpl { name: "values", src, vars: &["i", "f", "s", "b", "l", "d", "la", "lb"], counts: &["k1", "k2"], ints: &[] };
    let j = compile(src);
    let mut a = load(&j);
    use bladeink::value_type::ValueType as V;
    let ok = match case {
        0 => {
            let x = sx::i32("i");
            a.set_variable("i", &V::Int(x)).is_ok()
        }
        1 => {
            const F: &[f32] = &[0.0, -0.0, 1.0, -1.5, 0.1, 3.0e10, 1e-7, 16777216.0, f32::MAX, f32::MIN_POSITIVE, 123456.79, 2.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
            let x = F[sx::choose("f", F.len() as u32) as usize];
            a.set_variable("f", &V::Float(x)).is_ok()
        }
        2 => {
            let n = sx::choose("len", 4);
            let mut x = String::new();
            for _ in 0..n {
                let c = sx::u8("ch");
                sx::assume(c < 0x80 && c != b'\n');
                x.push(c as char);
            }
            a.set_variable("s", &V::new::<&str>(&x)).is_ok()
        }
        3 => {
            let x = sx::boolean("b");
            a.set_variable("b", &V::Bool(x)).is_ok()
        }
        4 => {
            // a list built by the story from a decided set of items
            for n in ["m1", "m2", "m3", "m4"] {
                let x = sx::choose(n, 2) as i32;
                if a.set_variable(n, &V::Int(x)).is_err() {
                    sx::fail("declared global cannot be set");
                }
            }
            true
        }
        _ => {
            // a value of another type than the declared default
            let x = [V::Int(1), V::Int(0), V::Float(1.0), V::Bool(true), V::new::<&str>("1"), V::new::<&str>("")];
            let k = sx::choose("v", 6) as usize;
            let n = ["i", "f", "s", "b"][sx::choose("n", 4) as usize];
            a.set_variable(n, &x[k]).is_ok()
        }
    };
    if !ok {
        sx::fail("declared global cannot be set");
    }
    let mut d = Dec::new("c");
    let n = sx::choose("saveat", 3);
    for _ in 0..n {
        apply(&mut a, Op::Go, &mut d, None);
    }
    compare(&mut a, &j, t, 6);
}

/// choices made by threads, again after each load
pub const THREADS: Tpl = Tpl {
    name: "threads",
    src: r#"VAR x = 1
VAR seen = 0
-> top
=== top
~ temp t = x
Top {top} {t}.
<- one(t)
<- two(seen)
* (main) main {t}
  main taken {t}
  -> top
+ more
  ~ x = x + 1
  -> top
* -> out
=== one(a)
~ temp b = a * 2
* one {a}
  one taken {a} {b}
  ~ seen = seen + a
  -> top
<- inner(b)
-> DONE
=== inner(c)
+ inner {c}
  inner taken {c}
  -> tun(c) ->
  back {c}
  -> top
=== two(a)
* {x > 1} two {a}
  two taken {a}
  ** deeper {a}
     -> top
  ** leave {a}
     -> out
=== tun(q)
tunnel {q}
<- inner(q)
+ in tunnel {q}
- ->->
=== out
Out {seen} {x}.
-> END
"#,
    vars: &["x", "seen"],
    counts: &["top", "one", "two", "inner", "tun", "top.main"],
    ints: &[],
};
/// saves of a loaded story: as many saves and loads as wanted between the operations
fn again(t: &Tpl, before: u32, between: u32, after: u32, times: u32) {
    let j = compile(t.src);
    let mut a = load(&j);
    let mut d = Dec::new("c");
    let n = 1 + sx::choose("saveat", before);
    for _ in 0..n {
        apply(&mut a, Op::Go, &mut d, None);
    }
    let mut b = load(&j);
    load_save(&mut b, &save(&a));
    for i in 0..times {
        let mut d = Dec::new("between");
        let m = if i == 0 { 1 + sx::choose("again", between) } else { between };
        let ta = tail(&mut a, t, &mut d, m);
        d.rewind();
        let tb = tail(&mut b, t, &mut d, m);
        same(&ta, &tb, "a loaded story plays differently");
        let sv = save(&b);
        same_json(&save(&a), &sv, "the save of a loaded story differs from the original's");
        b = load(&j);
        load_save(&mut b, &sv);
    }
    sx::cover("saved again");
    let mut d = Dec::new("after");
    let ta = tail(&mut a, t, &mut d, after);
    d.rewind();
    let tb = tail(&mut b, t, &mut d, after);
    same(&ta, &tb, "a story loaded from the save of a loaded story plays differently");
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_again(case: u64) {
    let t = [&THREADS, &stories::FLOWS, &stories::CHOICES, &stories::TEXT][case as usize];
    again(t, 7, 6, 5, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_again_deep(case: u64) {
    let t = [&THREADS, &stories::FLOWS, &stories::CHOICES, &stories::TEXT][case as usize];
    again(t, 9, 6, 6, 2);
}
