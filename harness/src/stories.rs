//! Story templates shared by the properties. Global ints named in `ints` are set by the host to
//! symbolic values.
use crate::h::Tpl;

/// choices of every kind, gathers, tags, conditions, read counts, turn counts
pub const CHOICES: Tpl = Tpl {
    name: "choices",
    src: r#"# author: nobody
VAR x = 3
VAR hits = 0
-> start
=== start ===
Start {x} # t1 # t{x > 2:big|small}
{x > 5:
  Large.
- else:
  Little.
}
* (one) Pick [one] first # ctag
  ~ hits = hits + 1
  First taken.
* {x > 2} Pick two[ here]
  Second taken {start}.
  ** Deep a
     ~ hits += 10
  ** Deep b
     Inside b.
  -- Gathered inside.
+ Pick sticky
  -> again
* -> fallback
- Gather {hits}. # gt
{one: seen one|not seen one} {TURNS_SINCE(-> start)}
{hits > 30: -> finish}
-> start
=== again ===
Again {again}.
{again < 2: -> start | -> finish}
=== fallback ===
Nothing left.
-> finish
=== finish ===
Total {hits}, starts {start}, turns {TURNS()}.
-> END
"#,
    vars: &["x", "hits"],
    counts: &["start", "again", "finish", "start.one", "fallback"],
    ints: &["x"],
};

/// glue, inline conditionals, sequences, functions that print, look-ahead side effects
pub const TEXT: Tpl = Tpl {
    name: "text",
    src: r#"VAR n = 1
VAR acc = 0
VAR s = "abc"
-> top
=== function bump(k) ===
~ acc = acc + k
~ return acc
=== function say(k) ===
{k > 1:many|few}
=== function two(k) ===
line a {k}
line b
=== top ===
Hello <>
world{n > 1:<>, again}.
~ acc = acc + 1
Call {bump(n)} and {say(n)} done.
{two(n)}
~ bump(2)
{stopping one|stopping two|stopping three} {&cyc1|cyc2} {!once1|once2}
{n == 2: {s} -> inner}
Glued <>
-> inner
=== inner
 to inner {acc}.
~ temp t = n * 2
{t > 3:
   ~ acc = acc + t
   T is {t}.
}
{n:
- 0: zero
- 1: one
- else: other {n}
}
+ [loop] -> top
+ {acc < 1000} say "{s}" {n} # tag {acc}
  ~ s = s + "x"
  said {s}
  -> top
* quit
- Bye.
-> DONE
"#,
    vars: &["n", "acc", "s"],
    counts: &["top", "inner"],
    ints: &["n"],
};

/// tunnels, threads, temporaries, references, divert targets
pub const FLOWS: Tpl = Tpl {
    name: "flows",
    src: r#"VAR g = 1
VAR where = -> outside
VAR seen = 0
-> begin
=== begin
Begin.
-> tun(g) ->
After tunnel {seen}.
<- side(g)
<- other
* main choice
  main taken
- (mid) Middle.
-> deep -> deep ->
{mid < 2: -> where}
-> END
=== tun(v)
~ temp loc = v + 1
In tunnel {loc}.
~ addto(seen, loc)
* tunnel choice {loc}
  chosen in tunnel {loc}
* leave
- Leaving {loc}.
->->
=== function addto(ref a, b)
~ a = a + b
=== side(q)
* side choice {q}
  side taken {q}
  -> begin.mid
=== other
+ {g > 1} other choice
  other taken
  -> outside
-> DONE
=== deep
Deep {deep}.
{deep > 2: ->-> outside}
->->
=== outside
~ seen = seen + 1
Outside {seen}.
{seen > 12: -> END}
* back
  -> begin.mid
* stop
-> END
"#,
    vars: &["g", "seen", "where"],
    counts: &["begin", "tun", "side", "deep", "outside", "begin.mid"],
    ints: &["g"],
};

/// lists
pub const LISTS: Tpl = Tpl {
    name: "lists",
    src: r#"LIST kettle = cold, (boiling), hot = 7
LIST pots = (small), large, huge
VAR box = ()
VAR k = 0
-> top
=== top
{kettle} {pots} [{box}]
{k > 0:
  ~ kettle++
}
{k == 2:
  ~ pots += large
}
~ box = kettle + pots
Box {box} max {LIST_MAX(box)} min {LIST_MIN(box)} n {LIST_COUNT(box)}
{box ? small: has small|no small} {box !? huge: no huge} {LIST_VALUE(kettle)}
All {LIST_ALL(kettle)} inv {LIST_INVERT(pots)}
Range {LIST_RANGE(LIST_ALL(pots), 1, 2)} {kettle(7)}
* add huge
  ~ pots += huge
* remove small
  ~ pots -= small
* [clear]
  ~ box = ()
  ~ pots = ()
- Now {pots == small: only small} {pots: some|none} {pots > kettle: gt|le}
{k < 3 and pots: -> top}
-> END
"#,
    vars: &["kettle", "pots", "box", "k"],
    counts: &["top"],
    ints: &["k"],
};

/// randomness
pub const RANDOM: Tpl = Tpl {
    name: "random",
    src: r#"LIST l = (a), (b), (c), d
VAR r = 0
VAR m = 4
-> top
=== top
~ r = RANDOM(1, m)
Roll {r} {RANDOM(0, 9)} {LIST_RANDOM(l)}
{~sh1|sh2|sh3|sh4}
{shuffle once: 
- so1
- so2
}
+ again -> top
+ seed
  ~ SEED_RANDOM(m)
  -> top
* end
-> END
"#,
    vars: &["r", "l", "m"],
    counts: &["top"],
    ints: &["m"],
};

/// multi-line functions, recursion, strings, variable text inside choices
pub const FUNCS: Tpl = Tpl {
    name: "funcs",
    src: r#"VAR d = 2
VAR out = 0
VAR name = "Bob"
CONST LIM = 4
-> main
=== function fact(k)
{ k <= 1:
  ~ return 1
}
~ return k * fact(k - 1)
=== function pr(k)
~ out = out + 1
pr {k}
{k > 0: {pr(k - 1)}}
=== function both(ref a, ref b)
~ temp t = a
~ a = b
~ b = t
=== main
Fact {fact(d)} {LIM}.
{pr(d)}
~ both(d, out)
Swapped {d} {out} for {name}.
- (loop)
{out < LIM:
  ~ out++
  -> loop
}
* {name == "Bob"} [Call {name} {d}] Called {name}.
  ~ name = "Al" + d
* (lbl) label choice
  {lbl} seen
* {lbl or d > 3} -> sub
- -> sub
= sub
Sub {main.sub} {READ_COUNT(-> main)}.
{not lbl: -> main}
-> END
"#,
    vars: &["d", "out", "name"],
    counts: &["main", "main.sub", "main.lbl", "main.loop", "fact"],
    ints: &["d"],
};

/// several knots a host can jump to, for flows and path jumps
pub const KNOTS: Tpl = Tpl {
    name: "knots",
    src: r#"VAR va = 0
VAR vb = 0
VAR vm = 0
VAR vt = -> ka
Main one.
~ vm = vm + 1
Main two {vm}. # mt
* m choice
  m taken {vm}
* m other
- Main end.
-> END
=== ka
~ temp ta = va + 5
A one {ta}. # at
~ va = va + 1
A two {va + two(1)}.
-> atun(ta) ->
* a first {ta}
  A first taken {ta}.
+ a second
  ~ va = va + 10
  A second taken.
- A end {va}.
-> END
=== atun(p)
~ temp q = p
In A tunnel {q}.
+ a tunnel choice {q}
  done {q}
- ->->
=== kb(arg)
B one {arg * 100 + two(2)}.
~ vb = vb + arg
<- bthread(arg)
* b main {vb}
  b main taken
- B end {vb}.
-> END
= stitch
B stitch {vb}.
-> DONE
=== bthread(z)
* b thread {z}
  b thread taken {z} {vb}
  -> END
=== function fun(a, b)
~ return a * 10 + b
=== function pfun(a)
says {a}
~ return a + 1
=== function two(n)
first {n}
then {n}
~ return n
"#,
    vars: &["va", "vb", "vm", "vt"],
    counts: &["ka", "kb", "atun", "bthread", "kb.stitch", "fun"],
    ints: &["va", "vb"],
};

/// stories that fail at run time, depending on a number
pub const FAULTS: Tpl = Tpl {
    name: "faults",
    src: r#"VAR x = 0
VAR y = 0
VAR d = -> fine
VAR s = "txt"
-> top
=== top
Top {x}.
~ y = y + 1
{x == 1: ->->}
{x == 2: {y / (x - 2)}}
{x == 3:
  ~ d = 5
  -> d
}
{x == 4: {y % (x - 4)}}
{x == 5: -> tun ->}
{x == 6: {not s}}
{x == 7: {s - 1}}
Still {y}.
* one
  -> top
* two
  {x == 8: -> dead}
  ~ x = x - 1
  -> top
+ three -> fine
=== tun
In tunnel.
-> DONE
=== dead
Dead end.
=== fine
Fine.
+ again -> top
* end -> END
"#,
    vars: &["x", "y", "s"],
    counts: &["top", "fine", "dead", "tun"],
    ints: &["x"],
};

pub const ALL: &[Tpl] = &[CHOICES, TEXT, FLOWS, LISTS, RANDOM, FUNCS, KNOTS, FAULTS];
