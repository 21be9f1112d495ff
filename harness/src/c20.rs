//! C20: the command-line tool speaks its protocol and matches the library.
//!
//! The tool's own `main` is executed on a world of its own: the calls it makes of the operating
//! system (read, write, open, stat, exit) are the ones below. Natively the real binary is run in a
//! scratch directory instead.
use crate::h::{compile, same};
use crate::stories;
use crate::sx;
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::Value as Json;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

struct Run {
    args: Vec<String>,
    files: Vec<(String, Vec<u8>)>,
    input: Vec<u8>,
}
struct Out {
    code: i32,
    out: Vec<u8>,
    err: Vec<u8>,
    files: Vec<(String, Vec<u8>)>,
}
impl Out {
    fn file(&self, n: &str) -> Option<&[u8]> {
        self.files.iter().find(|f| f.0 == n).map(|f| &f.1[..])
    }
}

#[cfg(not(feature = "native"))]
mod world {
    use super::{Out, Run};
    use std::ffi::{CStr, c_char};
    pub struct World {
        pub run: Run,
        pub input_at: usize,
        pub fds: Vec<Option<(usize, usize)>>,
        pub out: Vec<u8>,
        pub err: Vec<u8>,
        pub after: Option<Box<dyn FnOnce(Out)>>,
    }
    pub static mut WORLD: Option<World> = None;
    pub fn w() -> &'static mut World {
        unsafe { (*(&raw mut WORLD)).as_mut().unwrap() }
    }
    fn errno(e: i32) {
        unsafe extern "C" {
            fn __errno_location() -> *mut i32;
        }
        unsafe { *__errno_location() = e }
    }
    const DIR: &str = "/w";
    fn find(path: *const c_char) -> Result<usize, String> {
        let p = unsafe { CStr::from_ptr(path) }.to_str().unwrap_or("?").to_string();
        let p = p.strip_prefix("/w/").unwrap_or(&p).to_string();
        match w().run.files.iter().position(|f| f.0 == p) {
            Some(i) => Ok(i),
            None => Err(p),
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, _mode: u32) -> i32 {
        let i = match find(path) {
            Ok(i) => {
                if flags & 0o1000 != 0 {
                    w().run.files[i].1.clear();
                }
                i
            }
            // a directory that does not exist, or nothing to create
            Err(p) if flags & 0o100 == 0 || p.contains('/') => {
                errno(2);
                return -1;
            }
            Err(p) => {
                w().run.files.push((p, vec![]));
                w().run.files.len() - 1
            }
        };
        w().fds.push(Some((i, 0)));
        w().fds.len() as i32 + 2
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd > 2 {
            w().fds[fd as usize - 3] = None;
        }
        0
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let w = w();
        let (src, at) = match fd {
            0 => (&w.run.input, &mut w.input_at),
            _ => match w.fds[fd as usize - 3].as_mut() {
                Some((f, at)) => (&w.run.files[*f].1, at),
                None => {
                    errno(9);
                    return -1;
                }
            },
        };
        let m = n.min(src.len() - *at);
        for i in 0..m {
            unsafe { *buf.add(i) = src[*at + i] };
        }
        *at += m;
        m as isize
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        let b = unsafe { std::slice::from_raw_parts(buf, n) };
        let w = w();
        match fd {
            1 => w.out.extend_from_slice(b),
            2 => w.err.extend_from_slice(b),
            _ => {
                let Some((f, at)) = w.fds[fd as usize - 3] else {
                    errno(9);
                    return -1;
                };
                let v = &mut w.run.files[f].1;
                v.truncate(at);
                v.extend_from_slice(b);
                w.fds[fd as usize - 3] = Some((f, at + n));
            }
        }
        n as isize
    }
    unsafe fn stat(f: usize, buf: *mut u8) -> i32 {
        unsafe {
            std::ptr::write_bytes(buf, 0, 144);
            *(buf.add(24) as *mut u32) = 0o100644;
            *(buf.add(48) as *mut u64) = w().run.files[f].1.len() as u64;
        }
        0
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut u8) -> i32 {
        match find(path) {
            Ok(f) => unsafe { stat(f, buf) },
            Err(_) => {
                errno(2);
                -1
            }
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
        match w().fds[fd as usize - 3] {
            Some((f, _)) => unsafe { stat(f, buf) },
            None => -1,
        }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        if fd < 3 {
            errno(29);
            return -1;
        }
        let n = w().fds[fd as usize - 3].as_ref().map(|f| w().run.files[f.0].1.len()).unwrap_or(0);
        let Some((_, at)) = w().fds[fd as usize - 3].as_mut() else { return -1 };
        match whence {
            0 => *at = off as usize,
            1 => *at = (*at as i64 + off) as usize,
            _ => *at = (n as i64 + off) as usize,
        }
        *at as i64
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
        if n < 3 {
            errno(34);
            return std::ptr::null_mut();
        }
        for (i, b) in DIR.bytes().chain([0]).enumerate() {
            unsafe { *buf.add(i) = b };
        }
        buf
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn isatty(_fd: i32) -> i32 {
        0
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn __xpg_strerror_r(e: i32, buf: *mut u8, n: usize) -> i32 {
        let m: &[u8] = if e == 2 { b"No such file or directory\0" } else { b"error\0" };
        for (i, b) in m.iter().enumerate().take(n) {
            unsafe { *buf.add(i) = *b };
        }
        0
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn memchr(p: *const u8, c: i32, n: usize) -> *const u8 {
        for i in 0..n {
            let q = unsafe { p.add(i) };
            if unsafe { q.read_volatile() } == c as u8 {
                return q;
            }
        }
        std::ptr::null()
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn memrchr(p: *const u8, c: i32, n: usize) -> *const u8 {
        for i in (0..n).rev() {
            let q = unsafe { p.add(i) };
            if unsafe { q.read_volatile() } == c as u8 {
                return q;
            }
        }
        std::ptr::null()
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn exit(code: i32) -> ! {
        finish(code)
    }
    pub fn finish(code: i32) -> ! {
        let w = w();
        let (out, err, files) = (std::mem::take(&mut w.out), std::mem::take(&mut w.err), std::mem::take(&mut w.run.files));
        if let Some(f) = w.after.take() {
            f(Out { code, out, err, files });
        }
        crate::sx::end()
    }
}

/// runs the tool and judges what it did; never comes back in the engine
#[cfg(not(feature = "native"))]
fn tool(run: Run, after: impl FnOnce(Out) + 'static) {
    use std::io::Write;
    unsafe extern "C" {
        fn __symx_init() -> u64;
    }
    let mut argv: Vec<*const u8> = vec![c"rinklecate".as_ptr() as *const u8];
    for a in &run.args {
        let mut v = a.clone().into_bytes();
        v.push(0);
        argv.push(v.leak().as_ptr());
    }
    let argc = argv.len() as i32;
    argv.push(std::ptr::null());
    let argv = argv.leak();
    unsafe {
        let init: extern "C" fn(i32, *const *const u8, *const *const u8) = std::mem::transmute(__symx_init());
        init(argc, argv.as_ptr(), argv.as_ptr().add(argc as usize));
        world::WORLD = Some(world::World { run, input_at: 0, fds: vec![], out: vec![], err: vec![], after: Some(Box::new(after)) });
    }
    rinklecate::__verif_main();
    let _ = std::io::stdout().flush();
    world::finish(0)
}
#[cfg(feature = "native")]
fn tool(run: Run, after: impl FnOnce(Out) + 'static) {
    use std::io::Write;
    let bin = std::env::var("VERIF_TOOL").expect("VERIF_TOOL");
    let dir = std::env::temp_dir().join(format!("verif-c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (n, b) in &run.files {
        std::fs::write(dir.join(n), b).unwrap();
    }
    let mut c = std::process::Command::new(bin)
        .args(run.args.iter().map(|a| a.replace("/w/", &format!("{}/", dir.display()))))
        .current_dir(&dir)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    let _ = c.stdin.take().unwrap().write_all(&run.input);
    let o = c.wait_with_output().unwrap();
    let mut files = vec![];
    for e in std::fs::read_dir(&dir).unwrap() {
        let e = e.unwrap();
        files.push((e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap()));
    }
    std::fs::remove_dir_all(&dir).unwrap();
    after(Out { code: o.status.code().unwrap_or(-1), out: o.stdout, err: o.stderr, files });
    sx::end()
}

fn bad(m: &str) -> ! {
    sx::fail(m)
}

// ---- the protocol ----

#[derive(Debug)]
enum Ev {
    Text(String),
    Tags(Vec<String>),
    Choices(Vec<(String, Vec<String>)>),
}
fn strings(j: &Json) -> Vec<String> {
    let Json::Array(a) = j else { bad("not a list of strings") };
    a.iter()
        .map(|s| match s {
            Json::String(s) => s.clone(),
            _ => bad("not a list of strings"),
        })
        .collect()
}
/// the objects of the tool's standard output
fn objects(out: &[u8]) -> Vec<serde_json::Map<String, Json>> {
    let mut v = vec![];
    for j in serde_json::Deserializer::from_slice(out).into_iter::<Json>() {
        match j {
            Ok(Json::Object(m)) => v.push(m),
            Ok(_) => {
                note_out(out);
                bad("something that is not an object on standard output")
            }
            Err(e) => {
                note_out(out);
                sx::note(&format!("{e}"));
                bad("standard output is not well-formed JSON")
            }
        }
    }
    v
}
fn note_out(out: &[u8]) {
    sx::note(&String::from_utf8_lossy(out));
}
fn kinds(out: &[u8]) -> (Vec<Ev>, Vec<String>, Vec<String>) {
    let mut v = vec![];
    let mut issues = vec![];
    let mut others = vec![];
    for m in objects(out) {
        let Some((k, j)) = m.iter().next() else { bad("an object of no kind") };
        if m.len() != 1 {
            note_out(out);
            bad("an object of two kinds");
        }
        match (k.as_str(), j) {
            ("text", Json::String(s)) => v.push(Ev::Text(s.clone())),
            ("tags", t) => v.push(Ev::Tags(strings(t))),
            ("choices", Json::Array(a)) => v.push(Ev::Choices(
                a.iter()
                    .map(|c| {
                        let Json::Object(c) = c else { bad("a choice that is no object") };
                        let Some(Json::String(t)) = c.get("text") else { bad("a choice without text") };
                        let tags = c.get("tags").map(strings).unwrap_or_default();
                        if let Some(n) = c.get("tag_count")
                            && n.as_u64() != Some(tags.len() as u64)
                        {
                            bad("the number of a choice's tags is wrong");
                        }
                        if c.keys().any(|k| k != "text" && k != "tags" && k != "tag_count") {
                            bad("a choice with something undocumented");
                        }
                        (t.clone(), tags)
                    })
                    .collect(),
            )),
            ("issues", t) => issues.extend(strings(t)),
            ("cmdOutput", Json::String(_)) | ("needInput" | "end" | "close" | "compile-success" | "export-complete", Json::Bool(_)) | ("stats", Json::Object(_)) => others.push(k.clone()),
            _ => {
                note_out(out);
                bad("an object of an undocumented kind")
            }
        }
    }
    (v, issues, others)
}

// ---- what the library does with the same program and input ----

struct Quiet;
impl ErrorHandler for Quiet {
    fn error(&mut self, _: &str, _: ErrorType) {}
}
#[derive(Default)]
struct Want {
    ev: Vec<Ev>,
    plain: String,
    code: i32,
}
fn want(json: &str, input: &[u8], keep: bool) -> Want {
    let mut w = Want::default();
    let mut s = match Story::new(json) {
        Ok(s) => s,
        Err(_) => {
            w.code = 1;
            return w;
        }
    };
    s.set_error_handler(Rc::new(RefCell::new(Quiet)));
    s.set_allow_external_function_fallbacks(true);
    let mut lines = input.split_inclusive(|c| *c == b'\n');
    loop {
        while s.can_continue() {
            let Ok(t) = s.cont() else {
                w.code = 1;
                return w;
            };
            w.plain += &t;
            w.ev.push(Ev::Text(t));
            let tags = s.get_current_tags().unwrap_or_default();
            if !tags.is_empty() {
                let _ = writeln!(w.plain, "# tags: {}", tags.join(", "));
                w.ev.push(Ev::Tags(tags));
            }
        }
        let c = s.get_current_choices();
        if c.is_empty() {
            if keep {
                w.plain += "--- End of story ---\n";
            }
            return w;
        }
        w.plain += "\n";
        for (i, c) in c.iter().enumerate() {
            let _ = writeln!(w.plain, "{}: {}", i + 1, c.text);
            if !c.tags.is_empty() {
                let _ = writeln!(w.plain, "# tags: {}", c.tags.join(", "));
            }
        }
        w.ev.push(Ev::Choices(c.iter().map(|c| (c.text.clone(), c.tags.clone())).collect()));
        loop {
            w.plain += "?> ";
            let Some(l) = lines.next() else {
                w.plain += "<User input stream closed.>\n";
                return w;
            };
            let Ok(l) = std::str::from_utf8(l) else {
                // a line that is no text cannot be read
                w.code = 1;
                return w;
            };
            let l = l.trim();
            if l.eq_ignore_ascii_case("quit") || l.eq_ignore_ascii_case("exit") {
                sx::cover("quit");
                return w;
            }
            if l.eq_ignore_ascii_case("help") {
                w.plain += "Type a choice number or a divert (e.g. '-> myKnot'), 'quit' to exit\n";
                sx::cover("help");
                continue;
            }
            let mut words = l.split_whitespace();
            if words.next() == Some("->")
                && let Some(p) = words.next()
                && words.next().is_none()
            {
                sx::cover(if s.choose_path_string(p, true, None).is_ok() { "diverted" } else { "not diverted" });
                break;
            }
            if let Ok(n) = l.parse::<usize>()
                && n >= 1
                && n <= c.len()
            {
                if s.choose_choice_index(n - 1).is_err() {
                    w.code = 1;
                    return w;
                }
                sx::cover("chosen");
                break;
            }
            sx::cover("ignored");
        }
    }
}
fn strs(a: &[String], b: &[String], m: &str) {
    if a.len() != b.len() {
        sx::note(&format!("{a:?}"));
        sx::note(&format!("{b:?}"));
        bad(m);
    }
    for (x, y) in a.iter().zip(b) {
        same(x, y, m);
    }
}
fn compare(o: &Out, w: &Want, json: bool) {
    if o.code != w.code {
        sx::note(&format!("exit {} wanted {}", o.code, w.code));
        note_out(&o.out);
        note_out(&o.err);
        bad("the exit code of a play");
    }
    if !json {
        same(&String::from_utf8_lossy(&o.out), &w.plain, "the lines, tags and choices shown are not the library's");
        sx::cover("plain");
        return;
    }
    let (ev, issues, _) = kinds(&o.out);
    if !issues.is_empty() {
        sx::cover("issues");
    }
    if ev.len() != w.ev.len() {
        sx::note(&format!("{ev:?}"));
        sx::note(&format!("{:?}", w.ev));
        bad("the objects shown are not the library's");
    }
    for (a, b) in ev.iter().zip(&w.ev) {
        match (a, b) {
            (Ev::Text(a), Ev::Text(b)) => same(a, b, "a line is not the library's"),
            (Ev::Tags(a), Ev::Tags(b)) => strs(a, b, "the tags of a line are not the library's"),
            (Ev::Choices(a), Ev::Choices(b)) if a.len() == b.len() => {
                for (a, b) in a.iter().zip(b) {
                    same(&a.0, &b.0, "the text of a choice is not the library's");
                    strs(&a.1, &b.1, "the tags of a choice are not the library's");
                }
            }
            _ => {
                sx::note(&format!("{ev:?}"));
                sx::note(&format!("{:?}", w.ev));
                bad("the objects shown are not the library's")
            }
        }
    }
    sx::cover("json");
}
/// plays a program in the decided mode
fn play(name: &str, program: &str, input: Vec<u8>, json: bool, keep: bool) {
    let compiled = if name.ends_with(".json") { program.to_string() } else { compile(program) };
    let w = want(&compiled, &input, keep);
    let mut args = vec![];
    if json {
        args.push("-j".to_string());
    }
    if !name.ends_with(".json") {
        args.push("-p".to_string());
    }
    if keep {
        args.push("-k".to_string());
    }
    args.push(name.to_string());
    tool(Run { args, files: vec![(name.to_string(), program.as_bytes().to_vec())], input }, move |o| compare(&o, &w, json));
}

/// any character, as UTF-8
fn any_char(name: &str) -> String {
    let c = sx::u32(name);
    sx::assume(c < 0xd800 || (c >= 0xe000 && c < 0x110000));
    char::from_u32(c).unwrap().to_string()
}

// any characters in every kind of text
const PLACES: &[&str] = &[
    r#"["^a@b","\n","end",null]"#,
    r##"["#","^t@","/#","^l","\n","end",null]"##,
    r##"["ev","str","^c@","/str","/ev",{"*":"0.0.c-0","flg":20},{"c-0":["\n","^x","\n","end",{"#f":5}]}]"##,
    r##"["ev","str","^c","#","^t@","/#","/str","/ev",{"*":"0.0.c-0","flg":20},{"c-0":["\n","^x","\n","end",{"#f":5}]}]"##,
    r#"["ev","str","^v@","/str","/ev","out","\n","end",null]"#,
    r#"["ev",{"x()":"n@","exArgs":0},"out","/ev","\n","end",null]"#,
    r#"["ev",{"VAR?":"n@"},"out","/ev","\n","end",null]"#,
    r#"["ev",{"^->":"n@"},"out","/ev","\n","end",null]"#,
    r#"["^a","\n","ev",{"VAR?":"n@"},"/ev",{"->":"v","var":true},"end",null]"#,
];
fn place(k: u64, text: &str) -> String {
    let n = Json::String(text.to_string()).to_string();
    let r = PLACES[k as usize].replace('@', &n[1..n.len() - 1]);
    format!(r##"{{"inkVersion":21,"root":[[{r},["done",{{"#n":"g-0"}}],null],"done",null],"listDefs":{{}}}}"##)
}
fn text_with(n: u32) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s += &any_char("char");
    }
    s
}
fn text(k: u64, n: u32) {
    let json = sx::choose("json", 2) == 1;
    let t = text_with(n);
    let p = place(k, &t);
    play("a.ink.json", &p, b"1\n".to_vec(), json, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_text(k: u64) {
    text(k, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_text_deep(k: u64) {
    text(k, 3)
}

// any characters of a source
const SOURCE: &[&str] = &["a@b\n* c\n", "a # t@\n", "* c@\n", "* c # t@\n* d[e@]f\n", "VAR s = \"q@\"\na {s} b\n", "{x@}\n"];
#[unsafe(no_mangle)]
pub extern "C" fn c20_source(k: u64) {
    let json = sx::choose("json", 2) == 1;
    let s = SOURCE[k as usize].replace('@', &text_with(1));
    sx::note("source");
    match Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some("a.ink".into()) }).compile(&s) {
        Ok(_) => play("a.ink", &s, b"1\n".to_vec(), json, true),
        Err(e) => refused("a.ink", s.clone().into_bytes(), vec![], e, json),
    }
}

// any input
const TALK: &str = "top # t\n* a[b]c # u\n  d\n* e\n- f\n-> k\n=== k\nk \"q\" \\\\ z\n+ g\n  -> k\n+ h -> END\n* {y()} i\n= s\nin s\n-> END\n=== f\n~ return 1\n=== p(x)\n{x}\n-> END\n=== function y\n~ return true\n";
const HEADS: &[&str] = &["", "1\n", "-> ", "-> k", "-> k.", "->", "hel", "qui", "0", "2\n-> \"", "9\n\\\"\n"];
fn input(n: u32) {
    let json = sx::choose("json", 2) == 1;
    let mut v = HEADS[sx::choose("head", HEADS.len() as u32) as usize].as_bytes().to_vec();
    for _ in 0..n {
        v.push(sx::u8("byte"));
    }
    if sx::choose("end", 2) == 1 {
        v.extend(b"\n2\n");
    }
    play("a.ink", TALK, v, json, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_input(_: u64) {
    input(1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_input_deep(_: u64) {
    input(3)
}

// sequences of input lines
const LINES: &[&str] = &[
    "1", "2", "3", "0", "4", "99999999999999999999", "-1", "+1", "01", " 2 ", "", "help", "Help", "-> k", "-> k.s", "-> nowhere", "-> a\"b\\c", "-> \u{7f}\u{1b}[0m", "-> é\u{1}", "-> k k", "->k", "-> f", "-> p", "-> .^", "-> 0", "-> \u{2028}x", "quit", "EXIT",
    "one", "1 2", "{\"x\":1}", "\t", "1\r",
];
fn script(k: u64, n: u32) {
    let json = sx::choose("json", 2) == 1;
    let keep = sx::choose("keep", 2) == 1;
    let mut v = vec![];
    for i in 0..n {
        v.extend(LINES[sx::choose("line", LINES.len() as u32) as usize].as_bytes());
        // (the last line may end with the input)
        if i + 1 < n || json {
            v.push(b'\n');
        }
    }
    if k == 0 {
        play("a.ink", TALK, v, json, keep)
    } else {
        play("a.ink", stories::ALL.iter().filter(|t| !random(t.src)).nth(k as usize - 1).unwrap().src, v, json, keep)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_script(k: u64) {
    script(k, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_script_deep(k: u64) {
    script(k, 4)
}

// every story of the corpus, played and compiled
fn random(src: &str) -> bool {
    src.contains("RANDOM") || src.contains("shuffle") || src.contains("{~") || src.contains("SEED")
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_corpus(k: u64) {
    let (name, src) = SOURCES[k as usize];
    sx::note(name);
    let json = sx::choose("json", 2) == 1;
    let plain = sx::choose("choices", 3);
    let v = ["1\n1\n1\n1\n", "2\n2\n1\n2\n3\n", "3\n1\n2\nhelp\n"][plain as usize].as_bytes().to_vec();
    if random(src) || Compiler::new().compile(src).is_err() {
        return;
    }
    play("a.ink", src, v, json, false);
}

// compiling
fn lib(name: &str, src: &str, files: &[(String, Vec<u8>)]) -> Result<String, CompilerError> {
    Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some(name.to_string()) }).compile_with_file_handler(src, |n| {
        match files.iter().find(|f| f.0 == n) {
            Some(f) => Ok(String::from_utf8_lossy(&f.1).to_string()),
            None => Err(CompilerError::invalid_source(format!("'{n}'"))),
        }
    })
}
/// the tool on a source the compiler refuses
fn refused(name: &str, src: Vec<u8>, more: Vec<(String, Vec<u8>)>, e: CompilerError, json: bool) {
    let mut args = vec![];
    if json {
        args.push("-j".to_string());
    }
    match sx::choose("mode", 3) {
        1 => args.push("-p".to_string()),
        2 => args.push("-v".to_string()),
        _ => {}
    }
    args.push(name.to_string());
    let mut files = vec![(name.to_string(), src)];
    files.extend(more);
    let before: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    tool(Run { args, files, input: b"1\n".to_vec() }, move |o| {
        if o.code == 0 {
            bad("a compile error exits with zero");
        }
        let (message, file, line) = match &e {
            CompilerError::InvalidSource { message, file, line } | CompilerError::UnsupportedFeature { message, file, line } => (message, file, line),
        };
        let text = if json {
            let (ev, issues, _) = kinds(&o.out);
            if !ev.is_empty() {
                bad("a story that does not compile is played");
            }
            issues.join("\n")
        } else {
            String::from_utf8_lossy(&o.err).to_string()
        };
        match text.find(message.as_str()) {
            None => {
                sx::note(&text);
                sx::note(message);
                bad("the compiler's message is not reported");
            }
            Some(at) => {
                let rest = format!("{}\n{}", &text[..at], &text[at + message.len()..]);
                if let Some(f) = file
                    && !rest.contains(f.as_str())
                {
                    sx::note(&text);
                    bad("the file of a compile error is not reported");
                }
                if let Some(l) = line {
                    let mut digits = rest.split(|c: char| !c.is_ascii_digit());
                    if !digits.any(|d| d == l.to_string()) {
                        sx::note(&text);
                        bad("the line of a compile error is not reported");
                    }
                    sx::cover("line");
                }
            }
        }
        if o.files.iter().any(|f| !before.contains(&f.0)) {
            bad("a story that does not compile is written");
        }
        sx::cover("compile error");
    });
}
/// the tool on a source the compiler accepts
fn compiled(name: &str, src: Vec<u8>, more: Vec<(String, Vec<u8>)>, j: String, out: Option<&str>, json: bool, verbose: bool) {
    let mut args = vec![];
    let flags = format!("-{}{}{}", if json { "j" } else { "" }, if verbose { "vc" } else { "" }, if out.is_some() { "o" } else { "" });
    if flags.len() > 1 {
        args.push(flags);
    }
    if let Some(o) = out {
        args.push(o.to_string());
    }
    args.push(name.to_string());
    let file = match out {
        Some(o) => o.trim_start_matches("/w/").to_string(),
        None => match name.trim_start_matches("/w/").rsplit_once('.') {
            Some((a, _)) => format!("{a}.ink.json"),
            None => format!("{name}.ink.json"),
        },
    };
    let mut files = vec![(name.trim_start_matches("/w/").to_string(), src)];
    files.extend(more);
    tool(Run { args, files, input: vec![] }, move |o| {
        if o.code != 0 {
            note_out(&o.err);
            bad("compiling a good source exits with an error");
        }
        let Some(f) = o.file(&file) else { bad("the compiled story is not where it should be") };
        same(&String::from_utf8_lossy(f), &j, "what is written is not what the library compiles");
        if json {
            let (_, _, others) = kinds(&o.out);
            if !others.iter().any(|k| k == "export-complete") || !others.iter().any(|k| k == "compile-success") {
                note_out(&o.out);
                bad("a successful compilation is not reported");
            }
        }
        sx::cover("written");
    });
}
const NAMES: &[&str] = &["a.ink", "/w/a.ink", "a", "a b.txt", "q\"u\\o.ink", "é.ink", "a.b.ink"];
const OUTS: &[Option<&str>] = &[None, Some("o.json"), Some("/w/o.json"), Some("-o"), Some("o \"x\"")];
#[unsafe(no_mangle)]
pub extern "C" fn c20_names(_: u64) {
    let json = sx::choose("json", 2) == 1;
    let name = NAMES[sx::choose("name", NAMES.len() as u32) as usize];
    let out = OUTS[sx::choose("out", OUTS.len() as u32) as usize];
    let verbose = sx::choose("verbose", 2) == 1;
    let bom = sx::choose("bom", 2) == 1;
    let src = "a\u{e9} \\\"\n* b # c\n";
    let j = compile(src);
    compiled(name, format!("{}{src}", if bom { "\u{feff}" } else { "" }).into_bytes(), vec![], j, out, json, verbose)
}
/// sources with something wrong in them, among lines that move it
const WRONG: &[&str] = &[
    "-> nowhere", "{x}", "{", "~ y = 1", "VAR 1 = 2", "* {", "{f()}", "=== k\n=== k", "~ temp", "=== function f(\n", "{x: -> a}", "- - -", "LIST L = a, a", "VAR s = \"", "INCLUDE missing.ink", "INCLUDE b.ink", "INCLUDE c.ink", "<- \"x\\y\"", "{\"é\u{1}", "CONST C = D", "EXTERNAL", "* a -> b.c", "~ return)", "{|", "(((", "\u{1}\"\\{",
];
#[unsafe(no_mangle)]
pub extern "C" fn c20_refused(_: u64) {
    let json = sx::choose("json", 2) == 1;
    let wrong = WRONG[sx::choose("wrong", WRONG.len() as u32) as usize];
    let before = ["", "a\n", "/* x\n y */\n\nb\n", "INCLUDE d.ink\n"][sx::choose("before", 4) as usize];
    let src = format!("{before}{wrong}\nlast\n");
    let more: Vec<(String, Vec<u8>)> = vec![
        ("b.ink".into(), b"one\n\n{\n".to_vec()),
        ("c.ink".into(), b"INCLUDE c.ink\n".to_vec()),
        ("d.ink".into(), b"=== d\n-> END\n".to_vec()),
    ];
    let name = ["a.ink", "q\"\\.ink"][sx::choose("name", 2) as usize];
    match lib(name, &src, &more) {
        Ok(j) => compiled(name, src.into_bytes(), more, j, None, json, false),
        Err(e) => refused(name, src.into_bytes(), more, e, json),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_compile(k: u64) {
    let (name, src) = SOURCES[k as usize];
    sx::note(name);
    let json = sx::choose("json", 2) == 1;
    match lib("a.ink", src, &[]) {
        Ok(j) => compiled("a.ink", src.as_bytes().to_vec(), vec![], j, Some("o.json"), json, false),
        Err(e) if !src.contains("INCLUDE") => refused("a.ink", src.as_bytes().to_vec(), vec![], e, json),
        Err(_) => {}
    }
}
/// everything that is neither: no file, no program, no story
#[unsafe(no_mangle)]
pub extern "C" fn c20_other(_: u64) {
    const ARGS: &[&[&str]] = &[
        &[], &["-j"], &["-j", "missing.ink"], &["-j", "b.json"], &["-js", "b.json"], &["-js", "a.ink"], &["-jv", "e.ink"], &["-jk", "c.ink.json"], &["-jpz", "a.ink"], &["-j", "-o"], &["-jx", "dir", "-p", "a.ink"], &["-jo", "no/where.json", "a.ink"],
        &["-js", "w.ink"], &["-jp", "n.ink"], &["-j", "n.ink"], &["-jp", "u.ink"], &["-jkp", "v.ink"],
    ];
    let k = sx::choose("args", ARGS.len() as u32) as usize;
    let files: Vec<(String, Vec<u8>)> = vec![
        ("a.ink".into(), b"a \"q\"\n* b\n".to_vec()),
        ("b.json".into(), b"{\"inkVersion\":21,\"root\":[\"^".to_vec()),
        ("c.ink.json".into(), b"{\"inkVersion\":18,\"root\":[\"^a\",\"\\n\",\"end\",null],\"listDefs\":{}}".to_vec()),
        ("w.ink".into(), b"{\n\"\\\n".to_vec()),
        ("e.ink".into(), b"".to_vec()),
        ("n.ink".into(), b"\xff\n".to_vec()),
        ("u.ink".into(), b"EXTERNAL e()\n{e()}\n".to_vec()),
        ("v.ink".into(), b"VAR x = 0\n{1 / x} \"\n".to_vec()),
    ];
    sx::note(&ARGS[k].join(" "));
    let j = compile("a \"q\"\n* b\n");
    let failing = matches!(k, 0..=4 | 9 | 11..=14);
    tool(Run { args: ARGS[k].iter().map(|a| a.to_string()).collect(), files, input: b"1\n".to_vec() }, move |o| {
        kinds(&o.out);
        if failing && o.code == 0 {
            bad("a run that cannot do its work exits with zero");
        }
        let _ = j;
        sx::cover("run");
    });
}
/// statistics are the library's
#[unsafe(no_mangle)]
pub extern "C" fn c20_stats(k: u64) {
    let (name, src) = SOURCES[k as usize];
    sx::note(name);
    let json = sx::choose("json", 2) == 1;
    let Ok(s) = Compiler::new().compile_to_stats(src) else { return };
    let args = vec![(if json { "-js" } else { "-s" }).to_string(), "a.ink".to_string()];
    tool(Run { args, files: vec![("a.ink".to_string(), src.as_bytes().to_vec())], input: vec![] }, move |o| {
        let all = [("Words", s.words), ("Knots", s.knots), ("Stitches", s.stitches), ("Functions", s.functions), ("Choices", s.choices), ("Gathers", s.gathers), ("Diverts", s.diverts)];
        if json {
            let v = objects(&o.out);
            let Some(Json::Object(m)) = v.first().and_then(|m| m.get("stats")) else { bad("no statistics") };
            for (n, x) in all {
                if m.get(&n.to_lowercase()).and_then(|x| x.as_u64()) != Some(x as u64) {
                    note_out(&o.out);
                    bad("statistics are not the library's");
                }
            }
        }
        sx::cover("stats");
    });
}
