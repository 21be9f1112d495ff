//! Native definitions of the intrinsics: values come from the replay file named on the command line.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Replay {
    vals: Vec<(String, u32, u64)>,
    pos: usize,
}
static REPLAY: Mutex<Replay> = Mutex::new(Replay { vals: vec![], pos: 0 });
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;

fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
}

#[unsafe(no_mangle)]
extern "C" fn __symx_make(bits: u32, name: *const u8, len: usize) -> u64 {
    let name = s(name, len);
    let mut r = REPLAY.lock().unwrap();
    let i = r.pos;
    r.pos += 1;
    match r.vals.get(i) {
        Some((n, b, v)) => {
            if *n != name || *b != bits {
                println!("REPLAY-DIVERGED wanted {name}, file has {n}");
                std::process::exit(20);
            }
            *v
        }
        None => 0,
    }
}
#[unsafe(no_mangle)]
extern "C" fn __symx_assume(c: bool) {
    if !c {
        println!("REPLAY-ASSUME-FALSE");
        std::process::exit(21);
    }
}
#[unsafe(no_mangle)]
extern "C" fn __symx_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        println!("ASSERT-FAILED {}", s(msg, len));
        std::process::exit(10);
    }
}
#[unsafe(no_mangle)]
extern "C" fn __symx_fail(msg: *const u8, len: usize) {
    println!("ASSERT-FAILED {}", s(msg, len));
    std::process::exit(10);
}
#[unsafe(no_mangle)]
extern "C" fn __symx_cover(_msg: *const u8, _len: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __symx_note(msg: *const u8, len: usize) {
    println!("note: {}", s(msg, len));
}
#[unsafe(no_mangle)]
extern "C" fn __symx_end() {
    std::process::exit(0);
}
#[unsafe(no_mangle)]
extern "C" fn __symx_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C" fn __symx_is_symbolic(_v: u64) -> u64 {
    0
}
#[unsafe(no_mangle)]
extern "C" fn __symx_live_bytes() -> u64 {
    LIVE.load(Relaxed) as u64
}
#[unsafe(no_mangle)]
extern "C" fn __symx_live_blocks() -> u64 {
    BLOCKS.load(Relaxed) as u64
}
#[unsafe(no_mangle)]
extern "C" fn __symx_fuel(_n: u64) {}
#[unsafe(no_mangle)]
extern "C" fn __symx_hash_xor(_n: u64) {}
#[unsafe(no_mangle)]
extern "C" fn __symx_native() -> u64 {
    1
}
#[unsafe(no_mangle)]
extern "C" fn __symx_steps() -> u64 {
    0
}
#[unsafe(no_mangle)]
extern "C" fn __symx_debug(_v: u64) {}

pub fn main(table: &[(&str, extern "C" fn(u64))]) {
    let a: Vec<String> = std::env::args().collect();
    let f = table.iter().find(|t| t.0 == a[1]).expect("entry").1;
    let case: u64 = a[2].parse().unwrap();
    if let Some(p) = a.get(3) {
        // lines: bits value name
        let t = std::fs::read_to_string(p).unwrap();
        let mut r = REPLAY.lock().unwrap();
        for l in t.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
            let mut it = l.splitn(3, ' ');
            let b: u32 = it.next().unwrap().parse().unwrap();
            let v: u64 = it.next().unwrap().parse().unwrap();
            r.vals.push((it.next().unwrap_or("").to_string(), b, v));
        }
    }
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {i}");
        std::process::exit(11);
    }));
    f(case);
    println!("FINISHED");
}
