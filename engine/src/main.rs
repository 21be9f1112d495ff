mod exec;
mod ir;
mod mem;
mod solver;
mod term;

use exec::*;
use mem::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn put_token(fd: i32) {
    unsafe {
        write(fd, b"x".as_ptr(), 1);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    ll: String,
    entry: String,
    args: Vec<u64>,
    out: String,
    jobs: usize,
    time: u64,
    fuel: u64,
    verbose: bool,
    max_viol: usize,
    fixed: Option<String>,
}

fn main() {
    let mut o = Opts {
        ll: String::new(),
        entry: String::new(),
        args: vec![],
        out: String::new(),
        jobs: 1,
        time: 600,
        fuel: 2_000_000_000,
        verbose: false,
        max_viol: 200,
        fixed: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("argument");
        match a.as_str() {
            "--ll" => o.ll = nx(),
            "--entry" => o.entry = nx(),
            "--args" => {
                for p in nx().split(',') {
                    if let Some((a, b)) = p.split_once("..") {
                        let (a, b): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
                        o.args.extend(a..b);
                    } else {
                        o.args.push(p.parse().unwrap());
                    }
                }
            }
            "--out" => o.out = nx(),
            "--jobs" => o.jobs = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--fuel" => o.fuel = nx().parse().unwrap(),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "-v" => o.verbose = true,
            "--fixed" => o.fixed = Some(nx()),
            _ => panic!("unknown option {a}"),
        }
    }
    if o.args.is_empty() {
        o.args.push(0);
    }
    let t0 = Instant::now();
    let src = std::fs::read(&o.ll).expect("ll file");
    let m = match ir::Module::parse(src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: cannot parse IR: {e}");
            std::process::exit(3);
        }
    };
    if o.verbose {
        eprintln!("parsed {} functions in {:?}", m.funcs.len(), t0.elapsed());
    }
    let fid = match m.fidx.get(&o.entry) {
        Some(f) if m.funcs[*f as usize].defined => *f,
        _ => {
            eprintln!("symx: no function {}", o.entry);
            std::process::exit(3);
        }
    };
    std::fs::create_dir_all(&o.out).unwrap();
    let mut fds = [-1i32, -1];
    if o.jobs > 1 {
        unsafe {
            pipe(fds.as_mut_ptr());
            // nonblocking read end
            fcntl(fds[0], 4, 0o4000);
            for _ in 0..o.jobs - 1 {
                put_token(fds[1]);
            }
        }
    }
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let pid = if o.jobs > 1 || !o.verbose { unsafe { fork() } } else { 0 };
    if pid == 0 {
        let nf = m.funcs.len();
        let mut base = Mem::new();
        for (a, b) in &m.image {
            base.map(*a & !4095, b.len() as u64 + 8192);
        }
        for (a, sz, _) in &m.global_list {
            base.map(*a & !4095, *sz + 8192);
        }
        for (a, b) in &m.image {
            base.write_bytes(*a, b).unwrap();
        }
        base.map(STACK_BASE, STACK_SIZE + 8192);
        let mut ex = Exec {
            m,
            tm: term::Terms::new(),
            sv: solver::Solver::new(),
            stack: VecDeque::new(),
            st: Stats::default(),
            violations: vec![],
            samples: vec![],
            token_fd: fds,
            deadline: t0 + Duration::from_secs(o.time),
            started: Instant::now(),
            verbose: o.verbose,
            used_fns: vec![false; nf],
            hash_hits: 0,
            max_viol: o.max_viol,
            printed: vec![],
            input_vars: HashMap::new(),
        };
        for &a in o.args.iter().rev() {
            let mut st = State {
                frames: vec![],
                regs: vec![Slot { c: 0, s: 0 }; 4096],
                mem: base.clone(),
                sp: STACK_BASE + STACK_SIZE - 4096,
                cs: vec![],
                model: Rc::new(solver::Model::default()),
                fixed: vec![],
                inputs: vec![],
                brk: HEAP_BASE,
                bins: [0; 64],
                live: 0,
                blocks: 0,
                steps: 0,
                fuel: o.fuel,
                clock: 0,
                rnd: 42,
                hash_xor: 0,
                notes: vec![],
                forks: 0,
                case: a,
            };
            let sp = st.sp;
            ex.enter(&mut st, fid, &[Slot { c: a, s: 0 }], 0).unwrap();
            st.frames.last_mut().unwrap().base = 64;
            // the entry frame's window starts after the return slot
            st.regs[64] = Slot { c: a, s: 0 };
            st.frames.last_mut().unwrap().sp = sp;
            ex.stack.push_back(st);
        }
        ex.explore();
        if o.verbose {
            eprintln!("printed: {}", String::from_utf8_lossy(&ex.printed));
        }
        write_part(&ex, &o.out);
        if fds[1] >= 0 {
            put_token(fds[1]);
        }
        if pid == 0 && (o.jobs > 1 || !o.verbose) {
            unsafe { _exit(0) }
        }
    }
    let mut bad = 0;
    let mut procs = 0;
    if o.jobs > 1 || !o.verbose {
        loop {
            let mut s = 0;
            let p = unsafe { waitpid(-1, &mut s, 0) };
            if p <= 0 {
                break;
            }
            procs += 1;
            if s != 0 {
                bad += 1;
                eprintln!("symx: worker {p} died with status {s:#x}");
                if fds[1] >= 0 {
                    put_token(fds[1]);
                }
            }
        }
    }
    println!("{{\"wall_ms\":{},\"procs\":{},\"dead\":{}}}", t0.elapsed().as_millis(), procs, bad);
}

fn map_js(m: &HashMap<String, u64>) -> String {
    let b: BTreeMap<_, _> = m.iter().collect();
    let v: Vec<String> = b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn write_part(ex: &Exec, out: &str) {
    let s = &ex.st;
    let vio = |v: &Violation| {
            let ins: Vec<String> = v.inputs.iter().map(|(n, b, x)| format!("[{},{},{}]", js(n), b, x)).collect();
            let stv: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
            let nv: Vec<String> = v.notes.iter().map(|x| js(x)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"case\":{},\"count\":{},\"inputs\":[{}],\"stack\":[{}],\"notes\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                v.case,
                v.count,
                ins.join(","),
                stv.join(","),
                nv.join(",")
            )
    };
    let vs: Vec<String> = ex.violations.iter().map(vio).collect();
    let sm: Vec<String> = ex.samples.iter().map(vio).collect();
    let fns: Vec<String> = ex.used_fns.iter().enumerate().filter(|x| *x.1).map(|x| js(&ex.m.funcs[x.0].name)).collect();
    let line = format!(
        "{{\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_sym\":{},\"concretizations\":{},\"sym_branches\":{},\"max_constraints\":{},\"queries\":{},\"cache_hits\":{},\"unknown\":{},\"sat\":{},\"unsat\":{},\"solver_us\":{},\"max_query_us\":{},\"limits\":{},\"covers\":{},\"pending\":{},\"hash_one\":{},\"vars\":{},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}\n",
        s.paths,
        s.infeasible,
        s.steps,
        s.forks,
        s.asserts,
        s.asserts_sym,
        s.concretizations,
        s.sym_branches,
        s.max_cs,
        ex.sv.queries,
        ex.sv.cache_hits,
        ex.sv.unknowns,
        ex.sv.sat,
        ex.sv.unsat,
        ex.sv.time.as_micros(),
        ex.sv.max_time.as_micros(),
        map_js(&s.limits),
        map_js(&s.covers),
        s.pending,
        ex.hash_hits,
        ex.tm.var_names.len(),
        vs.join(","),
        sm.join(","),
        fns.join(",")
    );
    let pid = unsafe { getpid() };
    std::fs::write(format!("{out}/part-{pid}.json"), line).unwrap();
}
