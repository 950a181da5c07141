//! symx: explores every feasible path of a harness that runs the crate `adapton` (from /repo)
//! on symbolic values; replays counterexamples concretely.
mod z3;
#[macro_use]
mod sx;
#[cfg(feature = "core")]
mod lab;
#[cfg(feature = "names")]
mod h_names;
#[cfg(feature = "names")]
mod h_types;
#[cfg(feature = "core")]
mod h_core;
#[cfg(feature = "core")]
mod h_cycles;
#[cfg(feature = "alloc")]
mod h_alloc;
#[cfg(feature = "forms")]
mod h_forms;
#[cfg(feature = "lists")]
mod h_lists;
#[cfg(feature = "trees")]
mod h_trees;
#[cfg(feature = "pipes")]
mod h_pipes;
#[cfg(feature = "tries")]
mod h_tries;
#[cfg(feature = "reflect")]
mod h_reflect;
#[cfg(feature = "vals")]
mod h_vals;
mod reg;

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use sx::*;

pub struct Harness {
    pub name: &'static str,
    pub sym: fn(),
    pub con: fn(),
    pub covers: &'static [&'static str],
}

#[derive(Debug)]
enum Outcome {
    Ok,
    Infeasible,
    Violation,
    Unknown,
    Extracted,
    Diverged(String),
    Panic(String),
}

fn run_path(cx: Box<Cx>, f: fn()) -> (Box<Cx>, Outcome) {
    std::thread::Builder::new()
        .stack_size(48 << 20)
        .spawn(move || {
            install(cx);
            let r = catch_unwind(AssertUnwindSafe(f));
            let mut cx = uninstall().unwrap();
            let o = match r {
                Ok(()) => Outcome::Ok,
                Err(p) => match p.downcast::<Stop>() {
                    Ok(s) => match *s {
                        Stop::Infeasible => Outcome::Infeasible,
                        Stop::Violation => Outcome::Violation,
                        Stop::Unknown => Outcome::Unknown,
                        Stop::Extracted => Outcome::Extracted,
                        Stop::Diverged(m) => Outcome::Diverged(m),
                    },
                    Err(_) => Outcome::Panic(LAST_PANIC.with(|l| l.borrow().clone())),
                },
            };
            if let (Outcome::Ok, Some(m)) = (&o, cx.stray.take()) { return (cx, Outcome::Diverged(format!("swallowed stop: {}", m))) }
            (cx, o)
        })
        .unwrap()
        .join()
        .unwrap()
}

fn hex(v: &[u8]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|b| format!("{:02x}", b)).collect() } }
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![] }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn signature(h: &str, msg: &str) -> String {
    let m: String = msg.chars().filter(|c| !c.is_ascii_digit()).collect();
    format!("{}: {}", h, m)
}
fn find(name: &str) -> Harness {
    for h in reg::harnesses() { if h.name == name { return h } }
    eprintln!("no harness {}", name);
    std::process::exit(64)
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn dup(f: i32) -> i32;
    fn dup2(f: i32, g: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
const JCAP: usize = 1 << 17;
fn map_journal(path: &str) -> Journal {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(JCAP as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), JCAP, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    Journal { p, cap: JCAP }
}
fn read_journal(path: &str) -> (u64, Vec<u8>) {
    // (a worker that has just started has not sized the file yet)
    let b = std::fs::read(path).unwrap_or_default();
    if b.len() < 16 { return (0, vec![]) }
    let c = u64::from_le_bytes(b[0..8].try_into().unwrap());
    let n = (u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize).min(b.len() - 16);
    (c, b[16..16 + n].to_vec())
}

// ------------------------------------------------------------------ worker
/// worker <harness> <bounds> <dir> <id> <validate-every> <smt-every> <seed>
fn worker(a: &[String]) {
    let h = find(&a[0]);
    let (bounds, dir, id) = (&a[1], &a[2], &a[3]);
    let vevery: u64 = a[4].parse().unwrap();
    let mut cx = Cx::new(true, h.name, bounds);
    cx.smt_every = a[5].parse().unwrap();
    let seed: u64 = a[6].parse().unwrap();
    cx.journal = Some(map_journal(&format!("{}/journal-{}", dir, id)));
    let lim: [u64; 2] = [6 << 30, 6 << 30];
    unsafe { setrlimit(9, &lim); }
    let stdin = std::io::stdin();
    // What the code under test prints must not get mixed up with what this process reports.
    let mut out = unsafe {
        use std::os::unix::io::{AsRawFd, FromRawFd};
        let keep = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        assert!(keep >= 0 && dup2(null.as_raw_fd(), 1) == 1);
        std::fs::File::from_raw_fd(keep)
    };
    let mut nfile = 0;
    let mut sigs: BTreeSet<String> = BTreeSet::new();
    let mut since = seed % vevery.max(1);
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut w = line.split(' ');
        let ms: u64 = w.next().unwrap().parse().unwrap();
        let mut stack: Vec<Vec<u8>> = w.map(unhex).collect();
        let t0 = Instant::now();
        cx.stats = Stats::default();
        cx.covers.clear();
        let mut text = String::new();
        while let Some(p) = stack.pop() {
            let mine = hex(&p);
            cx.begin_path(p);
            let (c, o) = run_path(cx, h.sym);
            cx = c;
            cx.stats.maxlen = cx.stats.maxlen.max(cx.choices.len() as u64);
            let mut viol = None;
            if let Outcome::Ok = &o { let pc = std::mem::take(&mut cx.pcovers); cx.covers.extend(pc); }
            match &o {
                Outcome::Ok => cx.stats.paths += 1,
                Outcome::Infeasible => cx.stats.infeasible += 1,
                Outcome::Violation => { cx.stats.paths += 1; viol = cx.violation.take() }
                Outcome::Panic(m) => {
                    cx.stats.paths += 1;
                    match cx.make_replay(&format!("panic: {}", m)) { Ok(r) => viol = Some(r), Err(e) => text.push_str(&format!("error panic without model {:?} {}\n", e, m.replace('\n', " "))) }
                }
                Outcome::Unknown => text.push_str(&format!("error solver gave no answer at {}\n", mine)),
                Outcome::Extracted => unreachable!(),
                Outcome::Diverged(m) => text.push_str(&format!("error nondeterministic or malformed path: {} (prefix {})\n", m.replace('\n', " "), mine)),
            }
            stack.append(&mut cx.siblings);
            if let Some(r) = viol {
                let s = signature(h.name, &r.msg);
                if sigs.insert(s) {
                    nfile += 1;
                    let f = format!("{}/viol-{}-{}.replay", dir, id, nfile);
                    std::fs::write(&f, r.text()).unwrap();
                    text.push_str(&format!("viol {}\n", f));
                } else { cx.stats.dupviol += 1; }
            } else if let Outcome::Ok = o {
                since += 1;
                if vevery > 0 && since >= vevery {
                    since = 0;
                    match (cx.make_replay("sample"), cx.eval_notes()) {
                        (Ok(r), Ok(notes)) => {
                            let (cc, co) = run_path(Cx::concrete(&r), h.con);
                            match co {
                                Outcome::Ok if cc.cnotes == notes => {
                                    cx.stats.validated += 1;
                                    if cx.stats.validated == 1 && nfile < 40 {
                                        nfile += 1;
                                        let f = format!("{}/sample-{}-{}.replay", dir, id, nfile);
                                        std::fs::write(&f, r.text()).unwrap();
                                    }
                                }
                                _ => {
                                    nfile += 1;
                                    let f = format!("{}/mismatch-{}-{}.replay", dir, id, nfile);
                                    std::fs::write(&f, r.text()).unwrap();
                                    text.push_str(&format!("error concrete run differs from symbolic path: {:?} {:?} notes {:?} vs {:?} {}\n", co, cc.cfail, cc.cnotes, notes, f));
                                }
                            }
                        }
                        _ => text.push_str("error no model for a completed path\n"),
                    }
                }
            }
            if t0.elapsed().as_millis() as u64 >= ms || stack.len() >= 4096 { break }
        }
        for c in &cx.covers { text.push_str(&format!("cover {}\n", c)); }
        for s in cx.smt.drain(..) {
            nfile += 1;
            let f = format!("{}/q-{}-{}.smt2", dir, id, nfile);
            std::fs::write(&f, s).unwrap();
        }
        for (k, v) in cx.stats.fields() { text.push_str(&format!("stat {} {}\n", k, v)); }
        for p in &stack { text.push_str(&format!("pending {}\n", hex(p))); }
        text.push_str("end\n");
        out.write_all(text.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}

/// extract <harness> <bounds> <prefix> <out> <msg>
fn extract(a: &[String]) -> i32 {
    let h = find(&a[0]);
    let mut cx = Cx::new(true, h.name, &a[1]);
    cx.extract = true;
    let p = unhex(&a[2]);
    let empty = p.is_empty();
    cx.begin_path(p);
    let r = if empty { cx.make_replay(&a[4]).ok() } else {
        let (mut cx, o) = run_path(cx, h.sym);
        match o { Outcome::Extracted => cx.violation.take(), o => { eprintln!("extract: {:?}", o); None } }
    };
    match r {
        Some(mut r) => { r.msg = a[4].clone(); std::fs::write(&a[3], r.text()).unwrap(); 0 }
        None => 3,
    }
}

/// replay <file>: 0 the run is fine, 1 it breaks the property, 3 it cannot be judged
fn replay(a: &[String]) -> i32 {
    let r = Replay::parse(&std::fs::read_to_string(&a[0]).unwrap());
    let h = find(&r.harness);
    let (cx, o) = run_path(Cx::concrete(&r), h.con);
    match o {
        Outcome::Ok => { println!("replay: no violation"); 0 }
        Outcome::Violation => { println!("replay: VIOLATED {}", cx.cfail.unwrap_or_default()); 1 }
        Outcome::Panic(m) => { println!("replay: VIOLATED panic: {}", m); 1 }
        o => { println!("replay: {:?}", o); 3 }
    }
}

// ------------------------------------------------------------------ parent
struct W {
    child: Child,
    jpath: String,
    busy: bool,
    since: Instant,
    last: (u64, u64),
    gen: usize,
}
fn spawn(i: usize, gen: usize, a: &[String], dir: &str, tx: &mpsc::Sender<(usize, usize, Option<String>)>) -> W {
    let id = format!("{}_{}", i, gen);
    let jpath = format!("{}/journal-{}", dir, id);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(&["worker", &a[0], &a[1], dir, &id, &a[3], &a[4], &a[5]])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap();
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l { Ok(l) => { if tx.send((i, gen, Some(l))).is_err() { return } } Err(_) => break }
        }
        let _ = tx.send((i, gen, None));
    });
    W { child, jpath, busy: false, since: Instant::now(), last: (0, 0), gen }
}
/// explore <harness> <bounds> <dir> <validate-every> <smt-every> <seed> <budget-s> <workers> <hang-s> <max-viol>
fn explore(a: &[String]) -> i32 {
    let h = find(&a[0]);
    let dir = a[2].clone();
    let (budget, nw, hang, maxviol): (f64, usize, u64, usize) = (a[6].parse().unwrap(), a[7].parse().unwrap(), a[8].parse().unwrap(), a[9].parse().unwrap());
    let _ = std::fs::create_dir_all(&dir);
    let (tx, rx) = mpsc::channel();
    let t0 = Instant::now();
    let mut ws: Vec<W> = (0..nw).map(|i| spawn(i, 0, a, &dir, &tx)).collect();
    let mut pending: Vec<String> = vec!["-".into()];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut covers: BTreeSet<String> = BTreeSet::new();
    let mut viols: Vec<(String, String)> = vec![];
    let mut sigs: BTreeSet<String> = BTreeSet::new();
    let mut errors: Vec<String> = vec![];
    let mut complete = true;
    let mut crashes = 0;
    loop {
        if t0.elapsed().as_secs_f64() > budget { complete = false; break }
        if viols.len() >= maxviol || errors.len() >= 5 { complete = false; break }
        let idle: Vec<usize> = (0..nw).filter(|i| !ws[*i].busy).collect();
        if pending.is_empty() && idle.len() == nw { break }
        for i in &idle {
            if pending.is_empty() { break }
            let k = (pending.len() / idle.len()).max(1).min(256);
            let at = pending.len() - k;
            let batch: Vec<String> = pending.drain(at..).collect();
            let ms = if pending.len() < nw * 4 { 40 } else { 250 };
            let w = &mut ws[*i];
            let _ = writeln!(w.child.stdin.as_mut().unwrap(), "{} {}", ms, batch.join(" "));
            w.busy = true;
            w.since = Instant::now();
        }
        let mut dead: Vec<(usize, String)> = vec![];
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(m) => {
                let mut m = Some(m);
                while let Some((i, g, l)) = m {
                    if ws[i].gen == g {
                        match l {
                            None => { dead.push((i, "crash".into())); }
                            Some(l) => {
                                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                                match k {
                                    "end" => ws[i].busy = false,
                                    "pending" => pending.push(rest.into()),
                                    "cover" => { covers.insert(rest.into()); }
                                    "stat" => {
                                        let (n, v) = rest.split_once(' ').unwrap_or(("torn", "0"));
                                        let v: u64 = v.parse().unwrap_or(0);
                                        let e = stats.entry(n.into()).or_insert(0);
                                        if n == "maxlen" { *e = (*e).max(v) } else { *e += v }
                                    }
                                    "viol" => {
                                        match std::fs::read_to_string(rest) {
                                            Ok(t) => { let r = Replay::parse(&t); if sigs.insert(signature(h.name, &r.msg)) { viols.push((rest.into(), r.msg)); } }
                                            Err(_) => errors.push(format!("no file {}", rest)),
                                        }
                                    }
                                    "error" => errors.push(rest.into()),
                                    _ => errors.push(format!("worker said {}", l)),
                                }
                            }
                        }
                    }
                    m = rx.try_recv().ok();
                }
            }
            Err(_) => {}
        }
        for i in 0..nw {
            if !ws[i].busy || dead.iter().any(|d| d.0 == i) { continue }
            let (c, n) = match std::fs::metadata(&ws[i].jpath) { Ok(_) => { let (c, v) = read_journal(&ws[i].jpath); (c, v.len() as u64) } Err(_) => (0, 0) };
            if (c, n) != ws[i].last { ws[i].last = (c, n); ws[i].since = Instant::now(); }
            else if ws[i].since.elapsed().as_secs() >= hang { dead.push((i, "hang".into())); }
        }
        for (i, why) in dead {
            let was_busy = ws[i].busy;
            let _ = ws[i].child.kill();
            let st = ws[i].child.wait();
            crashes += 1;
            if !was_busy { errors.push(format!("worker died idle: {:?}", st)); }
            let (_, dec) = read_journal(&ws[i].jpath);
            let f = format!("{}/viol-crash-{}.replay", dir, crashes);
            let msg = if why == "hang" { "the code under test does not terminate".to_string() } else { format!("the code under test crashes the process ({})", st.map(|s| s.to_string()).unwrap_or_default()) };
            let s = Command::new(std::env::current_exe().unwrap()).args(&["extract", &a[0], &a[1], &hex(&dec), &f, &msg]).status().unwrap();
            if s.success() { if sigs.insert(signature(h.name, &msg)) { viols.push((f, msg)); } } else { errors.push(format!("{}: could not extract the path {}", msg, hex(&dec))); }
            // The batch that worker held is lost; a violation was found anyway, so the run is not reported as complete.
            complete = false;
            let g = ws[i].gen + 1;
            if crashes >= 3 { break }
            ws[i] = spawn(i, g, a, &dir, &tx);
        }
        if crashes >= 3 { complete = false; break }
    }
    for w in ws.iter_mut() { let _ = w.child.kill(); let _ = w.child.wait(); }
    for w in &ws { let _ = std::fs::remove_file(&w.jpath); }
    let missing: Vec<&str> = h.covers.iter().cloned().filter(|c| !covers.contains(*c)).collect();
    let js = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o };
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":{},\"bounds\":{},\"complete\":{},\"wall\":{:.3},\"pending\":{},\"stats\":{{", js(h.name), js(&a[1]), complete, t0.elapsed().as_secs_f64(), pending.len()));
    o.push_str(&stats.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"covers\":[");
    o.push_str(&covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
    o.push_str("],\"missing\":[");
    o.push_str(&missing.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    o.push_str(&viols.iter().map(|(f, m)| format!("{{\"file\":{},\"msg\":{}}}", js(f), js(m))).collect::<Vec<_>>().join(","));
    o.push_str("],\"errors\":[");
    o.push_str(&errors.iter().take(5).map(|c| js(c)).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    println!("{}", o);
    0
}

/// The parent process reports its own panics.
static MAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn main() {
    for v in ["ADAPTON_NO_PURITY", "ADAPTON_STRUCTURAL", "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_GMLOG_DCG"] { std::env::remove_var(v); }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if MAIN.load(std::sync::atomic::Ordering::Relaxed) { eprintln!("panic: {}{}", m, loc); }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{}{}", m, loc));
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rc = match a.get(0).map(|s| s.as_str()) {
        Some("worker") => { worker(&a[1..]); 0 }
        Some("extract") => extract(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("explore") => { MAIN.store(true, std::sync::atomic::Ordering::Relaxed); explore(&a[1..]) }
        Some("list") => { for h in reg::harnesses() { println!("{}", h.name) } 0 }
        _ => 64,
    };
    std::process::exit(rc);
}
