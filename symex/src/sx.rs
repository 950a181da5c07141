//! Symbolic executor: terms, path condition, decisions, claims; and the
//! concrete interpretation of the same harnesses used for replay.
use crate::z3::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ffi::{CStr, CString};
use std::fmt::Write as _;

pub type T = u32; // integer term
pub type BT = u32; // boolean term

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(String),
    Lit(i64),
    App(u32, Vec<T>),
    Add(T, T),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Eq(T, T),
    Le(T, T),
    Pred(u32, Vec<T>),
    Not(BT),
    And(Vec<BT>),
    Or(Vec<BT>),
}
pub const TRUE: BT = 0;
pub const FALSE: BT = 1;

/// Why a path was left early.
#[derive(Debug, Clone)]
pub enum Stop {
    Infeasible,
    Violation,
    Unknown,
    Extracted,
    Diverged(String),
}

pub struct Z3 {
    ctx: Z3_context,
    int: Z3_sort,
    boo: Z3_sort,
    solver: Z3_solver,
    asts: Vec<Z3_ast>,
    basts: Vec<Z3_ast>,
    funs: Vec<Z3_func_decl>,
}
unsafe impl Send for Z3 {}
impl Z3 {
    fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("15000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, on_error);
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            Z3 { ctx, int: Z3_mk_int_sort(ctx), boo: Z3_mk_bool_sort(ctx), solver, asts: vec![], basts: vec![], funs: vec![] }
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub forks: u64,
    pub implied: u64,
    pub queries: u64,
    pub solver_ns: u64,
    pub claims: u64,
    pub claims_solver: u64,
    pub claims_trivial: u64,
    pub validated: u64,
    pub unknown: u64,
    pub maxlen: u64,
    pub dupviol: u64,
}
impl Stats {
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        vec![("paths", self.paths), ("infeasible", self.infeasible), ("decisions", self.decisions), ("forks", self.forks), ("implied", self.implied),
            ("queries", self.queries), ("solver_ns", self.solver_ns), ("claims", self.claims), ("claims_solver", self.claims_solver), ("claims_trivial", self.claims_trivial),
            ("validated", self.validated), ("unknown", self.unknown), ("maxlen", self.maxlen), ("dupviol", self.dupviol)]
    }
}

pub struct Journal {
    pub p: *mut u8,
    pub cap: usize,
}
unsafe impl Send for Journal {}
impl Journal {
    pub fn begin(&mut self) {
        unsafe {
            let c = self.p as *mut u64;
            *c = *c + 1;
            *(self.p.add(8) as *mut u64) = 0;
        }
    }
    fn push(&mut self, b: u8) {
        unsafe {
            let l = self.p.add(8) as *mut u64;
            let n = *l as usize;
            if 16 + n < self.cap {
                *self.p.add(16 + n) = b;
                *l = (n + 1) as u64;
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub harness: String,
    pub bounds: String,
    pub msg: String,
    pub choices: Vec<(String, usize, usize)>,
    pub vals: Vec<(String, i64)>,
    pub funs: Vec<(String, Vec<i64>, i64)>,
}
impl Replay {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "harness {}", self.harness);
        let _ = writeln!(s, "bounds {}", self.bounds);
        let _ = writeln!(s, "msg {}", self.msg.replace('\n', " | "));
        for (l, n, v) in &self.choices {
            let _ = writeln!(s, "choice {} {} {}", l.replace(' ', "-"), n, v);
        }
        for (l, v) in &self.vals {
            let _ = writeln!(s, "val {} {}", l, v);
        }
        for (l, a, v) in &self.funs {
            let a: Vec<String> = a.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(s, "fun {} {} = {}", l, a.join(" "), v);
        }
        s
    }
    pub fn parse(s: &str) -> Replay {
        let mut r = Replay::default();
        for line in s.lines() {
            let (k, rest) = match line.split_once(' ') { Some(x) => x, None => (line, "") };
            match k {
                "harness" => r.harness = rest.to_string(),
                "bounds" => r.bounds = rest.to_string(),
                "msg" => r.msg = rest.to_string(),
                "choice" => {
                    let w: Vec<&str> = rest.split(' ').collect();
                    r.choices.push((w[0].into(), w[1].parse().unwrap(), w[2].parse().unwrap()));
                }
                "val" => {
                    let w: Vec<&str> = rest.split(' ').collect();
                    r.vals.push((w[0].into(), w[1].parse().unwrap()));
                }
                "fun" => {
                    let w: Vec<&str> = rest.split(' ').collect();
                    let n = w.len();
                    r.funs.push((w[0].into(), w[1..n - 2].iter().filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), w[n - 1].parse().unwrap()));
                }
                _ => {}
            }
        }
        r
    }
}

pub struct Cx {
    pub symbolic: bool,
    pub harness: String,
    pub bounds: String,
    pub bmap: BTreeMap<String, i64>,
    // ---- symbolic
    z: Option<Z3>,
    nodes: Vec<Node>,
    nmap: HashMap<Node, T>,
    bnodes: Vec<BNode>,
    bmapn: HashMap<BNode, BT>,
    fnames: Vec<(String, usize, bool)>,
    fmap: HashMap<(String, usize, bool), u32>,
    // path state
    prefix: Vec<u8>,
    pos: usize,
    dec: Vec<u8>,
    pub siblings: Vec<Vec<u8>>,
    known: HashMap<BT, bool>,
    inputs: Vec<T>,
    papps: Vec<T>,
    ppreds: Vec<BT>,
    pseen: HashSet<(bool, u32)>,
    pcs: Vec<(BT, bool)>,
    asserted: usize,
    model: Option<Z3_model>,
    pub choices: Vec<(String, usize, usize)>,
    pub notes: Vec<T>,
    nfresh: HashMap<String, usize>,
    hreps: Vec<(T, u64)>,
    hseen: HashMap<T, u64>,
    pub levelled: bool,
    pub lowbits: u32,
    /// programs of a given form: how hashes follow each other, and whether the values hashed are all different
    pub form: Option<usize>,
    pub distinct: bool,
    pub coarse: bool,
    pub journal: Option<Journal>,
    pub extract: bool,
    pub violation: Option<Replay>,
    pub covers: BTreeSet<String>,
    pub pcovers: BTreeSet<String>,
    pub stats: Stats,
    pub smt_every: u64,
    pub smt: Vec<String>,
    // ---- concrete
    cvals: HashMap<String, i64>,
    cfuns: HashMap<(String, Vec<i64>), i64>,
    cchoices: Vec<(String, usize, usize)>,
    cpos: usize,
    pub cnotes: Vec<i64>,
    pub cfail: Option<String>,
    pub stray: Option<String>,
    chash: HashMap<i64, u64>,
}
unsafe impl Send for Cx {}

thread_local!(static CX: RefCell<Option<Box<Cx>>> = RefCell::new(None));

pub fn install(cx: Box<Cx>) { CX.with(|c| *c.borrow_mut() = Some(cx)); }
pub fn uninstall() -> Option<Box<Cx>> { CX.with(|c| c.borrow_mut().take()) }
pub fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R {
    CX.with(|c| f(c.borrow_mut().as_mut().expect("no context")))
}
fn stop(s: Stop) -> ! { std::panic::resume_unwind(Box::new(s)) }
fn run<R>(f: impl FnOnce(&mut Cx) -> Result<R, Stop>) -> R {
    match with(|cx| { let r = f(cx); if let Err(s) = &r { cx.stray = Some(format!("{:?}", s)); } r }) { Ok(r) => r, Err(s) => stop(s) }
}

fn mix(name: &str, args: &[i64]) -> i64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    for a in args { h = (h ^ (*a as u64)).wrapping_mul(0x9E3779B97F4A7C15); h ^= h >> 29; }
    (1_000_000 + (h % 1_000_000_007)) as i64
}

/// Seeds whose SipHash (as computed by `Level::new` for usize levels) has a given number of
/// trailing zeros; distinct per class.  Which level results is up to the code under test.
pub fn level_seed(class: usize, level: usize) -> u64 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let mut s = (class as u64) << 32;
    loop {
        let mut h = DefaultHasher::new();
        h.write_u64(s);
        if h.finish().trailing_zeros() as usize == level { return s }
        s += 1;
    }
}

/// Levels in programs of a given form.
pub fn form_level(f: usize, i: usize) -> usize {
    match f { 0 => 0, 1 => ((i + 1).trailing_zeros() as usize).min(4), 2 => i % 3, 3 => 3 - (i % 4), _ => if i % 5 == 4 { 4 } else { 0 } }
}
/// Seeds whose hash by the standard hasher has the given low bits; distinct per class.
pub fn bits_seed(class: usize, n: u32, bits: u64) -> u64 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let mut s = (class as u64) << 32;
    loop {
        let mut h = DefaultHasher::new();
        h.write_u64(s);
        if h.finish() & ((1 << n) - 1) == bits { return s }
        s += 1;
    }
}

impl Cx {
    pub fn new(symbolic: bool, harness: &str, bounds: &str) -> Box<Cx> {
        let mut bmap = BTreeMap::new();
        for kv in bounds.split(',') {
            if let Some((k, v)) = kv.split_once('=') { bmap.insert(k.to_string(), v.parse().unwrap()); }
        }
        let mut cx = Box::new(Cx {
            symbolic, harness: harness.into(), bounds: bounds.into(), bmap,
            z: None, nodes: vec![], nmap: HashMap::new(), bnodes: vec![], bmapn: HashMap::new(), fnames: vec![], fmap: HashMap::new(),
            prefix: vec![], pos: 0, dec: vec![], siblings: vec![], known: HashMap::new(), inputs: vec![], papps: vec![], ppreds: vec![],
            pseen: HashSet::new(), pcs: vec![], asserted: 0, model: None, choices: vec![], notes: vec![], nfresh: HashMap::new(), hreps: vec![], hseen: HashMap::new(),
            levelled: false, lowbits: 0, form: None, distinct: false, coarse: false, journal: None, extract: false, violation: None, covers: BTreeSet::new(), pcovers: BTreeSet::new(), stats: Stats::default(), smt_every: 0, smt: vec![],
            cvals: HashMap::new(), cfuns: HashMap::new(), cchoices: vec![], cpos: 0, cnotes: vec![], cfail: None, stray: None, chash: HashMap::new(),
        });
        cx.coarse = cx.bmap.get("coarse") == Some(&1);
        if symbolic { cx.reset_arena(); }
        cx
    }
    pub fn concrete(r: &Replay) -> Box<Cx> {
        let mut cx = Cx::new(false, &r.harness, &r.bounds);
        for (k, v) in &r.vals { cx.cvals.insert(k.clone(), *v); }
        for (k, a, v) in &r.funs { cx.cfuns.insert((k.clone(), a.clone()), *v); }
        cx.cchoices = r.choices.clone();
        cx
    }
    fn reset_arena(&mut self) {
        if let Some(m) = self.model.take() { unsafe { Z3_model_dec_ref(self.z().ctx, m) } }
        self.z = None;
        self.z = Some(Z3::new());
        self.nodes.clear(); self.nmap.clear(); self.bnodes.clear(); self.bmapn.clear(); self.fnames.clear(); self.fmap.clear();
        assert_eq!(self.mkb(BNode::True), TRUE);
        assert_eq!(self.mkb(BNode::False), FALSE);
    }
    pub fn begin_path(&mut self, prefix: Vec<u8>) {
        if self.nodes.len() > 150_000 || self.stats.paths % 50_000 == 49_999 { self.reset_arena(); }
        self.prefix = prefix; self.pos = 0; self.dec.clear(); self.known.clear(); self.inputs.clear();
        self.papps.clear(); self.ppreds.clear(); self.pseen.clear(); self.pcs.clear(); self.asserted = 0; self.choices.clear(); self.notes.clear();
        self.nfresh.clear(); self.stray = None; self.pcovers.clear(); self.hreps.clear(); self.hseen.clear(); self.levelled = false; self.lowbits = 0; self.form = None; self.distinct = false;
        self.drop_model();
        let z = self.z.as_ref().unwrap();
        unsafe { Z3_solver_reset(z.ctx, z.solver); }
        if let Some(j) = self.journal.as_mut() { j.begin(); }
        self.violation = None;
    }
    fn z(&self) -> &Z3 { self.z.as_ref().unwrap() }
    fn drop_model(&mut self) {
        if let Some(m) = self.model.take() { unsafe { Z3_model_dec_ref(self.z().ctx, m) } }
    }
    fn fun(&mut self, name: &str, arity: usize, pred: bool) -> u32 {
        let key = (name.to_string(), arity, pred);
        if let Some(f) = self.fmap.get(&key) { return *f }
        let id = self.fnames.len() as u32;
        let z = self.z.as_mut().unwrap();
        unsafe {
            let cs = CString::new(format!("{}{}/{}", if pred { "p:" } else { "" }, name, arity)).unwrap();
            let sym = Z3_mk_string_symbol(z.ctx, cs.as_ptr());
            let dom = vec![z.int; arity];
            let d = Z3_mk_func_decl(z.ctx, sym, arity as u32, dom.as_ptr(), if pred { z.boo } else { z.int });
            z.funs.push(d);
        }
        self.fnames.push(key.clone());
        self.fmap.insert(key, id);
        id
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.nmap.get(&n) { return *t }
        let id = self.nodes.len() as T;
        let z = self.z.as_mut().unwrap();
        let a = unsafe {
            match &n {
                Node::Var(s) => {
                    let cs = CString::new(s.as_str()).unwrap();
                    Z3_mk_const(z.ctx, Z3_mk_string_symbol(z.ctx, cs.as_ptr()), z.int)
                }
                Node::Lit(i) => Z3_mk_int64(z.ctx, *i, z.int),
                Node::App(f, args) => {
                    let v: Vec<Z3_ast> = args.iter().map(|t| z.asts[*t as usize]).collect();
                    Z3_mk_app(z.ctx, z.funs[*f as usize], v.len() as u32, v.as_ptr())
                }
                Node::Add(x, y) => {
                    let v = [z.asts[*x as usize], z.asts[*y as usize]];
                    Z3_mk_add(z.ctx, 2, v.as_ptr())
                }
            }
        };
        z.asts.push(a);
        self.nodes.push(n.clone());
        self.nmap.insert(n, id);
        id
    }
    fn mkb(&mut self, n: BNode) -> BT {
        if let Some(t) = self.bmapn.get(&n) { return *t }
        let id = self.bnodes.len() as BT;
        let z = self.z.as_mut().unwrap();
        let a = unsafe {
            match &n {
                BNode::True => Z3_mk_true(z.ctx),
                BNode::False => Z3_mk_false(z.ctx),
                BNode::Eq(x, y) => Z3_mk_eq(z.ctx, z.asts[*x as usize], z.asts[*y as usize]),
                BNode::Le(x, y) => Z3_mk_le(z.ctx, z.asts[*x as usize], z.asts[*y as usize]),
                BNode::Pred(f, args) => {
                    let v: Vec<Z3_ast> = args.iter().map(|t| z.asts[*t as usize]).collect();
                    Z3_mk_app(z.ctx, z.funs[*f as usize], v.len() as u32, v.as_ptr())
                }
                BNode::Not(b) => Z3_mk_not(z.ctx, z.basts[*b as usize]),
                BNode::And(bs) => { let v: Vec<Z3_ast> = bs.iter().map(|b| z.basts[*b as usize]).collect(); Z3_mk_and(z.ctx, v.len() as u32, v.as_ptr()) }
                BNode::Or(bs) => { let v: Vec<Z3_ast> = bs.iter().map(|b| z.basts[*b as usize]).collect(); Z3_mk_or(z.ctx, v.len() as u32, v.as_ptr()) }
            }
        };
        z.basts.push(a);
        self.bnodes.push(n.clone());
        self.bmapn.insert(n, id);
        id
    }
    // ---- integer terms
    pub fn t_lit(&mut self, i: i64) -> T { self.mk(Node::Lit(i)) }
    pub fn t_input(&mut self, label: &str) -> T {
        let k = self.nfresh.entry(label.to_string()).or_insert(0);
        let name = format!("{}!{}", label, k);
        *k += 1;
        let t = self.mk(Node::Var(name));
        self.inputs.push(t);
        t
    }
    pub fn t_app(&mut self, f: &str, args: &[T]) -> T {
        let fid = self.fun(f, args.len(), false);
        let t = self.mk(Node::App(fid, args.to_vec()));
        if self.pseen.insert((false, t)) { self.papps.push(t); }
        t
    }
    pub fn t_add(&mut self, a: T, b: T) -> T {
        if let (Node::Lit(x), Node::Lit(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) { let v = x + y; return self.t_lit(v) }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    // ---- boolean terms
    pub fn b_eq(&mut self, a: T, b: T) -> BT {
        if a == b { return TRUE }
        if let (Node::Lit(x), Node::Lit(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) { return if x == y { TRUE } else { FALSE } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mkb(BNode::Eq(a, b))
    }
    pub fn b_le(&mut self, a: T, b: T) -> BT {
        if a == b { return TRUE }
        if let (Node::Lit(x), Node::Lit(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) { return if x <= y { TRUE } else { FALSE } }
        self.mkb(BNode::Le(a, b))
    }
    pub fn b_pred(&mut self, f: &str, args: &[T]) -> BT {
        let fid = self.fun(f, args.len(), true);
        let b = self.mkb(BNode::Pred(fid, args.to_vec()));
        if self.pseen.insert((true, b)) { self.ppreds.push(b); }
        b
    }
    pub fn b_not(&mut self, b: BT) -> BT {
        match b { TRUE => FALSE, FALSE => TRUE, _ => match &self.bnodes[b as usize] { BNode::Not(c) => *c, _ => self.mkb(BNode::Not(b)) } }
    }
    pub fn b_and(&mut self, bs: &[BT]) -> BT {
        let v: Vec<BT> = bs.iter().cloned().filter(|b| *b != TRUE).collect();
        if v.contains(&FALSE) { return FALSE }
        match v.len() { 0 => TRUE, 1 => v[0], _ => self.mkb(BNode::And(v)) }
    }
    pub fn b_or(&mut self, bs: &[BT]) -> BT {
        let v: Vec<BT> = bs.iter().cloned().filter(|b| *b != FALSE).collect();
        if v.contains(&TRUE) { return TRUE }
        match v.len() { 0 => FALSE, 1 => v[0], _ => self.mkb(BNode::Or(v)) }
    }
    // ---- solver
    fn flush(&mut self) {
        while self.asserted < self.pcs.len() {
            let (b, s) = self.pcs[self.asserted];
            self.asserted += 1;
            let z = self.z.as_ref().unwrap();
            unsafe {
                let a = z.basts[b as usize];
                let a = if s { a } else { Z3_mk_not(z.ctx, a) };
                Z3_solver_assert(z.ctx, z.solver, a);
            }
        }
    }
    /// Is path condition ∧ (b = sign) satisfiable?  Keeps the model when it is and `keep`.
    fn sat(&mut self, b: BT, sign: bool, keep: bool) -> Result<bool, Stop> {
        self.flush();
        let t0 = std::time::Instant::now();
        let z = self.z.as_ref().unwrap();
        let r;
        let mut m: Option<Z3_model> = None;
        unsafe {
            Z3_solver_push(z.ctx, z.solver);
            let a = z.basts[b as usize];
            let a = if sign { a } else { Z3_mk_not(z.ctx, a) };
            Z3_solver_assert(z.ctx, z.solver, a);
            r = Z3_solver_check(z.ctx, z.solver);
            if r == 1 && keep {
                let mm = Z3_solver_get_model(z.ctx, z.solver);
                Z3_model_inc_ref(z.ctx, mm);
                m = Some(mm);
            }
            Z3_solver_pop(z.ctx, z.solver, 1);
        }
        self.stats.queries += 1;
        self.stats.solver_ns += t0.elapsed().as_nanos() as u64;
        if keep && m.is_some() { self.drop_model(); self.model = m; }
        match r { 1 => Ok(true), -1 => Ok(false), _ => { self.stats.unknown += 1; Err(Stop::Unknown) } }
    }
    fn model_val(&self, b: BT) -> Option<bool> {
        let m = self.model?;
        let z = self.z();
        unsafe {
            let mut out: Z3_ast = std::ptr::null_mut();
            if !Z3_model_eval(z.ctx, m, z.basts[b as usize], true, &mut out) { return None }
            match Z3_get_bool_value(z.ctx, out) { 1 => Some(true), -1 => Some(false), _ => None }
        }
    }
    fn record(&mut self, d: u8) {
        self.dec.push(d);
        self.stats.decisions += 1;
        if let Some(j) = self.journal.as_mut() { j.push(d); }
    }
    fn maybe_extract(&mut self) -> Result<(), Stop> {
        if self.extract && self.pos >= self.prefix.len() {
            let r = self.make_replay("crash or hang of the code under test")?;
            self.violation = Some(r);
            return Err(Stop::Extracted);
        }
        Ok(())
    }
    pub fn decide(&mut self, b: BT) -> Result<bool, Stop> {
        if b == TRUE { return Ok(true) }
        if b == FALSE { return Ok(false) }
        if let BNode::Not(c) = self.bnodes[b as usize] { return self.decide(c).map(|x| !x) }
        if let Some(k) = self.known.get(&b) { return Ok(*k) }
        if let BNode::Eq(x, y) = self.bnodes[b as usize] {
            // Values that were hashed have been compared then: the answer follows without a (recorded) decision,
            // so that how often a randomly seeded hash table compares its keys does not matter.
            if let (Some(hx), Some(hy)) = (self.hseen.get(&x), self.hseen.get(&y)) { return Ok(hx == hy) }
        }
        let (val, forced) = if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            if d > 3 { return Err(Stop::Diverged(format!("decision code {} at {}", d, self.pos))) }
            self.record(d);
            (d & 1 == 1, d >= 2)
        } else {
            self.pos += 1;
            let (ct, cf) = match self.model_val(b) {
                Some(true) => (true, self.sat(b, false, false)?),
                Some(false) => (self.sat(b, true, true)?, true),
                None => { let t = self.sat(b, true, true)?; let f = if t { self.sat(b, false, false)? } else { true }; (t, f) }
            };
            match (ct, cf) {
                (true, true) => {
                    self.stats.forks += 1;
                    let mut s = self.dec.clone();
                    s.push(0);
                    self.siblings.push(s);
                    self.record(1);
                    (true, false)
                }
                (true, false) => { self.stats.implied += 1; self.record(3); (true, true) }
                (false, true) => { self.stats.implied += 1; self.record(2); (false, true) }
                (false, false) => return Err(Stop::Infeasible),
            }
        };
        self.known.insert(b, val);
        if !forced {
            self.pcs.push((b, val));
            if self.model_val(b) != Some(val) { self.drop_model(); }
        }
        self.maybe_extract()?;
        Ok(val)
    }
    pub fn choose(&mut self, label: &str, n: usize) -> Result<usize, Stop> {
        if !self.symbolic {
            let v = if self.cpos < self.cchoices.len() {
                let (l, _, v) = self.cchoices[self.cpos].clone();
                self.cpos += 1;
                if l.replace(' ', "-") != label.replace(' ', "-") { return Err(Stop::Diverged(format!("choice {} where {} was recorded", label, l))) }
                v
            } else { 0 };
            return Ok(v.min(n - 1))
        }
        if n == 1 { self.choices.push((label.into(), 1, 0)); return Ok(0) }
        let v = if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos] as usize;
            self.pos += 1;
            if d < 4 || d - 4 >= n { return Err(Stop::Diverged(format!("choice code {} of {} at {}", d, n, self.pos))) }
            d - 4
        } else {
            self.pos += 1;
            self.stats.forks += 1;
            for i in (1..n).rev() {
                let mut s = self.dec.clone();
                s.push(4 + i as u8);
                self.siblings.push(s);
            }
            0
        };
        self.record(4 + v as u8);
        self.choices.push((label.into(), n, v));
        self.maybe_extract()?;
        Ok(v)
    }
    pub fn assume(&mut self, b: BT) -> Result<(), Stop> {
        if b == TRUE { return Ok(()) }
        if b == FALSE { return Err(Stop::Infeasible) }
        if self.model_val(b) != Some(true) {
            if self.pos >= self.prefix.len() { if !self.sat(b, true, true)? { return Err(Stop::Infeasible) } } else { self.drop_model(); }
        }
        self.pcs.push((b, true));
        Ok(())
    }
    /// The claim `b` must hold for every value on this path.
    pub fn claim(&mut self, b: BT, msg: &str) -> Result<(), Stop> {
        self.stats.claims += 1;
        // Claims reached while still inside the replayed prefix were discharged when that prefix was first explored.
        if b == TRUE || self.known.get(&b) == Some(&true) { self.stats.claims_trivial += 1; return Ok(()) }
        if self.pos < self.prefix.len() { self.known.insert(b, true); return Ok(()) }
        self.stats.claims_solver += 1;
        let viol = self.sat(b, false, true)?;
        if self.smt_every > 0 && self.stats.claims_solver % self.smt_every == 1 { self.dump_smt(b, viol); }
        if viol {
            self.pcs.push((b, false));
            let r = self.make_replay(msg)?;
            self.violation = Some(r);
            return Err(Stop::Violation)
        }
        self.known.insert(b, true);
        Ok(())
    }
    fn dump_smt(&mut self, b: BT, sat: bool) {
        if self.smt.len() >= 40 { return }
        self.flush();
        let z = self.z();
        let s = unsafe {
            Z3_solver_push(z.ctx, z.solver);
            Z3_solver_assert(z.ctx, z.solver, Z3_mk_not(z.ctx, z.basts[b as usize]));
            let s = CStr::from_ptr(Z3_solver_to_string(z.ctx, z.solver)).to_string_lossy().into_owned();
            Z3_solver_pop(z.ctx, z.solver, 1);
            s
        };
        self.smt.push(format!("(set-logic QF_UFLIA)\n(set-info :status {})\n{}\n(check-sat)\n", if sat { "sat" } else { "unsat" }, s));
    }
    fn eval_t(&self, m: Z3_model, t: T) -> i64 {
        let z = self.z();
        unsafe {
            let mut out: Z3_ast = std::ptr::null_mut();
            let mut v: i64 = 0;
            if Z3_model_eval(z.ctx, m, z.asts[t as usize], true, &mut out) && Z3_get_numeral_int64(z.ctx, out, &mut v) { v } else { panic!("model evaluation failed") }
        }
    }
    fn ensure_model(&mut self) -> Result<Z3_model, Stop> {
        if self.model.is_none() {
            if !self.sat(TRUE, true, true)? { return Err(Stop::Infeasible) }
        }
        Ok(self.model.unwrap())
    }
    pub fn make_replay(&mut self, msg: &str) -> Result<Replay, Stop> {
        let m = self.ensure_model()?;
        let mut r = Replay { harness: self.harness.clone(), bounds: self.bounds.clone(), msg: msg.into(), choices: self.choices.clone(), ..Default::default() };
        for t in &self.inputs {
            if let Node::Var(n) = &self.nodes[*t as usize] { r.vals.push((n.clone(), self.eval_t(m, *t))); }
        }
        let mut seen = HashSet::new();
        for t in &self.papps {
            if let Node::App(f, args) = &self.nodes[*t as usize] {
                let a: Vec<i64> = args.iter().map(|x| self.eval_t(m, *x)).collect();
                let name = self.fnames[*f as usize].0.clone();
                if seen.insert((name.clone(), a.clone())) { r.funs.push((name, a, self.eval_t(m, *t))); }
            }
        }
        let z = self.z();
        for b in &self.ppreds {
            if let BNode::Pred(f, args) = &self.bnodes[*b as usize] {
                let a: Vec<i64> = args.iter().map(|x| self.eval_t(m, *x)).collect();
                let name = format!("p:{}", self.fnames[*f as usize].0);
                if seen.insert((name.clone(), a.clone())) {
                    let v = unsafe {
                        let mut out: Z3_ast = std::ptr::null_mut();
                        Z3_model_eval(z.ctx, m, z.basts[*b as usize], true, &mut out);
                        Z3_get_bool_value(z.ctx, out) == 1
                    };
                    r.funs.push((name, a, v as i64));
                }
            }
        }
        Ok(r)
    }
    pub fn eval_notes(&mut self) -> Result<Vec<i64>, Stop> {
        let m = self.ensure_model()?;
        Ok(self.notes.clone().iter().map(|t| self.eval_t(m, *t)).collect())
    }
    fn hash_seed(&mut self, label: &str, class: usize) -> Result<u64, Stop> {
        if let Some(f) = self.form {
            if self.lowbits > 0 { let n = self.lowbits; let c = class as u64; return Ok(bits_seed(class, n, if f % 2 == 0 { c } else { c.reverse_bits() >> (64 - n) } & ((1 << n) - 1))) }
            if self.levelled { return Ok(level_seed(class, form_level(f, class))) }
        }
        if self.lowbits > 0 {
            let v = self.choose("hash", 1 << self.lowbits)?;
            return Ok(bits_seed(class, self.lowbits, v as u64));
        }
        if self.levelled {
            let nl = *self.bmap.get("levels").unwrap_or(&3) as usize;
            let lev = self.choose(label, nl)?;
            Ok(level_seed(class, lev))
        } else { Ok(0x5eed_0000 + class as u64) }
    }
    /// Equal values hash equally, different values differently (hash collisions are outside the claim).
    pub fn hash_class(&mut self, t: T) -> Result<u64, Stop> {
        if let Some(h) = self.hseen.get(&t) { return Ok(*h) }
        let reps = self.hreps.clone();
        if self.distinct {
            let ne: Vec<BT> = reps.iter().map(|(r, _)| { let e = self.b_eq(t, *r); self.b_not(e) }).collect();
            let b = self.b_and(&ne);
            self.assume(b)?;
        } else { for (r, h) in reps {
            let e = self.b_eq(t, r);
            if self.decide(e)? { self.hseen.insert(t, h); return Ok(h) }
        } }
        let class = self.hreps.len();
        let h = self.hash_seed("level", class)?;
        self.hreps.push((t, h));
        self.hseen.insert(t, h);
        Ok(h)
    }
    pub fn hash_class_con(&mut self, v: i64) -> Result<u64, Stop> {
        if let Some(h) = self.chash.get(&v) { return Ok(*h) }
        let class = self.chash.len();
        let h = self.hash_seed("level", class)?;
        self.chash.insert(v, h);
        Ok(h)
    }
    pub fn c_input(&mut self, label: &str) -> i64 {
        let k = self.nfresh.entry(label.to_string()).or_insert(0);
        let name = format!("{}!{}", label, k);
        *k += 1;
        match self.cvals.get(&name) { Some(v) => *v, None => mix(&name, &[]) }
    }
    pub fn c_app(&mut self, f: &str, args: &[i64]) -> i64 {
        let key = (f.to_string(), args.to_vec());
        match self.cfuns.get(&key) { Some(v) => *v, None => mix(f, args) }
    }
}

// ---------------------------------------------------------------- the value interface
use std::hash::{Hash, Hasher};

pub trait Val: Hash + Eq + Ord + std::fmt::Debug + Clone + Copy + 'static {
    type B: Clone + Copy + std::fmt::Debug + 'static;
    fn lit(i: i64) -> Self;
    fn input(label: &str) -> Self;
    fn uf(f: &str, args: &[Self]) -> Self;
    fn add(a: Self, b: Self) -> Self;
    fn pred_b(f: &str, args: &[Self]) -> Self::B;
    fn eq_b(a: Self, b: Self) -> Self::B;
    fn le_b(a: Self, b: Self) -> Self::B;
    fn not_b(a: Self::B) -> Self::B;
    fn and_b(bs: &[Self::B]) -> Self::B;
    fn or_b(bs: &[Self::B]) -> Self::B;
    fn lit_b(b: bool) -> Self::B;
    /// Branch on a symbolic condition.
    fn test(b: Self::B) -> bool;
    fn claim(b: Self::B, msg: &str);
    fn assume(b: Self::B);
    fn note(v: Self);
    /// The number this value is printed as by `Debug`.
    fn print_id(v: Self) -> i64;
    fn from_print(i: i64) -> Self;
    const SYMBOLIC: bool;
    // derived
    fn pred(f: &str, args: &[Self]) -> bool { Self::test(Self::pred_b(f, args)) }
    fn claim_eq(a: Self, b: Self, msg: &str) { Self::note(a); Self::claim(Self::eq_b(a, b), msg) }
    fn same(a: Self, b: Self) -> bool { Self::test(Self::eq_b(a, b)) }
}

#[derive(Clone, Copy)]
pub struct Sym(pub T);
impl std::fmt::Debug for Sym { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { if coarse() { write!(f, "V") } else { write!(f, "V({})", self.0) } } }
impl PartialEq for Sym { fn eq(&self, o: &Sym) -> bool { run(|cx| { let b = cx.b_eq(self.0, o.0); cx.decide(b) }) } }
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
    fn le(&self, o: &Sym) -> bool { COMPARED.with(|c| c.set(c.get() + 1)); run(|cx| { let b = cx.b_le(self.0, o.0); cx.decide(b) }) }
    fn ge(&self, o: &Sym) -> bool { o.le(self) }
    fn lt(&self, o: &Sym) -> bool { !o.le(self) }
    fn gt(&self, o: &Sym) -> bool { !self.le(o) }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> std::cmp::Ordering {
        if self == o { std::cmp::Ordering::Equal } else if self.le(o) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }
    }
}
impl Hash for Sym { fn hash<H: Hasher>(&self, h: &mut H) { if coarse() { return } let s = run(|cx| cx.hash_class(self.0)); h.write_u64(s) } }
impl Val for Sym {
    type B = BT;
    fn lit(i: i64) -> Self { Sym(with(|cx| cx.t_lit(i))) }
    fn input(l: &str) -> Self { Sym(with(|cx| cx.t_input(l))) }
    fn uf(f: &str, a: &[Self]) -> Self { let v: Vec<T> = a.iter().map(|x| x.0).collect(); Sym(with(|cx| cx.t_app(f, &v))) }
    fn add(a: Self, b: Self) -> Self { Sym(with(|cx| cx.t_add(a.0, b.0))) }
    fn pred_b(f: &str, a: &[Self]) -> BT { let v: Vec<T> = a.iter().map(|x| x.0).collect(); with(|cx| cx.b_pred(f, &v)) }
    fn eq_b(a: Self, b: Self) -> BT { with(|cx| cx.b_eq(a.0, b.0)) }
    fn le_b(a: Self, b: Self) -> BT { with(|cx| cx.b_le(a.0, b.0)) }
    fn not_b(a: BT) -> BT { with(|cx| cx.b_not(a)) }
    fn and_b(v: &[BT]) -> BT { with(|cx| cx.b_and(v)) }
    fn or_b(v: &[BT]) -> BT { with(|cx| cx.b_or(v)) }
    fn lit_b(b: bool) -> BT { if b { TRUE } else { FALSE } }
    fn test(b: BT) -> bool { run(|cx| cx.decide(b)) }
    fn claim(b: BT, msg: &str) { run(|cx| cx.claim(b, msg)) }
    fn assume(b: BT) { run(|cx| cx.assume(b)) }
    fn note(v: Self) { with(|cx| cx.notes.push(v.0)) }
    fn print_id(v: Self) -> i64 { v.0 as i64 }
    fn from_print(i: i64) -> Self { Sym(i as T) }
    const SYMBOLIC: bool = true;
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Con(pub i64);
impl PartialOrd for Con {
    fn partial_cmp(&self, o: &Con) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
    fn le(&self, o: &Con) -> bool { COMPARED.with(|c| c.set(c.get() + 1)); self.0 <= o.0 }
    fn ge(&self, o: &Con) -> bool { o.le(self) }
    fn lt(&self, o: &Con) -> bool { !o.le(self) }
    fn gt(&self, o: &Con) -> bool { !self.le(o) }
}
impl Ord for Con { fn cmp(&self, o: &Con) -> std::cmp::Ordering { if self == o { std::cmp::Ordering::Equal } else if self.le(o) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } } }
impl std::fmt::Debug for Con { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { if coarse() { write!(f, "V") } else { write!(f, "V({})", self.0) } } }
impl Hash for Con { fn hash<H: Hasher>(&self, h: &mut H) { if coarse() { return } let s = run(|cx| cx.hash_class_con(self.0)); h.write_u64(s) } }
impl Val for Con {
    type B = bool;
    fn lit(i: i64) -> Self { Con(i) }
    fn input(l: &str) -> Self { Con(with(|cx| cx.c_input(l))) }
    fn uf(f: &str, a: &[Self]) -> Self { let v: Vec<i64> = a.iter().map(|x| x.0).collect(); Con(with(|cx| cx.c_app(f, &v))) }
    fn add(a: Self, b: Self) -> Self { Con(a.0 + b.0) }
    fn pred_b(f: &str, a: &[Self]) -> bool { let v: Vec<i64> = a.iter().map(|x| x.0).collect(); with(|cx| { let n = format!("p:{}", f); match cx.cfuns.get(&(n.clone(), v.clone())) { Some(x) => *x != 0, None => mix(&n, &v) & 1 == 1 } }) }
    fn eq_b(a: Self, b: Self) -> bool { a.0 == b.0 }
    fn le_b(a: Self, b: Self) -> bool { a.0 <= b.0 }
    fn not_b(a: bool) -> bool { !a }
    fn and_b(v: &[bool]) -> bool { v.iter().all(|x| *x) }
    fn or_b(v: &[bool]) -> bool { v.iter().any(|x| *x) }
    fn lit_b(b: bool) -> bool { b }
    fn test(b: bool) -> bool { b }
    fn claim(b: bool, msg: &str) {
        if !b { with(|cx| cx.cfail = Some(msg.to_string())); stop(Stop::Violation) }
    }
    fn assume(b: bool) { if !b { stop(Stop::Infeasible) } }
    fn note(v: Self) { with(|cx| cx.cnotes.push(v.0)) }
    fn print_id(v: Self) -> i64 { v.0 }
    fn from_print(i: i64) -> Self { Con(i) }
    const SYMBOLIC: bool = false;
}

// ---------------------------------------------------------------- harness API
thread_local!(static COMPARED: std::cell::Cell<usize> = std::cell::Cell::new(0));
/// How often the code under test has compared two values by order.
pub fn compared() -> usize { COMPARED.with(|c| c.get()) }
pub fn choose(label: &str, n: usize) -> usize { run(|cx| cx.choose(label, n)) }
pub fn flag(label: &str) -> bool { choose(label, 2) == 1 }
pub fn bound(k: &str) -> usize {
    with(|cx| match cx.bmap.get(k) { Some(v) => *v as usize, None => panic!("harness bound {} not given", k) })
}
pub fn bound_or(k: &str, d: usize) -> usize { with(|cx| cx.bmap.get(k).map(|v| *v as usize).unwrap_or(d)) }
pub fn cover(l: &str) { with(|cx| if !cx.pcovers.contains(l) { cx.pcovers.insert(l.to_string()); }) }
/// A claim about facts that are concrete on this path.
pub fn claim_bool<V: Val>(b: bool, msg: &str) { V::claim(V::lit_b(b), msg) }
pub fn discard() -> ! { stop(Stop::Infeasible) }
/// Element hashes get chosen low bits.
/// (bound `coarse`: values hash alike and print alike, as a user's `Hash` and `Debug` may)
fn coarse() -> bool { with(|cx| cx.coarse) }
pub fn set_lowbits(n: u32) { with(|cx| cx.lowbits = n) }
pub fn set_form(f: Option<usize>, distinct: bool) { with(|cx| { cx.form = f; cx.distinct = distinct }) }
pub fn set_levelled() { with(|cx| cx.levelled = true) }

thread_local!(pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));
/// Runs `f`; Err(message) if the code under test panics.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Stop>() { std::panic::resume_unwind(p) }
            Err(LAST_PANIC.with(|l| l.borrow().clone()))
        }
    }
}
