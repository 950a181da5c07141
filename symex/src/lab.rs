//! A family of incremental programs whose code is itself symbolic: what each body does next is a
//! choice made when it is first reached (and then fixed), what it computes is uninterpreted.
//! The same program text is run by the engine (bodies of real thunks), by a from-scratch
//! interpreter, and by a reference memo table.
use crate::sx::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub fn pt(i: usize) -> ProgPt {
    thread_local!(static PTS: RefCell<Vec<&'static str>> = RefCell::new(vec![]));
    PTS.with(|t| { let mut t = t.borrow_mut(); while t.len() <= i { let n = t.len(); t.push(Box::leak(format!("P{}", n).into_boxed_str())); } ProgPt { symbol: t[i] } })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// stop; the flag says whether the last handle is part of the result
    Ret(bool),
    Read(usize),
    /// read an input cell through mapping k
    Map(usize, usize),
    /// read an input cell through member k of a mapping family
    Abs(usize, usize),
    Force(usize),
    Branch,
    /// allocate a cell at this site holding the accumulator
    Alloc(usize),
    /// an immutable articulation holding the accumulator
    Put,
    /// read a cell whose articulation is at hand
    Look(usize),
    LookMap(usize, usize),
    ForceMap(usize, usize),
    /// allocate and force a thunk running this program on the accumulator and the handles at hand
    Call(usize),
    /// the rest of the body runs in namespace (one level)
    Ns(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct R<V, H> { pub v: V, pub h: Option<H> }

pub trait Mach<V: Val> {
    type H: Clone;
    fn enter(&mut self, p: usize, v: Option<V>);
    fn read(&mut self, c: usize) -> V;
    fn map(&mut self, c: usize, k: usize) -> V;
    fn abs(&mut self, c: usize, k: usize) -> V;
    fn force(&mut self, t: usize) -> R<V, Self::H>;
    fn alloc(&mut self, s: usize, v: V) -> Self::H;
    fn put(&mut self, v: V) -> Self::H;
    fn look(&mut self, h: &Self::H) -> V;
    fn look_map(&mut self, h: &Self::H, k: usize) -> V;
    fn force_map(&mut self, t: usize, k: usize) -> V;
    fn call(&mut self, p: usize, v: V, hs: &[Self::H]) -> R<V, Self::H>;
}

pub struct Env<V: Val> {
    pub ops: RefCell<HashMap<(usize, Vec<u8>), Op>>,
    pub used: Cell<usize>,
    pub nprog: Cell<usize>,
    pub nsite: Cell<usize>,
    side: Cell<bool>,
    pub lim: RefCell<Vec<usize>>,
    pub nstatic: usize,
    pub cur: RefCell<Vec<V>>,
    pub cells: RefCell<Vec<Art<V>>>,
    pub thunks: RefCell<Vec<Art<R<V, Art<V>>>>>,
    pub log: RefCell<Vec<usize>>,
    pub logv: RefCell<Vec<Option<V>>>,
    /// cells allocated by bodies: articulation, and what was last stored
    pub dyns: RefCell<Vec<(usize, Art<V>, V)>>,
    /// thunks allocated by bodies: articulation, and the last argument
    pub calls: RefCell<Vec<(usize, Art<R<V, Art<V>>>, Arg<V>)>>,
    pub targ: RefCell<Vec<Option<V>>>,
    /// forces of structurally identified thunks happen inside structural(..), too
    inside: bool,
    /// what the bodies and the editor do, for comparison with recorded traces
    pub rec: RefCell<Rec<V>>,
    b: B,
}
/// Bounds, looked up once.
struct B { cells: usize, oplen: usize, progs: usize, map: usize, abs: usize, alloc: usize, call: usize, force: bool, branch: bool, read: bool, retart: bool, look: bool, put: usize, tmap: usize, lmap: usize, rootlen: usize, calllen: usize, cyc: bool, structural: bool, share: bool, fam: usize }

fn f_name(p: usize, trail: &[u8]) -> String {
    // (bodies of the long forms compute alike, so that one decision settles all of them)
    let p = if bound_or("long", 0) == 1 { 0 } else { p };
    let mut s = format!("f{}_", p); for t in trail { s.push((b'0' + t) as char); }
    s
}

impl<V: Val> Env<V> {
    pub fn new() -> Rc<Env<V>> {
        let nstatic = bound("progs");
        let oplen = bound("oplen");
        let inside = bound_or("structural", 0) == 1 && flag("inside");
        let b = B { cells: bound("cells"), oplen, progs: nstatic + bound_or("call", 0), map: bound_or("map", 0), abs: bound_or("abs", 0), alloc: bound_or("alloc", 0), call: bound_or("call", 0),
            force: bound_or("force", 1) == 1, branch: bound_or("branch", 1) == 1, read: bound_or("read", 1) == 1, retart: bound_or("retart", 0) == 1, look: bound_or("look", 1) == 1, put: bound_or("put", 0), tmap: bound_or("tmap", 0), lmap: bound_or("lmap", 0),
            rootlen: bound_or("rootlen", oplen), calllen: bound_or("calllen", oplen), cyc: bound_or("cyc", 0) == 1, structural: bound_or("structural", 0) == 1, share: bound_or("share", 0) == 1, fam: bound_or("fam", 0) };
        let e = Rc::new(Env { ops: RefCell::new(HashMap::new()), used: Cell::new(0), nprog: Cell::new(nstatic), nsite: Cell::new(0), side: Cell::new(false), lim: RefCell::new((0..nstatic).collect()), nstatic,
            cur: RefCell::new(vec![]), cells: RefCell::new(vec![]), thunks: RefCell::new(vec![]), log: RefCell::new(vec![]), logv: RefCell::new(vec![]), dyns: RefCell::new(vec![]), calls: RefCell::new(vec![]), targ: RefCell::new(vec![None; nstatic]), inside, rec: RefCell::new(Rec::new()), b });
        if e.b.fam > 0 {
            e.used.set(e.b.cells);
            e.nprog.set(e.b.progs);
            for _ in nstatic..e.b.progs { e.lim.borrow_mut().push(0) }
        }
        e
    }
    /// Programs of a given form, whose size is a bound: the i-th operation of body p.
    fn fam_op(&self, p: usize, i: usize) -> Op {
        let b = &self.b;
        let (n, c, root) = (self.nstatic, b.cells, p + 1 == self.nstatic);
        let long = bound_or("long", 0) == 1;
        let seq = |ops: &[Op]| ops.get(i).cloned().unwrap_or(Op::Ret(false));
        match b.fam {
            // a chain
            1 => if p == 0 { seq(&[Op::Read(0)]) } else if c > 1 { seq(&[Op::Force(p - 1), Op::Read(p % c)]) } else { seq(&[Op::Force(p - 1)]) },
            // one body that reads every cell, and again the first
            2 => if p > 0 { seq(&[Op::Force(p - 1)]) } else if i < c { Op::Read(i) } else { seq(&vec![Op::Read(0); c + 1]) },
            // many readers of one cell
            3 => if !root { if c > 1 { seq(&[Op::Read(0), Op::Read(1 + p % (c - 1))]) } else { seq(&[Op::Read(0)]) } } else if i + 1 < n { Op::Force(i) } else { Op::Ret(false) },
            // each demands the two before
            4 => match p { 0 => seq(&[Op::Read(0)]), 1 => seq(&[Op::Force(0), Op::Read(c - 1)]), _ => seq(&[Op::Force(p - 1), Op::Force(p - 2)]) },
            // many mapped (then abstracted) observations of the cells
            5 => if p > 0 { seq(&[Op::Force(p - 1)]) } else if i < b.map { Op::Map(i % c, if long { i % 3 } else { i }) } else if i < b.map + b.abs { Op::Abs(i % c, if long { i % 3 } else { i - b.map }) } else { Op::Ret(false) },
            // a body that allocates and reads many cells
            6 => if p > 0 { seq(&[Op::Force(p - 1), Op::Look(0)]) } else if i == 0 { Op::Read(0) } else if i <= 2 * b.alloc { let k = (i - 1) / 2; if i % 2 == 1 { self.nsite.set(k + 1); Op::Alloc(k) } else { Op::Look(k) } } else { Op::Ret(b.retart) },
            // calls within calls
            7 if long && p >= n => if p + 1 < b.progs { seq(&[Op::Call(p + 1)]) } else { seq(&[Op::Read(c - 1)]) },
            8 if long && p >= n => if p == n + b.call / 2 { seq(&[Op::Read(c - 1)]) } else { Op::Ret(false) },
            7 => if p < n { if p > 0 { seq(&[Op::Force(p - 1)]) } else { seq(&[Op::Read(0), Op::Call(n)]) } } else if p + 1 < b.progs { seq(&[Op::Read(p % c), Op::Call(p + 1)]) } else { seq(&[Op::Read(p % c)]) },
            // calls after calls
            8 => if p >= n { seq(&[Op::Read(p % c)]) } else if p > 0 { seq(&[Op::Force(p - 1)]) } else if i == 0 { Op::Read(0) } else if i <= b.call { Op::Call(n + i - 1) } else { Op::Ret(false) },
            // the first cell decides which of two chains is demanded
            9 => { let m = (n - 1) / 2; if root { match i { 0 => Op::Read(0), 1 => Op::Branch, 2 => Op::Force(if self.side.get() { m - 1 } else { n - 2 }), _ => Op::Ret(false) } } else if p == 0 || p == m { seq(&[Op::Read(c - 1)]) } else { seq(&[Op::Force(p - 1)]) } },
            // readers share a thunk that reads the cells
            10 => if p == 0 { if i < c { Op::Read(i) } else { Op::Ret(false) } } else if !root { seq(&[Op::Force(0), Op::Read(p % c)]) } else if i + 2 < n { Op::Force(n - 2 - i) } else { Op::Ret(false) },
            _ => unreachable!(),
        }
    }
    pub fn op(&self, p: usize, trail: &Vec<u8>, nh: usize, constant: bool) -> Op {
        if self.b.fam > 0 { self.side.set(trail.get(1) == Some(&1)); return self.fam_op(p, trail.len()) }
        let key = (p, trail.clone());
        if let Some(o) = self.ops.borrow().get(&key) { return *o }
        let b = &self.b;
        let mut menu: Vec<Op> = vec![Op::Ret(false)];
        if nh > 0 && b.retart { menu.push(Op::Ret(true)); }
        let len = if p >= self.nstatic { b.calllen } else if p + 1 == self.nstatic { b.rootlen } else { b.oplen };
        if trail.len() < len {
            let nc = (self.used.get() + 1).min(b.cells);
            for c in 0..nc {
                if b.read { menu.push(Op::Read(c)); }
                for k in 0..b.map { menu.push(Op::Map(c, k)); }
                for k in 0..b.abs { menu.push(Op::Abs(c, k)); }
            }
            if b.force { let lim = self.lim.borrow()[p]; for t in (0..lim).rev() { menu.push(Op::Force(t)); } }
            if b.branch && !constant && trail.last().map_or(true, |x| *x == 2) && trail.len() + 1 < len { menu.push(Op::Branch); }
            if self.nsite.get() < b.alloc { menu.push(Op::Alloc(self.nsite.get())); }
            if nh < b.put { menu.push(Op::Put); }
            for k in 0..b.tmap { let lim = self.lim.borrow()[p]; for t in (0..lim).rev() { menu.push(Op::ForceMap(t, k)); } }
            for k in 0..b.lmap { for h in 0..nh { menu.push(Op::LookMap(h, k)); } }
            if b.look { for h in 0..nh { menu.push(Op::Look(h)); } }
            if b.share { for q in self.nstatic.max(p + 1)..self.nprog.get() { let l = self.lim.borrow(); if l[q] <= l[p] { menu.push(Op::Call(q)); } } }
            if self.nprog.get() < b.progs { menu.push(Op::Call(self.nprog.get())); }
        }
        let o = menu[choose("op", menu.len())];
        match o {
            Op::Read(c) | Op::Map(c, _) | Op::Abs(c, _) => self.used.set(self.used.get().max(c + 1)),
            Op::Alloc(_) => self.nsite.set(self.nsite.get() + 1),
            Op::Call(q) if q < self.nprog.get() => {}
            Op::Call(_) => { self.nprog.set(self.nprog.get() + 1); let l = self.lim.borrow()[p]; self.lim.borrow_mut().push(l); }
            _ => {}
        }
        self.ops.borrow_mut().insert(key, o);
        o
    }
}

pub fn interp<V: Val, M: Mach<V>>(env: &Env<V>, m: &mut M, p: usize, v0: Option<V>, hs: &[M::H]) -> R<V, M::H> {
    m.enter(p, v0);
    let long = bound_or("long", 0) == 1;
    let mut acc = v0.unwrap_or_else(|| V::lit(if long { 0 } else { p as i64 }));
    let mut constant = v0.is_none();
    let mut hs: Vec<M::H> = hs.to_vec();
    let mut trail: Vec<u8> = vec![];
    loop {
        let o = env.op(p, &trail, hs.len(), constant);
        let mut mixin: Option<V> = None;
        let mut tr = 2;
        match o {
            Op::Ret(a) => return R { v: acc, h: if a { hs.last().cloned() } else { None } },
            Op::Read(c) => mixin = Some(m.read(c)),
            Op::Map(c, k) => mixin = Some(m.map(c, k)),
            Op::Abs(c, k) => mixin = Some(m.abs(c, k)),
            Op::Force(t) => { let r = m.force(t); if let Some(h) = r.h { hs.push(h); } mixin = Some(r.v) }
            Op::Branch => { tr = if V::pred(&format!("b{}", f_name(p, &trail)), &[acc]) { 1 } else { 0 }; }
            Op::Alloc(s) => { let h = m.alloc(s, acc); hs.push(h); }
            Op::Put => { let h = m.put(acc); hs.push(h); }
            // (a handle that this run did not get is passed over)
            Op::LookMap(h, k) => { if let Some(h) = hs.get(h).cloned() { mixin = Some(m.look_map(&h, k)) } }
            Op::ForceMap(t, k) => mixin = Some(m.force_map(t, k)),
            Op::Look(h) => { if let Some(h) = hs.get(h).cloned() { mixin = Some(m.look(&h)) } }
            Op::Call(q) => { let r = m.call(q, acc, &hs.clone()); if let Some(h) = r.h { hs.push(h); } mixin = Some(r.v) }
            Op::Ns(_) => unreachable!(),
        }
        if let Some(x) = mixin {
            if let (true, Op::Call(_)) = (long, o) { acc = V::lit(0) }
            acc = V::uf(&f_name(p, &trail), &[acc, x]);
            constant = false;
        }
        trail.push(tr);
    }
}

// ---------------------------------------------------------------- what was done
use adapton::reflect;
pub type RLoc = reflect::Loc;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Case { Get, Hit, Miss }
/// One thing that happened, as a trace should show it.  `src` is None for the editor.
#[derive(Clone, Debug, PartialEq)]
pub enum Did {
    Force { src: Option<RLoc>, loc: RLoc, case: Case, dup: bool },
    Forced,
    Begin(RLoc),
    End(RLoc),
    Alloc { src: Option<RLoc>, loc: RLoc, fresh: bool, changed: bool, thunk: bool },
    /// A debugging effect, or the beginning of a debugging extent
    Note(Option<Name>, Option<String>),
    NoteEnd,
}
pub struct Rec<V> {
    pub on: bool,
    pub did: Vec<Did>,
    /// the cell that was last set
    pub stored: Option<RLoc>,
    stack: Vec<(RLoc, Vec<RLoc>)>,
    /// thunks that have a result
    valued: Vec<RLoc>,
    /// what was last allocated
    cells: Vec<(RLoc, V)>,
    args: Vec<(RLoc, Arg<V>)>,
    arts: Vec<(RLoc, Art<V>)>,
    dbg: HashMap<usize, usize>,
}
impl<V> Rec<V> { fn new() -> Self { Rec { on: false, did: vec![], stored: None, stack: vec![], valued: vec![], cells: vec![], args: vec![], arts: vec![], dbg: HashMap::new() } } }
/// Structurally identified locations have no name, but a hash.
pub fn is_structural(l: &RLoc) -> bool { format!("{:?}", l.name) == "Hash64" }
/// Immutable cells, and structural thunks without effects, are observed without edges.
pub fn pure(l: &RLoc) -> bool {
    is_structural(l) && match reflect::dcg_reflect_now().unwrap().table.get(l) { Some(reflect::Node::Comp(n)) => n.succs.is_empty(), Some(reflect::Node::Pure(_)) => true, _ => false }
}
pub fn art_loc<T: std::fmt::Debug>(a: &Art<T>) -> RLoc { match reflect::reflect_val(a) { reflect::Val::Art(l, _) => l, _ => unreachable!() } }
fn dirty_edges() -> usize { let d = reflect::dcg_reflect_now().unwrap(); d.table.iter().map(|(_, n)| reflect::succs_of_node(n).map_or(0, |s| s.iter().filter(|s| s.dirty).count())).sum() }
pub fn loc_of(n: Name) -> RLoc { RLoc { path: vec![], name: n } }
impl<V: Val> Env<V> {
    fn src(&self) -> Option<RLoc> { self.rec.borrow().stack.last().map(|s| s.0.clone()) }
    pub fn on(&self) -> bool { self.rec.borrow().on }
    pub fn r_begin(&self, l: &RLoc) { let mut r = self.rec.borrow_mut(); r.did.push(Did::Begin(l.clone())); r.stack.push((l.clone(), vec![])); }
    pub fn r_end(&self, l: &RLoc) { let mut r = self.rec.borrow_mut(); r.did.push(Did::End(l.clone())); r.stack.pop(); if !r.valued.contains(l) { r.valued.push(l.clone()) } }
    /// A demand is about to happen; `full` unless it is through a mapping that is recorded.
    pub fn r_force(&self, l: &RLoc, thunk: bool, full: bool) {
        let src = self.src();
        let mut r = self.rec.borrow_mut();
        let case = if !thunk { Case::Get } else if r.valued.contains(l) { Case::Hit } else { Case::Miss };
        let dup = full && r.stack.last().map_or(false, |s| s.1.contains(l));
        r.did.push(Did::Force { src, loc: l.clone(), case, dup });
    }
    pub fn r_forced(&self, l: &RLoc, thunk: bool, full: bool) {
        let mut r = self.rec.borrow_mut();
        if full && !pure(l) { if let Some(s) = r.stack.last_mut() { s.1.push(l.clone()) } }
        if thunk { r.did.push(Did::Forced); }
    }
    pub fn r_cell(&self, l: &RLoc, v: V, a: &Art<V>) {
        let src = self.src();
        let old = self.rec.borrow().cells.iter().find(|c| c.0 == *l).map(|c| c.1);
        let changed = old.map_or(false, |o| o != v);
        let mut r = self.rec.borrow_mut();
        r.did.push(Did::Alloc { src, loc: l.clone(), fresh: old.is_none(), changed, thunk: false });
        r.cells.retain(|c| c.0 != *l);
        r.cells.push((l.clone(), v));
        if !r.arts.iter().any(|c| c.0 == *l) { r.arts.push((l.clone(), a.clone())); }
    }
    pub fn r_thunk(&self, l: &RLoc, a: &Arg<V>) {
        let src = self.src();
        let old = self.rec.borrow().args.iter().find(|c| c.0 == *l).map(|c| c.1.clone());
        let changed = old.as_ref().map_or(false, |o| o != a);
        let mut r = self.rec.borrow_mut();
        r.did.push(Did::Alloc { src, loc: l.clone(), fresh: old.is_none(), changed, thunk: true });
        r.args.retain(|c| c.0 != *l);
        r.args.push((l.clone(), a.clone()));
        if changed { r.valued.retain(|c| c != l) }
    }
    pub fn r_set(&self, l: &RLoc, v: V) { let mut r = self.rec.borrow_mut(); r.stored = Some(l.clone()); if let Some(c) = r.cells.iter_mut().find(|c| c.0 == *l) { c.1 = v } }
    /// Where a handle points, if it is a location.
    fn at(&self, h: &Art<V>) -> Option<RLoc> { self.rec.borrow().arts.iter().find(|c| c.1 == *h).map(|c| c.0.clone()) }
    /// Debugging effects around body p: 0 none, 1 a message, 2 an extent.
    fn stored(&self, s: usize, a: &Art<V>, v: V) { let mut d = self.dyns.borrow_mut(); d.retain(|d| d.0 != s); d.push((s, a.clone(), v)); d.sort_by_key(|d| d.0); }
    fn dbg(&self, p: usize) -> usize {
        if bound_or("dbg", 0) == 0 { return 0 }
        if let Some(d) = self.rec.borrow().dbg.get(&p) { return *d }
        let d = choose("debug", 3);
        self.rec.borrow_mut().dbg.insert(p, d);
        d
    }
}

// ---------------------------------------------------------------- the engine
pub type Res<V> = R<V, Art<V>>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Arg<V> { pub v: Option<V>, pub hs: Vec<Art<V>> }
#[derive(Clone)]
pub struct Real<V: Val>(pub Rc<Env<V>>);
pub fn mapk<V: Val>(k: usize, x: V) -> V { V::uf(&format!("m{}", k), &[x]) }
pub fn mk_thunk<V: Val>(env: &Rc<Env<V>>, n: Name, p: usize, arg: Arg<V>) -> Art<Res<V>> {
    let e = env.clone();
    let named = !(env.b.structural && n == name_of_str("ignored"));
    let l0 = Rc::new(RefCell::new(loc_of(n.clone())));
    let l1 = l0.clone();
    let targ = arg.clone();
    if env.on() && named { env.r_thunk(&l0.borrow(), &arg); }
    let a = thunk(NameChoice::Nominal(n), pt(p), Rc::new(Box::new(move |a: Arg<V>, _: ()| {
        if !e.on() { return interp(&e, &mut Real(e.clone()), p, a.v, &a.hs) }
        let l = l0.borrow().clone();
        e.r_begin(&l);
        let d = e.dbg(p);
        if d == 1 { reflect::debug_effect(Some(name_of_usize(p)), None); e.rec.borrow_mut().did.extend(vec![Did::Note(Some(name_of_usize(p)), None), Did::NoteEnd]); }
        if d == 2 { reflect::debug_begin(None, Some("body".into())); e.rec.borrow_mut().did.push(Did::Note(None, Some("body".into()))); }
        let r = interp(&e, &mut Real(e.clone()), p, a.v, &a.hs);
        if d == 2 { reflect::debug_end(); e.rec.borrow_mut().did.push(Did::NoteEnd); }
        e.r_end(&l);
        r
    })), arg, ());
    if env.on() && !named { *l1.borrow_mut() = art_loc(&a); env.r_thunk(&l1.borrow(), &targ); }
    a
}
/// The mapping family { m_k }: a difference is the pair of contents, an abstract mapping a set of k's.
pub struct Fam<V>(pub std::marker::PhantomData<V>);
impl<V: Val> AbsMapFam<usize, BTreeSet<usize>, V, (V, V), V> for Fam<V> {
    fn map(&self, k: usize, x: V) -> V { mapk(k, x) }
    fn abs(&self, k: usize) -> BTreeSet<usize> { let mut s = BTreeSet::new(); s.insert(k); s }
    fn join(&self, a: BTreeSet<usize>, b: BTreeSet<usize>) -> BTreeSet<usize> { a.union(&b).cloned().collect() }
    fn diff(&self, a: &V, b: &V) -> (V, V) { (*a, *b) }
    fn is_dirty(&self, d: (V, V), s: &BTreeSet<usize>) -> bool { s.iter().any(|k| mapk(*k, d.0) != mapk(*k, d.1)) }
}
impl<V: Val> Mach<V> for Real<V> {
    type H = Art<V>;
    fn enter(&mut self, p: usize, v: Option<V>) { self.0.log.borrow_mut().push(p); self.0.logv.borrow_mut().push(v); }
    fn read(&mut self, c: usize) -> V { let a = self.0.cells.borrow()[c].clone(); self.get(Some(loc_of(name_c(c))), false, true, || force(&a)) }
    fn map(&mut self, c: usize, k: usize) -> V { let a = self.0.cells.borrow()[c].clone(); self.get(Some(loc_of(name_c(c))), false, false, || force_map(&a, move |_, x| mapk(k, x))) }
    fn abs(&mut self, c: usize, k: usize) -> V { let a = self.0.cells.borrow()[c].clone(); self.get(Some(loc_of(name_c(c))), false, false, || force_abs(Box::new(Fam(std::marker::PhantomData)), k, a)) }
    fn force(&mut self, t: usize) -> Res<V> { let a = self.0.thunks.borrow()[t].clone(); if self.0.b.cyc { force_cycle(&a, Some(R { v: V::lit(-1), h: None })) } else { self.get(Some(loc_of(name_t(t))), true, true, || force(&a)) } }
    fn alloc(&mut self, s: usize, v: V) -> Art<V> {
        if self.0.b.structural {
            let a = structural(|| cell(name_of_str("ignored"), v));
            if self.0.on() { self.0.r_cell(&art_loc(&a), v, &a); }
            return a
        }
        let n = name_site(s);
        let same = bound_or("firewall", 0) == 1 && { let d = self.0.dyns.borrow(); d.iter().any(|d| d.0 == s && d.2 == v) };
        let before = if same { dirty_edges() } else { 0 };
        let a = cell(n.clone(), v);
        if same { cover("equal content"); claim_bool::<V>(dirty_edges() == before, "storing an equal value in a cell dirties its observers"); }
        if self.0.on() { self.0.r_cell(&loc_of(n), v, &a); }
        self.0.stored(s, &a, v);
        a
    }
    fn look(&mut self, h: &Art<V>) -> V { let l = self.at(h); self.get(l, false, true, || force(h)) }
    fn put(&mut self, v: V) -> Art<V> { put(v) }
    fn look_map(&mut self, h: &Art<V>, k: usize) -> V { let l = self.at(h); self.get(l, false, false, || force_map(h, move |_, x| mapk(k, x))) }
    fn force_map(&mut self, t: usize, k: usize) -> V { let a = self.0.thunks.borrow()[t].clone(); self.get(Some(loc_of(name_t(t))), true, true, || force_map(&a, move |_, r: Res<V>| mapk(k, r.v))) }
    fn call(&mut self, p: usize, v: V, hs: &[Art<V>]) -> Res<V> {
        let arg = Arg { v: Some(v), hs: hs.to_vec() };
        if self.0.b.structural {
            let go = || structural(|| mk_thunk(&self.0, name_of_str("ignored"), p, arg));
            let get = || { let a = go(); let l = if self.0.on() { Some(art_loc(&a)) } else { None }; self.get(l, true, true, || force(&a)) };
            return if self.0.inside { structural(get) } else { get() }
        }
        let a = mk_thunk(&self.0, name_call(p), p, arg.clone());
        { let mut cs = self.0.calls.borrow_mut(); cs.retain(|c| c.0 != p); cs.push((p, a.clone(), arg)); cs.sort_by_key(|c| c.0); }
        self.get(Some(loc_of(name_call(p))), true, true, || force(&a))
    }
}
impl<V: Val> Real<V> {
    fn get<T>(&self, l: Option<RLoc>, thunk: bool, full: bool, f: impl FnOnce() -> T) -> T {
        match l {
            Some(l) if self.0.on() => { self.0.r_force(&l, thunk, full); let r = f(); self.0.r_forced(&l, thunk, full); r }
            _ => f(),
        }
    }
    fn at(&self, h: &Art<V>) -> Option<RLoc> { if self.0.on() { self.0.at(h) } else { None } }
}

// ---------------------------------------------------------------- from scratch
pub struct Scratch<'a, V: Val> { pub env: &'a Env<V>, pub ran: Vec<usize>, pub ranv: Vec<Option<V>> }
impl<'a, V: Val> Scratch<'a, V> { pub fn force_(&mut self, t: usize) -> R<V, V> { Mach::<V>::force(self, t) } }
impl<'a, V: Val> Mach<V> for Scratch<'a, V> {
    type H = V;
    fn enter(&mut self, p: usize, v: Option<V>) { self.ran.push(p); self.ranv.push(v); }
    fn read(&mut self, c: usize) -> V { self.env.cur.borrow()[c] }
    fn map(&mut self, c: usize, k: usize) -> V { mapk(k, self.read(c)) }
    fn abs(&mut self, c: usize, k: usize) -> V { mapk(k, self.read(c)) }
    fn force(&mut self, t: usize) -> R<V, V> { let e = self.env; let a = e.targ.borrow()[t]; interp(e, self, t, a, &[]) }
    fn alloc(&mut self, _s: usize, v: V) -> V { v }
    fn look(&mut self, h: &V) -> V { *h }
    fn put(&mut self, v: V) -> V { v }
    fn look_map(&mut self, h: &V, k: usize) -> V { mapk(k, *h) }
    fn force_map(&mut self, t: usize, k: usize) -> V { mapk(k, self.force(t).v) }
    fn call(&mut self, p: usize, v: V, hs: &[V]) -> R<V, V> { let e = self.env; interp(e, self, p, Some(v), hs) }
}

// ---------------------------------------------------------------- reference memo table
const PUT: usize = 1 << 20;
#[derive(Clone)]
enum Obs<V> { In(usize, V), Map(usize, usize, V), Abs(usize, usize, V), Dyn(usize, V), DynMap(usize, usize, V), Thunk(usize, V, Option<usize>), AllocC(usize, u64), AllocT(usize, u64) }
struct Memo<V> { res: Option<R<V, usize>>, obs: Vec<Obs<V>>, arg: Option<V>, hs: Vec<usize>, ver: u64 }
/// Runs a body only if it never ran, its argument changed, or one of the observations its last
/// run made (checked in order) has changed.
pub struct Sim<'a, V: Val> {
    pub env: &'a Env<V>,
    memo: &'a mut SimStore<V>,
    stack: Vec<Vec<Obs<V>>>,
}
/// Structurally identified thunks: program and arguments; their memo keys start here.
const SKEY: usize = 1 << 16;
pub struct SimStore<V> { skeys: Vec<(usize, V, Vec<usize>)>, memo: HashMap<usize, Memo<V>>, heap: HashMap<usize, (V, u64)>, pub runs: Vec<usize> }
impl<V> SimStore<V> { pub fn new() -> Self { SimStore { skeys: vec![], memo: HashMap::new(), heap: HashMap::new(), runs: vec![] } } }
impl<'a, V: Val> Sim<'a, V> {
    pub fn new(env: &'a Env<V>, memo: &'a mut SimStore<V>) -> Self { Sim { env, memo, stack: vec![] } }
    pub fn demand(&mut self, p: usize) -> R<V, usize> {
        let m = self.memo.memo.entry(p).or_insert(Memo { res: None, obs: vec![], arg: None, hs: vec![], ver: 0 });
        if let Some(r) = m.res.clone() {
            let obs = m.obs.clone();
            let mut changed = false;
            for o in obs {
                changed = match o {
                    Obs::In(c, v) => self.env.cur.borrow()[c] != v,
                    Obs::Map(c, k, v) => mapk(k, self.env.cur.borrow()[c]) != v,
                    // the family's difference test is about contents, so any relevant difference since then may re-run
                    Obs::Abs(c, _, v) => self.env.cur.borrow()[c] != v,
                    Obs::Dyn(s, v) => self.memo.heap[&s].0 != v,
                    Obs::DynMap(s, k, v) => mapk(k, self.memo.heap[&s].0) != v,
                    Obs::Thunk(t, v, h) => { let r = self.demand(t); r.v != v || !self.same_h(r.h, h) }
                    Obs::AllocC(s, n) => self.memo.heap[&s].1 != n,
                    Obs::AllocT(t, n) => self.memo.memo[&t].ver != n,
                };
                if changed { break }
            }
            if !changed { return r }
        }
        let (arg, hs) = { let m = &self.memo.memo[&p]; (if p < self.env.nstatic { self.env.targ.borrow()[p] } else { m.arg }, m.hs.clone()) };
        self.stack.push(vec![]);
        let e = self.env;
        let prog = if p >= SKEY { self.memo.skeys[p - SKEY].0 } else { p };
        let r = interp(e, self, prog, arg, &hs);
        let obs = self.stack.pop().unwrap();
        let m = self.memo.memo.get_mut(&p).unwrap();
        m.res = Some(r.clone());
        m.obs = obs;
        r
    }
    fn same_h(&self, a: Option<usize>, b: Option<usize>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b || a >= PUT && b >= PUT && self.memo.heap[&a].0 == self.memo.heap[&b].0,
            _ => false,
        }
    }
    fn note(&mut self, o: Obs<V>) { if let Some(f) = self.stack.last_mut() { f.push(o); } }
}
impl<'a, V: Val> Mach<V> for Sim<'a, V> {
    type H = usize;
    fn enter(&mut self, p: usize, _: Option<V>) { self.memo.runs.push(p); }
    fn read(&mut self, c: usize) -> V { let v = self.env.cur.borrow()[c]; self.note(Obs::In(c, v)); v }
    fn map(&mut self, c: usize, k: usize) -> V { let v = mapk(k, self.env.cur.borrow()[c]); self.note(Obs::Map(c, k, v)); v }
    fn abs(&mut self, c: usize, k: usize) -> V { let v = self.env.cur.borrow()[c]; self.note(Obs::Abs(c, k, v)); mapk(k, v) }
    fn force(&mut self, t: usize) -> R<V, usize> { let r = self.demand(t); self.note(Obs::Thunk(t, r.v, r.h)); r }
    fn alloc(&mut self, s: usize, v: V) -> usize {
        if self.env.b.structural { return self.put(v) }
        let n = match self.memo.heap.get(&s) { None => 0, Some((w, n)) => { let n = *n; if *w != v { n + 1 } else { n } } };
        self.memo.heap.insert(s, (v, n));
        self.note(Obs::AllocC(s, n));
        s
    }
    fn look(&mut self, h: &usize) -> V { let v = self.memo.heap[h].0; if *h < PUT { self.note(Obs::Dyn(*h, v)); } v }
    fn put(&mut self, v: V) -> usize { let h = PUT + self.memo.heap.len(); self.memo.heap.insert(h, (v, 0)); h }
    fn look_map(&mut self, h: &usize, k: usize) -> V { let v = mapk(k, self.memo.heap[h].0); if *h < PUT { self.note(Obs::DynMap(*h, k, v)); } v }
    fn force_map(&mut self, t: usize, k: usize) -> V { mapk(k, self.force(t).v) }
    fn call(&mut self, p: usize, v: V, hs: &[usize]) -> R<V, usize> {
        if self.env.b.structural {
            let ks = self.memo.skeys.clone();
            let i = match ks.iter().position(|(q, w, gs)| *q == p && gs.len() == hs.len() && *w == v && gs.iter().zip(hs).all(|(a, b)| self.same_h(Some(*a), Some(*b)))) {
                Some(i) => { cover("shared"); i }
                None => { self.memo.skeys.push((p, v, hs.to_vec())); ks.len() }
            };
            self.memo.memo.entry(SKEY + i).or_insert(Memo { res: None, obs: vec![], arg: Some(v), hs: hs.to_vec(), ver: 0 });
            return self.force(SKEY + i)
        }
        let m = self.memo.memo.entry(p).or_insert(Memo { res: None, obs: vec![], arg: None, hs: vec![], ver: 0 });
        let (ohs, oarg) = (m.hs.clone(), m.arg);
        let same = ohs.len() == hs.len() && oarg.map_or(false, |w| w == v) && ohs.iter().zip(hs).all(|(a, b)| self.same_h(Some(*a), Some(*b)));
        let m = self.memo.memo.get_mut(&p).unwrap();
        if !same { m.res = None; m.arg = Some(v); m.hs = hs.to_vec(); m.ver += 1; }
        let n = m.ver;
        self.note(Obs::AllocT(p, n));
        self.force(p)
    }
}

// ---------------------------------------------------------------- the editor
#[derive(Clone, Copy, Default)]
pub struct Checks { pub result: bool, pub minimal: bool, pub lazy: bool, pub wf: bool, pub trace: bool, pub count: bool, pub rec: bool }

pub fn name_c(c: usize) -> Name { name_pair(name_of_str("in"), name_of_usize(c)) }
pub fn name_site(s: usize) -> Name { name_pair(name_of_str("site"), name_of_usize(s)) }
pub fn name_call(p: usize) -> Name { name_pair(name_of_str("call"), name_of_usize(p)) }
pub fn name_t(t: usize) -> Name { name_pair(name_of_str("thunk"), name_of_usize(t)) }

pub struct Session<V: Val> {
    pub env: Rc<Env<V>>,
    pub sim: SimStore<V>,
    pub ck: Checks,
    /// run before and after each operation of the editor
    pub hooks: Option<(fn(&mut Session<V>), fn(&mut Session<V>))>,
}
impl<V: Val> Session<V> {
    fn clear(&self) { self.env.log.borrow_mut().clear(); self.env.logv.borrow_mut().clear(); }
    fn before(&mut self) { if let Some(h) = self.hooks { h.0(self) } }
    fn after(&mut self) { if let Some(h) = self.hooks { h.1(self) } }
    pub fn new(ck: Checks) -> Self {
        let env = Env::<V>::new();
        env.rec.borrow_mut().on = ck.rec;
        for c in 0..env.b.cells {
            let v = V::input(&format!("c{}", c));
            let a = cell(name_c(c), v);
            if ck.rec { env.r_cell(&loc_of(name_c(c)), v, &a); }
            env.cur.borrow_mut().push(v);
            env.cells.borrow_mut().push(a);
        }
        for t in 0..env.nstatic {
            let v = if bound_or("args", 0) == 1 { Some(V::input(&format!("a{}", t))) } else { None };
            env.targ.borrow_mut()[t] = v;
            let a = mk_thunk(&env, name_t(t), t, Arg { v, hs: vec![] });
            env.thunks.borrow_mut().push(a);
        }
        claim_bool::<V>(env.log.borrow().is_empty(), "creating thunks and cells ran a thunk body");
        Session { env, sim: SimStore::new(), ck, hooks: None }
    }
    pub fn set(&mut self, c: usize, v: V) {
        self.clear();
        let a = self.env.cells.borrow()[c].clone();
        self.before();
        set(&a, v);
        self.env.cur.borrow_mut()[c] = v;
        if self.ck.rec { self.env.r_set(&loc_of(name_c(c)), v); }
        self.after();
        if self.ck.lazy { claim_bool::<V>(self.env.log.borrow().is_empty(), "changing a cell ran a thunk body"); }
    }
    /// Stores into an input cell by allocating its name again.
    pub fn realloc(&mut self, c: usize, v: V) {
        self.clear();
        let a = self.env.cells.borrow()[c].clone();
        self.before();
        let b = cell(name_c(c), v);
        self.env.cur.borrow_mut()[c] = v;
        if self.ck.rec { self.env.r_cell(&loc_of(name_c(c)), v, &b); }
        self.after();
        claim_bool::<V>(a == b, "allocating an existing name gives another articulation");
        if choose("keep", 2) == 1 { self.env.cells.borrow_mut()[c] = b; }
        claim_bool::<V>(self.env.log.borrow().is_empty(), "allocating a cell ran a thunk body");
        cover("realloc");
    }
    /// Allocates static thunk t again, with argument v.
    pub fn rethunk(&mut self, t: usize, v: V) {
        self.clear();
        let a = self.env.thunks.borrow()[t].clone();
        self.before();
        let b = mk_thunk(&self.env, name_t(t), t, Arg { v: Some(v), hs: vec![] });
        let old = self.env.targ.borrow()[t].unwrap();
        self.env.targ.borrow_mut()[t] = Some(v);
        self.after();
        claim_bool::<V>(a == b, "allocating a thunk under an existing name gives another articulation");
        if choose("keep", 2) == 1 { self.env.thunks.borrow_mut()[t] = b; }
        claim_bool::<V>(self.env.log.borrow().is_empty(), "allocating a thunk ran a thunk body");
        if self.ck.minimal {
            if let Some(m) = self.sim.memo.get_mut(&t) { if old != v { m.res = None; m.ver += 1; cover("new argument") } else { cover("same argument") } }
        }
        cover("rethunk");
    }
    /// Stores into a cell that a thunk allocated.
    pub fn dyn_store(&mut self, i: usize, again: bool, v: V) {
        self.clear();
        let (s, a, old) = self.env.dyns.borrow()[i].clone();
        self.before();
        if again {
            let b = cell(name_site(s), v);
            claim_bool::<V>(a == b, "allocating an existing name gives another articulation");
            if self.ck.rec { self.env.r_cell(&loc_of(name_site(s)), v, &b); }
        } else {
            set(&a, v);
            if self.ck.rec { self.env.r_set(&loc_of(name_site(s)), v); }
        }
        self.env.stored(s, &a, v);
        self.after();
        claim_bool::<V>(self.env.log.borrow().is_empty(), "storing into a cell ran a thunk body");
        if self.ck.minimal { if let Some((w, n)) = self.sim.heap.get_mut(&s) { if old != v { *w = v; *n += 1; } } }
        cover("stored into a thunk's cell");
        self.contents();
    }
    /// Allocates a thunk that a thunk allocated again, with argument v.
    pub fn dyn_thunk(&mut self, i: usize, v: V) {
        self.clear();
        let (p, a, old) = self.env.calls.borrow()[i].clone();
        let arg = Arg { v: Some(v), hs: old.hs.clone() };
        self.before();
        let b = mk_thunk(&self.env, name_call(p), p, arg.clone());
        self.env.calls.borrow_mut()[i].2 = arg;
        self.after();
        claim_bool::<V>(a == b, "allocating a thunk under an existing name gives another articulation");
        claim_bool::<V>(self.env.log.borrow().is_empty(), "allocating a thunk ran a thunk body");
        if self.ck.minimal { if let Some(m) = self.sim.memo.get_mut(&p) { if m.arg.map_or(false, |w| w != v) { m.res = None; m.arg = Some(v); m.ver += 1; } } }
        cover("re-allocated a thunk's thunk");
        if bound_or("dyndemand", 0) == 1 && old.hs.is_empty() && flag("demand it") {
            self.clear();
            self.before();
            if self.ck.rec { self.env.r_force(&loc_of(name_call(p)), true, true); }
            let got = force(&a);
            if self.ck.rec { self.env.r_forced(&loc_of(name_call(p)), true, true); }
            self.after();
            self.judge_at(p, Some(v), got);
            cover("demanded a thunk's thunk");
        }
    }
    pub fn contents(&self) {
        for (_, a, v) in self.env.dyns.borrow().iter() { V::claim_eq(force(a), *v, "a cell that a thunk allocated does not hold the value last stored in it"); }
        for (c, v) in self.env.cur.borrow().iter().enumerate() {
            let a = self.env.cells.borrow()[c].clone();
            V::claim_eq(force(&a), *v, "a cell's content is not the value last stored");
        }
    }
    pub fn demand(&mut self, t: usize) {
        self.clear();
        let a = self.env.thunks.borrow()[t].clone();
        self.before();
        if self.ck.rec { self.env.r_force(&loc_of(name_t(t)), true, true); }
        let got = force(&a);
        if self.ck.rec { self.env.r_forced(&loc_of(name_t(t)), true, true); }
        self.after();
        self.judge(t, got);
    }
    /// Checks the outcome of forcing static thunk t.
    pub fn judge(&mut self, t: usize, got: Res<V>) { let v = self.env.targ.borrow()[t]; self.judge_at(t, v, got) }
    fn judge_at(&mut self, t: usize, v: Option<V>, got: Res<V>) {
        let env = self.env.clone();
        let ran = env.log.borrow().clone();
        if !ran.is_empty() { cover("ran") } else { cover("reused") }
        if self.ck.result || self.ck.lazy {
            let mut s = Scratch { env: &env, ran: vec![], ranv: vec![] };
            let want = interp(&env, &mut s, t, v, &[]);
            if self.ck.result {
                V::claim_eq(got.v, want.v, "a forced thunk's result differs from a from-scratch run");
                claim_bool::<V>(got.h.is_some() == want.h.is_some(), "a forced thunk's result differs from a from-scratch run (articulation)");
                if let (Some(a), Some(w)) = (&got.h, want.h) {
                    V::claim_eq(force(a), w, "the articulation a thunk returned holds something else than in a from-scratch run");
                }
            }
            if self.ck.lazy {
                let args = env.logv.borrow().clone();
                for (p, v) in ran.iter().zip(&args) {
                    claim_bool::<V>(s.ran.contains(p), "a force ran a body that a from-scratch run of it does not run");
                    if let Some(v) = v {
                        let bs: Vec<V::B> = s.ran.iter().zip(&s.ranv).filter(|(q, w)| *q == p && w.is_some()).map(|(_, w)| V::eq_b(*v, w.unwrap())).collect();
                        V::claim(V::or_b(&bs), "a force ran a body on an argument that a from-scratch run does not give it");
                    }
                }
                if s.ran.len() > ran.len() { cover("spared") }
            }
        }
        if self.ck.minimal {
            self.sim.runs.clear();
            let mut sim = Sim::new(&env, &mut self.sim);
            let r = sim.demand(t);
            if !self.ck.result { V::note(r.v); }
            let runs = self.sim.runs.clone();
            for p in 0..env.nprog.get() {
                let e = ran.iter().filter(|x| **x == p).count();
                let w = runs.iter().filter(|x| **x == p).count();
                claim_bool::<V>(e <= w, "a thunk body ran although nothing its previous run observed has changed");
                if e > 0 && e == w { cover("needed") }
            }
        }
    }
}

/// Any of n, or, in the long forms, one near an end or in the middle.
fn one_of(label: &str, n: usize) -> usize {
    if bound_or("long", 0) == 0 || n < 6 { return choose(label, n) }
    [0, 1, n / 2, n - 2, n - 1][choose(label, 5)]
}
/// rounds of edits followed by a demand
pub fn history<V: Val>(s: &mut Session<V>) {
    let rounds = bound("rounds");
    let sets = bound("sets");
    let root = s.env.nstatic - 1;
    let steady = bound_or("steady", 0) == 1;
    let inner = bound_or("inner", 1) == 1 && !steady;
    for r in 0..rounds {
        if r > 0 {
            // (long histories: an edit of one cell, then a demand of the last thunk)
            let n = if steady { 1 } else { choose("nsets", sets + 1) };
            for i in 0..n {
                if bound_or("args", 0) == 1 && flag("rethunk") {
                    let t = root - one_of("rethunk", s.env.nstatic);
                    s.rethunk(t, V::input("arg"));
                    continue
                }
                let nd = if bound_or("dynset", 0) > 0 { s.env.dyns.borrow().len() } else { 0 };
                if nd > 0 && flag("dynset") {
                    let j = choose("site", nd);
                    s.dyn_store(j, bound_or("dynset", 0) == 2 && flag("realloc"), V::input("dyn"));
                    continue
                }
                let nc = if bound_or("dyncall", 0) > 0 { s.env.calls.borrow().len() } else { 0 };
                if nc > 0 && flag("dyncall") {
                    let j = choose("callee", nc);
                    s.dyn_thunk(j, V::input("dyn"));
                    continue
                }
                let used = s.env.used.get();
                if used == 0 { break }
                let c = one_of("cell", used);
                let v = V::input("set");
                if bound_or("realloc", 0) == 1 && flag("realloc") { s.realloc(c, v); s.contents() } else { s.set(c, v); }
                let _ = i;
            }
        }
        let t = if inner && s.env.nstatic > 1 { root - one_of("demand", s.env.nstatic) } else { root };
        s.demand(t);
        if r > 0 { cover("second round") }
    }
}
