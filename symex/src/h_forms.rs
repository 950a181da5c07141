//! Engines side by side, mapped thunks, the macros.
use crate::lab::*;
use crate::sx::*;
use adapton::engine::*;
use adapton::macros::*;
use adapton::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- E16
/// What is asked of the naive engine: the same program text on the current contents.
fn naive_run<V: Val>(s: &Session<V>, t: usize) -> Res<V> {
    let env = &s.env;
    let was = manage::init_naive();
    claim_bool::<V>(manage::engine_is_naive() && !manage::engine_is_dcg(), "the engine in use is not the one that was switched to");
    let log = env.log.borrow().clone();
    let cells: Vec<Art<V>> = env.cur.borrow().iter().enumerate().map(|(c, v)| cell(name_c(c), *v)).collect();
    let thunks: Vec<Art<Res<V>>> = (0..env.nstatic).map(|t| mk_thunk(env, name_t(t), t, Arg { v: env.targ.borrow()[t], hs: vec![] })).collect();
    claim_bool::<V>(*env.log.borrow() == log, "creating thunks under the naive engine ran a body");
    let cells = env.cells.replace(cells);
    let thunks = env.thunks.replace(thunks);
    let a = env.thunks.borrow()[t].clone();
    let r = force(&a);
    let r2 = force(&a);
    V::claim_eq(r.v, r2.v, "the naive engine answers differently the second time");
    env.cells.replace(cells);
    env.thunks.replace(thunks);
    env.log.replace(log);
    let r = R { v: r.v, h: r.h.map(|h| { let v = force(&h); put(v) }) };
    let naive = manage::use_engine(was);
    claim_bool::<V>(match naive { Engine::Naive => true, _ => false }, "switching engines does not return the engine that was in use");
    r
}
pub fn e16<V: Val>() {
    let ck = Checks { result: true, minimal: true, ..Default::default() };
    let first = manage::init_dcg();
    let _ = first;
    let a = Session::<V>::new(ck);
    let mut ss = vec![a];
    let mut parked: Vec<Option<Engine>> = vec![None];
    let mut at = 0;
    for _ in 0..bound("steps") {
        match choose("step", 5) {
            0 => {
                let s = &mut ss[at];
                let used = s.env.used.get();
                if used == 0 { discard() }
                let c = choose("cell", used);
                let v = V::input("set");
                s.set(c, v);
            }
            1 | 2 => {
                let s = &mut ss[at];
                let root = s.env.nstatic - 1;
                let t = if s.env.nstatic > 1 { root - choose("demand", s.env.nstatic) } else { root };
                s.demand(t);
                if choose("naive too", 2) == 1 {
                    let got = force(&s.env.thunks.borrow()[t].clone());
                    let n = naive_run(s, t);
                    V::claim_eq(n.v, got.v, "the naive and the DCG engine give different results");
                    claim_bool::<V>(n.h.is_some() == got.h.is_some(), "the naive and the DCG engine give different results (articulation)");
                    if let (Some(x), Some(y)) = (&n.h, &got.h) { V::claim_eq(force(x), force(y), "the naive and the DCG engine give different results (articulation)"); }
                    cover("naive");
                }
            }
            _ => {
                // another DCG engine, using the same names
                if ss.len() == 1 {
                    let e = manage::init_dcg();
                    claim_bool::<V>(match e { Engine::DCG(_) => true, _ => false }, "switching engines does not return the engine that was in use");
                    parked[0] = Some(e);
                    let s = Session::<V>::new(ck);
                    ss.push(s);
                    parked.push(None);
                    at = 1;
                } else {
                    let e = parked[1 - at].take().unwrap();
                    parked[at] = Some(manage::use_engine(e));
                    at = 1 - at;
                    cover("back");
                }
                claim_bool::<V>(manage::engine_is_dcg() && !manage::engine_is_naive(), "the engine in use is not the one that was switched to");
            }
        }
    }
}

/// Up to three engines, from empty ones to some with a few nodes; the same names everywhere.
struct Eng<V: Val> { naive: bool, cells: Vec<(usize, Art<V>, V)>, thunk: Option<(Art<V>, usize, V, bool)>, parked: Option<Engine> }
fn eng_check<V: Val>(e: &mut Eng<V>, ran: &Cell<usize>, msg: &str) {
    claim_bool::<V>(manage::engine_is_naive() == e.naive && manage::engine_is_dcg() != e.naive, "the engine in use is not the one that was switched to");
    for (_, a, v) in &e.cells { V::claim_eq(force(a), *v, msg); }
    if !e.naive { let g = reflect::dcg_reflect_now(); claim_bool::<V>(g.map_or(false, |g| g.table.len() == e.cells.iter().map(|c| c.0).collect::<std::collections::HashSet<_>>().len() + e.thunk.is_some() as usize), "an engine has lost or gained nodes"); }
    let _ = ran;
}
pub fn e16b<V: Val>() {
    manage::init_naive();
    let ran = Rc::new(Cell::new(0));
    let mut es: Vec<Eng<V>> = vec![];
    let mut at: Option<usize> = None;
    for _ in 0..bound("steps") {
        let (nes, empty) = (es.len(), at.is_none());
        match choose("step", 5) {
            0 => {
                if nes >= 3 || empty && nes > 0 { discard() }
                let naive = flag("naive");
                let old = match choose("how", 2) {
                    0 => if naive { manage::init_naive() } else { manage::init_dcg() },
                    _ => { let e = if naive { Engine::Naive } else { let cur = manage::init_dcg(); manage::use_engine(cur) }; manage::init_engine(e) }
                };
                if let Some(i) = at { es[i].parked = Some(old) }
                es.push(Eng { naive, cells: vec![], thunk: None, parked: None });
                at = Some(nes);
                eng_check(&mut es[nes], &ran, "a new engine is not empty");
            }
            1 => {
                if nes < 2 { discard() }
                let others: Vec<usize> = (0..nes).filter(|i| Some(*i) != at).collect();
                let j = others[choose("to", others.len())];
                let e = es[j].parked.take().unwrap();
                let old = if flag("init") { manage::init_engine(e) } else { manage::use_engine(e) };
                claim_bool::<V>(match old { Engine::Naive => es[at.unwrap()].naive, _ => !es[at.unwrap()].naive }, "switching engines does not return the engine that was in use");
                es[at.unwrap()].parked = Some(old);
                at = Some(j);
                eng_check(&mut es[j], &ran, "an engine that was switched back to does not hold what it held");
                cover("back");
            }
            2 => {
                let e = match at { Some(i) => &mut es[i], None => discard() };
                let i = choose("name", 2);
                let v = V::input("v");
                if !e.naive && flag("set") {
                    let k = match e.cells.iter().find(|c| c.0 == i) { Some(c) => c.1.clone(), None => discard() };
                    set(&k, v);
                } else {
                    let a = cell(name_c(i), v);
                    e.cells.push((i, a, v));
                }
                if !e.naive { for c in e.cells.iter_mut() { if c.0 == i { c.2 = v } } }
            }
            3 => {
                let e = match at { Some(i) => &mut es[i], None => discard() };
                if e.naive || e.thunk.is_some() || e.cells.is_empty() { discard() }
                let (c, ran) = (e.cells[0].clone(), ran.clone());
                let v = V::input("v");
                let ca = c.1.clone();
                let a = thunk(NameChoice::Nominal(name_t(0)), pt(0), Rc::new(Box::new(move |v: V, _: ()| { ran.set(ran.get() + 1); V::uf("t", &[v, force(&ca)]) })), v, ());
                e.thunk = Some((a, c.0, v, false));
            }
            _ => {
                let e = match at { Some(i) => &mut es[i], None => discard() };
                let (a, c, v, seen) = match &e.thunk { Some(t) => t.clone(), None => discard() };
                let cur = e.cells.iter().find(|x| x.0 == c).unwrap().2;
                ran.set(0);
                V::claim_eq(force(&a), V::uf("t", &[v, cur]), "a thunk of an engine that was switched to gives something else than its inputs there");
                if !seen { claim_bool::<V>(ran.get() == 1, "a thunk never demanded has a result"); cover("first") }
                let _ = force(&a);
                claim_bool::<V>(ran.get() <= 1, "nothing changed, but the thunk ran again");
                e.thunk = Some((a, c, v, true));
                cover("forced");
            }
        }
    }
    if let Some(i) = at { eng_check(&mut es[i], &ran, "an engine does not hold what it held"); }
}

// ---------------------------------------------------------------- E17
#[derive(Clone)]
enum Src<V: Val> { Cell(usize), Thunk(usize), Put(V), Naive(V), Map(usize, usize) }
struct Maps<V: Val> { cur: Vec<V>, src: Vec<Src<V>> }
impl<V: Val> Maps<V> {
    fn val(&self, i: usize) -> V {
        match &self.src[i] {
            Src::Cell(c) => self.cur[*c],
            Src::Thunk(c) => V::uf("g", &[self.cur[*c]]),
            Src::Put(v) => *v,
            Src::Naive(v) => V::uf("n", &[*v]),
            Src::Map(k, j) => mapk(*k, self.val(*j)),
        }
    }
}
fn mapping<V: Val>(k: usize) -> Rc<dyn Fn(V) -> V> { Rc::new(move |x| mapk(k, x)) }
pub fn e17<V: Val>() {
    let naive = choose("engine", 2) == 1;
    if naive { manage::init_naive(); } else { manage::init_dcg(); }
    let ncells = bound("cells");
    let mut m = Maps { cur: (0..ncells).map(|i| V::input(["c0", "c1"][i])).collect(), src: vec![] };
    let cells: Vec<Art<V>> = (0..ncells).map(|i| cell(name_c(i), m.cur[i])).collect();
    let mut arts: Vec<Art<V>> = vec![];
    for c in 0..ncells { m.src.push(Src::Cell(c)); arts.push(cells[c].clone()); }
    let kind = choose("source", 4);
    match kind {
        0 => {}
        1 => { let a = cells[0].clone(); m.src.push(Src::Thunk(0)); arts.push(thunk(NameChoice::Nominal(name_t(0)), pt(0), Rc::new(Box::new(move |_: (), _: ()| V::uf("g", &[force(&a)]))), (), ())); }
        2 => { let v = V::input("put"); m.src.push(Src::Put(v)); arts.push(put(v)); }
        _ => { if !naive { discard() } let v = V::input("arg"); m.src.push(Src::Naive(v)); arts.push(thunk(NameChoice::Nominal(name_t(0)), pt(0), Rc::new(Box::new(move |v: V, _: ()| V::uf("n", &[v]))), v, ())); }
    }
    // (with chain: maps of maps, all but one by the same mapping)
    let chain = bound_or("chain", 0) == 1;
    let at = if chain { choose("at", bound("maps") + 1) } else { 0 };
    for i in 0..bound("maps") {
        let j = arts.len() - 1 - if chain { 0 } else { choose("of", arts.len()) };
        let k = if chain { if i == at { 1 } else { 0 } } else { choose("mapping", bound("mappings")) };
        let a = thunk_map(arts[j].clone(), mapping::<V>(k));
        m.src.push(Src::Map(k, j));
        arts.push(a);
        cover("map");
        if let Src::Map(..) = m.src[j] { cover("nested") }
    }
    let last = arts.len() - 1;
    // reads a mapped articulation
    let reader = { let a = arts[last].clone(); let how = choose("read", 3); thunk(NameChoice::Nominal(name_t(1)), pt(1), Rc::new(Box::new(move |_: (), _: ()| V::uf("r", &[match how { 0 => force(&a), 1 => force_map(&a, |_, x| x), _ => force_cycle(&a, None) }]))), (), ()) };
    // returns one of two mapped articulations, depending on a cell; made before, or made by its body
    let two = [last, last - if chain { [0, 1, last / 2][choose("second", 3)] } else { choose("second", arts.len()) }];
    let inside = choose("made inside", 3);
    let (k2, sel) = (choose("inner mapping", bound("mappings")), cells[ncells - 1].clone());
    let selfn = { let sel = sel.clone(); move || V::pred("sel", &[force(&sel)]) };
    let chooser: Art<Art<V>> = {
        let arts2 = [arts[two[0]].clone(), arts[two[1]].clone()];
        thunk(NameChoice::Nominal(name_t(2)), pt(2), Rc::new(Box::new(move |_: (), _: ()| {
            let i = if selfn() { 0 } else { 1 };
            match inside { 0 => arts2[i].clone(), 1 => thunk_map(arts2[i].clone(), mapping::<V>(k2)), _ => thunk_map(arts2[0].clone(), mapping::<V>(i)) }
        })), (), ())
    };
    let user = { let ch = chooser.clone(); thunk(NameChoice::Nominal(name_t(3)), pt(3), Rc::new(Box::new(move |_: (), _: ()| { let a = force(&ch); V::uf("u", &[force(&a)]) })), (), ()) };
    for s in 0..bound("rounds") {
        if s > 0 {
            if naive { discard() }
            let c = choose("cell", ncells);
            let v = V::input("set");
            set(&cells[c], v);
            m.cur[c] = v;
            cover("edited");
        }
        match choose("demand", 3) {
            0 => V::claim_eq(force(&arts[last]), m.val(last), "a mapped thunk is not the mapping of its source's current value"),
            1 => V::claim_eq(force(&reader), V::uf("r", &[m.val(last)]), "a reader of a mapped thunk is out of date"),
            _ => {
                let i = if V::pred("sel", &[m.cur[ncells - 1]]) { 0 } else { 1 };
                let w = match inside { 0 => m.val(two[i]), 1 => mapk(k2, m.val(two[i])), _ => mapk(i, m.val(two[0])) };
                V::claim_eq(force(&user), V::uf("u", &[w]), "a user of a mapped thunk that another thunk returned is out of date");
            }
        }
    }
}

// ---------------------------------------------------------------- E19
thread_local!(static RUNS: Cell<usize> = Cell::new(0));
fn tick() { RUNS.with(|r| r.set(r.get() + 1)) }
type H<V> = Rc<dyn Fn(V) -> V>;
fn fa<V: Val>(x: V, a: Art<V>) -> V { tick(); V::uf("fa", &[x, get!(a)]) }
fn fb<V: Val>(x: V, a: Art<V>) -> V { tick(); V::uf("fb", &[x, get!(a)]) }
fn ga<V: Val>(x: V, a: Art<V>, h: H<V>) -> V { tick(); h(V::uf("fa", &[x, get!(a)])) }
fn gb<V: Val>(x: V, a: Art<V>, h: H<V>) -> V { tick(); h(V::uf("fb", &[x, get!(a)])) }
fn hh<V: Val>() -> H<V> { Rc::new(|v| V::uf("h", &[v])) }
/// What a form is: does it call through h, does it use its argument x, what it leaves at the name.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Leaves { Thunk, Cell, Fresh }
#[derive(Clone, Copy)]
struct Form { h: bool, x: bool, leaves: Leaves, optional: bool }
const fn fm(h: bool, x: bool, leaves: Leaves, optional: bool) -> Form { Form { h, x, leaves, optional } }
const FORMS: [Form; 25] = [
    fm(false, true, Leaves::Thunk, true),   // 0 thunk!([o]? f; ..)
    fm(false, true, Leaves::Thunk, true),   // 1 thunk!([o]? |..| ..; ..)
    fm(true, true, Leaves::Thunk, true),    // 2 thunk!([o]? ..; .. ;; ..)
    fm(false, true, Leaves::Thunk, false),  // 3 thunk!(n =>> f, ..)
    fm(true, true, Leaves::Thunk, false),   // 4 thunk!(n =>> g, .. ;; ..)
    fm(false, true, Leaves::Thunk, false),  // 5 thunk!([t] f; ..)
    fm(false, false, Leaves::Thunk, true),  // 6 thunk![[o]? body]
    fm(false, false, Leaves::Thunk, false), // 7 thunk![[t] body]
    fm(false, false, Leaves::Fresh, false), // 8 thunk![body]
    fm(false, true, Leaves::Thunk, true),   // 9 memo!([o]? f; ..)
    fm(true, true, Leaves::Thunk, true),    // 10 memo!([o]? g; .. ;; ..)
    fm(false, true, Leaves::Thunk, false),  // 11 memo!(n =>> f, ..)
    fm(true, true, Leaves::Thunk, false),   // 12 memo!(n =>> g, .. ;; ..)
    fm(false, true, Leaves::Thunk, false),  // 13 eager!(n =>> f::<V>, ..)
    fm(false, true, Leaves::Thunk, false),  // 14 eager!(n =>> f, ..)
    fm(false, true, Leaves::Fresh, false),  // 15 eager!(f::<V>, ..)
    fm(false, true, Leaves::Fresh, false),  // 16 eager!(f, ..)
    fm(true, true, Leaves::Thunk, false),   // 17 eager!(n =>> g =>> <V>, .. ;; ..)
    fm(false, true, Leaves::Cell, false),   // 18 cell_call!(n =>> f::<V>, ..)
    fm(false, true, Leaves::Cell, false),   // 19 cell_call!(n =>> f, ..)
    fm(false, true, Leaves::Cell, false),   // 20 let_cell!
    fm(false, false, Leaves::Thunk, false), // 21 let_thunk!
    fm(false, false, Leaves::Thunk, false), // 22 let_memo!
    fm(false, true, Leaves::Cell, true),    // 23 cell!([o]? v)
    fm(false, true, Leaves::Cell, false),   // 24 cell!([t] v)
];
/// One of each sort, for longer histories.
const SUB: [usize; 6] = [0, 2, 7, 9, 14, 23];
/// The forms: the same text for both codes. Returns the articulation (if the form does) and the value.
macro_rules! forms {
    ($f:ident, $g:ident, $i:expr, $o:expr, $x:expr, $a:expr, $V:ty) => {{
        let (o, x, a): (Option<Name>, $V, Art<$V>) = ($o, $x, $a);
        let n = name_of_str("t");
        let got: (Option<Art<$V>>, $V) = match $i {
            0 => { let t = thunk!([o]? $f; x:x, a:a); let v = get!(t); (Some(t), v) }
            1 => { let t = thunk!([o]? |x: $V, a: Art<$V>| $f(x, a); x:x, a:a); let v = get!(t); (Some(t), v) }
            2 => { let t = thunk!([o]? |x: $V, a: Art<$V>, h: H<$V>| $g(x, a, h); x:x, a:a ;; h:hh::<$V>()); let v = get!(t); (Some(t), v) }
            3 => { let t = thunk!(n =>> $f, x:x, a:a); let v = get!(t); (Some(t), v) }
            4 => { let t = thunk!(n =>> $g, x:x, a:a ;; h:hh::<$V>()); let v = get!(t); (Some(t), v) }
            5 => { let t = thunk!([t] $f; x:x, a:a); let v = get!(t); (Some(t), v) }
            6 => { let t: Art<$V> = thunk![[o]? $f(<$V>::lit(7), a.clone())]; let v = get!(t); (Some(t), v) }
            7 => { let t: Art<$V> = thunk![[t] $f(<$V>::lit(7), a.clone())]; let v = get!(t); (Some(t), v) }
            8 => { let t: Art<$V> = thunk![$f(<$V>::lit(7), a.clone())]; let v = get!(t); (Some(t), v) }
            9 => { let (t, v) = memo!([o]? $f; x:x, a:a); (Some(t), v) }
            10 => { let (t, v) = memo!([o]? $g; x:x, a:a ;; h:hh::<$V>()); (Some(t), v) }
            11 => { let v = memo!(n =>> $f, x:x, a:a); (None, v) }
            12 => { let v = memo!(n =>> $g, x:x, a:a ;; h:hh::<$V>()); (None, v) }
            13 => { let (t, v) = eager!(n =>> $f::<$V>, x:x, a:a); (Some(t), v) }
            14 => { let (t, v) = eager!(n =>> $f, x:x, a:a); (Some(t), v) }
            15 => { let (t, v) = eager!($f::<$V>, x:x, a:a); (Some(t), v) }
            16 => { let (t, v) = eager!($f, x:x, a:a); (Some(t), v) }
            17 => { let (t, v) = eager!(n =>> $g =>> <$V>, x:x, a:a ;; h:hh::<$V>()); (Some(t), v) }
            18 => { let t = cell_call!(n =>> $f::<$V>, x:x, a:a); let v = get!(t); (Some(t), v) }
            19 => { let t = cell_call!(n =>> $f, x:x, a:a); let v = get!(t); (Some(t), v) }
            20 => { let t = let_cell!{t = $f(x, a); t}; let v = get!(t); (Some(t), v) }
            21 => { let t: Art<$V> = let_thunk!{t = $f(<$V>::lit(7), a.clone()); t}; let v = get!(t); (Some(t), v) }
            22 => { let v = let_memo!{v =(t)= $f(<$V>::lit(7), a.clone()); v}; (None, v) }
            23 => { let t = cell!([o]? $f(x, a)); let v = get!(t); (Some(t), v) }
            _ => { let t = cell!([t] $f(x, a)); let v = get!(t); (Some(t), v) }
        };
        got
    }}
}
fn invoke<V: Val>(i: usize, code: usize, o: Option<Name>, x: V, a: Art<V>) -> (Option<Art<V>>, V) {
    if code == 0 { forms!(fa, ga, i, o, x, a, V) } else { forms!(fb, gb, i, o, x, a, V) }
}
fn expect<V: Val>(i: usize, code: usize, x: V, c: V) -> V {
    let x = if FORMS[i].x { x } else { V::lit(7) };
    let v = V::uf(["fa", "fb"][code], &[x, c]);
    if FORMS[i].h { V::uf("h", &[v]) } else { v }
}
#[derive(Clone, Copy)]
struct Use<V> { form: usize, code: usize, x: V, c: usize }
/// The editor uses the forms, at one name.
pub fn e19<V: Val>() {
    manage::init_dcg();
    let st = bound_or("structural", 0) == 1;
    let mut cur = [V::input("c0"), V::input("c1")];
    let cells = [cell(name_c(0), cur[0]), cell(name_c(1), cur[1])];
    // what the name holds; articulations returned for it
    let mut named: Option<(Use<V>, Option<V>)> = None;
    let mut arts: Vec<Art<V>> = vec![];
    let mut fresh: Vec<(Art<V>, Use<V>)> = vec![];
    let mut last: Option<(Use<V>, bool)> = None;
    for s in 0..bound("steps") {
        if s > 0 && flag("set") {
            let c = choose("cell", 2);
            cur[c] = V::input("set");
            set(&cells[c], cur[c]);
            cover("edited");
            last = None;
        }
        let form = match bound_or("sub", 0) { 0 => choose("form", FORMS.len()), _ => SUB[choose("form", SUB.len())] };
        let f = FORMS[form];
        let code = choose("code", 2);
        let u = Use { form, code, x: if f.x { V::input("x") } else { V::lit(7) }, c: if f.x { choose("reads", 2) } else { 0 } };
        let some = if f.optional { flag("named") } else { true };
        let o = if some { Some(name_of_str("t")) } else { None };
        RUNS.with(|r| r.set(0));
        let go = || catching(|| if st { structural(|| invoke(form, code, o, u.x, cells[u.c].clone())) } else { invoke(form, code, o, u.x, cells[u.c].clone()) });
        let got = go();
        let runs = RUNS.with(|r| r.get());
        let at_name = some && f.leaves != Leaves::Fresh && !st;
        let (art, v) = match got {
            Ok(x) => x,
            Err(m) => {
                let clash = at_name && f.leaves == Leaves::Thunk && match named { Some((w, None)) => w.form != form || w.code != code, _ => false };
                claim_bool::<V>(clash, &format!("a legal use of a form panicked: {}", m));
                cover("clash");
                return
            }
        };
        let want = expect(form, code, u.x, cur[u.c]);
        V::claim_eq(v, want, "a form gives another value than the plain calls");
        if !some || f.leaves == Leaves::Cell { claim_bool::<V>(runs == 1, "a form without a name, or that computes a cell's content, does not run its computation exactly once"); if !some { cover("unnamed") } }
        else {
            claim_bool::<V>(runs <= 1, "a form ran its computation more than once");
            if let Some((w, n)) = &last {
                let same = *n && w.form == form && w.code == code && w.c == u.c && form != 8 && f.leaves == Leaves::Thunk && !st && V::same(w.x, u.x);
                if same { claim_bool::<V>(runs == 0, "a named form ran again although nothing changed"); cover("cached") }
            }
        }
        if at_name {
            named = Some((u, if f.leaves == Leaves::Cell { Some(v) } else { None }));
            if let Some(a) = art { arts.push(a); }
        } else if let Some(a) = art { if some && f.leaves != Leaves::Cell { fresh.push((a, u)); } }
        last = Some((u, some));
        // the articulations returned so far
        if flag("look back") {
            if let Some((w, c)) = named {
                let want = match c { Some(v) => v, None => expect(w.form, w.code, w.x, cur[w.c]) };
                for a in &arts { V::claim_eq(get!(a), want, "an articulation returned by a form does not follow its name"); }
            }
            for (a, w) in &fresh { V::claim_eq(get!(a), expect(w.form, w.code, w.x, cur[w.c]), "an articulation returned by a form is out of date"); }
        }
    }
}
/// A thunk uses a form; what it returns is used by another.
pub fn e19b<V: Val>() {
    manage::init_dcg();
    let mut cur = [V::input("c0"), V::input("c1")];
    let cells = [cell(name_c(0), cur[0]), cell(name_c(1), cur[1])];
    let form = choose("form", FORMS.len());
    if form == 8 { discard() }
    let f = FORMS[form];
    let some = if f.optional { flag("named") } else { true };
    let code = choose("code", 2);
    let wrap = choose("mode", 3);
    let root: Art<Res<V>> = {
        let cells = cells.clone();
        thunk(NameChoice::Nominal(name_t(0)), pt(0), Rc::new(Box::new(move |_: (), _: ()| {
            let x = force(&cells[1]);
            let go = || invoke(form, code, if some { Some(name_of_str("t")) } else { None }, x, cells[0].clone());
            let (h, v) = match wrap { 0 => go(), 1 => ns(name_of_str("inner"), go), _ => structural(go) };
            R { v: V::uf("root", &[v]), h }
        })), (), ())
    };
    let user: Art<V> = { let root = root.clone(); thunk(NameChoice::Nominal(name_t(1)), pt(1), Rc::new(Box::new(move |_: (), _: ()| { let r = force(&root); match r.h { Some(h) => V::uf("user", &[r.v, force(&h)]), None => r.v } })), (), ()) };
    for r in 0..bound("rounds") {
        if r > 0 {
            for _ in 0..=choose("more edits", bound("edits")) {
                let c = choose("cell", 2);
                cur[c] = V::input("set");
                set(&cells[c], cur[c]);
            }
            cover("edited");
        }
        let want = expect(form, code, cur[1], cur[0]);
        let rv = V::uf("root", &[want]);
        if flag("user") {
            let has = ![11, 12, 22].contains(&form);
            V::claim_eq(force(&user), if has { V::uf("user", &[rv, want]) } else { rv }, "a user of what a form returned is out of date");
            cover("user");
        } else {
            let r = force(&root);
            V::claim_eq(r.v, rv, "a form used by a thunk gives another value than the plain calls");
            if let Some(h) = r.h { V::claim_eq(force(&h), want, "the articulation of a form used by a thunk holds something else"); }
        }
    }
}
/// cell!, get!, fork!, forko! against the plain calls.
pub fn e19c<V: Val>() {
    manage::init_dcg();
    let v = V::input("v");
    let w = V::input("w");
    let t = cell!([t] v);
    claim_bool::<V>(t == cell!([Some(name_of_str("t"))]? v), "cell!([t] v) does not allocate at the name t");
    V::claim_eq(get!(t), v, "get! differs from force");
    V::claim_eq(get!(t, w), v, "get! with an alternative differs from force_cycle");
    let (a, b) = (cell!(v), cell!(w));
    claim_bool::<V>(a != b && a != t, "counted names are not fresh");
    V::claim_eq(get!(a), v, "a counted cell's content changed when another was allocated");
    let none: Option<Name> = None;
    V::claim_eq(get!(cell!([none]? w)), w, "an unnamed cell does not hold its content");
    let n = [name_of_str("n"), name_unit(), name_of_usize(3)][choose("name", 3)].clone();
    claim_bool::<V>(fork!(n.clone()) == name_fork(n.clone()), "fork! differs from name_fork");
    let (l, r) = name_fork(n.clone());
    claim_bool::<V>(forko!(Some(n)) == (Some(l), Some(r)), "forko! differs from name_fork");
    let none: (Option<Name>, Option<Name>) = forko!(None);
    claim_bool::<V>(none == (None, None), "forko! of no name gives a name");
    // a thunk that forces itself through get!
    let slot: Rc<RefCell<Option<Art<V>>>> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let th: Art<V> = thunk!([Some(name_of_str("self"))]? |w: V, s2: Wrap<V>| { let me = s2.0.borrow().clone().unwrap(); V::uf("self", &[get!(me, w)]) }; w:w ;; s:Wrap(s2));
    *slot.borrow_mut() = Some(th.clone());
    V::claim_eq(get!(th), V::uf("self", &[w]), "get! with an alternative does not give it at a cycle");
    cover("end");
}
#[derive(Clone)]
struct Wrap<V>(Rc<RefCell<Option<Art<V>>>>);
