//! Namespaces, type clashes, cycles, who may mutate.
use crate::sx::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn pt(s: &'static str) -> ProgPt { ProgPt { symbol: s } }
fn nm(i: usize) -> Name { name_of_str(["a", "b", "c"][i]) }
/// Path components also used as names, so that "a inside a" and the like occur.
fn in_ns<R>(path: &[usize], f: &mut dyn FnMut() -> R) -> R {
    match path.split_first() { None => f(), Some((h, t)) => ns(nm(*h), || in_ns(t, f)) }
}

// ---------------------------------------------------------------- E11
type Key = (Vec<usize>, usize);
struct W<V: Val> {
    known: Vec<(Key, Art<V>)>,
    content: HashMap<Key, V>,
    /// thunks: where they were created, which body, argument
    thunks: Vec<(Vec<usize>, Art<Art<V>>, usize, V)>,
    path: Vec<usize>,
    left: usize,
    k: Option<(Art<V>, V)>,
    unnamed: bool,
}
const Z: usize = 2;
fn know<V: Val>(w: &mut W<V>, key: Key, a: Art<V>, msg: &str) {
    for (k, b) in &w.known { claim_bool::<V>((*k == key) == (*b == a), msg); }
    w.known.push((key, a));
}
const SAME: &str = "two allocations share an articulation although their names or namespaces differ, or do not although both agree";
fn block<V: Val>(w: &Rc<RefCell<W<V>>>, depth: usize) {
    loop {
        if w.borrow().left == 0 { return }
        w.borrow_mut().left -= 1;
        let nthunks = w.borrow().thunks.len();
        let act = choose("act", 5);
        match act {
            0 => return,
            1 => {
                if depth >= bound("depth") { discard() }
                let i = choose("ns", 2);
                w.borrow_mut().path.push(i);
                ns(nm(i), || block(w, depth + 1));
                w.borrow_mut().path.pop();
                cover("left a namespace");
            }
            2 => {
                let i = choose("name", 2);
                let v = V::input("v");
                let a = cell(nm(i), v);
                let key = (w.borrow().path.clone(), i);
                know(&mut w.borrow_mut(), key.clone(), a, SAME);
                w.borrow_mut().content.insert(key, v);
            }
            3 => {
                // a thunk whose body allocates; one per namespace
                if nthunks >= bound("thunks") { discard() }
                let path = w.borrow().path.clone();
                if w.borrow().thunks.iter().any(|t| t.0 == path) { discard() }
                let how = choose("body", 4);
                let arg = V::input("arg");
                let other = if how == 3 { if nthunks == 0 { discard() } Some(w.borrow().thunks[choose("other", nthunks)].1.clone()) } else { None };
                let k = w.borrow().k.as_ref().map(|k| k.0.clone());
                let body = move |arg: V, _: ()| -> Art<V> {
                    let arg = match &k { Some(k) => V::uf("k", &[arg, force(k)]), None => arg };
                    match how {
                        0 => cell(nm(Z), arg),
                        1 => ns(nm(0), || cell(nm(Z), arg)),
                        2 => {
                            // the inner thunk is made in another namespace, and forced here
                            let t: Art<Art<V>> = ns(nm(1), || thunk(NameChoice::Nominal(name_of_str("inner")), pt("inner"), Rc::new(Box::new(|v: V, _: ()| cell(nm(Z), v))), arg, ()));
                            force(&t)
                        }
                        _ => {
                            let o = force(other.as_ref().unwrap());
                            let _ = force(&o);
                            cell(nm(Z), arg)
                        }
                    }
                };
                let unnamed = w.borrow().unnamed;
                if unnamed { cover("identified by content") }
                let a = thunk(choice(unnamed, "t"), pt("body"), Rc::new(Box::new(body)), arg, ());
                w.borrow_mut().thunks.push((path, a, how, arg));
            }
            _ => {
                if nthunks == 0 { discard() }
                let (path, t, how, arg) = w.borrow().thunks[choose("which", nthunks)].clone();
                let c = force(&t);
                let mut p = path.clone();
                match how { 1 => p.push(0), 2 => p.push(1), _ => {} }
                let kv = w.borrow().k.as_ref().map(|k| k.1);
                let want = match kv { Some(k) => V::uf("k", &[arg, k]), None => arg };
                V::claim_eq(force(&c), want, "the cell a thunk's body allocated holds something else");
                if path != w.borrow().path { cover("forced from elsewhere") }
                let key = (p.clone(), Z);
                // the editor reaches the same articulation by entering that namespace (the content stays)
                let saved = w.borrow().path.len();
                if saved == 0 {
                    let c2 = in_ns(&p, &mut || cell(nm(Z), want));
                    claim_bool::<V>(c2 == c, "a thunk's body did not allocate in the namespace the thunk was created in");
                    cover("re-entered");
                }
                know(&mut w.borrow_mut(), key, c, SAME);
            }
        }
    }
}
/// A thunk is identified by its name, or by its code and arguments; within its namespace, either way.
fn choice(unnamed: bool, n: &'static str) -> NameChoice { if unnamed { NameChoice::Structural } else { NameChoice::Nominal(name_of_str(n)) } }
/// Deep namespaces: a long path, and one that differs from it in one component or in length.
pub fn e11d<V: Val>() {
    manage::init_dcg();
    let n = bound("depth");
    let form = choose("form", 3);
    let p: Vec<usize> = (0..n).map(|i| match form { 0 => 0, 1 => 1, _ => i % 2 }).collect();
    let mut q = p.clone();
    match choose("differs", 4) {
        0 => {}
        1 => { let i = choose("at", n); q[i] = 2; }
        2 => { let l = choose("length", n); q.truncate(l); }
        _ => { let i = choose("more", n + 1); q.insert(i, if flag("other") { 2 } else { 0 }); }
    }
    let same = p == q;
    let (x, y, arg) = (V::input("x"), V::input("y"), V::input("arg"));
    // through a thunk's body, or directly; entered at once, or in two steps
    let unnamed = flag("unnamed thunks");
    let body = |v: V| -> Art<Art<V>> { thunk(choice(unnamed, "t"), pt("deep"), Rc::new(Box::new(|v: V, _: ()| cell(nm(Z), v))), v, ()) };
    let a = in_ns(&p, &mut || cell(nm(0), x));
    let t = in_ns(&p, &mut || body(arg));
    let (k, b, u, c);
    if flag("inside") {
        k = choose("common", n.min(q.len()) + 1);
        if p[..k] != q[..k] { discard() }
        // q entered from within the part of p that they have in common
        let rest = q[k..].to_vec();
        let r = in_ns(&p[..k], &mut || (in_ns(&rest, &mut || cell(nm(0), y)), in_ns(&rest, &mut || force(&t)), in_ns(&rest, &mut || cell(nm(Z), y))));
        b = r.0; u = r.1; c = r.2;
        cover("entered from within");
    } else {
        b = in_ns(&q, &mut || cell(nm(0), y));
        u = in_ns(&q, &mut || force(&t));
        c = in_ns(&q, &mut || cell(nm(Z), y));
    }
    if same { cover("same") } else { cover("different") }
    claim_bool::<V>((a == b) == same, SAME);
    claim_bool::<V>((u == c) == same, "a thunk's body did not allocate in the namespace the thunk was created in");
    V::claim_eq(force(&a), if same { y } else { x }, "an allocation in another namespace changed a cell");
    V::claim_eq(force(&b), y, "a cell does not hold what was stored in it");
    V::claim_eq(force(&c), y, "a cell does not hold what was stored in it");
    V::claim_eq(force(&u), if same { y } else { arg }, "an allocation in another namespace changed the cell a thunk allocated");
    // the editor is back outside
    let z = V::input("z");
    let d = cell(nm(0), z);
    claim_bool::<V>((d == b) == q.is_empty() && d != a, "a namespace did not end with its body");
}
pub fn e11<V: Val>() {
    manage::init_dcg();
    let k = if flag("input") { let v = V::input("k"); Some((cell(name_of_str("k"), v), v)) } else { None };
    let w = Rc::new(RefCell::new(W::<V> { known: vec![], content: HashMap::new(), thunks: vec![], path: vec![], left: bound("steps"), k, unnamed: bound_or("unnamed", 1) == 1 && flag("unnamed thunks") }));
    block(&w, 0);
    let has_k = w.borrow().k.is_some();
    if has_k && w.borrow().thunks.len() > 0 {
        let a = w.borrow().k.as_ref().unwrap().0.clone();
        let v = V::input("k");
        set(&a, v);
        w.borrow_mut().k = Some((a, v));
        let ts = w.borrow().thunks.clone();
        for (path, t, how, arg) in ts {
            let mut p = path.clone();
            match how { 1 => p.push(0), 2 => p.push(1), _ => {} }
            let c = force(&t);
            let want = V::uf("k", &[arg, v]);
            V::claim_eq(force(&c), want, "the cell a thunk's body allocated holds something else");
            know(&mut w.borrow_mut(), (p, Z), c, SAME);
            cover("re-run");
        }
    }
    // nothing affected anything else, and top-level names are top-level names
    let w = w.borrow();
    for (key, a) in &w.known {
        if let Some(v) = w.content.get(key) { V::claim_eq(force(a), *v, "a cell's content is not the value last stored under its own name and namespace"); }
    }
    let v = V::input("top");
    let a = cell(name_of_str("top"), v);
    let b = cell(name_of_str("top"), v);
    claim_bool::<V>(a == b, SAME);
    for (key, b) in &w.known { let _ = key; claim_bool::<V>(*b != a, SAME); }
    for i in 0..2 { for (key, b) in &w.known { if key.0.is_empty() && key.1 == i {
        let cur = w.content[key];
        claim_bool::<V>(cell(nm(i), cur) == *b, "after a namespace ended, allocation does not happen in the enclosing one");
    } } }
}

// ---------------------------------------------------------------- E12: scopes
/// Where and how something was allocated: namespace, then the name or (inside structural) the content.
#[derive(Clone)]
enum Who<V: Val> { Named(Vec<usize>, usize), Cell(Vec<usize>, V), Thunk(Vec<usize>, usize, V) }
fn same_who<V: Val>(a: &Who<V>, b: &Who<V>) -> bool {
    match (a, b) {
        (Who::Named(p, i), Who::Named(q, j)) => p == q && i == j,
        (Who::Cell(p, v), Who::Cell(q, w)) => p == q && V::same(*v, *w),
        (Who::Thunk(p, c, v), Who::Thunk(q, d, w)) => p == q && c == d && V::same(*v, *w),
        _ => false,
    }
}
struct Sc<V: Val> { all: Vec<(Who<V>, Art<V>)>, vals: Vec<(usize, V)>, k: Art<V>, kv: V, left: usize, ran: Rc<RefCell<Vec<usize>>>, cur: Rc<std::cell::Cell<bool>> }
const SCOPE: &str = "an allocation is not identified as its surroundings (structural or not) say";
/// Which naming mode is in force, seen from what it does.
fn mode<V: Val>(st: bool) {
    let v = V::lit(1 << 40);
    let (a, b) = (cell(name_of_str("probe 1"), v), cell(name_of_str("probe 2"), v));
    claim_bool::<V>((a == b) == st, "the naming mode is not the one of the innermost structural scope that is open");
}
fn scope<V: Val>(w: &Rc<RefCell<Sc<V>>>, path: &mut Vec<usize>, st: bool, depth: usize) {
    loop {
        mode::<V>(st);
        if w.borrow().left == 0 { return }
        w.borrow_mut().left -= 1;
        match choose("act", 5) {
            0 => { if depth == 0 { discard() } return }
            1 => { if depth >= bound("depth") { discard() } structural(|| scope(w, path, true, depth + 1)); cover(if st { "left an inner structural" } else { "left structural" }) }
            2 => {
                if depth >= bound("depth") { discard() }
                path.push(0);
                ns(nm(0), || scope(w, path, st, depth + 1));
                path.pop();
            }
            3 => {
                let i = choose("name", 2);
                let v = V::input("v");
                let a = cell(nm(i), v);
                V::claim_eq(force(&a), v, "a fresh or re-allocated cell does not hold what was stored");
                let who = if st { Who::Cell(path.clone(), v) } else { Who::Named(path.clone(), i) };
                if !st { let n = w.borrow().all.len(); for j in 0..n { let same = { let b = w.borrow(); matches!(&b.all[j].0, Who::Named(p, k) if p == path && *k == i) }; if same { for x in w.borrow_mut().vals.iter_mut() { if x.0 == j { x.1 = v } } } } }
                known_as(w, who, a, v);
            }
            _ => {
                // body 0 computes; 1 allocates inside a structural scope of its own, then by name
                let code = choose("code", 2);
                let v = V::input("v");
                let (k, ran, kv, cur) = { let b = w.borrow(); (b.k.clone(), b.ran.clone(), b.kv, b.cur.clone()) };
                if !st && w.borrow().all.iter().any(|x| matches!(&x.0, Who::Named(p, 3) if p == path)) { discard() }
                let body = move |v: V, _: ()| -> V {
                    ran.borrow_mut().push(code);
                    let st = cur.get();
                    let x = force(&k);
                    if code == 0 { return V::uf("g", &[v, x]) }
                    let a = structural(|| cell(nm(2), v));
                    let b = structural(|| structural(|| cell(nm(2), v)));
                    mode::<V>(st);
                    claim_bool::<V>(a == b, "equal content inside structural scopes does not share an articulation");
                    V::uf("h", &[force(&a), x])
                };
                let how = if flag("explicit") { NameChoice::Structural } else { NameChoice::Nominal(nm(2)) };
                let struc = st || how == NameChoice::Structural;
                if !struc && code == 1 { cover("named thunk with a structural scope") }
                let a = thunk(how, pt(["g", "h"][code]), Rc::new(Box::new(body)), v, ());
                let val = V::uf(["g", "h"][code], &[v, kv]);
                let who = if struc { Who::Thunk(path.clone(), code, v) } else { Who::Named(path.clone(), 3) };
                let again = known_as(w, who, a.clone(), val);
                w.borrow().ran.borrow_mut().clear();
                w.borrow().cur.set(st);
                V::claim_eq(force(&a), val, "a thunk's result is not what its code gives");
                if again { claim_bool::<V>(w.borrow().ran.borrow().is_empty(), "a structurally identified thunk ran twice"); cover("shared") }
                // after a body ran, the mode is what it was
                let v = V::input("v");
                let a = cell(nm(0), v);
                let who = if st { Who::Cell(path.clone(), v) } else { Who::Named(path.clone(), 0) };
                if !st { let n = w.borrow().all.len(); for j in 0..n { let same = { let b = w.borrow(); matches!(&b.all[j].0, Who::Named(p, 0) if p == path) }; if same { for x in w.borrow_mut().vals.iter_mut() { if x.0 == j { x.1 = v } } } } }
                known_as(w, who, a, v);
            }
        }
    }
}
/// Compares a new allocation with all earlier ones; says whether it is one of them.
fn known_as<V: Val>(w: &Rc<RefCell<Sc<V>>>, who: Who<V>, a: Art<V>, v: V) -> bool {
    let mut again = false;
    let all = w.borrow().all.clone();
    for (x, b) in all.iter() {
        let s = same_who(x, &who);
        again = again || s;
        claim_bool::<V>((a == *b) == s, SCOPE);
    }
    let mut b = w.borrow_mut();
    let n = b.all.len();
    b.all.push((who, a));
    b.vals.push((n, v));
    again
}
pub fn e12n<V: Val>() {
    manage::init_dcg();
    let kv = V::input("k");
    let k = cell(name_of_str("k"), kv);
    let w = Rc::new(RefCell::new(Sc::<V> { all: vec![], vals: vec![], k: k.clone(), kv, left: bound("steps"), ran: Rc::new(RefCell::new(vec![])), cur: Rc::new(std::cell::Cell::new(false)) }));
    scope(&w, &mut vec![], false, 0);
    let check = |w: &Sc<V>| for (j, v) in &w.vals { if !matches!(&w.all[*j].0, Who::Thunk(..) | Who::Named(_, 3)) { V::claim_eq(force(&w.all[*j].1), *v, "an articulation does not hold what was last stored at its identity"); } };
    check(&w.borrow());
    w.borrow().cur.set(false);
    let nv = V::input("k");
    set(&k, nv);
    for (i, (who, a)) in w.borrow().all.iter().enumerate() {
        let _ = i;
        if let Who::Thunk(_, c, v) = who { V::claim_eq(force(a), V::uf(["g", "h"][*c], &[*v, nv]), "a structurally identified thunk is out of date"); cover("re-run") }
    }
    check(&w.borrow());
}

// ---------------------------------------------------------------- E13
struct G<V: Val> { arts: RefCell<Vec<Art<V>>>, ops: RefCell<HashMap<(usize, usize), (usize, bool, bool)>>, n: usize, len: usize, plain: bool, cond: bool, ring: bool }
/// (target or n = stop, with an alternative, only under a condition on what was computed so far)
fn gop<V: Val>(g: &G<V>, t: usize, i: usize) -> (usize, bool, bool) {
    if i >= g.len { return (g.n, false, false) }
    if let Some(o) = g.ops.borrow().get(&(t, i)) { return *o }
    // a ring of any length at the end of a chain, with a second demand somewhere
    if g.ring {
        let cyc = |g: &G<V>| { if let Some(o) = g.ops.borrow().get(&(g.n, 0)) { return o.1 } let c = flag("alternatives"); g.ops.borrow_mut().insert((g.n, 0), (g.n, c, false)); c };
        let second = |g: &G<V>| { if let Some(o) = g.ops.borrow().get(&(g.n, 1)) { return o.0 } let c = choose("second", g.n + 1); g.ops.borrow_mut().insert((g.n, 1), (c, false, false)); c };
        let o = if i == 0 && t + 1 < g.n { (t + 1, cyc(g), false) } else if i == 0 { (choose("back", g.n + 1), flag("cyclic"), g.cond && flag("cond")) } else if second(g) == t { (choose("to", g.n), true, false) } else { (g.n, false, false) };
        g.ops.borrow_mut().insert((t, i), o);
        return o
    }
    let to = choose("to", g.n + 1);
    let o = if to == g.n { (to, false, false) } else { (to, !g.plain || flag("cyclic"), g.cond && flag("cond")) };
    g.ops.borrow_mut().insert((t, i), o);
    o
}
const PN: [&str; 4] = ["p0", "p1", "p2", "p3"];
fn alt<V: Val>(t: usize, i: usize) -> V { V::uf("alt", &[V::lit((1000 + t * 10 + i) as i64)]) }
fn gbody<V: Val>(g: &Rc<G<V>>, t: usize) -> V {
    let mut acc = V::lit(t as i64);
    for i in 0.. {
        let (to, cyc, cond) = gop(g, t, i);
        if to == g.n { break }
        if cond && !V::pred(PN[t % 4], &[V::lit(i as i64), acc]) { continue }
        let a = g.arts.borrow()[to].clone();
        let x = if cyc { force_cycle(&a, Some(alt::<V>(t, i))) } else { force(&a) };
        acc = V::uf("f", &[acc, x]);
    }
    acc
}
/// Reference: depth first, with a memo; Err on a plain force that re-enters.
fn gref<V: Val>(g: &Rc<G<V>>, t: usize, stack: &mut Vec<usize>, memo: &mut HashMap<usize, V>) -> Result<V, ()> {
    if let Some(v) = memo.get(&t) { return Ok(*v) }
    stack.push(t);
    let mut acc = V::lit(t as i64);
    for i in 0.. {
        let (to, cyc, cond) = gop(g, t, i);
        if to == g.n { break }
        if cond && !V::pred(PN[t % 4], &[V::lit(i as i64), acc]) { continue }
        let x = if stack.contains(&to) {
            cover("cycle");
            if cyc { alt::<V>(t, i) } else { cover("rejected"); return Err(()) }
        } else { gref(g, to, stack, memo)? };
        acc = V::uf("f", &[acc, x]);
    }
    stack.pop();
    memo.insert(t, acc);
    Ok(acc)
}
pub fn e13<V: Val>() {
    manage::init_dcg();
    let n = bound("thunks");
    let g = Rc::new(G::<V> { arts: RefCell::new(vec![]), ops: RefCell::new(HashMap::new()), n, len: bound("oplen"), plain: bound_or("plain", 1) == 1, cond: bound_or("cond", 0) == 1, ring: bound_or("ring", 0) == 1 });
    // under different names, or under one name in different namespaces
    let spaces = bound_or("spaces", 0) == 1;
    for t in 0..n {
        let h = g.clone();
        let mk = || thunk(NameChoice::Nominal(name_of_usize(if spaces { 0 } else { t })), pt(["g0", "g1", "g2", "g3"][if spaces { 0 } else { t % 4 }]), Rc::new(Box::new(move |_: u8, _: ()| gbody(&h, t))), 0u8, ());
        let a = if spaces && t > 0 { ns(name_of_usize(t), mk) } else { mk() };
        g.arts.borrow_mut().push(a);
    }
    let mut memo = HashMap::new();
    for _ in 0..bound("demands") {
        let t = choose("demand", n);
        let want = gref(&g, t, &mut vec![], &mut memo);
        let a = g.arts.borrow()[t].clone();
        let outer = flag("outer");
        let got = catching(|| if outer { force_cycle(&a, Some(V::lit(99))) } else { force(&a) });
        match (want, got) {
            (Ok(w), Ok(x)) => { V::claim_eq(x, w, "a demand in a cyclic graph gives something else than the alternative at re-entering forces and the ordinary value elsewhere"); cover("value") }
            (Err(()), Err(_)) => return,
            (Err(()), Ok(_)) => claim_bool::<V>(false, "a plain force of a thunk that is being evaluated did not panic"),
            (Ok(_), Err(m)) => claim_bool::<V>(false, &format!("a demand without an unexpected cycle panicked: {}", m)),
        }
    }
    // forcing cells never uses the alternative
    let v = V::input("c");
    let c = cell(name_of_str("c"), v);
    V::claim_eq(force_cycle(&c, Some(V::lit(98))), v, "force_cycle of a cell gives something else than its content");
    V::claim_eq(force_cycle(&put(v), Some(V::lit(98))), v, "force_cycle of a put value gives something else than its content");
}

// ---------------------------------------------------------------- E15
pub fn e15<V: Val>() {
    let dcg = manage::init_dcg();
    drop(dcg);
    let mut cv = [V::input("c0"), V::input("c1")];
    let c: Vec<Art<V>> = (0..2).map(|i| cell(nm(i), cv[i])).collect();
    let pv = V::input("p");
    let p = put(pv);
    let tv = V::input("t");
    let t = { let c0 = c[0].clone(); thunk(NameChoice::Nominal(name_of_str("t")), pt("t"), Rc::new(Box::new(move |a: V, _: ()| V::uf("t", &[a, force(&c0)]))), tv, ()) };
    let eng = manage::init_naive();
    let nv = V::input("n");
    let nt = thunk(NameChoice::Nominal(name_of_str("t")), pt("nt"), Rc::new(Box::new(move |a: V, _: ()| V::uf("n", &[a]))), nv, ());
    let ncv = V::input("nc");
    let nc = cell(name_of_str("nc"), ncv);
    manage::use_engine(eng);
    let m = thunk_map(c[1].clone(), Rc::new(|x: V| V::uf("m", &[x])));
    // a thunk that tries to mutate while it runs
    let inner_kind = choose("inner", 5);
    let seen = Rc::new(RefCell::new(0));
    let w = {
        let (c, p, t, nt, seen) = (c.clone(), p.clone(), t.clone(), nt.clone(), seen.clone());
        thunk(NameChoice::Nominal(name_of_str("w")), pt("w"), Rc::new(Box::new(move |_: u8, _: ()| {
            *seen.borrow_mut() += 1;
            let x = if inner_kind == 4 { force(&t) } else { V::lit(7) };
            let target = match inner_kind { 0 | 4 => &c[0], 1 => &c[1], 2 => &p, _ => &nt };
            let r = catching(|| set(target, V::uf("evil", &[x])));
            claim_bool::<V>(r.is_err(), "set inside a running thunk is accepted");
            V::uf("w", &[x, force(&c[0])])
        })), 0u8, ())
    };
    let check = |cv: &[V; 2]| {
        for i in 0..2 { V::claim_eq(force(&c[i]), cv[i], "set changed something else than the given cell, or did not change it, or a rejected set changed a cell"); }
        V::claim_eq(force(&p), pv, "a put value changed");
        V::claim_eq(force(&nt), V::uf("n", &[nv]), "a non-memoised thunk's value changed");
        V::claim_eq(force(&nc), ncv, "an immutable articulation of the naive engine changed");
        V::claim_eq(force(&m), V::uf("m", &[cv[1]]), "a mapped thunk's value is not the mapping of its source");
        let tval = V::uf("t", &[tv, cv[0]]);
        V::claim_eq(force(&t), tval, "a thunk's value is not what its inputs give");
        let x = if inner_kind == 4 { tval } else { V::lit(7) };
        V::claim_eq(force(&w), V::uf("w", &[x, cv[0]]), "a rejected set changed an articulation");
    };
    check(&cv);
    for _ in 0..bound("steps") {
        let v = V::input("v");
        let k = choose("set", 8);
        let r = match k {
            0 | 1 => { set(&c[k], v); cv[k] = v; cover("accepted"); check(&cv); continue }
            2 => catching(|| set(&p, v)),
            3 => catching(|| set(&nt, v)),
            4 => catching(|| set(&nc, v)),
            5 => catching(|| set(&m, v)),
            6 => catching(|| set(&t, v)),
            _ => { let no: Option<Name> = None; let u = { use adapton::*; cell!([no]? pv) }; let r = catching(|| set(&u, v)); V::claim_eq(force(&u), pv, "an unnamed articulation changed"); r }
        };
        claim_bool::<V>(r.is_err(), ["", "", "set of a put value is accepted", "set of a non-memoised thunk is accepted", "set of an articulation of the naive engine is accepted", "set of a mapped thunk is accepted", "set of a thunk is accepted", "set of an unnamed articulation is accepted"][k]);
        cover("rejected");
        check(&cv);
    }
    // under the naive engine nothing can be set
    let eng = manage::init_naive();
    for a in [&nc, &nt, &p] { let v = V::input("v"); claim_bool::<V>(catching(|| set(a, v)).is_err(), "the naive engine accepts set"); }
    manage::use_engine(eng);
    check(&cv);
}
