//! One name used at several types; equality of articulations.
use crate::sx::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

fn pt(i: usize) -> ProgPt { ProgPt { symbol: ["p", "q"][i] } }

/// Types that can be made from a value; the word orders differ so that reading one as another is visible.
pub trait Ty<V: Val>: Hash + Eq + Debug + Clone + 'static { fn of(v: V) -> Self; fn to(&self) -> V; const ID: usize; }
#[derive(Hash, PartialEq, Eq, Debug, Clone)]
pub struct Wide<V>(u64, V, u64, V);
#[derive(Hash, PartialEq, Eq, Debug, Clone)]
pub struct Text<V>(String, V);
#[derive(Hash, PartialEq, Eq, Debug, Clone)]
pub struct Wrap<V>(V);
impl<V: Val> Ty<V> for V { fn of(v: V) -> V { v } fn to(&self) -> V { *self } const ID: usize = 0; }
impl<V: Val> Ty<V> for Wide<V> { fn of(v: V) -> Self { Wide(3, v, 5, v) } fn to(&self) -> V { V::uf("wide", &[V::lit(self.0 as i64), self.1, V::lit(self.2 as i64), self.3]) } const ID: usize = 1; }
impl<V: Val> Ty<V> for Text<V> { fn of(v: V) -> Self { Text("text".into(), v) } fn to(&self) -> V { V::uf("text", &[V::lit(self.0.len() as i64), self.1]) } const ID: usize = 2; }
impl<V: Val> Ty<V> for Wrap<V> { fn of(v: V) -> Self { Wrap(v) } fn to(&self) -> V { V::uf("wrap", &[self.0]) } const ID: usize = 3; }

#[derive(Clone)]
enum A<V: Val> { V(Art<V>), Wide(Art<Wide<V>>), Text(Art<Text<V>>), Wrap(Art<Wrap<V>>) }
trait Wrapped<V: Val>: Ty<V> { fn art(a: Art<Self>) -> A<V>; }
impl<V: Val> Wrapped<V> for V { fn art(a: Art<V>) -> A<V> { A::V(a) } }
impl<V: Val> Wrapped<V> for Wide<V> { fn art(a: Art<Self>) -> A<V> { A::Wide(a) } }
impl<V: Val> Wrapped<V> for Text<V> { fn art(a: Art<Self>) -> A<V> { A::Text(a) } }
impl<V: Val> Wrapped<V> for Wrap<V> { fn art(a: Art<Self>) -> A<V> { A::Wrap(a) } }
fn get<V: Val>(a: &A<V>) -> V {
    match a { A::V(a) => Ty::<V>::to(&force(a)), A::Wide(a) => force(a).to(), A::Text(a) => force(a).to(), A::Wrap(a) => force(a).to() }
}
fn mk_cell<V: Val, T: Wrapped<V>>(n: &Name, v: V) -> A<V> { T::art(cell(n.clone(), T::of(v))) }
fn mk_thunk<V: Val, X: Ty<V>, S: Ty<V>, T: Wrapped<V>>(id: &NameChoice, p: usize, v: V) -> A<V> {
    T::art(thunk(id.clone(), pt(p), Rc::new(Box::new(move |x: X, s: S| T::of(V::uf(["fp", "fq"][p], &[x.to(), s.to()])))), X::of(v), S::of(V::lit(5))))
}
macro_rules! by_ty { ($i:expr, $T:ident, $e:expr) => { match $i { 0 => { type $T<V> = V; $e } 1 => { type $T<V> = Wide<V>; $e } 2 => { type $T<V> = Text<V>; $e } _ => { type $T<V> = Wrap<V>; $e } } } }
fn to_val<V: Val>(ty: usize, v: V) -> V { by_ty!(ty, T, <T<V> as Ty<V>>::of(v).to()) }
fn any_cell<V: Val>(ty: usize, n: &Name, v: V) -> A<V> { by_ty!(ty, T, mk_cell::<V, T<V>>(n, v)) }
fn any_thunk<V: Val>(xt: usize, st: usize, rt: usize, id: &NameChoice, p: usize, v: V) -> A<V> {
    by_ty!(xt, X, by_ty!(st, S, by_ty!(rt, R, mk_thunk::<V, X<V>, S<V>, R<V>>(id, p, v))))
}
fn thunk_val<V: Val>(xt: usize, st: usize, rt: usize, p: usize, v: V) -> V { to_val(rt, V::uf(["fp", "fq"][p], &[to_val(xt, v), to_val(st, V::lit(5))])) }

#[derive(Clone, Copy, PartialEq)]
enum Kind { Cell(usize), Thunk { p: usize, x: usize, s: usize, r: usize } }
/// Allocations of one name at every combination of types.
pub fn e14<V: Val>() {
    manage::init_dcg();
    let tys = bound("tys");
    let n = name_of_str("x");
    let mut cur: Option<(Kind, A<V>, V)> = None;
    for _ in 0..bound("steps") {
        let v = V::input("v");
        let r = choose("result", tys);
        let (kind, got, want) = if flag("thunk") {
            let (x, s, p) = (choose("arg", tys), if bound_or("spurious", 1) == 1 { choose("spurious", 2) } else { 0 }, choose("code", 2));
            (Kind::Thunk { p, x, s, r }, catching(|| any_thunk(x, s, r, &NameChoice::Nominal(n.clone()), p, v)), thunk_val(x, s, r, p, v))
        } else { (Kind::Cell(r), catching(|| any_cell(r, &n, v)), to_val(r, v)) };
        let legal = match cur.as_ref().map(|c| c.0) {
            None => Some(true),
            Some(Kind::Cell(t)) => Some(t == r),
            Some(Kind::Thunk { p: p0, x: x0, s: s0, r: r0 }) => match kind {
                Kind::Cell(_) => Some(r0 == r),
                Kind::Thunk { p, x, s, .. } => if r0 != r || x != x0 || p != p0 { Some(false) } else if s != s0 { None } else { Some(true) },
            },
        };
        match (legal, got) {
            (Some(false), Ok(_)) => claim_bool::<V>(false, "a name was re-used at another result or argument type, or for other code, without a panic"),
            (Some(true), Err(m)) => claim_bool::<V>(false, &format!("a legal allocation panicked: {}", m)),
            (_, Err(_)) => cover("caught"),
            (_, Ok(a)) => { cover("accepted"); cur = Some((kind, a, want)); }
        }
        if flag("force") { if let Some((_, a, w)) = &cur { V::claim_eq(get(a), *w, "an articulation answers with other data than was stored in it at its type"); } }
    }
    if let Some((_, a, w)) = &cur { V::claim_eq(get(a), *w, "an articulation answers with other data than was stored in it at its type"); }
}

// ---------------------------------------------------------------- E18
fn h<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
#[derive(Clone)]
enum Id<V: Val> { Named(usize, usize), Put(V), Naive(usize, usize, usize, V) }
fn same<V: Val>(a: &Id<V>, b: &Id<V>) -> bool {
    match (a, b) {
        (Id::Named(p, n), Id::Named(q, m)) => p == q && n == m,
        (Id::Put(v), Id::Put(w)) => V::same(*v, *w),
        (Id::Naive(i, p, t, v), Id::Naive(j, q, u, w)) => i == j && p == q && t == u && V::same(*v, *w),
        _ => false,
    }
}
fn path<R>(p: usize, f: impl FnOnce() -> R) -> R { match p { 0 => f(), 1 => ns(name_of_str("n0"), f), _ => ns(name_of_str("n1"), f) } }
fn naive<V: Val, X: Ty<V>>(id: NameChoice, p: usize, v: V) -> Art<V> { thunk(id, pt(p), Rc::new(Box::new(move |x: X, _: ()| V::uf(["fp", "fq"][p], &[x.to()]))), X::of(v), ()) }
pub fn e18<V: Val>() {
    manage::init_dcg();
    let mut all: Vec<(Id<V>, Art<V>)> = vec![];
    let n = bound("arts");
    for _ in 0..n {
        let v = V::input("v");
        let (id, a) = match choose("kind", 5) {
            0 => { let (p, i) = (choose("ns", 2), choose("name", 2)); (Id::Named(p, i), path(p, || cell(name_of_usize(i), v))) }
            1 => { let (p, i) = (choose("ns", 2), choose("name", 2)); (Id::Named(p, 2 + i), path(p, || naive::<V, V>(NameChoice::Nominal(name_of_usize(2 + i)), 0, v))) }
            2 => (Id::Put(v), put(v)),
            3 => { let e = manage::init_naive(); let a = cell(name_of_usize(choose("name", 2)), v); manage::use_engine(e); (Id::Put(v), a) }
            _ => {
                let (i, p, t) = (choose("id", 3), choose("code", 2), choose("argument type", 2));
                let nc = || match i { 0 => NameChoice::Structural, i => NameChoice::Nominal(name_of_usize(i)) };
                let e = manage::init_naive();
                let a = if t == 0 { naive::<V, V>(nc(), p, v) } else { naive::<V, Wide<V>>(nc(), p, v) };
                manage::use_engine(e);
                (Id::Naive(i, p, t, v), a)
            }
        };
        all.push((id, a));
    }
    for (i, (id, a)) in all.iter().enumerate() {
        let c = a.clone();
        claim_bool::<V>(c == *a && h(&c) == h(a), "a clone is another articulation");
        V::claim_eq(force(&c), force(a), "a clone holds something else");
        for (jd, b) in all[..i].iter() {
            let s = same(id, jd);
            if s { cover("equal") } else { cover("different") }
            claim_bool::<V>((*a == *b) == s && (*b == *a) == s, "articulation equality is not identity (by name) or content");
            if s { claim_bool::<V>(h(a) == h(b), "equal articulations hash differently"); }
        }
    }
}

/// Structural identity across types: nothing is confused, nothing panics.
pub fn e12t<V: Val>() {
    manage::init_dcg();
    let mut all: Vec<(Kind, A<V>, V, V)> = vec![];
    for _ in 0..bound("steps") {
        let v = V::input("v");
        let r = choose("result", 4);
        let (kind, a, want) = if flag("thunk") {
            let (x, p) = (choose("arg", 4), choose("code", 2));
            let id = if flag("how") { NameChoice::Structural } else { NameChoice::Nominal(name_of_str("ignored")) };
            (Kind::Thunk { p, x, s: 0, r }, structural(|| any_thunk(x, 0, r, &id, p, v)), thunk_val(x, 0, r, p, v))
        } else { (Kind::Cell(r), structural(|| any_cell(r, &name_of_str("ignored"), v)), to_val(r, v)) };
        V::claim_eq(get(&a), want, "a structurally identified articulation answers with something else than was given to it");
        for (k, b, w, u) in &all {
            V::claim_eq(get(b), *w, "a structurally identified articulation answers with something else than was given to it");
            if *k == kind {
                let e = match (&a, b) { (A::V(a), A::V(b)) => a == b, (A::Wide(a), A::Wide(b)) => a == b, (A::Text(a), A::Text(b)) => a == b, (A::Wrap(a), A::Wrap(b)) => a == b, _ => false };
                let s = V::same(v, *u);
                if s { cover("shared") } else { cover("apart") }
                claim_bool::<V>(e == s, "structural identity is not equality of code and content");
            }
        }
        all.push((kind, a, want, v));
    }
}
