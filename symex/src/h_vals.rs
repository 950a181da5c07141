//! Names (N01) and reflected values (R04).
use crate::sx::*;
use adapton::engine::*;
use adapton::parse_val::parse_val;
use adapton::reflect::{self, ArtContent, Const, Node, Val as RVal};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- N01
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ex { Unit, Nat(usize), Int(isize), Str(String), Pair(Box<Ex>, Box<Ex>), L(Box<Ex>), R(Box<Ex>) }
const NATS: [usize; 4] = [0, 1, usize::MAX, 1 << 63];
const INTS: [isize; 4] = [0, 1, -1, isize::MIN];
const STRS: [&str; 4] = ["", "0", "a", "Unit"];
/// Leaves hold unconstrained values; what matters is which of them are equal.
struct Leaves<V> { seen: Vec<V>, shift: usize }
impl<V: Val> Leaves<V> {
    fn class(&mut self) -> usize {
        let v = V::input("leaf");
        let i = match self.seen.iter().position(|w| *w == v) { Some(i) => i, None => { self.seen.push(v); self.seen.len() - 1 } };
        (i + self.shift) % 4
    }
}
fn leaf<V: Val>(l: &mut Leaves<V>, kinds: usize) -> (Ex, Name) {
    match choose("leaf kind", kinds) {
        0 => { let n = NATS[l.class()]; (Ex::Nat(n), name_of_usize(n)) }
        1 => { let s = STRS[l.class()]; (Ex::Str(s.into()), name_of_string(s.to_string())) }
        2 => { let i = INTS[l.class()]; (Ex::Int(i), name_of_isize(i)) }
        3 => (Ex::Unit, name_unit()),
        _ => { let s = STRS[l.class()]; (Ex::Str(s.into()), name_of_str(s)) }
    }
}
fn bx(e: Ex) -> Box<Ex> { Box::new(e) }
/// An expression with at most `left` operations; the forks of one name are made together, and one is taken.
fn expr<V: Val>(l: &mut Leaves<V>, left: &mut usize, kinds: usize) -> (Ex, Name) {
    if *left == 0 { return leaf(l, kinds) }
    match choose("op", 4) {
        0 => leaf(l, kinds),
        1 => {
            *left -= 1;
            let (a, m) = expr(l, left, kinds);
            let (b, n) = expr(l, left, kinds);
            (Ex::Pair(bx(a), bx(b)), name_pair(m, n))
        }
        s => {
            *left -= 1;
            let (a, n) = expr(l, left, kinds);
            let (x, y) = name_fork(n);
            if s == 2 { (Ex::L(bx(a)), x) } else { (Ex::R(bx(a)), y) }
        }
    }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn agree<V: Val>(same: bool, a: &Name, b: &Name, msg: &str) {
    claim_bool::<V>((*a == *b) == same && (*b == *a) == same, msg);
    if same { cover("equal"); claim_bool::<V>(hash(a) == hash(b), "equal names hash differently"); claim_bool::<V>(format!("{:?}", a) == format!("{:?}", b), "equal names print differently"); } else { cover("different") }
}
pub fn n01<V: Val>() {
    manage::init_dcg();
    let mut l = Leaves::<V> { seen: vec![], shift: choose("palette", 2) * 2 };
    let mut left = bound("ops");
    let (a, m) = expr(&mut l, &mut left, 5);
    let (b, n) = expr(&mut l, &mut left, 5);
    agree::<V>(a == b, &m, &n, "names built in different ways are equal, or names built in the same way differ");
    // what names are for: telling allocations apart
    if bound_or("cells", 1) == 1 {
        let (x, y) = (V::input("x"), V::input("y"));
        let (c, d) = match choose("where", 3) {
            0 => (cell(m.clone(), x), cell(n.clone(), y)),
            1 => (ns(m.clone(), || cell(name_unit(), x)), ns(n.clone(), || cell(name_unit(), y))),
            _ => (cell(m.clone(), x), thunk(NameChoice::Nominal(n.clone()), adapton::macros::ProgPt { symbol: "f" }, std::rc::Rc::new(Box::new(|v: V, _: ()| v)), y, ())),
        };
        claim_bool::<V>((c == d) == (a == b), "articulations allocated at different names are the same, or at the same name different");
        V::claim_eq(force(&c), if a == b { y } else { x }, "what is allocated at one name is found at another");
        V::claim_eq(force(&d), y, "what is allocated at a name is not found there");
    }
}
/// Names of many steps, and ones that differ from them in one step, in length or in the leaf.
pub fn n01d<V: Val>() {
    manage::init_dcg();
    let n = bound("depth");
    let form = choose("form", 7);
    let step = |i: usize| match form { 6 => i % 6, f => f };
    let mut p: Vec<usize> = (0..n).map(step).collect();
    let q = p.clone();
    let mut l = Leaves::<V> { seen: vec![], shift: choose("palette", 2) * 2 };
    match choose("differs", 3) {
        0 => {}
        1 => { let i = choose("at", n); p[i] = choose("step", 6) }
        _ => { let i = choose("length", n); p.truncate(i) }
    }
    let make = |l: &mut Leaves<V>, p: &[usize]| {
        let (mut e, mut m) = leaf(l, 2);
        let (f, o) = (Ex::Str("x".into()), name_of_str("x"));
        for s in p {
            let r = match s {
                0 => (Ex::L(bx(e)), name_fork(m).0),
                1 => (Ex::R(bx(e)), name_fork(m).1),
                2 => (Ex::Pair(bx(e), bx(f.clone())), name_pair(m, o.clone())),
                3 => (Ex::Pair(bx(f.clone()), bx(e)), name_pair(o.clone(), m)),
                4 => (Ex::Pair(bx(e), bx(Ex::Unit)), name_pair(m, name_unit())),
                _ => (Ex::Pair(bx(e.clone()), bx(e)), name_pair(m.clone(), m)),
            };
            e = r.0; m = r.1;
        }
        (e, m)
    };
    if form >= 5 && n > 12 { discard() }
    let (a, m) = make(&mut l, &p);
    let (b, k) = make(&mut l, &q);
    agree::<V>(a == b, &m, &k, "names built in different ways are equal, or names built in the same way differ");
    let (x, y) = (V::input("x"), V::input("y"));
    let (c, d) = (cell(m, x), cell(k, y));
    claim_bool::<V>((c == d) == (a == b), "articulations allocated at different names are the same, or at the same name different");
    V::claim_eq(force(&c), if a == b { y } else { x }, "what is allocated at one name is found at another");
    V::claim_eq(force(&d), y, "what is allocated at a name is not found there");
}
/// The parts of three-way and four-way forks.
pub fn n01f<V: Val>() {
    let mut l = Leaves::<V> { seen: vec![], shift: choose("palette", 2) * 2 };
    let mut left = bound("ops");
    let (a, m) = expr(&mut l, &mut left, 4);
    let (b, n) = expr(&mut l, &mut left, 4);
    let parts = |k: usize, n: &Name| -> Vec<Name> {
        match k {
            0 => { let (a, b) = name_fork(n.clone()); vec![a, b] }
            1 => { let (a, b, c) = name_fork3(n.clone()); vec![a, b, c] }
            _ => { let (a, b, c, d) = name_fork4(n.clone()); vec![a, b, c, d] }
        }
    };
    let (i, j) = (choose("ways", 3), choose("ways", 3));
    let (p, q) = (parts(i, &m), parts(j, &n));
    for (x, u) in p.iter().enumerate() {
        agree::<V>(false, u, &m, "a part of a fork is its origin");
        for (y, v) in p.iter().enumerate() { agree::<V>(x == y, u, v, "two parts of a fork are equal"); }
    }
    if i == j { for (u, v) in p.iter().zip(&q) { agree::<V>(a == b, u, v, "the same part of forks of different names is equal, or of one name differs"); } }
    // (a part of a fork may itself be forked: only then can forks of different names meet)
    let forked = |e: &Ex| matches!(e, Ex::L(_) | Ex::R(_));
    if a != b && !forked(&a) && !forked(&b) {
        for u in &p { for v in &q { agree::<V>(false, u, v, "forks of different names share a part"); } }
        cover("unrelated");
    }
}

// ---------------------------------------------------------------- R04
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Con<T> { Nil, A(T), Cons(T, T), Rec { f: T, g_1: T }, Tail_(Vec<T>) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Pt<T> { x: T, y0: T }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct New<T>(T);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Bare;
/// A value of any type: it prints as the value it holds.
#[derive(Clone, PartialEq, Eq, Hash)]
enum U<V: Val> {
    Leaf(V), Nat(usize), Int(isize), Byte(i8), Str(String), Bool(bool), Name(Name), Art(Art<V>),
    Con(Box<Con<U<V>>>), Pt(Box<Pt<U<V>>>), New(Box<New<U<V>>>), Bare, Opt(Option<Box<U<V>>>),
    T0, T1(Box<(U<V>,)>), T2(Box<(U<V>, U<V>)>), T3(Box<(U<V>, U<V>, U<V>)>), Vec(Vec<U<V>>),
}
impl<V: Val> fmt::Debug for U<V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            U::Leaf(x) => x.fmt(f), U::Nat(x) => x.fmt(f), U::Int(x) => x.fmt(f), U::Byte(x) => x.fmt(f), U::Str(x) => x.fmt(f), U::Bool(x) => x.fmt(f), U::Name(x) => x.fmt(f), U::Art(x) => x.fmt(f),
            U::Con(x) => x.fmt(f), U::Pt(x) => x.fmt(f), U::New(x) => x.fmt(f), U::Bare => Bare.fmt(f), U::Opt(x) => x.fmt(f),
            U::T0 => ().fmt(f), U::T1(x) => x.fmt(f), U::T2(x) => x.fmt(f), U::T3(x) => x.fmt(f), U::Vec(x) => x.fmt(f),
        }
    }
}
/// What the reflected value should be.
enum W<V> { Leaf(V), Is(RVal), Con(&'static str, Vec<W<V>>), Struct(&'static str, Vec<(&'static str, W<V>)>), Tuple(Vec<W<V>>), Vec(Vec<W<V>>), Loc(Vec<Name>, Option<Name>, V) }
fn nm(s: &str) -> Name { name_of_string(s.to_string()) }
fn same<V: Val>(got: &RVal, want: &W<V>) {
    let no = |m: &str| claim_bool::<V>(false, &format!("{}: {:?}", m, got));
    let all = |g: &Vec<RVal>, w: &Vec<W<V>>| { claim_bool::<V>(g.len() == w.len(), "a reflected value has another number of parts"); for (a, b) in g.iter().zip(w) { same(a, b) } };
    match (want, got) {
        (W::Leaf(v), RVal::Constr(n, a)) if *n == nm("V") && a.len() == 1 => match &a[0] {
            RVal::Const(Const::Nat(i)) => V::claim_eq(V::from_print(*i as i64), *v, "a part of a reflected value is another part's"),
            RVal::Const(Const::Num(i)) => V::claim_eq(V::from_print(*i as i64), *v, "a part of a reflected value is another part's"),
            _ => no("a reflected value lost a part"),
        },
        (W::Is(w), g) => claim_bool::<V>(g == w, &format!("a part is reflected as {:?} instead of {:?}", g, w)),
        (W::Con(c, w), RVal::Constr(n, g)) => { claim_bool::<V>(*n == nm(c), "a constructor is reflected under another name"); all(g, w) }
        (W::Struct(c, w), RVal::Struct(n, g)) => {
            claim_bool::<V>(*n == nm(c), "a struct is reflected under another name");
            claim_bool::<V>(g.len() == w.len() && g.iter().zip(w).all(|(a, b)| a.0 == nm(b.0)), "a struct is reflected with other fields");
            for (a, b) in g.iter().zip(w) { same(&a.1, &b.1) }
        }
        (W::Tuple(w), RVal::Tuple(g)) => all(g, w),
        (W::Vec(w), RVal::Vec(g)) => all(g, w),
        (W::Loc(p, n, v), RVal::Art(l, c)) => {
            claim_bool::<V>(*c == ArtContent::Unknown && l.path == *p && n.as_ref().map_or(true, |n| l.name == *n), &format!("an articulation is reflected at another location: {:?}", l));
            // and that location leads to what is there
            let d = reflect::dcg_reflect_now().unwrap();
            match d.table.get(l) {
                Some(Node::Ref(r)) => same(&r.value, &W::Leaf(*v)),
                Some(Node::Pure(r)) => same(&r.value, &W::Leaf(*v)),
                Some(Node::Comp(r)) => match &r.value { Some(x) => same(x, &W::Leaf(*v)), None => claim_bool::<V>(false, "a forced thunk is reflected as unevaluated") },
                None => no("a reflected articulation leads nowhere"),
            }
        }
        _ => no("a part is reflected as another kind of value"),
    }
}
const CHARS: [&str; 26] = ["a", "\"", "\\", "\n", "\t", "\r", "\0", " ", ",", ":", "(", ")", "[", "]", "{", "}", "'", "7", "-", "_", "\u{e9}", "\u{6f22}", "\u{1f600}", "\u{7f}", "\u{301}", "\u{200b}"];
fn small() -> bool { bound_or("small", 0) == 1 }
fn string() -> String {
    if small() { return ["", "a\"b\\", "\u{e9}) ,]:\n"][choose("string", 3)].into() }
    let n = choose("chars", bound_or("chars", 1) + 1); (0..n).map(|_| CHARS[choose("char", CHARS.len())]).collect()
}
fn a_name<V: Val>(left: &mut usize) -> Name {
    if small() {
        return match choose("name", 5) {
            0 => name_of_usize(3), 1 => name_unit(), 2 => name_of_isize(-5),
            3 => { cover("string name"); name_of_string(string()) }
            _ => name_pair(name_fork(name_of_isize(5)).1, name_fork(name_of_str("n")).0),
        }
    }
    let k = if *left == 0 { 5 } else { *left -= 1; 8 };
    match choose("name", k) {
        0 => name_of_usize([3, usize::MAX][choose("nat", 2)]),
        1 => name_unit(),
        2 => name_of_isize([5, -5, 0, isize::MIN][choose("int", 4)]),
        3 => { cover("string name"); name_of_string(string()) }
        4 => name_of_str("String"),
        5 => { let a = a_name::<V>(left); let b = a_name::<V>(left); name_pair(a, b) }
        6 => name_fork(a_name::<V>(left)).0,
        _ => name_fork(a_name::<V>(left)).1,
    }
}
thread_local!(static HERE: std::cell::RefCell<Vec<reflect::Loc>> = Default::default());
fn art<V: Val>() -> (U<V>, W<V>) {
    let v = V::input("content");
    let mut left = bound_or("nameops", 1);
    let n = a_name::<V>(&mut left);
    let path: Vec<Name> = (0..choose("path", bound_or("path", 1) + 1)).map(|_| a_name::<V>(&mut left)).collect();
    fn within<R>(p: &[Name], f: &mut dyn FnMut() -> R) -> R { match p.split_first() { None => f(), Some((h, t)) => ns(h.clone(), || within(t, f)) } }
    let k = choose("articulation", 5);
    // (what is allocated at one location twice is one articulation)
    if k < 2 { HERE.with(|h| { let l = reflect::Loc { path: path.clone(), name: n.clone() }; if h.borrow().contains(&l) { discard() } h.borrow_mut().push(l) }) }
    let mk = |n: Name| thunk(NameChoice::Nominal(n), adapton::macros::ProgPt { symbol: "r04" }, std::rc::Rc::new(Box::new(|v: V, _: ()| v)), v, ());
    let a = within(&path, &mut || match k {
        0 => cell(n.clone(), v),
        1 => { let t = mk(n.clone()); force(&t); t }
        2 => structural(|| cell(n.clone(), v)),
        3 => structural(|| { let t = mk(n.clone()); force(&t); t }),
        _ => put(v),
    });
    cover(["cell", "thunk", "structural cell", "structural thunk", "put"][k]);
    let w = if k == 4 { W::Struct("Art", vec![("art", W::Leaf(v))]) } else { W::Loc(path, if k < 2 { Some(n) } else { None }, v) };
    (U::Art(a), w)
}
fn int(i: isize) -> RVal { RVal::Const(if i < 0 { Const::Num(i) } else { Const::Nat(i as usize) }) }
fn val<V: Val>(left: &mut usize) -> (U<V>, W<V>) {
    const ATOMS: usize = 9;
    let k = if bound_or("only", 0) > 0 { bound("only") } else { choose("value", if *left == 0 { ATOMS } else { ATOMS + 11 }) };
    if k >= ATOMS { *left -= 1; }
    match k {
        0 => { let v = V::input("v"); (U::Leaf(v), W::Leaf(v)) }
        1 => { let n = [0, 10, usize::MAX][if small() { 1 } else { choose("nat", 3) }]; (U::Nat(n), W::Is(RVal::Const(Const::Nat(n)))) }
        2 => { let i = [0, 9, -1, -10, isize::MAX, isize::MIN][if small() { 3 } else { choose("int", 6) }]; cover("integer"); (U::Int(i), W::Is(int(i))) }
        3 => { let i = -128; (U::Byte(i), W::Is(int(i as isize))) }
        4 => { let s = string(); cover("string"); (U::Str(s.clone()), W::Is(RVal::Const(Const::String(s)))) }
        5 => { let b = flag("bool"); (U::Bool(b), W::Con(if b { "true" } else { "false" }, vec![])) }
        6 => { let n = a_name::<V>(&mut bound_or("nameops", 1)); cover("name"); (U::Name(n.clone()), W::Is(RVal::Name(n))) }
        7 => art(),
        8 => (U::Bare, W::Con("Bare", vec![])),
        9 => (U::T0, W::Tuple(vec![])),
        10 => { let a = val(left); (U::T1(Box::new((a.0,))), W::Tuple(vec![a.1])) }
        11 => { let (a, b) = (val(left), val(left)); (U::T2(Box::new((a.0, b.0))), W::Tuple(vec![a.1, b.1])) }
        12 => { let (a, b, c) = (val(left), val(left), val(left)); (U::T3(Box::new((a.0, b.0, c.0))), W::Tuple(vec![a.1, b.1, c.1])) }
        13 => { let n = choose("elements", 3); let (u, w) = (0..n).map(|_| val(left)).unzip(); (U::Vec(u), W::Vec(w)) }
        14 => { let (a, b) = (val(left), val(left)); (U::Con(Box::new(Con::Cons(a.0, b.0))), W::Con("Cons", vec![a.1, b.1])) }
        15 => { let (a, b) = (val(left), val(left)); (U::Con(Box::new(Con::Rec { f: a.0, g_1: b.0 })), W::Struct("Rec", vec![("f", a.1), ("g_1", b.1)])) }
        16 => { let (a, b) = (val(left), val(left)); (U::Pt(Box::new(Pt { x: a.0, y0: b.0 })), W::Struct("Pt", vec![("x", a.1), ("y0", b.1)])) }
        17 => if flag("some") { let a = val(left); (U::Opt(Some(Box::new(a.0))), W::Con("Some", vec![a.1])) } else { (U::Opt(None), W::Con("None", vec![])) },
        18 => match choose("constructor", 3) {
            0 => (U::Con(Box::new(Con::Nil)), W::Con("Nil", vec![])),
            1 => { let a = val(left); (U::Con(Box::new(Con::A(a.0))), W::Con("A", vec![a.1])) }
            _ => { let a = val(left); (U::Con(Box::new(Con::Tail_(vec![a.0]))), W::Con("Tail_", vec![W::Vec(vec![a.1])])) }
        },
        _ => { let a = val(left); (U::New(Box::new(New(a.0))), W::Con("New", vec![a.1])) }
    }
}
/// One long or deep value, with something else in one place of it.
fn large<V: Val>(n: usize) -> (U<V>, W<V>) {
    let leaf = || { let v = V::input("v"); (U::Leaf(v), W::Leaf(v)) };
    match choose("large", 5) {
        0 => {
            let i = choose("at", n);
            cover("long vector");
            let (u, w) = (0..n).map(|j| if i == j { val(&mut 0) } else { leaf() }).unzip();
            (U::Vec(u), W::Vec(w))
        }
        1 => {
            let k = choose("around", 10);
            cover("deep value");
            let mut x = val::<V>(&mut 0);
            for i in 0..n {
                let (u, w) = x;
                x = match if k == 9 { i % 9 } else { k } {
                    0 => (U::T1(Box::new((u,))), W::Tuple(vec![w])),
                    1 => { let y = leaf(); (U::T2(Box::new((u, y.0))), W::Tuple(vec![w, y.1])) }
                    2 => (U::Vec(vec![u]), W::Vec(vec![w])),
                    3 => { let y = leaf(); (U::Con(Box::new(Con::Cons(y.0, u))), W::Con("Cons", vec![y.1, w])) }
                    4 => { let y = leaf(); (U::Con(Box::new(Con::Rec { f: u, g_1: y.0 })), W::Struct("Rec", vec![("f", w), ("g_1", y.1)])) }
                    5 => { let y = leaf(); (U::Pt(Box::new(Pt { x: y.0, y0: u })), W::Struct("Pt", vec![("x", y.1), ("y0", w)])) }
                    6 => (U::Opt(Some(Box::new(u))), W::Con("Some", vec![w])),
                    7 => (U::New(Box::new(New(u))), W::Con("New", vec![w])),
                    _ => { let y = leaf(); (U::Vec(vec![y.0, u]), W::Vec(vec![y.1, w])) }
                };
            }
            x
        }
        2 => {
            let (base, c, i) = (["a", "\"", "\u{e9}"][choose("all", 3)], CHARS[choose("char", CHARS.len())], choose("at", n));
            cover("long string");
            let s: String = (0..n).map(|j| if i == j { c } else { base }).collect();
            (U::Str(s.clone()), W::Is(RVal::Const(Const::String(s))))
        }
        3 => {
            let m = deep_name(n);
            cover("deep name");
            (U::Name(m.clone()), W::Is(RVal::Name(m)))
        }
        _ => {
            // an articulation in a deep namespace
            let v = V::input("content");
            let i = choose("at", n);
            let form = choose("path of", 3);
            let path: Vec<Name> = (0..n).map(|j| if i == j { name_of_str("x-y") } else { match form { 0 => name_of_usize(1), 1 => name_of_usize(j), _ => name_fork(name_of_usize(j)).0 } }).collect();
            let m = if flag("deep name") { deep_name(n) } else { name_of_usize(7) };
            fn within<R>(p: &[Name], f: &mut dyn FnMut() -> R) -> R { match p.split_first() { None => f(), Some((h, t)) => ns(h.clone(), || within(t, f)) } }
            cover("deep location");
            let a = within(&path, &mut || cell(m.clone(), v));
            (U::Art(a), W::Loc(path.clone(), Some(m.clone()), v))
        }
    }
}
fn deep_name(n: usize) -> Name {
    let f = choose("steps", 5);
    let mut m = match choose("name leaf", 3) { 0 => name_of_usize(3), 1 => name_of_isize(-5), _ => name_of_str("x-l") };
    for i in 0..n { m = match if f == 4 { i % 4 } else { f } { 0 => name_fork(m).0, 1 => name_fork(m).1, 2 => name_pair(m, name_of_usize(i)), _ => name_pair(name_of_usize(i), m) }; }
    m
}
pub fn r04l<V: Val>() {
    manage::init_dcg();
    HERE.with(|h| h.borrow_mut().clear());
    let (u, w) = large::<V>(bound("n"));
    reflected(u, w)
}
pub fn r04<V: Val>() {
    manage::init_dcg();
    HERE.with(|h| h.borrow_mut().clear());
    let (u, w) = val::<V>(&mut bound("nodes"));
    reflected(u, w)
}
fn reflected<V: Val>(u: U<V>, w: W<V>) {
    let got = match catching(|| parse_val(&u)) {
        Ok(g) => g,
        Err(m) => { claim_bool::<V>(false, &format!("reflecting {:?} fails: {}", u, m)); return }
    };
    same(&got, &w);
    if bound_or("stored", 1) == 1 {
        // the same, as the content of a cell
        let c = ns(name_of_str("holder"), || cell(name_of_usize(1), u));
        let l = match parse_val(&c) { RVal::Art(l, _) => l, _ => { claim_bool::<V>(false, "an articulation is not reflected as one"); return } };
        match reflect::dcg_reflect_now().unwrap().table.get(&l) { Some(Node::Ref(r)) => same(&r.value, &w), _ => claim_bool::<V>(false, "a cell is not reflected as a cell") }
    }
}
