//! Collections: trees.
use crate::h_lists::*;
use crate::sx::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub fn nm(s: &str) -> Name { name_of_string(s.to_string()) }
/// The tree without articulations, read directly.
pub fn plain<X: Clone + Debug + Hash + Eq + 'static>(t: &Tree<X>) -> Tree<X> {
    match t {
        Tree::Nil => Tree::Nil,
        Tree::Leaf(x) => Tree::Leaf(x.clone()),
        Tree::Bin(v, l, r) => Tree::Bin(*v, Box::new(plain(l)), Box::new(plain(r))),
        Tree::Name(n, v, l, r) => Tree::Name(n.clone(), *v, Box::new(plain(l)), Box::new(plain(r))),
        Tree::Art(a) => plain(&force(a)),
    }
}
/// Elements and names from left to right, of a tree without articulations.
pub fn flat<X: Clone + Debug>(t: &Tree<X>, out: &mut Vec<NameElse<X>>) {
    match t {
        Tree::Nil => (),
        Tree::Leaf(x) => out.push(NameElse::Else(x.clone())),
        Tree::Bin(_, l, r) => { flat(l, out); flat(r, out) }
        Tree::Name(n, _, l, r) => { flat(l, out); out.push(NameElse::Name(n.clone())); flat(r, out) }
        Tree::Art(_) => panic!("articulation"),
    }
}
pub fn flatten<X: Clone + Debug>(t: &Tree<X>) -> Vec<NameElse<X>> { let mut v = vec![]; flat(t, &mut v); v }
pub fn hasart<X>(t: &Tree<X>) -> bool {
    match t { Tree::Art(_) => true, Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => hasart(l) || hasart(r), _ => false }
}
/// Claims that two trees without articulations are the same.
pub fn claim_tree<V: Val>(a: &Tree<V>, b: &Tree<V>, msg: &str) {
    let mut eqs = vec![];
    claim_bool::<V>(same_shape::<V>(a, b, &mut eqs), &format!("{}: the trees differ in shape, levels or names", msg));
    for (x, y) in &eqs { V::note(*x); V::note(*y) }
    let bs: Vec<V::B> = eqs.iter().map(|(x, y)| V::eq_b(*x, *y)).collect();
    V::claim(V::and_b(&bs), &format!("{}: the trees differ in their elements", msg));
}
fn same_shape<V: Val>(a: &Tree<V>, b: &Tree<V>, eqs: &mut Vec<(V, V)>) -> bool {
    match (a, b) {
        (Tree::Nil, Tree::Nil) => true,
        (Tree::Leaf(x), Tree::Leaf(y)) => { eqs.push((*x, *y)); true }
        (Tree::Bin(v, l, r), Tree::Bin(w, m, s)) => v == w && same_shape::<V>(l, m, eqs) && same_shape::<V>(r, s, eqs),
        (Tree::Name(n, v, l, r), Tree::Name(o, w, m, s)) => n == o && v == w && same_shape::<V>(l, m, eqs) && same_shape::<V>(r, s, eqs),
        _ => false,
    }
}
pub fn dir(label: &str) -> Dir2 { if flag(label) { Dir2::Right } else { Dir2::Left } }
pub fn mirrored<X: Clone>(v: &[X], m: bool) -> Vec<X> { let mut v = v.to_vec(); if m { v.reverse() } v }
pub fn tree_in<V: Val>(d: Dir2, l: List<V>) -> Tree<V> { ns(nm("tree_of_list"), || tree_of_list::<usize, V, Tree<V>, List<V>>(d, l)) }

// ---------------------------------------------------------------- C02
fn pruned<V: Val>(t: &Tree<V>) -> Tree<V> {
    match t {
        Tree::Bin(v, l, r) => match (pruned(l), pruned(r)) { (Tree::Nil, r) => r, (l, Tree::Nil) => l, (l, r) => Tree::Bin(*v, Box::new(l), Box::new(r)) },
        Tree::Name(n, v, l, r) => match (pruned(l), pruned(r)) { (Tree::Nil, r) => r, (l, Tree::Nil) => l, (l, r) => Tree::Name(n.clone(), *v, Box::new(l), Box::new(r)) },
        t => t.clone(),
    }
}
pub fn c02<V: Val>() {
    set_levelled();
    engine();
    let log: Log = Default::default();
    let (t, items, mir) = if bound_or("hand", 0) > 0 && flag("hand made") {
        let t: Tree<V> = hand(&mut bound("hand"), &mut 0, &mut |_| V::input("x"));
        let items = flatten(&plain(&t));
        (t, items, false)
    } else {
        let items = seq::<V>(bound("n"));
        let l = input(&items, &log, "art");
        let d = dir("build from the right");
        (tree_in(d, l), items, d == Dir2::Right)
    };
    let p = plain(&t);
    let want = mirrored(&items, mir);
    claim_seq(&flatten(&p), &want, "building a tree from a list");
    match choose("op", 5) {
        0 => {
            let arts = hasart(&t);
            claim_bool::<V>(<Tree<V> as TreeElim<usize, V>>::is_empty(&t) == elems(&want).is_empty(), "is_empty is wrong for a tree");
            claim_bool::<V>(<Tree<V> as TreeElim<usize, V>>::is_nil(&t) == matches!(p, Tree::Nil), "is_nil is wrong for a tree");
            let lev = match &p { Tree::Nil => 0, Tree::Leaf(x) => <usize as Level>::new(x), Tree::Bin(v, ..) | Tree::Name(_, v, ..) => *v, Tree::Art(_) => unreachable!() };
            claim_bool::<V>(<Tree<V> as TreeElim<usize, V>>::lev_of_tree(&t) == lev, "lev_of_tree is wrong");
            let w = eliminated(t.clone(), choose("eliminator", 4), 7);
            claim_tree(&w, &p, "eliminating a tree");
            if arts { cover("eliminated articulations") }
        }
        1 => {
            let d = dir("list from the right");
            let l: List<V> = ns(nm("list_of_tree"), || list_of_tree(t, d));
            claim_seq(&vec_of_list(l, None), &mirrored(&want, d == Dir2::Right), "listing a tree");
            cover("listed");
        }
        2 => {
            let e: Tree<V> = ns(nm("eager"), || eager_tree_of_tree(t));
            claim_bool::<V>(!hasart(&e), "an eager copy contains articulations");
            claim_tree(&e, &p, "copying a tree");
            cover("copied");
        }
        _ => {
            let q: Tree<V> = ns(nm("prune"), || prune_tree_of_tree(t));
            let q = plain(&q);
            claim_elems(&elems(&flatten(&q)), &elems(&want), "pruning a tree");
            claim_tree(&q, &pruned(&p), "pruning a tree");
            cover("pruned");
        }
    }
    claim_bool::<V>(<Tree<V> as TreeElim<usize, V>>::is_empty(&p) == elems(&want).is_empty(), "is_empty is wrong for a tree");
}
/// The tree without articulations, read through one of the four eliminators.
fn eliminated<V: Val>(t: Tree<V>, how: usize, arg: usize) -> Tree<V> {
    let bin = |v: usize, l: Tree<V>, r: Tree<V>, a: usize| Tree::Bin(v, Box::new(eliminated(l, how, a)), Box::new(eliminated(r, how, a)));
    let name = |n: Name, v: usize, l: Tree<V>, r: Tree<V>, a: usize| Tree::Name(n, v, Box::new(eliminated(l, how, a)), Box::new(eliminated(r, how, a)));
    let arrives = |a: usize| claim_bool::<V>(a == arg, "an eliminator passes on another argument");
    type E<V> = Tree<V>;
    match how {
        0 => <E<V> as TreeElim<usize, V>>::elim(t, || Tree::Nil, |x| Tree::Leaf(x), |v, l, r| bin(v, l, r, arg), |n, v, l, r| name(n, v, l, r, arg)),
        1 => <E<V> as TreeElim<usize, V>>::elim_ref(&t, || Tree::Nil, |x| Tree::Leaf(*x), |v, l, r| bin(*v, l.clone(), r.clone(), arg), |n, v, l, r| name(n.clone(), *v, l.clone(), r.clone(), arg)),
        2 => <E<V> as TreeElim<usize, V>>::elim_arg(t, arg, |a| { arrives(a); Tree::Nil }, |x, a| { arrives(a); Tree::Leaf(x) }, |v, l, r, a| { arrives(a); bin(v, l, r, a) }, |n, v, l, r, a| { arrives(a); name(n, v, l, r, a) }),
        _ => <E<V> as TreeElim<usize, V>>::full_move(t, arg, |a| { arrives(a); Tree::Nil }, |x, a| { arrives(a); Tree::Leaf(x) }, |v, l, r, a| { arrives(a); bin(v, l, r, a) }, |n, v, l, r, a| { arrives(a); name(n, v, l, r, a) }, |art, a| { arrives(a); eliminated(force(art), how, a) }),
    }
}
/// An arbitrary tree of at most `budget` constructors.
pub fn hand<X: Clone + Debug + Hash + Eq + 'static>(budget: &mut usize, count: &mut usize, leaf: &mut dyn FnMut(usize) -> X) -> Tree<X> {
    if *budget == 0 { return Tree::Nil }
    let k = choose("node", 5);
    if k > 0 { *budget -= 1 }
    *count += 1;
    let c = *count;
    match k {
        0 => Tree::Nil,
        1 => Tree::Leaf(leaf(c)),
        2 => { let l = hand(budget, count, leaf); let r = hand(budget, count, leaf); Tree::Bin(c, Box::new(l), Box::new(r)) }
        3 => { let l = hand(budget, count, leaf); let r = hand(budget, count, leaf); Tree::Name(name_of_usize(c), c, Box::new(l), Box::new(r)) }
        _ => {
            let t = hand(budget, count, leaf);
            let n = name_pair(nm("tree"), name_of_usize(c));
            if c % 2 == 0 { Tree::Art(cell(n, t)) } else { Tree::Art(thunk(NameChoice::Nominal(n), pp(0), Rc::new(Box::new(move |t: Tree<X>, _: ()| t)), t, ())) }
        }
    }
}

// ---------------------------------------------------------------- C03
fn first_item<V: Val>(t: &Tree<V>, mir: bool) -> Option<It<V>> { let v = mirrored(&flatten(t), mir); v.into_iter().next() }
fn top(t: &Tree<impl Clone>) -> usize { match t { Tree::Bin(v, ..) | Tree::Name(_, v, ..) => *v, _ => 0 } }
fn canonical<V: Val>(t: &Tree<V>, mir: bool) {
    match t {
        Tree::Bin(v, l, r) => {
            claim_bool::<V>(top(l) <= *v && top(r) <= *v, "a node has a descendant of a higher level");
            // the element that introduced the node is the first one (in the list's order) of the later side
            match first_item(if mir { l } else { r }, mir) {
                Some(NameElse::Else(x)) => claim_bool::<V>(*v == <usize as Level>::inc(&<usize as Level>::new(&x)), "a binary node does not carry the level of the element that introduced it"),
                _ => claim_bool::<V>(false, "a binary node was not introduced by an element"),
            }
            canonical(l, mir);
            canonical(r, mir);
        }
        Tree::Name(n, v, l, r) => {
            claim_bool::<V>(top(l) <= *v && top(r) <= *v, "a node has a descendant of a higher level");
            claim_bool::<V>(*v == <usize as Level>::inc(&<usize as Level>::add(&<usize as Level>::bits(), &<usize as Level>::new(n))), "a named node does not carry the level of its name");
            canonical(l, mir);
            canonical(r, mir);
        }
        _ => (),
    }
}
/// Inserts, deletes or replaces an item.
pub fn edit<V: Val>(items: &[It<V>], used: &mut Vec<usize>) -> Vec<It<V>> {
    let mut v = items.to_vec();
    let nl = bound_or("namelevels", 1);
    let mut fresh = |used: &mut Vec<usize>| if flag("name") { let l = choose("name level", nl); used[l] += 1; NameElse::Name(name_at(l, used[l] - 1)) } else { NameElse::Else(V::input("y")) };
    match choose("edit", 3) {
        0 => { if v.len() >= bound("n") + bound_or("grow", 0) { discard() } let i = choose("at", v.len() + 1); let x = fresh(used); v.insert(i, x); cover("inserted") }
        1 => { if v.is_empty() { discard() } let i = choose("at", v.len()); v.remove(i); cover("deleted") }
        _ => {
            if v.is_empty() { discard() }
            let i = choose("at", v.len());
            if let NameElse::Name(_) = v[i] { discard() }
            v[i] = NameElse::Else(V::input("y"));
            cover("replaced")
        }
    }
    v
}
pub fn naively<R>(f: impl FnOnce() -> R) -> R {
    let dcg = manage::init_naive();
    let r = f();
    manage::use_engine(dcg);
    r
}
pub fn c03<V: Val>() {
    set_levelled();
    manage::init_dcg();
    let log: Log = Default::default();
    let d = dir("build from the right");
    let mir = d == Dir2::Right;
    let mut used = vec![0; 8];
    let mut items = seq_from::<V>(bound("n"), "x", &mut used);
    for round in 0..1 + bound_or("edits", 0) {
        let l = if bound_or("edits", 0) == 0 { input(&items, &log, "art") } else { list_of_vec(&items) };
        let t = plain(&tree_in(d, l));
        canonical(&t, mir);
        let s = naively(|| plain(&tree_in(d, list_of_vec(&items))));
        claim_tree(&t, &s, if round == 0 { "the DCG and the naive engine" } else { "after an edit and from scratch" });
        if top(&t) > 0 { cover("nodes") }
        if round < bound_or("edits", 0) { items = edit(&items, &mut used) }
    }
}

// ---------------------------------------------------------------- C05
fn model_seq<V: Val>(t: &Tree<V>, right: bool, res: V) -> V {
    match t {
        Tree::Leaf(x) => V::uf("leaf", &[*x, res]),
        Tree::Bin(v, l, r) => { let (l, r) = if right { (r, l) } else { (l, r) }; let res = model_seq(l, right, res); let res = V::uf("bin", &[V::lit(*v as i64), res]); model_seq(r, right, res) }
        Tree::Name(n, v, l, r) => { let (l, r) = if right { (r, l) } else { (l, r) }; let res = model_seq(l, right, res); let res = V::uf("name", &[idx(n), V::lit(*v as i64), res]); model_seq(r, right, res) }
        _ => res,
    }
}
/// A number that stands for a name.
fn idx<V: Val>(n: &Name) -> V {
    thread_local!(static SEEN: RefCell<Vec<Name>> = RefCell::new(vec![]));
    SEEN.with(|s| { let mut s = s.borrow_mut(); match s.iter().position(|m| m == n) { Some(i) => V::lit(i as i64), None => { s.push(n.clone()); V::lit(s.len() as i64 - 1) } } })
}
fn opt<V: Val>(n: &Option<Name>) -> V { match n { None => V::lit(-1), Some(n) => idx(n) } }
fn model_up<V: Val>(t: &Tree<V>) -> V {
    match t {
        Tree::Leaf(x) => V::uf("uleaf", &[*x]),
        Tree::Bin(v, l, r) => V::uf("ubin", &[V::lit(*v as i64), model_up(l), model_up(r)]),
        Tree::Name(n, v, l, r) => V::uf("uname", &[idx(n), V::lit(*v as i64), model_up(l), model_up(r)]),
        _ => V::uf("unil", &[]),
    }
}
fn model_dn<V: Val>(t: &Tree<V>, m: Option<Name>) -> V {
    match t {
        Tree::Leaf(x) => V::uf("dleaf", &[opt(&m), *x]),
        Tree::Bin(v, l, r) => V::uf("dbin", &[opt(&m), V::lit(*v as i64), model_dn(l, m.clone()), model_dn(r, None)]),
        Tree::Name(n, v, l, r) => V::uf("dname", &[opt(&m), idx(n), V::lit(*v as i64), model_dn(l, m.clone()), model_dn(r, Some(n.clone()))]),
        _ => V::uf("dnil", &[opt(&m)]),
    }
}
fn filtered<V: Val>(t: &Tree<V>) -> Tree<V> {
    match t {
        Tree::Leaf(x) => if V::pred("p", &[*x]) { Tree::Leaf(*x) } else { Tree::Nil },
        Tree::Bin(v, l, r) => match (filtered(l), filtered(r)) { (Tree::Nil, r) => r, (l, Tree::Nil) => l, (l, r) => Tree::Bin(*v, Box::new(l), Box::new(r)) },
        Tree::Name(n, v, l, r) => Tree::Name(n.clone(), *v, Box::new(filtered(l)), Box::new(filtered(r))),
        _ => Tree::Nil,
    }
}
pub fn c05<V: Val>() {
    set_levelled();
    engine();
    let log: Log = Default::default();
    let handmade = bound_or("hand", 0) > 0;
    if flag("monoid") {
        // the free monoid: sequences under concatenation
        let t: Tree<Vec<V>> = if handmade { hand(&mut bound("hand"), &mut 0, &mut |_| vec![V::input("x")]) } else {
            let items: Vec<NameElse<Vec<V>>> = seq::<V>(bound("n")).into_iter().map(|x| match x { NameElse::Name(n) => NameElse::Name(n), NameElse::Else(e) => NameElse::Else(vec![e]) }).collect();
            let l: List<Vec<V>> = list_of_vec(&items);
            ns(nm("tree_of_list"), || tree_of_list::<usize, Vec<V>, Tree<Vec<V>>, List<Vec<V>>>(dir("build from the right"), l))
        };
        let want: Vec<V> = flatten(&plain(&t)).into_iter().filter_map(|x| match x { NameElse::Else(e) => Some(e[0]), _ => None }).collect();
        let got: Vec<V> = ns(nm("monoid"), || monoid_of_tree(t, vec![], Rc::new(|mut a: Vec<V>, b: Vec<V>| { a.extend(b); a })));
        claim_elems(&got, &want, "folding a tree upwards with a monoid");
        cover("monoid");
        return;
    }
    let t: Tree<V> = if handmade { hand(&mut bound("hand"), &mut 0, &mut |_| V::input("x")) } else {
        let items = seq::<V>(bound("n"));
        let l = input(&items, &log, "art");
        tree_in(dir("build from the right"), l)
    };
    let p = plain(&t);
    let orig = flatten(&p);
    match choose("op", 5) {
        0 => {
            let d = dir("fold from the right");
            let z = V::input("z");
            let got = ns(nm("fold"), || tree_fold_seq(t, d, z,
                Rc::new(|x: V, r: V| V::uf("leaf", &[x, r])), Rc::new(|v: usize, r: V| V::uf("bin", &[V::lit(v as i64), r])), Rc::new(|n: Name, v: usize, r: V| V::uf("name", &[idx(&n), V::lit(v as i64), r]))));
            V::claim_eq(got, model_seq(&p, d == Dir2::Right, z), "folding a tree sequentially");
            cover("seq");
        }
        1 => {
            let got = ns(nm("fold"), || tree_fold_up(t, Rc::new(|| V::uf("unil", &[])), Rc::new(|x: V| V::uf("uleaf", &[x])),
                Rc::new(|v: usize, l: V, r: V| V::uf("ubin", &[V::lit(v as i64), l, r])), Rc::new(|n: Name, v: usize, l: V, r: V| V::uf("uname", &[idx(&n), V::lit(v as i64), l, r]))));
            V::claim_eq(got, model_up(&p), "folding a tree upwards");
            cover("up");
        }
        2 => {
            let m = if flag("named") { Some(nm("left")) } else { None };
            let got = ns(nm("fold"), || tree_fold_up_nm_dn(t, m.clone(), Rc::new(|m: Option<Name>| V::uf("dnil", &[opt(&m)])), Rc::new(|m: Option<Name>, x: V| V::uf("dleaf", &[opt(&m), x])),
                Rc::new(|m: Option<Name>, v: usize, l: V, r: V| V::uf("dbin", &[opt(&m), V::lit(v as i64), l, r])),
                Rc::new(|m: Option<Name>, n: Name, v: usize, l: V, r: V| V::uf("dname", &[opt(&m), idx(&n), V::lit(v as i64), l, r]))));
            V::claim_eq(got, model_dn(&p, m), "folding a tree upwards with names passed down");
            cover("names down");
        }
        3 => {
            let o: List<V> = ns(nm("filter"), || filter_list_of_tree(t, Box::new(|x: &V| V::pred("p", &[*x]))));
            let v = vec_of_list(o, None);
            // the sequence of gaps: which names stand between which kept elements
            let split = |s: &[It<V>]| -> (Vec<V>, Vec<Vec<Name>>) {
                let mut es = vec![];
                let mut gaps = vec![vec![]];
                for x in s { match x { NameElse::Name(n) => gaps.last_mut().unwrap().push(n.clone()), NameElse::Else(e) => if V::pred("p", &[*e]) { es.push(*e); gaps.push(vec![]) } } }
                (es, gaps)
            };
            let (we, wg) = split(&orig);
            let (ge, gg) = split(&v);
            claim_bool::<V>(elems(&v).len() == ge.len(), "filtering a tree to a list keeps an element that does not satisfy the predicate");
            claim_elems(&ge, &we, "filtering a tree to a list");
            for (i, (g, w)) in gg.iter().zip(&wg).enumerate() {
                let inner = i > 0 && i < wg.len() - 1;
                claim_bool::<V>(g.iter().all(|n| w.contains(n)), "filtering a tree to a list puts a name where there was none");
                claim_bool::<V>(g.len() <= 1, "filtering a tree to a list keeps more than one name between two elements");
                if inner { claim_bool::<V>(g.len() == 1.min(w.len()), "filtering a tree to a list does not keep a name between two elements that a name separated"); }
                if inner && w.len() > 1 { cover("one of several names") }
            }
            cover("filtered to a list");
        }
        _ => {
            let o: Tree<V> = ns(nm("filter"), || filter_tree_of_tree(t, Box::new(|x: &V| V::pred("p", &[*x]))));
            let q = plain(&o);
            let keep: Vec<It<V>> = orig.iter().filter(|x| match x { NameElse::Else(e) => V::pred("p", &[*e]), _ => true }).cloned().collect();
            claim_elems(&elems(&flatten(&q)), &elems(&keep), "filtering a tree to a tree");
            claim_seq(&flatten(&q), &keep, "filtering a tree to a tree (names)");
            claim_tree(&q, &filtered(&p), "filtering a tree to a tree");
            cover("filtered to a tree");
        }
    }
}

// ---------------------------------------------------------------- C06
pub fn sorted<V: Val>(v: &[V]) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    for x in v { let i = out.iter().position(|y| V::test(V::not_b(V::le_b(*y, *x)))).unwrap_or(out.len()); out.insert(i, *x) }
    out
}
pub fn c06<V: Val>() {
    set_levelled();
    engine();
    let log: Log = Default::default();
    if bound_or("merge", 0) > 0 && flag("merge") {
        let mut used = vec![0; 8];
        let mut side = |tag: &str, n: usize| -> (List<V>, Vec<V>) {
            let items = seq_from::<V>(n, tag, &mut used);
            let es = elems(&items);
            for w in es.windows(2) { if bound_or("forms", 0) == 0 { V::assume(V::le_b(w[0], w[1])) } }
            (input(&items, &log, tag), es)
        };
        let (l1, e1) = side("x", bound("merge"));
        let (l2, e2) = side("y", bound("merge"));
        if bound_or("forms", 0) > 0 {
            let (m1, m2) = (e1.len(), e2.len());
            let mut all: Vec<V> = vec![];
            let (mut i, mut j) = (0, 0);
            let how = choose("interleaving", 6);
            while i < m1 || j < m2 {
                let left = match how { 0 => i <= j, 1 => i < m1, 2 => j == m2, 3 => (i + j) % 4 < 2, 4 => j == m2 || (i < m1 && i < 1), _ => (i + j) % 3 > 0 };
                if (left && i < m1) || j == m2 { all.push(e1[i]); i += 1 } else { all.push(e2[j]); j += 1 }
            }
            for w in all.windows(2) { V::assume(V::not_b(V::le_b(w[1], w[0]))) }
        }
        let o1 = if flag("named left") { Some(nm("left")) } else { None };
        let o2 = if flag("named right") { Some(nm("right")) } else { None };
        let o: List<V> = ns(nm("merge"), || list_merge(o1, l1, o2, l2));
        ordered(o, &e1.into_iter().chain(e2).collect::<Vec<_>>(), "merging");
        cover("merged");
        return;
    }
    let t: Tree<V> = if bound_or("hand", 0) > 0 && flag("hand made") {
        hand(&mut bound("hand"), &mut 0, &mut |_| V::input("x"))
    } else {
        let items = seq::<V>(bound("n"));
        let l = input(&items, &log, "art");
        tree_in(dir("build from the right"), l)
    };
    let es = elems(&flatten(&plain(&t)));
    let (begin, most) = (compared(), merging(&plain(&t)).1);
    let o: List<V> = match choose("variant", 5) {
        0 => { cover("variant 1"); ns(nm("sort"), || mergesort_list_of_tree(t)) }
        k => {
            let m = if k % 2 == 0 { Some(nm("first")) } else { None };
            if k < 3 { cover("variant 2"); ns(nm("sort"), || mergesort_list_of_tree2(t, m)) } else { cover("variant 3"); ns(nm("sort"), || mergesort_list_of_tree3(t, m)) }
        }
    };
    ordered(o.clone(), &es, "sorting");
    if manage::engine_is_dcg() {
        let end = compared();
        claim_bool::<V>(end - begin <= 2 * most, "sorting compares more often than merging the subtrees, each once, takes");
        let _ = vec_of_list(o, None);
        claim_bool::<V>(compared() == end, "demanding a sorted list again sorts it again");
    }
}
/// The number of elements, and the comparisons that it takes to merge them bottom-up.
fn merging<V: Val>(t: &Tree<V>) -> (usize, usize) {
    match t {
        Tree::Leaf(_) => (1, 0),
        Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => { let (a, b) = (merging(l), merging(r)); (a.0 + b.0, a.1 + b.1 + if a.0 > 0 && b.0 > 0 { a.0 + b.0 - 1 } else { 0 }) }
        _ => (0, 0),
    }
}
fn ordered<V: Val>(o: List<V>, es: &[V], msg: &str) {
    let want = sorted(es);
    if bound_or("prefix", 1) == 1 && flag("prefix") {
        let k = if bound_or("forms", 0) > 0 { [1, es.len() / 2 + 1, 2 * es.len() + 1][choose("items", 3)] } else { choose("items", 2 * es.len() + 2) };
        let v = elems(&list_demand(o.clone(), k));
        claim_bool::<V>(v.len() <= want.len(), &format!("{}: too many elements", msg));
        claim_elems(&v, &want[..v.len()], &format!("{} (a prefix)", msg));
        cover("prefix");
    }
    let v = elems(&vec_of_list(o, None));
    claim_elems(&v, &want, msg);
}
