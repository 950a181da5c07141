//! Collections: tries.
use crate::h_lists::*;
use crate::h_trees::*;
use crate::sx::*;
use adapton::catalog::bitstring::*;
use adapton::catalog::collections::trie::{self};
use adapton::catalog::collections::trie::{Meta, Trie, TrieElim, TrieIntro};
use adapton::engine::*;
use adapton::macros::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

fn hash_of<V: Val>(x: &V) -> i64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish() as i64
}
/// A well-formed trie that holds `xs`: each in the leaf that its hash selects, no branch without elements.
fn make<V: Val>(xs: &[(V, i64)], bs: BS, count: &mut usize, budget: &mut usize, split: Option<&V>, tag: &str) -> Trie<V> {
    let depth = bs.length;
    *count += 1;
    let id = *count;
    let t = if xs.is_empty() { Trie::Nil(bs) }
    else if xs.len() == 1 && (depth >= 3 || split.is_some() || bound_or("deep", 1) == 0 || !flag("deeper")) {
        let leaf = Trie::Leaf(bs, xs[0].0);
        match split {
            Some(x) if *x == xs[0].0 => { cover("split"); <Trie<V> as TrieElim<V>>::split_atomic(leaf) }
            _ => leaf,
        }
    } else {
        let zero: Vec<(V, i64)> = xs.iter().filter(|x| x.1 >> depth & 1 == 0).cloned().collect();
        let one: Vec<(V, i64)> = xs.iter().filter(|x| x.1 >> depth & 1 == 1).cloned().collect();
        let b0 = BS { length: depth + 1, value: bs.value };
        let b1 = BS { length: depth + 1, value: bs.value | 1 << depth };
        let l = make(&zero, b0, count, budget, split, tag);
        let r = make(&one, b1, count, budget, split, tag);
        Trie::Bin(bs, Box::new(l), Box::new(r))
    };
    if *budget == 0 { return t }
    let w = choose("art", 5);
    if w > 0 { *budget -= 1 }
    let n = name_pair(nm(tag), name_of_usize(id));
    match w {
        0 => t,
        1 => { cover("cell"); Trie::Art(cell(n, t)) }
        2 => { cover("thunk"); Trie::Art(thunk(NameChoice::Nominal(n), pp(0), Rc::new(Box::new(|t: Trie<V>, _: ()| t)), t, ())) }
        3 => { cover("name"); Trie::Name(n, Box::new(t)) }
        _ => { cover("name"); Trie::Name(n.clone(), Box::new(Trie::Art(cell(n, t)))) }
    }
}
/// The trie without articulations, read directly (9) or through one of the three eliminators.
fn read<V: Val>(t: &Trie<V>, how: usize, arg: usize) -> Trie<V> {
    let again = |t: &Trie<V>| Box::new(read(t, how, arg));
    let arrives = |a: usize| claim_bool::<V>(a == arg, "an eliminator passes on another argument");
    let bin = |bs: BS, l: &Trie<V>, r: &Trie<V>| Trie::Bin(bs, again(l), again(r));
    match how {
        0 => TrieElim::<V>::elim(t.clone(), |bs| Trie::Nil(bs), |bs, x| Trie::Leaf(bs, x), |bs, l, r| bin(bs, &l, &r), |m, t| Trie::Root(m, again(&t)), |n, t| Trie::Name(n, again(&t))),
        1 => TrieElim::<V>::elim_ref(t, |bs| Trie::Nil(*bs), |bs, x| Trie::Leaf(*bs, *x), |bs, l, r| bin(*bs, l, r), |m, t| Trie::Root(m.clone(), again(t)), |n, t| Trie::Name(n.clone(), again(t))),
        2 => TrieElim::<V>::elim_arg(t.clone(), arg, |bs, a| { arrives(a); Trie::Nil(bs) }, |bs, x, a| { arrives(a); Trie::Leaf(bs, x) }, |bs, l, r, a| { arrives(a); bin(bs, &l, &r) }, |m, t, a| { arrives(a); Trie::Root(m, again(&t)) }, |n, t, a| { arrives(a); Trie::Name(n, again(&t)) }),
        _ => match t {
            Trie::Bin(bs, l, r) => bin(*bs, l, r),
            Trie::Root(m, t) => Trie::Root(m.clone(), again(t)),
            Trie::Name(n, t) => Trie::Name(n.clone(), again(t)),
            Trie::Art(a) => read(&force(a), how, arg),
            t => t.clone(),
        },
    }
}
pub fn c09<V: Val>() {
    engine();
    set_lowbits(bound("bits") as u32);
    let mut xs: Vec<(V, i64)> = vec![];
    let big = bound_or("forms", 0) > 0;
    let n = if big { set_form(Some(choose("form", bound("forms"))), true); bound("n") - choose("fewer", 2) } else { choose("elements", bound("n") + 1) };
    for _ in 0..n {
        let x = V::input("x");
        let h = hash_of(&x);
        if xs.iter().any(|y| y.0 == x) { discard() }
        xs.push((x, h));
    }
    if big { set_form(Some(0), false) }
    let rounds = bound_or("rounds", 1);
    let op = choose("op", 5);
    for r in 0..rounds {
        let t = if xs.is_empty() && flag("made by the library") { ns(nm("input"), || <Trie<V> as TrieIntro<V>>::empty(Meta { min_depth: 1 })) } else {
            let mut budget = bound_or("arts", 1);
            let split = if op == 4 { if xs.is_empty() { discard() } Some(xs[choose("which", xs.len())].0) } else { None };
            let t = make(&xs, BS { length: 0, value: 0 }, &mut 0, &mut budget, split.as_ref(), "trie");
            if bound_or("rounds", 1) == 1 && flag("root") { Trie::Root(Meta { min_depth: 1 }, Box::new(t)) } else { t }
        };
        let all: Vec<V> = xs.iter().map(|x| x.0).collect();
        let msg = |s: &str| if op == 4 { format!("after splitting a leaf: {}", s) } else if r > 0 { format!("after an edit: {}", s) } else { s.to_string() };
        match op {
            0 | 4 => {
                let q = V::input("query");
                let want = all.iter().any(|x| *x == q);
                claim_bool::<V>(<Trie<V> as trie::SetElim<V>>::mem(&t, &q) == want, &msg("membership is wrong"));
                let f = <Trie<V> as TrieElim<V>>::find(&t, &q, hash_of(&q));
                claim_bool::<V>(f.is_some() == want, &msg("find is wrong"));
                if let Some(f) = f { V::claim_eq(f, q, &msg("find returns another element")) }
                if want { cover("member") } else { cover("not a member") }
                if op == 4 {
                    let got: Vec<V> = <Trie<V> as trie::SetElim<V>>::fold(t, vec![], Rc::new(|x: V, mut r: Vec<V>| { r.push(x); r }));
                    each_once(&got, &all, &msg("folding"));
                }
            }
            1 => {
                let got: Vec<V> = <Trie<V> as trie::SetElim<V>>::fold(t, vec![], Rc::new(|x: V, mut r: Vec<V>| { r.push(x); r }));
                each_once(&got, &all, &msg("folding"));
                cover("folded");
            }
            2 => {
                let fold = |t: Trie<V>| -> Vec<V> { ns(nm("fold"), || trie::trie_fold(t, vec![], Rc::new(|x: V, mut r: Vec<V>| { r.push(x); r }))) };
                let got = fold(t.clone());
                each_once(&got, &all, &msg("folding with memoisation"));
                let again = fold(t);
                claim_elems(&again, &got, &msg("folding with memoisation a second time"));
                cover("memo folded");
            }
            _ => {
                claim_bool::<V>(<Trie<V> as TrieElim<V>>::is_empty(&t) == all.is_empty(), &msg("is_empty is wrong"));
                cover("emptiness");
                claim_bool::<V>(read(&t, choose("eliminator", 3), 5) == read(&t, 9, 5), &msg("eliminating a trie"));
            }
        }
        if r + 1 < rounds {
            // another element, or one fewer
            if xs.is_empty() || flag("add") {
                let x = V::input("y");
                let h = hash_of(&x);
                if xs.iter().any(|y| y.0 == x) { discard() }
                xs.push((x, h));
            } else { xs.remove(choose("remove", xs.len())); }
            cover("edited");
            if op == 4 { return }
        }
    }
}
