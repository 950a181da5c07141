//! Collections: lists.
use crate::sx::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type It<V> = NameElse<V>;
pub type Log = Rc<RefCell<Vec<usize>>>;

pub fn engine() -> bool {
    if bound_or("engines", 2) == 2 && flag("naive") { manage::init_naive(); cover("naive"); true } else { manage::init_dcg(); false }
}
pub fn pp(i: usize) -> ProgPt { ProgPt { symbol: ["h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9"][i % 10] } }
/// The `i`-th name whose hash has `lev` trailing zeros.
pub fn name_at(lev: usize, i: usize) -> Name {
    let mut k = 0;
    let mut seen = 0;
    loop {
        let n = name_of_usize(k);
        if <usize as Level>::new(&n) == lev { if seen == i { return n } seen += 1; }
        k += 1;
    }
}
/// A sequence of at most `n` elements and names; the names are different from each other.
pub fn seq<V: Val>(n: usize) -> Vec<It<V>> { seq_from(n, "x", &mut vec![0; 8]) }
pub fn seq_from<V: Val>(n: usize, label: &str, used: &mut Vec<usize>) -> Vec<It<V>> {
    if bound_or("forms", 0) > 0 { return seq_form(n, label, used) }
    let len = choose("length", n + 1);
    let nl = bound_or("namelevels", 1);
    let mut v = vec![];
    let mut names = 0;
    for _ in 0..len {
        if flag("name") {
            names += 1;
            if names > bound_or("maxnames", 99) { discard() }
            let l = if nl > 1 { choose("name level", nl) } else { 0 };
            v.push(NameElse::Name(name_at(l, used[l])));
            used[l] += 1;
        } else { v.push(NameElse::Else(V::input(label))) }
    }
    v
}
/// A sequence of `n` elements and names of a given form.  The elements are different from each other;
/// their order (`ord`) and which of them satisfy the predicate (`keep`) follow one of a few patterns.
fn seq_form<V: Val>(n: usize, label: &str, used: &mut Vec<usize>) -> Vec<It<V>> {
    let main = label == "x";
    let f = if main { choose("form", bound("forms")) } else { 0 };
    let hf = if main { choose("levels", bound_or("levelforms", 1)) } else { 1 };
    set_form(Some(hf + 1), true);
    let mut v: Vec<It<V>> = vec![];
    for i in 0..n {
        let name = match f { 0 => i % 3 == 0, 1 => false, 2 => i % 2 == 0, 3 => i % 5 < 2, 4 => i == 0, 5 => i + 1 == n, 6 => i % 4 == 3, _ => true };
        if name {
            let l = if bound_or("namelevels", 1) > 1 { form_level(hf + 1, names(&v).len()) } else { 0 };
            while used.len() <= l { used.push(0) }
            v.push(NameElse::Name(name_at(l, used[l])));
            used[l] += 1;
        } else { v.push(NameElse::Else(V::input(label))) }
    }
    let es = elems(&v);
    let m = es.len();
    for (i, x) in es.iter().enumerate() { for y in &es[..i] { V::assume(V::not_b(V::eq_b(*x, *y))) } }
    if main && bound_or("ord", 0) > 0 && m > 1 {
        let o: Vec<usize> = match choose("order", bound("ord")) {
            0 => (0..m).map(|i| if i % 2 == 0 { i / 2 } else { m - 1 - i / 2 }).collect(),
            1 => (0..m).collect(),
            2 => (0..m).rev().collect(),
            3 => (0..m).map(|i| (i + m / 3) % m).collect(),
            _ => (0..m).map(|i| if i % 2 == 0 { i / 2 } else { (m + 1) / 2 + i / 2 }).collect(),
        };
        for w in o.windows(2) { V::assume(V::le_b(es[w[0]], es[w[1]])) }
    }
    if main && bound_or("keep", 0) > 0 {
        let k = choose("kept", bound("keep"));
        let p = |i: usize| match k { 0 => i % 2 == 0, 1 => i >= m / 2, 2 => i % 3 == 1, 3 => true, 4 => false, _ => i < m / 2 };
        for (i, x) in es.iter().enumerate() {
            for y in [*x, V::uf("f", &[*x])].iter() { let b = V::pred_b("p", &[*y]); V::assume(if p(i) { b } else { V::not_b(b) }) }
        }
    }
    v
}
pub fn elems<V: Val>(s: &[It<V>]) -> Vec<V> { s.iter().filter_map(|x| match x { NameElse::Else(e) => Some(*e), _ => None }).collect() }
pub fn names<V: Val>(s: &[It<V>]) -> Vec<Name> { s.iter().filter_map(|x| match x { NameElse::Name(n) => Some(n.clone()), _ => None }).collect() }
pub fn claim_seq<V: Val>(got: &[It<V>], want: &[It<V>], msg: &str) {
    let kinds = |s: &[It<V>]| -> Vec<Option<Name>> { s.iter().map(|x| match x { NameElse::Name(n) => Some(n.clone()), _ => None }).collect() };
    claim_bool::<V>(kinds(got) == kinds(want), &format!("{}: elements and names are not in the right places", msg));
    claim_elems(&elems(got), &elems(want), msg);
}
pub fn claim_elems<V: Val>(got: &[V], want: &[V], msg: &str) {
    claim_bool::<V>(got.len() == want.len(), &format!("{}: the wrong number of elements", msg));
    for (g, w) in got.iter().zip(want) { V::note(*g); V::note(*w); }
    let b: Vec<V::B> = got.iter().zip(want).map(|(g, w)| V::eq_b(*g, *w)).collect();
    V::claim(V::and_b(&b), &format!("{}: the wrong elements", msg));
}
/// The list that denotes `items`, with at most `budget` articulations in chosen places.
pub fn build<V: Val>(items: &[It<V>], budget: &mut usize, log: &Log, tag: &str) -> List<V> {
    let wrap = |l: List<V>, i: usize, budget: &mut usize| -> List<V> {
        if *budget == 0 { return l }
        let k = choose("art", 5);
        if k > 0 { *budget -= 1 }
        let n = name_pair(name_of_string(tag.to_string()), name_of_usize(i));
        match k {
            0 => l,
            1 => List::Art(put(l)),
            2 => { cover("cell"); List::Art(cell(n, l)) }
            3 => { cover("nested"); List::Art(cell(n, List::Art(put(l)))) }
            _ => {
                cover("thunk");
                let log = log.clone();
                List::Art(thunk(NameChoice::Nominal(n), pp(i), Rc::new(Box::new(move |l: List<V>, _: ()| { log.borrow_mut().push(i); l })), l, ()))
            }
        }
    };
    let mut l = List::Nil;
    l = wrap(l, items.len(), budget);
    for (i, x) in items.iter().enumerate().rev() {
        l = match x { NameElse::Name(n) => List::Name(n.clone(), Box::new(l)), NameElse::Else(e) => List::Cons(*e, Box::new(l)) };
        l = wrap(l, i, budget);
    }
    l
}
/// `list_of_vec` or a hand-made list.
pub fn input<V: Val>(items: &Vec<It<V>>, log: &Log, tag: &str) -> List<V> {
    let mut b = bound_or("arts", 1);
    if b == 0 || flag("list_of_vec") { list_of_vec(items) } else { build(items, &mut b, log, tag) }
}
fn walk<V: Val>(l: &List<V>) -> Vec<It<V>> {
    let more = |x: It<V>, tl: &List<V>| { let mut v = vec![x]; v.extend(walk(tl)); v };
    <List<V> as ListElim<V>>::elim(l, |_| vec![], |x, tl| more(NameElse::Else(*x), tl), |n, tl| more(NameElse::Name(n.clone()), tl))
}

fn walk_by_move<V: Val>(l: List<V>, at: usize) -> Vec<It<V>> {
    let more = |x: It<V>, tl: List<V>, a: usize| { claim_bool::<V>(a == at, "elim_arg passes on another argument"); let mut v = vec![x]; v.extend(walk_by_move(tl, a + 1)); v };
    <List<V> as ListElim<V>>::elim_arg(l, at, |tl, a| { claim_bool::<V>(a == at && tl == List::Nil, "elim_arg passes on another argument"); vec![] }, |x, tl, a| more(NameElse::Else(x), tl, a), |n, tl, a| more(NameElse::Name(n), tl, a))
}

// ---------------------------------------------------------------- C01
pub fn c01<V: Val>() {
    let naive = engine();
    let log: Log = Default::default();
    let n = bound("n");
    if flag("gen") {
        let len = choose("length", n + 2);
        let l: List<V> = list_gen(len, |i| V::uf("g", &[V::lit(i as i64)]));
        let v = elems(&vec_of_list(l, None));
        let want: Vec<V> = (0..len).map(|i| V::uf("g", &[V::lit(i as i64)])).collect();
        claim_elems(&v, &want, "generating a list");
        cover("generated");
        return;
    }
    let items = seq::<V>(n);
    let plain = flag("list_of_vec");
    let l: List<V> = if plain { list_of_vec(&items) } else { build(&items, &mut bound_or("arts", 2), &log, "art") };
    claim_bool::<V>(log.borrow().is_empty(), "building a list forces it");
    let firstel = items.iter().position(|x| matches!(x, NameElse::Else(_)));
    match choose("op", 7) {
        0 => { claim_seq(&vec_of_list(l, None), &items, "converting a list to a vector"); cover("all"); }
        1 => {
            let k = choose("limit", items.len() + 2);
            let v = if flag("demand") { list_demand(l, k) } else { vec_of_list(l, Some(k)) };
            claim_seq(&v, &items[..k.min(items.len())], "demanding a prefix");
            claim_bool::<V>(log.borrow().iter().all(|i| *i < k), "demanding a prefix forces an articulation beyond it");
            if k < items.len() { cover("prefix") }
        }
        2 => {
            claim_bool::<V>(<List<V> as ListElim<V>>::is_empty(&l) == firstel.is_none(), "is_empty is wrong");
            claim_bool::<V>(list_is_empty(&l) == firstel.is_none(), "is_empty is wrong");
            claim_bool::<V>(<List<V> as ListElim<V>>::is_name(&l) == matches!(items.first(), Some(NameElse::Name(_))), "is_name is wrong");
            claim_seq(&vec_of_list(l, None), &items, "after testing a list");
            cover("tests");
        }
        3 => {
            let r = catching(|| list_pop::<V, List<V>>(l.clone()));
            match firstel {
                None => claim_bool::<V>(r.is_err(), "an element is popped from an empty list"),
                Some(i) => {
                    claim_bool::<V>(r.is_ok(), "popping panics");
                    let (x, tl) = r.unwrap();
                    claim_elems(&[x], &elems(&items[i..i + 1]), "popping");
                    claim_seq(&vec_of_list(tl, None), &items[i + 1..], "the rest after popping");
                    if i > 0 { cover("popped after a name") }
                }
            }
        }
        4 => {
            if flag("by move") { claim_seq(&walk_by_move(l, 3), &items, "eliminating a list by move"); cover("walked by move"); }
            else { claim_seq(&walk(&l), &items, "eliminating a list by reference"); cover("walked"); }
        }
        5 => {
            let x = V::input("new");
            let y = V::input("new");
            let nm = name_of_str("new");
            let (l2, pre): (List<V>, Vec<It<V>>) = match choose("push", 5) {
                0 => (list_push(l, x), vec![NameElse::Else(x)]),
                1 => (list_cons(x, list_cons(y, l)), vec![NameElse::Else(x), NameElse::Else(y)]),
                2 => (list_name(nm.clone(), list_cons(x, l)), vec![NameElse::Name(nm), NameElse::Else(x)]),
                3 => (list_art(cell(nm.clone(), list_push(l, x))), vec![NameElse::Else(x)]),
                _ => (list_push(list_art(put(list_push(l, x))), y), vec![NameElse::Else(y), NameElse::Else(x)]),
            };
            let want: Vec<It<V>> = pre.into_iter().chain(items).collect();
            claim_seq(&vec_of_list(l2, None), &want, "pushing");
            cover("pushed");
        }
        _ => {
            let some = flag("named");
            let nm = name_of_str("new");
            let o = if some { Some(nm.clone()) } else { None };
            let l2: List<V> = match choose("wrap", 4) {
                0 => <List<V> as ListIntro<V>>::name_art(o, l),
                1 => list_name_art_op(o, l),
                2 => list_name_op(o, l),
                _ => {
                    let x = V::input("new");
                    let s = <List<V> as ListIntro<V>>::singleton(x);
                    claim_seq(&vec_of_list(s, None), &[NameElse::Else(x)], "a singleton");
                    claim_bool::<V>(list_is_empty::<V, _>(&list_nil::<V, List<V>>()), "the empty list is not empty");
                    return
                }
            };
            let mut want = items;
            if some { want.insert(0, NameElse::Name(nm)) }
            claim_seq(&vec_of_list(l2, None), &want, "naming a list");
            cover("named");
        }
    }
    let _ = naive;
}

// ---------------------------------------------------------------- C04
pub fn c04<V: Val>() {
    engine();
    let log: Log = Default::default();
    let calls: Rc<RefCell<Vec<V>>> = Default::default();
    let mut used = vec![0; 8];
    let items = seq_from::<V>(bound("n"), "x", &mut used);
    let l = input(&items, &log, "art");
    let c2 = calls.clone();
    let f = Rc::new(move |x: V| { c2.borrow_mut().push(x); V::uf("f", &[x]) });
    let c2 = calls.clone();
    let p = Rc::new(move |x: &V| { c2.borrow_mut().push(*x); V::pred("p", &[*x]) });
    let op = choose("op", 8);
    let ns_ = |s: &str| name_of_string(s.to_string());
    let mapped: Vec<It<V>> = items.iter().map(|x| match x { NameElse::Else(e) => NameElse::Else(V::uf("f", &[*e])), n => n.clone() }).collect();
    match op {
        0 => {
            let o: List<V> = ns(ns_("map"), || list_map_lazy(l, f));
            lazily(&items, &calls, &log, "mapping lazily");
            prefix(o.clone(), &items, &calls, &log, &elems(&mapped).into_iter().map(NameElse::Else).collect(), "mapping lazily");
            let v = vec_of_list(o, None);
            claim_seq(&v, &elems(&mapped).into_iter().map(NameElse::Else).collect::<Vec<_>>(), "mapping lazily");
            cover("map lazy");
        }
        1 => {
            let o: List<V> = ns(ns_("map"), || list_map_eager(l, f));
            claim_elems(&calls.borrow(), &elems(&items), "what an eager map applies the function to");
            claim_seq(&vec_of_list(o, None), &mapped, "mapping eagerly");
            cover("map eager");
        }
        2 => {
            let o: List<V> = ns(ns_("map"), || list_map_eager2(l, f));
            let v = vec_of_list(o, None);
            claim_elems(&elems(&v), &elems(&mapped), "mapping eagerly (2)");
            let shape = |s: &[It<V>]| -> Vec<bool> { s.iter().map(|x| matches!(x, NameElse::Name(_))).collect() };
            claim_bool::<V>(shape(&v) == shape(&items), "mapping eagerly (2): the names are not in the places of the input's names");
            let mut ns = names(&v);
            let m = ns.len();
            ns.sort_by_key(|n| format!("{:?}", n));
            ns.dedup();
            claim_bool::<V>(ns.len() == m, "mapping eagerly (2): two names of the output are the same");
            claim_elems(&calls.borrow(), &elems(&items), "what an eager map applies the function to");
            cover("map eager2");
        }
        3 | 4 => {
            let keep: Vec<It<V>> = items.iter().filter(|x| match x { NameElse::Else(e) => V::pred("p", &[*e]), _ => true }).cloned().collect();
            if op == 3 {
                let o: List<V> = ns(ns_("filter"), || list_filter_lazy(l, p));
                lazily(&items, &calls, &log, "filtering lazily");
                claim_seq(&vec_of_list(o, None), &elems(&keep).into_iter().map(NameElse::Else).collect::<Vec<_>>(), "filtering lazily");
                cover("filter lazy");
            } else {
                let o: List<V> = ns(ns_("filter"), || list_filter_eager(l, p));
                claim_elems(&calls.borrow(), &elems(&items), "what an eager filter applies the predicate to");
                claim_seq(&vec_of_list(o, None), &keep, "filtering eagerly");
                cover("filter eager");
            }
        }
        5 => {
            let items2 = seq_from::<V>(bound_or("m", 1), "y", &mut used);
            let l2 = build(&items2, &mut 0, &log, "art2");
            let o: List<V> = ns(ns_("reverse"), || list_reverse(l, l2));
            let v = vec_of_list(o, None);
            let mut want = elems(&items);
            want.reverse();
            want.extend(elems(&items2));
            claim_elems(&elems(&v), &want, "reversing");
            let key = |v: Vec<Name>| -> Vec<String> { let mut v: Vec<String> = v.iter().map(|n| format!("{:?}", n)).collect(); v.sort(); v };
            let mut all = names(&items);
            all.extend(names(&items2));
            claim_bool::<V>(key(names(&v)) == key(all), "reversing: names are lost or invented");
            cover("reverse");
        }
        6 => {
            let items2 = seq_from::<V>(bound_or("m", 1), "y", &mut used);
            let l2 = input(&items2, &log, "art2");
            let o: List<V> = list_append(l, l2);
            let want: Vec<It<V>> = elems(&items).into_iter().map(NameElse::Else).chain(items2).collect();
            claim_seq(&vec_of_list(o, None), &want, "appending");
            cover("append");
        }
        _ => {
            let z = V::input("z");
            let got = list_fold(l, z, Rc::new(|x: V, r: V| V::uf("c", &[x, r])));
            let mut want = z;
            for x in elems(&items).into_iter().rev() { want = V::uf("c", &[x, want]) }
            V::claim_eq(got, want, "folding a list");
            cover("fold");
        }
    }
}
/// Which elements have been visited: exactly those in front of the first name.
fn lazily<V: Val>(items: &[It<V>], calls: &Rc<RefCell<Vec<V>>>, log: &Log, msg: &str) {
    let first = items.iter().position(|x| matches!(x, NameElse::Name(_))).unwrap_or(items.len());
    claim_elems(&calls.borrow(), &elems(&items[..first]), &format!("{}: visited before anything is demanded", msg));
    claim_bool::<V>(log.borrow().iter().all(|i| *i <= first), &format!("{}: an articulation behind the first name is forced before anything is demanded", msg));
}
/// Demands a prefix and checks how far the input was visited: to the first name behind it.
fn prefix<V: Val>(o: List<V>, items: &[It<V>], calls: &Rc<RefCell<Vec<V>>>, log: &Log, want: &Vec<It<V>>, msg: &str) {
    if want.is_empty() || bound_or("prefix", 1) == 0 { return }
    let k = 1 + choose("prefix", want.len());
    claim_seq(&list_demand(o, k), &want[..k], msg);
    let mut seen = 0;
    let mut upto = items.len();
    for (i, x) in items.iter().enumerate() {
        match x { NameElse::Else(_) => seen += 1, NameElse::Name(_) => if seen >= k { upto = i; break } }
    }
    claim_elems(&calls.borrow(), &elems(&items[..upto]), &format!("{}: visited for a prefix", msg));
    claim_bool::<V>(log.borrow().iter().all(|i| *i <= upto), &format!("{}: an articulation that a prefix does not need is forced", msg));
}

// ---------------------------------------------------------------- C08
type Entry<V> = Vec<(V, V)>;
fn entries<V: Val>(n: usize, arts: usize, tag: &str, used: &mut usize) -> (List<(V, V)>, Entry<V>) {
    // oldest first
    let big = bound_or("forms", 0) > 0;
    let len = if big { n } else { choose("entries", n + 1) };
    // in a big map, keys are different, except that one may come back
    let again = if big { Some(again(n)) } else { None };
    let mut m: List<(V, V)> = map_empty();
    let mut model = vec![];
    let mut budget = arts;
    for i in 0..len {
        let (k, c) = (V::input("key"), V::input("val"));
        if let Some((a, f)) = again { unlike(k, &model.iter().rev().map(|x: &(V, V)| x.0).collect::<Vec<_>>(), if a == i && f < i { cover("a key again"); Some(f) } else { None }) }
        m = map_update(m, k, c);
        model.insert(0, (k, c));
        if budget > 0 {
            let w = choose("art", 5);
            if w > 0 { budget -= 1 }
            let nm = name_pair(name_of_string(tag.to_string()), name_of_usize(*used));
            *used += 1;
            m = match w {
                0 => m,
                1 => { cover("name"); List::Name(nm, Box::new(m)) }
                2 => { cover("cell"); List::Art(cell(nm, m)) }
                3 => { cover("thunk"); List::Art(thunk(NameChoice::Nominal(nm), pp(i), Rc::new(Box::new(move |m: List<(V, V)>, _: ()| m)), m, ())) }
                _ => { List::Name(nm.clone(), Box::new(List::Art(cell(nm, m)))) }
            };
        }
    }
    (m, model)
}
fn lookup<V: Val>(model: &[(V, V)], k: V) -> Option<V> {
    for (d, c) in model { if V::same(*d, k) { return Some(*c) } }
    None
}
fn current<V: Val>(model: &[(V, V)]) -> Entry<V> {
    let mut out: Entry<V> = vec![];
    for (d, c) in model { if !out.iter().any(|(e, _)| V::same(*d, *e)) { out.push((*d, *c)) } }
    out
}
pub fn c08<V: Val>() {
    engine();
    let mut used = 0;
    let set = flag("set");
    if !set {
        let (m, model) = entries::<V>(bound("n"), bound_or("arts", 1), "m", &mut used);
        if flag("fold") {
            let got: Vec<(V, V)> = map_fold(m, vec![], Rc::new(|k: V, c: V, mut r: Vec<(V, V)>| { r.push((k, c)); r }));
            bindings(&got, &current(&model), "folding a map");
            cover("map folded");
        } else {
            let k = V::input("lookup");
            let got: Option<V> = map_find(&m, &k);
            let want = lookup(&model, k);
            claim_bool::<V>(got.is_some() == want.is_some(), if want.is_some() { "a key of the map is not found" } else { "a key that was never added is found" });
            if let (Some(g), Some(w)) = (got, want) { V::claim_eq(g, w, "looking up a key returns the wrong value"); cover("found") } else { cover("not found") }
        }
        return;
    }
    let mk = |n: usize, tag: &str, used: &mut usize| -> (List<(V, ())>, Vec<V>) {
        let big = bound_or("forms", 0) > 0;
        let len = if big { n } else { choose("elements", n + 1) };
        let again = if big { Some(again(n)) } else { None };
        let mut s: List<(V, ())> = <List<(V, ())> as SetIntro<V>>::empty();
        let mut model: Vec<V> = vec![];
        let mut budget = bound_or("arts", 1);
        for _ in 0..len {
            let x = V::input("elm");
            if let Some((a, f)) = again { unlike(x, &model, if a == model.len() && f < a { Some(f) } else { None }) }
            s = <List<(V, ())> as SetIntro<V>>::add(s, x);
            model.push(x);
            if budget > 0 {
                let w = choose("art", 3);
                if w > 0 { budget -= 1 }
                let nm = name_pair(name_of_string(tag.to_string()), name_of_usize(*used));
                *used += 1;
                s = match w { 0 => s, 1 => List::Name(nm, Box::new(s)), _ => List::Art(cell(nm, s)) };
            }
        }
        (s, model)
    };
    let (s, model) = mk(bound("n"), "s", &mut used);
    let isin = |m: &Vec<V>, x: V| m.iter().any(|y| V::same(*y, x));
    match choose("op", 3) {
        0 => {
            let x = V::input("query");
            claim_bool::<V>(<List<(V, ())> as SetElim<V>>::is_mem(&s, &x) == isin(&model, x), "membership is wrong");
            cover("member");
        }
        1 => {
            let got: Vec<V> = <List<(V, ())> as SetElim<V>>::fold(s, vec![], |x, mut r: Vec<V>| { r.push(x); r });
            each_once(&got, &model, "folding a set");
            cover("set folded");
        }
        _ => {
            let (t, model2) = mk(bound_or("m", 2), "t", &mut used);
            let i = <List<(V, ())> as SetIntro<V>>::inter(s, t);
            let x = V::input("query");
            let want = isin(&model, x) && isin(&model2, x);
            claim_bool::<V>(<List<(V, ())> as SetElim<V>>::is_mem(&i, &x) == want, "an intersection does not hold exactly the common elements");
            let got: Vec<V> = <List<(V, ())> as SetElim<V>>::fold(i, vec![], |x, mut r: Vec<V>| { r.push(x); r });
            let common: Vec<V> = model.iter().filter(|x| isin(&model2, **x)).cloned().collect();
            each_once(&got, &common, "folding an intersection");
            if want { cover("common") }
        }
    }
}
/// Which entry of a big map or set repeats which earlier one (none if they are the same).
fn again(n: usize) -> (usize, usize) { if n < 2 { return (0, 0) } match choose("again", 5) { 0 => (0, 0), 1 => (n - 1, 0), 2 => (n - 1, n - 2), 3 => (n / 2, 0), _ => (n - 1, n / 2) } }
/// `x` differs from all of `all` except the `i`-th, which it equals.
fn unlike<V: Val>(x: V, all: &[V], i: Option<usize>) { for (j, y) in all.iter().enumerate() { let e = V::eq_b(x, *y); V::assume(if i == Some(j) { e } else if i.map_or(false, |i| i < all.len() && V::same(*y, all[i])) { e } else { V::not_b(e) }) } }
pub fn each_once<V: Val>(got: &[V], model: &[V], msg: &str) {
    for (i, x) in got.iter().enumerate() {
        claim_bool::<V>(model.iter().any(|y| V::same(*x, *y)), &format!("{}: visits something that is not an element", msg));
        claim_bool::<V>(!got[..i].iter().any(|y| V::same(*x, *y)), &format!("{}: visits an element twice", msg));
    }
    for x in model { claim_bool::<V>(got.iter().any(|y| V::same(*x, *y)), &format!("{}: misses an element", msg)); }
}
fn bindings<V: Val>(got: &[(V, V)], want: &[(V, V)], msg: &str) {
    let ks: Vec<V> = got.iter().map(|x| x.0).collect();
    let ws: Vec<V> = want.iter().map(|x| x.0).collect();
    each_once(&ks, &ws, msg);
    for (k, c) in got { for (d, w) in want { if V::same(*k, *d) { V::claim_eq(*c, *w, &format!("{}: visits a key with a value that is not its current one", msg)); } } }
}
