//! Allocation under names already in use.
use crate::lab::*;
use crate::sx::*;
use adapton::engine::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn e08<V: Val>() { manage::init_dcg(); let mut s = Session::<V>::new(Checks { result: true, ..Default::default() }); history(&mut s); s.contents() }

/// Named, counted and unnamed allocations side by side.
pub fn e08b<V: Val>() {
    use adapton::macros::*;
    use adapton::*;
    manage::init_dcg();
    let n = bound("steps");
    // (identity: Some(k) for name k, None for unnamed), articulation, model content
    let mut all: Vec<(Option<usize>, Art<V>, V)> = vec![];
    let mut fresh = 100;
    let store = |all: &mut Vec<(Option<usize>, Art<V>, V)>, id: Option<usize>, a: Art<V>, v: V| {
        for (i, b, w) in all.iter_mut() {
            let same = id.is_some() && *i == id;
            if same { claim_bool::<V>(*b == a, "allocating an existing name gives another articulation"); *w = v; }
            else if id.is_some() || i.is_some() { claim_bool::<V>(*b != a, "allocations under different names (or none) give one articulation"); }
        }
        all.push((id, a, v));
    };
    for _ in 0..n {
        let k = choose("kind", 7);
        let v = V::input("v");
        match k {
            0 | 1 => { let a = cell(name_of_usize(1000 + k), v); store(&mut all, Some(k), a, v) }
            2 => { let a = put(v); store(&mut all, None, a, v) }
            3 => { let no: Option<Name> = None; let a = cell!([no]? v); store(&mut all, None, a, v) }
            4 => { let a = cell!(v); fresh += 1; store(&mut all, Some(fresh), a, v) }
            5 => { let a = cell!([Some(name_of_usize(1000))]? v); store(&mut all, Some(0), a, v) }
            _ => {
                let named: Vec<usize> = all.iter().filter_map(|x| x.0).collect();
                if named.is_empty() { discard() }
                let id = named[choose("which", named.len())];
                let a = all.iter().find(|x| x.0 == Some(id)).unwrap().1.clone();
                set(&a, v);
                for x in all.iter_mut() { if x.0 == Some(id) { x.2 = v } }
                cover("set");
            }
        }
        for (_, a, w) in &all { V::claim_eq(force(a), *w, "a cell's content is not the value last stored in it"); }
    }
    cover("end");
}

pub fn e09<V: Val>() {
    manage::init_dcg();
    let mut s = Session::<V>::new(Checks { result: true, minimal: true, ..Default::default() });
    history(&mut s);
    // the name at other code
    let env = s.env.clone();
    let r = catching(|| {
        let e = env.clone();
        thunk(NameChoice::Nominal(name_t(0)), pt(11), Rc::new(Box::new(move |a: Arg<V>, _: ()| interp(&e, &mut Real(e.clone()), 0, a.v, &a.hs))), Arg { v: env.targ.borrow()[0], hs: vec![] }, ())
    });
    claim_bool::<V>(r.is_err(), "re-using a thunk's name for different code is accepted");
}

// ---------------------------------------------------------------- a name that switches between cell and thunk
#[derive(Clone, Copy)]
enum X<V> { Cell(V), Thunk(V) }
struct K<V: Val> { c0: Art<V>, log: RefCell<Vec<&'static str>>, reads: usize }
fn x_name() -> Name { name_of_str("x") }
fn x_thunk<V: Val>(k: &Rc<K<V>>, a: V) -> Art<V> {
    let k = k.clone();
    thunk(NameChoice::Nominal(x_name()), pt(0), Rc::new(Box::new(move |a: V, _: ()| { k.log.borrow_mut().push("x"); V::uf("g", &[a, force(&k.c0)]) })), a, ())
}
fn x_make<V: Val>(k: &Rc<K<V>>, x: X<V>) -> Art<V> { match x { X::Cell(v) => cell(x_name(), v), X::Thunk(a) => x_thunk(k, a) } }
fn x_val<V: Val>(c0: V, x: X<V>) -> V { match x { X::Cell(v) => v, X::Thunk(a) => V::uf("g", &[a, c0]) } }
fn reader<V: Val>(k: &Rc<K<V>>, i: usize, x: Art<V>, how: usize) -> Art<V> {
    let k = k.clone();
    thunk(NameChoice::Nominal(name_pair(name_of_str("reader"), name_of_usize(i))), pt(1 + i), Rc::new(Box::new(move |x: Art<V>, _: ()| {
        k.log.borrow_mut().push("reader");
        let s = ["r0", "r1"][i];
        let mut acc = V::lit(0);
        let m = |x: &Art<V>, j: usize| force_map(x, move |_, y| V::uf(["m", "m2"][j], &[y]));
        let a = |x: &Art<V>| force_abs(Box::new(Fam(std::marker::PhantomData)), 0usize, x.clone());
        match how {
            0 => acc = V::uf(s, &[acc, force(&x)]),
            1 => acc = V::uf(s, &[acc, m(&x, 0)]),
            2 => { acc = V::uf(s, &[acc, m(&x, 0)]); acc = V::uf(s, &[acc, force(&x)]); }
            3 => { acc = V::uf(s, &[acc, m(&x, 0)]); acc = V::uf(s, &[acc, m(&x, 1)]); }
            _ => acc = V::uf(s, &[acc, a(&x)]),
        }
        acc
    })), x, ())
}
fn reader_val<V: Val>(i: usize, x: V, how: usize) -> V {
    let s = ["r0", "r1"][i];
    let m = |j: usize| V::uf(["m", "m2"][j], &[x]);
    let z = V::lit(0);
    match how {
        0 => V::uf(s, &[z, x]),
        1 => V::uf(s, &[z, m(0)]),
        2 => V::uf(s, &[V::uf(s, &[z, m(0)]), x]),
        3 => V::uf(s, &[V::uf(s, &[z, m(0)]), m(1)]),
        _ => V::uf(s, &[z, V::uf("m0", &[x])]),
    }
}
/// The editor switches the name.
pub fn e10<V: Val>() { e10_with::<V>(&|| (), &|_| ()) }
/// What the editor did to the name: whether it is now a thunk, and whether that is new content.
pub type Made = Option<(bool, bool)>;
pub fn e10_with<V: Val>(before: &dyn Fn(), after: &dyn Fn(Made)) {
    manage::init_dcg();
    let mut c0v = V::input("c0");
    let c0 = cell(name_of_str("c0"), c0v);
    let k = Rc::new(K { c0: c0.clone(), log: RefCell::new(vec![]), reads: 0 });
    let _ = k.reads;
    let mut x = if flag("start") { X::Thunk(V::input("x")) } else { X::Cell(V::input("x")) };
    let mut art = x_make(&k, x);
    let hows = bound_or("hows", 5);
    let how = [choose("how", hows), choose("how", hows)];
    let nr = bound_or("readers", 1);
    let rs: Vec<Art<V>> = (0..nr).map(|i| reader(&k, i, art.clone(), how[i])).collect();
    let outer = { let r = rs[0].clone(); let k = k.clone(); thunk(NameChoice::Nominal(name_of_str("outer")), pt(3), Rc::new(Box::new(move |_: u8, _: ()| { k.log.borrow_mut().push("outer"); V::uf("o", &[force(&r)]) })), 0u8, ()) };
    for r in 0..bound("rounds") {
        if r > 0 {
            for _ in 0..=choose("edits", bound("edits")) {
                let e = choose("edit", 4);
                let v = V::input(if e == 2 { "c0" } else { "x" });
                if let (3, X::Thunk(_)) = (e, x) { discard() }
                before();
                let mut made = None;
                match e {
                    0 | 1 => {
                        let y = if e == 0 { X::Cell(v) } else { X::Thunk(v) };
                        let a = x_make(&k, y);
                        claim_bool::<V>(a == art, "switching kind gives another articulation");
                        art = a;
                        made = Some((e == 1, match (x, y) { (X::Cell(v), X::Cell(w)) | (X::Thunk(v), X::Thunk(w)) => v != w, _ => true }));
                        x = y;
                    }
                    2 => { c0v = v; set(&c0, c0v) }
                    _ => { x = X::Cell(v); set(&art, v) }
                }
                after(made);
            }
            cover(match x { X::Cell(_) => "cell", X::Thunk(_) => "thunk" });
        }
        let d = choose("demand", 2 + nr);
        before();
        let got = match d { 0 => force(&outer), 1 => force(&art), i => force(&rs[i - 2]) };
        after(None);
        match d {
            0 => V::claim_eq(got, V::uf("o", &[reader_val(0, x_val(c0v, x), how[0])]), "a computation over a name that switched kind is out of date"),
            1 => V::claim_eq(got, x_val(c0v, x), "a name that switched kind does not hold the new content"),
            i => V::claim_eq(got, reader_val(i - 2, x_val(c0v, x), how[i - 2]), "a reader of a name that switched kind is out of date"),
        }
    }
}
/// A computation switches the name, depending on an input.
pub fn e10b<V: Val>() {
    manage::init_dcg();
    let mut cv = [V::input("c0"), V::input("c1")];
    let c0 = cell(name_of_str("c0"), cv[0]);
    let c1 = cell(name_of_str("c1"), cv[1]);
    let k = Rc::new(K { c0: c0.clone(), log: RefCell::new(vec![]), reads: 0 });
    let how = choose("how", bound_or("hows", 5));
    let w = {
        let (k, c1) = (k.clone(), c1.clone());
        thunk(NameChoice::Nominal(name_of_str("w")), pt(4), Rc::new(Box::new(move |_: u8, _: ()| {
            let v = force(&c1);
            let x = if V::pred("kind", &[v]) { cover("cell"); X::Cell(V::uf("xc", &[v])) } else { cover("thunk"); X::Thunk(V::uf("xt", &[v])) };
            let a = x_make(&k, x);
            let r = reader(&k, 0, a, how);
            V::uf("w", &[v, force(&r)])
        })), 0u8, ())
    };
    for r in 0..bound("rounds") {
        if r > 0 {
            for _ in 0..=choose("edits", bound("edits")) {
                let i = choose("cell", 2);
                cv[i] = V::input("set");
                set(if i == 0 { &c0 } else { &c1 }, cv[i]);
            }
        }
        let v = cv[1];
        let x = if V::pred("kind", &[v]) { X::Cell(V::uf("xc", &[v])) } else { X::Thunk(V::uf("xt", &[v])) };
        V::claim_eq(force(&w), V::uf("w", &[v, reader_val(0, x_val(cv[0], x), how)]), "a computation that switches a name between cell and thunk is out of date");
    }
}
