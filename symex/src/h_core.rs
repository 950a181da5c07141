use crate::lab::*;
use crate::sx::*;
use adapton::engine::*;

pub fn e01<V: Val>() { manage::init_dcg(); let mut s = Session::<V>::new(Checks { result: true, ..Default::default() }); history(&mut s) }
pub fn e02<V: Val>() { manage::init_dcg(); let mut s = Session::<V>::new(Checks { minimal: true, ..Default::default() }); history(&mut s) }
pub fn e03<V: Val>() { manage::init_dcg(); let mut s = Session::<V>::new(Checks { lazy: true, ..Default::default() }); history(&mut s) }
pub fn e04<V: Val>() { manage::init_dcg(); let mut s = Session::<V>::new(Checks { result: true, minimal: true, ..Default::default() }); history(&mut s) }
/// The engine's debugging modes.
pub fn flags(m: usize) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        if m & 1 != 0 { std::env::set_var("ADAPTON_CHECK_DCG", "1") }
        if m & 2 != 0 { std::env::set_var("ADAPTON_NO_PURITY", "1") }
        // (nothing can be edited then)
        if m & 4 != 0 { std::env::set_var("ADAPTON_STRUCTURAL", "1") }
    });
}
pub fn e20<V: Val>() {
    let m = bound("mode");
    flags(m);
    manage::init_dcg();
    let mut s = Session::<V>::new(Checks { result: true, minimal: bound_or("abs", 0) == 0 && m & 4 == 0, lazy: m & 4 != 0, ..Default::default() });
    history(&mut s)
}

/// One cell that several thunks allocate (all with the same content), that the editor assigns too, and that a thunk observes.
/// The observer runs again when the content differs from what it observed, and only then.
pub fn e02s<V: Val>() {
    manage::init_dcg();
    use std::cell::Cell as C; use std::rc::Rc;
    let (k, v) = (bound("allocs"), V::input("v"));
    let ran: Vec<Rc<C<usize>>> = (0..k + 1).map(|_| Rc::new(C::new(0))).collect();
    // (an allocator may also be re-run by an input of its own)
    let inp: Vec<Art<V>> = (0..k).map(|i| cell(name_of_usize(100 + i), V::lit(0))).collect();
    let al: Vec<Art<Art<V>>> = (0..k).map(|i| {
        let (r, x) = (ran[i].clone(), inp[i].clone());
        thunk(NameChoice::Nominal(name_of_usize(i)), pt(i), Rc::new(Box::new(move |v: V, _: ()| { r.set(r.get() + 1); let _ = force(&x); cell(name_of_str("shared"), v) })), v, ())
    }).collect();
    let c = force(&al[0]);
    let mapped = flag("mapped");
    let obs = {
        let (r, c) = (ran[k].clone(), c.clone());
        thunk(NameChoice::Nominal(name_of_str("observer")), pt(k), Rc::new(Box::new(move |_: (), _: ()| {
            r.set(r.get() + 1);
            if mapped { force_map(&c, |_, x: V| V::uf("m", &[x])) } else { V::uf("f", &[force(&c)]) }
        })), (), ())
    };
    let mut cur = v;
    let mut seen: Option<V> = None;
    for s in 0..bound("steps") {
        match choose("step", 3 + k) {
            0 => {
                let before = ran[k].get();
                V::claim_eq(force(&obs), V::uf(if mapped { "m" } else { "f" }, &[cur]), "a forced thunk's result differs from a from-scratch run");
                let (changed, again) = (match seen { None => true, Some(w) => if mapped { !V::same(V::uf("m", &[w]), V::uf("m", &[cur])) } else { !V::same(w, cur) } }, ran[k].get() > before);
                if s > 0 { if again { cover("changed") } else { cover("kept") } }
                claim_bool::<V>(again || !changed, "a thunk was not run again though what it observed changed");
                claim_bool::<V>(changed || !again, "a thunk was run again though nothing that it observed changed");
                if again { seen = Some(cur) }
            }
            1 => { let x = V::input("x"); set(&c, x); cur = x; cover("assigned") }
            2 => { set(&c, v); cur = v; cover("restored") }
            i => {
                let i = i - 3;
                if flag("input changed") { set(&inp[i], V::input("i")); }
                let before = ran[i].get();
                let d = force(&al[i]);
                claim_bool::<V>(c == d, "one name, one articulation");
                if ran[i].get() > before { cur = v; cover("allocated again") }
            }
        }
    }
}
