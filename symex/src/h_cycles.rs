//! Demand graphs that become cyclic, cease to be, or stay cyclic when cells are edited.
use adapton::macros::ProgPt;
use crate::sx::*;
use adapton::engine::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
const PN: [&str; 4] = ["p0", "p1", "p2", "p3"];
struct H<V: Val> { arts: RefCell<Vec<Art<V>>>, cells: Vec<Art<V>>, ops: RefCell<HashMap<(usize, usize), (usize, bool, bool)>>, n: usize, len: usize, alts: bool, cond: bool, inside: bool, ran: RefCell<Vec<usize>> }
/// (thunk, or n + cell, or stop; with an alternative; only under a condition on what was computed so far)
fn hop<V: Val>(g: &H<V>, t: usize, i: usize) -> (usize, bool, bool) {
    let stop = g.n + g.cells.len();
    if i >= g.len { return (stop, false, false) }
    if let Some(o) = g.ops.borrow().get(&(t, i)) { return *o }
    let to = choose("to", stop + 1);
    let o = if to >= g.n { (to, false, false) } else { (to, g.alts && flag("cyclic"), g.cond && i > 0 && flag("cond")) };
    g.ops.borrow_mut().insert((t, i), o);
    o
}
fn hbody<V: Val>(g: &Rc<H<V>>, t: usize) -> V {
    let mut acc = V::lit(t as i64);
    for i in 0.. {
        let (to, cyc, cond) = hop(g, t, i);
        if to == g.n + g.cells.len() { break }
        if cond && !V::pred(PN[t % 4], &[V::lit(i as i64), acc]) { continue }
        let x = if to >= g.n { force(&g.cells[to - g.n]) } else {
            let a = if g.inside { mk(g, to) } else { g.arts.borrow()[to].clone() };
            if cyc { force_cycle(&a, Some(V::uf("alt", &[V::lit((1000 + t * 10 + i) as i64)]))) } else { force(&a) }
        };
        acc = V::uf("f", &[acc, x]);
    }
    acc
}
/// A memoised thunk per node, allocated beforehand and, with `inside`, by every body that demands it.
fn mk<V: Val>(g: &Rc<H<V>>, t: usize) -> Art<V> {
    let h = g.clone();
    thunk(NameChoice::Nominal(name_of_usize(t)), ProgPt { symbol: "g" }, Rc::new(Box::new(move |t: usize, _: ()| { h.ran.borrow_mut().push(t); hbody(&h, t) })), t, ())
}
/// From scratch: the value, or Err on a plain force that re-enters; whether a force re-entered.
fn href<V: Val>(g: &Rc<H<V>>, cv: &[V], t: usize, stack: &mut Vec<usize>, memo: &mut HashMap<usize, V>, again: &mut bool) -> Result<V, ()> {
    if let Some(v) = memo.get(&t) { return Ok(*v) }
    stack.push(t);
    let mut acc = V::lit(t as i64);
    for i in 0.. {
        let (to, cyc, cond) = hop(g, t, i);
        if to == g.n + g.cells.len() { break }
        if cond && !V::pred(PN[t % 4], &[V::lit(i as i64), acc]) { continue }
        let x = if to >= g.n { cv[to - g.n] } else if stack.contains(&to) {
            *again = true;
            if cyc { V::uf("alt", &[V::lit((1000 + t * 10 + i) as i64)]) } else { return Err(()) }
        } else { href(g, cv, to, stack, memo, again)? };
        acc = V::uf("f", &[acc, x]);
    }
    stack.pop();
    memo.insert(t, acc);
    Ok(acc)
}
pub fn e13c<V: Val>() { cyclic::<V>(|| (), |_, _| ()) }
/// `before` and `after` each step of the editor (with the locations of the thunks that ran, and whether something was set)
pub fn cyclic<V: Val>(before: fn(), after: fn(&[usize], bool)) {
    let m = bound_or("mode", 0);
    if m > 0 { crate::h_core::flags(m) }
    manage::init_dcg();
    let n = bound("thunks");
    let mut cv: Vec<V> = (0..bound("cells")).map(|_| V::input("c")).collect();
    let cells: Vec<Art<V>> = cv.iter().enumerate().map(|(i, v)| cell(name_of_usize(100 + i), *v)).collect();
    let g = Rc::new(H::<V> { arts: RefCell::new(vec![]), cells, ops: RefCell::new(HashMap::new()), n, len: bound("oplen"), alts: bound_or("alts", 0) == 1, cond: bound_or("cond", 0) == 1, inside: bound_or("inside", 0) == 1, ran: RefCell::new(vec![]) });
    for t in 0..n {
        let a = mk(&g, t);
        g.arts.borrow_mut().push(a);
    }
    let mut root = None;
    let mut one = true;
    let mut was = false;
    for r in 0..bound("rounds") {
        if r > 0 {
            let i = choose("set", cv.len());
            let v = V::input("v");
            before();
            set(&g.cells[i], v);
            after(&[], true);
            cv[i] = v;
        }
        let t = choose("demand", n);
        if root.is_some() && root != Some(t) { one = false }
        root = Some(t);
        let mut again = false;
        let want = href(&g, &cv, t, &mut vec![], &mut HashMap::new(), &mut again);
        let a = g.arts.borrow()[t].clone();
        g.ran.borrow_mut().clear();
        before();
        let got = catching(|| force(&a));
        if got.is_ok() { after(&g.ran.borrow(), false) }
        match (want, got) {
            (Err(()), Err(_)) => { if r > 0 && !was { cover("became cyclic") } return }
            // (with alternatives, an earlier demand may have left a result that was obtained by one)
            (Err(()), Ok(_)) => { was = true; if !g.alts || r == 0 { claim_bool::<V>(false, "a demand in which a thunk plainly forces itself did not panic") } }
            (Ok(_), Err(m)) => { if !again || one { claim_bool::<V>(false, &format!("a demand without an unexpected cycle panicked: {}", m)) } return }
            (Ok(w), Ok(x)) => {
                if !again { V::claim_eq(x, w, "a demand without a cycle gives something else than a from-scratch evaluation"); if was { cover("ceased to be cyclic") } cover("value") }
                // One root and no branches: every demand visits the thunks in the same order, so nothing but the cells differs.
                else if r == 0 || (one && !g.cond) { V::claim_eq(x, w, "a demand in a cyclic graph gives something else than the alternative at re-entering forces and the ordinary value elsewhere"); if r > 0 { cover("stayed cyclic") } }
                was |= again;
            }
        }
    }
}
