//! Collections: pipelines under edits.
use crate::h_lists::*;
use crate::h_trees::*;
use crate::sx::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::*;
use std::rc::Rc;

/// A pipeline's output.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct O<V: Val> { l: List<V>, t: Tree<V>, v: Vec<V>, b: Vec<NameElse<V>> }
fn lst<V: Val>(l: List<V>) -> O<V> { O { l, t: Tree::Nil, v: vec![], b: vec![] } }
fn tre<V: Val>(t: Tree<V>) -> O<V> { O { l: List::Nil, t, v: vec![], b: vec![] } }
fn val<V: Val>(v: Vec<V>) -> O<V> { O { l: List::Nil, t: Tree::Nil, v, b: vec![] } }
fn tree<V: Val>(l: List<V>) -> Tree<V> { tree_in(Dir2::Left, l) }

fn keep<V: Val>() -> Box<dyn Fn(&V) -> bool> { Box::new(|x: &V| V::pred("p", &[*x])) }
pub const PIPES: usize = 20;
fn pipe<V: Val>(k: usize, l: List<V>) -> O<V> {
    let p = |x: &V| V::pred("p", &[*x]);
    let g = |x: V| V::uf("f", &[x]);
    match k {
        0 => lst(ns(nm("map"), || list_map_eager(l, Rc::new(g)))),
        1 => lst(ns(nm("map"), || list_map_lazy(l, Rc::new(g)))),
        2 => lst(ns(nm("map"), || list_map_eager2(l, Rc::new(g)))),
        3 => lst(ns(nm("filter"), || list_filter_eager(l, Rc::new(p)))),
        4 => lst(ns(nm("filter"), || list_filter_lazy(l, Rc::new(p)))),
        5 => lst(ns(nm("reverse"), || list_reverse(l, List::Nil))),
        6 => tre(tree(l)),
        7 => tre(tree_in(Dir2::Right, l)),
        8 => { let t = tree(l); lst(ns(nm("list"), || list_of_tree(t, Dir2::Left))) }
        9 => { let t = tree(l); tre(ns(nm("copy"), || eager_tree_of_tree(t))) }
        10 => { let t = tree(l); tre(ns(nm("prune"), || prune_tree_of_tree(t))) }
        11 => { let t = tree(l); tre(ns(nm("filter"), || filter_tree_of_tree(t, keep()))) }
        12 => { let t = tree(l); lst(ns(nm("filter"), || filter_list_of_tree(t, keep()))) }
        13 => { let t = tree(l); lst(ns(nm("sort"), || mergesort_list_of_tree(t))) }
        14 => { let t = tree(l); lst(ns(nm("sort"), || mergesort_list_of_tree2(t, Some(nm("first"))))) }
        15 => { let t = tree(l); lst(ns(nm("sort"), || mergesort_list_of_tree3(t, Some(nm("first"))))) }
        16 => { let t = tree(l); val(vec![ns(nm("fold"), || tree_fold_seq(t, Dir2::Left, V::lit(0), Rc::new(|x: V, r: V| V::uf("leaf", &[x, r])), Rc::new(|_: usize, r: V| r), Rc::new(|_: Name, _: usize, r: V| V::uf("name", &[r]))))]) }
        17 => { let t = tree(l); val(vec![ns(nm("fold"), || tree_fold_up(t, Rc::new(|| V::lit(0)), Rc::new(g), Rc::new(|_: usize, a: V, b: V| V::uf("bin", &[a, b])), Rc::new(|_: Name, _: usize, a: V, b: V| V::uf("bin", &[a, b]))))]) }
        18 => {
            let m: List<V> = ns(nm("map"), || list_map_eager(l, Rc::new(g)));
            let m: List<V> = ns(nm("filter"), || list_filter_eager(m, Rc::new(p)));
            let t = tree(m);
            lst(ns(nm("list"), || list_of_tree(t, Dir2::Right)))
        }
        _ => {
            let t = tree(l);
            let t: Tree<V> = ns(nm("filter"), || filter_tree_of_tree(t, keep()));
            lst(ns(nm("sort"), || mergesort_list_of_tree3(t, None)))
        }
    }
}
/// Everything an observer sees of an output.
fn observe<V: Val>(o: &O<V>, prefix: Option<usize>) -> (Vec<It<V>>, Tree<V>, Vec<V>) {
    let v = match prefix { None => vec_of_list(o.l.clone(), None), Some(k) => list_demand(o.l.clone(), k) };
    (v, plain(&o.t), o.v.clone())
}
fn pick(label: &str) -> usize {
    let mask = bound_or("pipes", (1 << PIPES) - 1);
    let all: Vec<usize> = (0..PIPES).filter(|i| mask >> i & 1 == 1).collect();
    all[choose(label, all.len())]
}
pub fn c07<V: Val>() {
    set_levelled();
    manage::init_dcg();
    let k = pick("pipeline");
    let mode = choose("mode", 3);
    let mut used = vec![0; 8];
    let mut items = seq_from::<V>(bound("n"), "x", &mut used);
    let rounds = bound("rounds");
    for r in 0..rounds {
        let l = list_of_vec(&items);
        let o: O<V> = match mode {
            0 => { cover("direct"); pipe(k, l) }
            1 => {
                let c = cell(nm("input"), l);
                let root = thunk(NameChoice::Nominal(nm("root")), pp(1), Rc::new(Box::new(move |_: (), _: ()| pipe(k, force(&c)))), (), ());
                cover("cell");
                force(&root)
            }
            _ => {
                let root = thunk(NameChoice::Nominal(nm("root")), pp(2), Rc::new(Box::new(move |l: List<V>, _: ()| pipe(k, l))), l, ());
                cover("argument");
                force(&root)
            }
        };
        let lazy = o.l != List::Nil;
        let pre = if lazy && r + 1 < rounds && bound_or("prefix", 0) == 1 { match choose("demand", 3) { 0 => None, 1 => Some(0), _ => Some(1) } } else { None };
        let (gv, gt, gx) = observe(&o, pre);
        let (wv, wt, wx) = naively(|| observe(&pipe(k, list_of_vec(&items)), pre));
        claim_seq(&gv, &wv, &format!("pipeline {} after {} edits: the list", k, r));
        claim_tree(&gt, &wt, &format!("pipeline {} after {} edits: the tree", k, r));
        claim_elems(&gx, &wx, &format!("pipeline {} after {} edits: the result", k, r));
        if r + 1 < rounds {
            for _ in 0..1 + choose("more edits", bound_or("edits", 1)) { items = edit(&items, &mut used); }
        }
    }
}
