//! Reflection (R01), traces (R02) and trace statistics (R03), against what the bodies and the
//! editor themselves saw happen.
use crate::lab::*;
use crate::sx::*;
use adapton::engine::*;
use adapton::reflect::{self, trace, Const, Node, Val as RVal};
use std::cell::RefCell;
use std::collections::HashMap;

// ---------------------------------------------------------------- R01
fn now() -> reflect::DCG { reflect::dcg_reflect_now().unwrap() }
/// The value printed as V(id).
pub fn value<V: Val>(v: &RVal) -> Option<V> {
    match v {
        RVal::Constr(n, a) if *n == name_of_str("V") && a.len() == 1 => match &a[0] {
            RVal::Const(Const::Nat(i)) => Some(V::from_print(*i as i64)),
            RVal::Const(Const::Num(i)) => Some(V::from_print(*i as i64)),
            _ => None,
        },
        _ => None,
    }
}
fn field<'a>(v: &'a RVal, f: &'static str) -> Option<&'a RVal> {
    match v { RVal::Struct(_, fs) => fs.iter().find(|x| x.0 == name_of_str(f)).map(|x| &x.1), _ => None }
}
fn well_formed<V: Val>(d: &reflect::DCG) {
    claim_bool::<V>(d.stack.is_empty(), "the reflected stack is not empty between editor operations");
    claim_bool::<V>(d.path.is_empty(), "the reflected path is not the editor's");
    for (l, n) in d.table.iter() {
        for s in reflect::succs_of_node(n).unwrap_or(&vec![]) {
            let t = d.table.get(&s.loc);
            claim_bool::<V>(t.is_some(), "a reflected edge leads to a location that does not exist");
            let t = t.unwrap();
            let n1 = reflect::succs_of_node(n).unwrap().iter().filter(|x| x.loc == s.loc && x.effect == s.effect).count();
            let n2 = reflect::preds_of_node(t).map_or(0, |p| p.iter().filter(|p| p.loc == *l && p.effect == s.effect).count());
            claim_bool::<V>(n1 == n2, "the reflected successor and predecessor edges between two locations do not match");
            if n1 > 1 { cover("parallel edges") }
            if s.effect == reflect::Effect::Force && !s.dirty {
                if let Node::Comp(c) = t {
                    claim_bool::<V>(c.value.is_some(), "an unevaluated dependency is shown as up to date");
                    claim_bool::<V>(c.succs.iter().all(|s| !s.dirty), "an edge is dirty but an edge observing its source is not");
                    cover("clean edge to a thunk");
                }
            }
            if s.dirty { cover("dirty edge") }
        }
        for p in reflect::preds_of_node(n).unwrap_or(&vec![]) {
            let there = d.table.get(&p.loc).and_then(|n| reflect::succs_of_node(n)).map_or(false, |ss| ss.iter().any(|s| s.loc == *l && s.effect == p.effect));
            claim_bool::<V>(there, "a reflected predecessor edge has no matching successor edge");
        }
    }
}
fn contents<V: Val>(s: &Session<V>, d: &reflect::DCG) {
    let env = &s.env;
    for (c, v) in env.cur.borrow().iter().enumerate() {
        match d.table.get(&loc_of(name_c(c))) {
            Some(Node::Ref(r)) => match value::<V>(&r.value) {
                Some(w) => V::claim_eq(w, *v, "a reflected cell does not show the cell's current content"),
                None => claim_bool::<V>(false, "a reflected cell does not show a value"),
            },
            _ => claim_bool::<V>(false, "a cell is not reflected as a cell"),
        }
    }
    for t in 0..env.nstatic {
        match d.table.get(&loc_of(name_t(t))) {
            Some(Node::Comp(n)) => {
                claim_bool::<V>(n.prog_pt == pt(t), "a reflected thunk shows another program point");
                let v = match &n.value { Some(v) => v, None => { cover("unevaluated"); continue } };
                let got = field(v, "v").and_then(|x| value::<V>(x));
                claim_bool::<V>(got.is_some(), "a reflected thunk does not show its value");
                if n.succs.iter().all(|s| !s.dirty) {
                    let mut sc = Scratch { env, ran: vec![], ranv: vec![] };
                    let want = sc.force_(t);
                    V::claim_eq(got.unwrap(), want.v, "a thunk shown as up to date has a stale value");
                    match (field(v, "h"), want.h) {
                        (Some(RVal::Constr(n, a)), None) => claim_bool::<V>(*n == name_of_str("None") && a.is_empty(), "a thunk shown as up to date shows a value of another shape"),
                        (Some(RVal::Constr(n, a)), Some(w)) => {
                            claim_bool::<V>(*n == name_of_str("Some") && a.len() == 1, "a thunk shown as up to date shows a value of another shape");
                            // an immutable articulation shows its content, the others their location
                            match &a[0] {
                                RVal::Art(l, _) => match d.table.get(l) {
                                    Some(Node::Ref(r)) => if let Some(g) = value::<V>(&r.value) { V::claim_eq(g, w, "a reflected articulation leads to other content") } else { claim_bool::<V>(false, "a reflected cell does not show a value") },
                                    Some(Node::Pure(r)) => if let Some(g) = value::<V>(&r.value) { cover("pure"); V::claim_eq(g, w, "a reflected articulation leads to other content") } else { claim_bool::<V>(false, "a reflected cell does not show a value") },
                                    _ => claim_bool::<V>(false, "a reflected articulation leads nowhere"),
                                },
                                x => if let Some(g) = field(x, "art").and_then(|x| value::<V>(x)) { V::claim_eq(g, w, "a reflected articulation leads to other content") } else { claim_bool::<V>(false, "a reflected articulation shows neither location nor content") },
                            }
                            cover("articulation");
                        }
                        _ => claim_bool::<V>(false, "a reflected thunk does not show its value"),
                    }
                    cover("up to date");
                } else { cover("stale") }
            }
            _ => claim_bool::<V>(false, "a thunk is not reflected as a computation"),
        }
    }
}
fn look<V: Val>(s: &mut Session<V>) {
    let ran = s.env.log.borrow().len();
    let d = now();
    well_formed::<V>(&d);
    contents(s, &d);
    let e = now();
    claim_bool::<V>(d.table == e.table, "reflecting twice gives two different graphs");
    claim_bool::<V>(s.env.log.borrow().len() == ran, "reflecting ran a thunk body");
}
fn nothing<V: Val>(_: &mut Session<V>) {}
pub fn r01<V: Val>() {
    manage::init_dcg();
    let mut s = Session::<V>::new(Checks { result: true, minimal: bound_or("abs", 0) == 0, ..Default::default() });
    s.hooks = Some((nothing, look));
    look(&mut s);
    history(&mut s)
}
/// Cyclic demand graphs.
pub fn r01c<V: Val>() { crate::h_cycles::cyclic::<V>(|| (), |_, _| { let d = now(); well_formed::<V>(&d); claim_bool::<V>(d.table == now().table, "reflecting twice gives two different graphs") }) }

// ---------------------------------------------------------------- R02
/// Cyclic demand graphs: the runs, and that the effects lead from the graph before to the graph after.
pub fn r02c<V: Val>() {
    crate::h_cycles::cyclic::<V>(|| { BEFORE.with(|b| *b.borrow_mut() = Some((graph(&now()), false))); reflect::dcg_reflect_begin() }, |ran, edit| {
        let ts = reflect::dcg_reflect_end();
        let mut g = BEFORE.with(|b| b.borrow_mut().take()).unwrap().0;
        let mut toks = vec![];
        flat::<V>(&ts, &mut toks);
        if edit { replay::<V>(&mut g, &toks) } else {
            causes::<V>(&ts, None, None);
            let runs: Vec<RLoc> = toks.iter().filter_map(|t| if let Tok::Did(Did::Begin(l)) = t { Some(l.clone()) } else { None }).collect();
            claim_bool::<V>(runs == ran.iter().map(|t| loc_of(name_of_usize(*t))).collect::<Vec<_>>(), "the runs in the trace are not the runs of the bodies");
            replay::<V>(&mut g, &toks);
        }
        claim_bool::<V>(same_graph(&g, &graph(&now())), "the effects in the trace do not lead from the graph before to the graph after");
    })
}
type Edge = (RLoc, RLoc, bool); // source, target, whether it observes
#[derive(Clone, Debug)]
enum Tok { Did(Did), Dirty(Edge), Clean(Edge), Remove(Edge) }
fn edge<V: Val>(t: &trace::Trace) -> (Option<RLoc>, reflect::Succ) {
    match &t.edge { trace::EffectEdge::Fwd(e) => (e.loc.clone(), e.succ.clone()), _ => { claim_bool::<V>(false, "an effect in a trace has no edge"); unreachable!() } }
}
fn proper<V: Val>(t: &trace::Trace, eff: Option<reflect::Effect>) -> Edge {
    let (src, s) = edge::<V>(t);
    claim_bool::<V>(src.is_some(), "an effect on an edge of the graph has no source");
    if let Some(e) = eff { claim_bool::<V>(s.effect == e, "an effect is recorded on an edge of the other kind"); }
    (src.unwrap(), s.loc, s.effect == reflect::Effect::Force)
}
fn leaf<V: Val>(t: &trace::Trace) { claim_bool::<V>(t.extent.iter().all(|x| matches!(x.effect, trace::Effect::Debug(_, _))), "an effect without sub-effects has some"); }
fn flat<V: Val>(ts: &[trace::Trace], out: &mut Vec<Tok>) {
    use trace::Effect::*;
    for t in ts {
        match &t.effect {
            Debug(n, m) => { cover("debug"); out.push(Tok::Did(Did::Note(n.clone(), m.clone()))); flat::<V>(&t.extent, out); out.push(Tok::Did(Did::NoteEnd)) }
            Dirty => {
                out.push(Tok::Dirty(proper::<V>(t, None)));
                for x in t.extent.iter() { claim_bool::<V>(matches!(x.effect, Dirty | Debug(_, _)), "dirtying an edge has effects other than dirtying"); }
                flat::<V>(&t.extent, out)
            }
            Remove => { leaf::<V>(t); out.push(Tok::Remove(proper::<V>(t, None))) }
            CleanEdge => { leaf::<V>(t); out.push(Tok::Clean(proper::<V>(t, None))) }
            CleanRec => {
                let e = proper::<V>(t, None);
                let n = t.extent.len();
                let last = t.extent.last().map(|x| &x.effect);
                claim_bool::<V>(matches!(last, Some(CleanEdge) | Some(CleanEval)), "the recursive cleaning of an edge neither cleans it nor re-evaluates its source");
                let (s, f) = edge::<V>(&t.extent[n - 1]);
                claim_bool::<V>(s.as_ref() == Some(&e.0) && f.loc == e.1, "the recursive cleaning of an edge ends with another edge");
                cover("cleaning");
                flat::<V>(&t.extent, out)
            }
            CleanEval => {
                let (src, s) = edge::<V>(t);
                if src.is_none() { claim_bool::<V>(s.effect == reflect::Effect::Force, "the re-evaluation of a dependency is recorded on an allocating edge"); cover("re-evaluation of a dependency") }
                let l = src.unwrap_or(s.loc);
                out.push(Tok::Did(Did::Begin(l.clone())));
                flat::<V>(&t.extent, out);
                out.push(Tok::Did(Did::End(l)));
                cover("re-evaluation");
            }
            Alloc(case, kind) => {
                let (src, s) = edge::<V>(t);
                claim_bool::<V>(s.effect == reflect::Effect::Alloc, "an allocation is recorded on an observing edge");
                claim_bool::<V>(!s.dirty, "a new edge is recorded as dirty");
                let (fresh, changed) = match case { trace::AllocCase::LocFresh => (true, false), trace::AllocCase::LocExists(trace::ChangeFlag::ContentSame) => (false, false), trace::AllocCase::LocExists(trace::ChangeFlag::ContentDiff) => (false, true) };
                out.push(Tok::Did(Did::Alloc { src, loc: s.loc, fresh, changed, thunk: matches!(kind, trace::AllocKind::Thunk) }));
                for x in t.extent.iter() { claim_bool::<V>(matches!(x.effect, Dirty | Remove | Debug(_, _)), "an allocation has effects other than dirtying and removing edges"); }
                if !fresh && !changed { claim_bool::<V>(t.extent.iter().all(|x| matches!(x.effect, Debug(_, _))), "an unchanged allocation has effects"); }
                flat::<V>(&t.extent, out)
            }
            Force(case) => {
                let (src, s) = edge::<V>(t);
                claim_bool::<V>(s.effect == reflect::Effect::Force, "a demand is recorded on an allocating edge");
                claim_bool::<V>(!s.dirty, "a new edge is recorded as dirty");
                let c = match case { trace::ForceCase::RefGet => Case::Get, trace::ForceCase::CompCacheHit => Case::Hit, trace::ForceCase::CompCacheMiss => Case::Miss };
                out.push(Tok::Did(Did::Force { src, loc: s.loc.clone(), case: c, dup: s.is_dup }));
                if c == Case::Miss { out.push(Tok::Did(Did::Begin(s.loc.clone()))); }
                if c == Case::Get { leaf::<V>(t) } else { flat::<V>(&t.extent, out) }
                if c == Case::Miss { out.push(Tok::Did(Did::End(s.loc))); }
                if c != Case::Get { out.push(Tok::Did(Did::Forced)); }
            }
        }
    }
}
/// Effects stand within what caused them.  `cause`: the location whose change dirties, or whose edges go.
fn causes<V: Val>(ts: &[trace::Trace], dirtied: Option<&RLoc>, removed: Option<&RLoc>) {
    use trace::Effect::*;
    for t in ts {
        let (src, s) = match &t.edge { trace::EffectEdge::Fwd(e) => (e.loc.clone(), Some(e.succ.loc.clone())), _ => (None, None) };
        match &t.effect {
            Debug(_, _) => causes::<V>(&t.extent, dirtied, removed),
            Dirty => {
                claim_bool::<V>(dirtied.is_some() && s.as_ref() == dirtied, "a dirtying is recorded elsewhere than within what caused it");
                causes::<V>(&t.extent, src.as_ref(), None)
            }
            Remove => claim_bool::<V>(removed.is_some() && src.as_ref() == removed, "the removal of an edge is recorded elsewhere than within what caused it"),
            Alloc(_, _) => causes::<V>(&t.extent, s.as_ref(), s.as_ref()),
            Force(_) => causes::<V>(&t.extent, None, s.as_ref()),
            CleanEval => causes::<V>(&t.extent, None, src.as_ref().or(s.as_ref())),
            _ => causes::<V>(&t.extent, None, None),
        }
    }
}
type Graph = HashMap<RLoc, Vec<(RLoc, bool, bool)>>; // target, observes, dirty
fn graph(d: &reflect::DCG) -> Graph {
    d.table.iter().filter_map(|(l, n)| reflect::succs_of_node(n).map(|ss| (l.clone(), ss.iter().map(|s| (s.loc.clone(), s.effect == reflect::Effect::Force, s.dirty)).collect()))).collect()
}
/// Applies what the trace says to the graph before it.
fn replay<V: Val>(g: &mut Graph, toks: &[Tok]) {
    let mut frames: Vec<(RLoc, Vec<(RLoc, bool, bool)>)> = vec![];
    let mut forces: Vec<Option<RLoc>> = vec![];
    for t in toks {
        match t {
            Tok::Did(Did::Begin(l)) => {
                claim_bool::<V>(g.get(l).map_or(true, |s| s.is_empty()) || true, "");
                frames.push((l.clone(), vec![]))
            }
            Tok::Did(Did::End(l)) => {
                let f = frames.pop().unwrap();
                claim_bool::<V>(g.get(l).map_or(true, |s| s.is_empty()), "a body that re-ran did not have its earlier edges removed");
                g.insert(l.clone(), f.1);
            }
            // (an observation becomes an edge once its outcome is known)
            Tok::Did(Did::Force { src, loc, dup, case }) => {
                let e = if src.is_some() && !dup && !(*case == Case::Get && is_structural(loc)) { Some(loc.clone()) } else { None };
                if *case != Case::Get { forces.push(e) } else if let Some(l) = e { frames.last_mut().unwrap().1.push((l, true, false)) }
            }
            Tok::Did(Did::Forced) => if let Some(l) = forces.pop().unwrap() {
                if !(is_structural(&l) && g.get(&l).map_or(true, |s| s.is_empty())) { frames.last_mut().unwrap().1.push((l, true, false)) }
            },
            Tok::Did(Did::Alloc { src, loc, thunk, fresh, .. }) => {
                if *thunk && *fresh { g.insert(loc.clone(), vec![]); }
                // (structural allocations happen once; those of immutable cells leave no edge)
                if src.is_some() && !(is_structural(loc) && !(*thunk && *fresh)) { frames.last_mut().unwrap().1.push((loc.clone(), false, false)) }
            }
            Tok::Did(Did::Note(_, _)) | Tok::Did(Did::NoteEnd) => {}
            Tok::Dirty(e) => {
                let x = g.get_mut(&e.0).and_then(|s| s.iter_mut().find(|x| x.0 == e.1 && x.1 == e.2 && !x.2));
                claim_bool::<V>(x.is_some(), "a trace dirties an edge that does not exist or is dirty already");
                x.unwrap().2 = true;
                cover("dirtying");
            }
            Tok::Clean(e) => {
                let x = g.get_mut(&e.0).and_then(|s| s.iter_mut().find(|x| x.0 == e.1 && x.1 == e.2 && x.2));
                claim_bool::<V>(x.is_some(), "a trace cleans an edge that does not exist or is not dirty");
                x.unwrap().2 = false;
            }
            Tok::Remove(e) => {
                let s = g.get_mut(&e.0);
                let i = s.as_ref().and_then(|s| s.iter().position(|x| x.0 == e.1 && x.1 == e.2));
                claim_bool::<V>(i.is_some(), "a trace removes an edge that does not exist");
                s.unwrap().remove(i.unwrap());
            }
        }
    }
}
fn same_graph(a: &Graph, b: &Graph) -> bool {
    let key = |v: &Vec<(RLoc, bool, bool)>| { let mut k: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect(); k.sort(); k };
    let order = |v: &Vec<(RLoc, bool, bool)>| v.iter().map(|x| (x.0.clone(), x.1)).collect::<Vec<_>>();
    a.len() == b.len() && a.iter().all(|(l, v)| b.get(l).map_or(false, |w| order(v) == order(w) && key(v) == key(w)))
}
thread_local!(static BEFORE: RefCell<Option<(Graph, bool)>> = RefCell::new(None));
fn start<V: Val>(s: &mut Session<V>) {
    if s.ck.trace { BEFORE.with(|b| *b.borrow_mut() = Some((graph(&now()), false))); }
    s.env.rec.borrow_mut().did.clear();
    reflect::dcg_reflect_begin();
    if s.ck.count && bound_or("dbg", 0) == 1 && flag("debug extent") {
        reflect::debug_begin(Some(name_of_str("round")), None);
        BEFORE.with(|b| { let g = b.borrow_mut().take().map(|x| x.0).unwrap_or_default(); *b.borrow_mut() = Some((g, true)) });
    }
}
fn stop<V: Val>(s: &mut Session<V>) {
    let (mut g, d) = BEFORE.with(|b| b.borrow_mut().take()).unwrap_or_default();
    if d { reflect::debug_end(); cover("debug extent") }
    let ts = reflect::dcg_reflect_end();
    let mut toks = vec![];
    flat::<V>(&ts, &mut toks);
    if s.ck.trace {
        let want = s.env.rec.borrow().did.clone();
        let at = s.env.rec.borrow_mut().stored.take();
        causes::<V>(&ts, at.as_ref(), None);
        let got: Vec<Did> = toks.iter().filter_map(|t| if let Tok::Did(d) = t { Some(d.clone()) } else { None }).collect();
        for (i, (w, x)) in want.iter().zip(&got).enumerate() {
            if w != x { claim_bool::<V>(false, &format!("the trace shows {:?} where {:?} happened (event {})", x, w, i)); }
        }
        claim_bool::<V>(want.len() == got.len(), "the trace shows more or fewer demands, allocations and runs than happened");
        replay::<V>(&mut g, &toks);
        let after = graph(&now());
        claim_bool::<V>(same_graph(&g, &after), "the effects in the trace do not lead from the graph before to the graph after");
        for w in want.iter() { match w {
            Did::Alloc { fresh: false, changed: true, .. } => cover("changed allocation"),
            Did::Alloc { fresh: false, changed: false, .. } => cover("unchanged allocation"),
            Did::Alloc { loc, thunk, .. } => { if is_structural(loc) { cover(if *thunk { "structural thunk" } else { "structural cell" }) } cover("allocation") }
            Did::Force { case: Case::Hit, src: Some(_), .. } => cover("hit"),
            Did::Force { dup: true, .. } => cover("duplicate"),
            _ => (),
        } }
    }
    if s.ck.count { count::<V>(&ts, &toks) }
}
pub fn r02<V: Val>() {
    manage::init_dcg();
    let mut s = Session::<V>::new(Checks { result: true, minimal: bound_or("abs", 0) == 0, trace: true, rec: true, ..Default::default() });
    s.hooks = Some((start, stop));
    history(&mut s)
}

/// A name that switches between cell and thunk: what the trace says leads from graph to graph.
pub fn r02k<V: Val>() {
    let full = |g: Graph| -> Graph { g.into_iter().filter(|(_, s)| !s.is_empty()).collect() };
    let before = || { BEFORE.with(|b| *b.borrow_mut() = Some((graph(&now()), false))); reflect::dcg_reflect_begin(); };
    let after = |made: crate::h_alloc::Made| {
        let ts = reflect::dcg_reflect_end();
        let (mut g, _) = BEFORE.with(|b| b.borrow_mut().take()).unwrap();
        let mut toks = vec![];
        flat::<V>(&ts, &mut toks);
        if let Some((thunk, changed)) = made {
            let all: Vec<&Did> = toks.iter().filter_map(|t| match t { Tok::Did(d) => Some(d), _ => None }).collect();
            claim_bool::<V>(all.len() == 1 && match all[0] { Did::Alloc { src: None, fresh: false, changed: c, thunk: t, .. } => *t == thunk && *c == changed, _ => false }, "the trace does not show what the editor allocated");
            causes::<V>(&ts, None, None);
        }
        replay::<V>(&mut g, &toks);
        claim_bool::<V>(same_graph(&full(g), &full(graph(&now()))), "the effects in the trace do not lead from the graph before to the graph after");
    };
    crate::h_alloc::e10_with::<V>(&before, &after)
}

// ---------------------------------------------------------------- R03
/// Editor or archivist: the editor's demands hand over to the archivist.
fn effects(ts: &[trace::Trace], editor: bool, f: &mut dyn FnMut(&trace::Trace, bool)) {
    for t in ts {
        f(t, editor);
        let inner = editor && !matches!(t.effect, trace::Effect::Force(_));
        effects(&t.extent, inner, f)
    }
}
fn changes(ts: &[trace::Trace]) -> bool {
    use trace::*;
    ts.iter().any(|t| match &t.effect {
        Effect::Debug(_, _) => changes(&t.extent),
        Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => false,
        Effect::Alloc(_, _) | Effect::Dirty | Effect::Force(ForceCase::CompCacheMiss) => true,
        _ => false,
    })
}
fn count<V: Val>(ts: &Vec<trace::Trace>, _toks: &[Tok]) {
    use trace::*;
    let up = choose("updates", 3);
    let got = match catching(|| trace_count(ts, if up == 0 { None } else { Some(up * 7) })) {
        Ok(c) => c,
        Err(m) => { claim_bool::<V>(false, &format!("trace_count fails on a trace the engine recorded: {}", m)); return }
    };
    let mut w = trace_count_zero();
    effects(ts, true, &mut |t, ed| {
        let add = |p: &mut (usize, usize)| if ed { p.0 += 1 } else { p.1 += 1 };
        match &t.effect {
            Effect::Alloc(AllocCase::LocFresh, _) => add(&mut w.alloc_fresh),
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => add(&mut w.alloc_nochange),
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => add(&mut w.alloc_change),
            Effect::Dirty => add(&mut w.dirty),
            Effect::CleanRec => w.clean_rec += 1,
            Effect::CleanEval => { if changes(&t.extent) { w.reeval_change += 1; cover("change") } else { w.reeval_nochange += 1; cover("no change") } }
            Effect::Force(ForceCase::CompCacheHit) | Effect::Force(ForceCase::CompCacheMiss) => if ed { w.total_archivist += 1 },
            _ => (),
        }
    });
    let c = |b: bool, m: &str| claim_bool::<V>(b, &format!("trace_count miscounts {}", m));
    c(got.total_updates == if up == 0 { 1 } else { up * 7 }, "the updates");
    c(got.alloc_fresh == w.alloc_fresh, "fresh allocations");
    c(got.alloc_nochange == w.alloc_nochange, "unchanged allocations");
    c(got.alloc_change == w.alloc_change, "changed allocations");
    c(got.dirty == w.dirty, "dirtyings");
    c(got.clean_rec == w.clean_rec, "recursive cleanings");
    c(got.reeval_change == w.reeval_change && got.reeval_nochange == w.reeval_nochange, "re-evaluations");
    c(got.total_archivist == w.total_archivist, "the editor's demands");
    cover("counted");
}
pub fn r03<V: Val>() {
    manage::init_dcg();
    let mut s = Session::<V>::new(Checks { count: true, rec: true, ..Default::default() });
    s.hooks = Some((start, stop));
    history(&mut s)
}
/// A hand-built trace of any shape the engine can produce.
fn a_trace(budget: &mut usize, editor: bool, inside: usize) -> Vec<trace::Trace> {
    // inside: 0 a program, 1 an allocation, 2 a dirtying, 3 a cleaning
    use trace::*;
    let mut v = vec![];
    while *budget > 0 && flag("more") {
        *budget -= 1;
        let l = RLoc { path: vec![], name: name_of_usize(*budget) };
        let e = Edge { loc: if editor { None } else { Some(l.clone()) }, succ: reflect::Succ { dirty: false, loc: l, effect: reflect::Effect::Force, value: RVal::ValTODO, is_dup: false } };
        let menu: Vec<usize> = match (inside, editor) { (0, true) => vec![0, 1, 2, 3, 4, 5, 6], (0, false) => vec![0, 1, 2, 3, 5, 6, 8, 9, 4], (1, _) => vec![4, 9], (2, _) => vec![4], _ => vec![7, 8, 10] };
        let k = menu[choose("effect", menu.len())];
        let (eff, ext) = match k {
            0 => (Effect::Alloc(AllocCase::LocFresh, AllocKind::RefCell), vec![]),
            1 => (Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), AllocKind::Thunk), a_trace(budget, editor, 1)),
            2 => (Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), AllocKind::RefCell), a_trace(budget, editor, 1)),
            3 => (Effect::Force(ForceCase::RefGet), vec![]),
            4 => (Effect::Dirty, a_trace(budget, editor, 2)),
            5 => (Effect::Force(ForceCase::CompCacheMiss), a_trace(budget, false, 0)),
            6 => (Effect::Force(ForceCase::CompCacheHit), a_trace(budget, false, 3)),
            7 => (Effect::CleanRec, a_trace(budget, false, 3)),
            8 => (Effect::CleanEval, a_trace(budget, false, 0)),
            9 => (Effect::Remove, vec![]),
            _ => (Effect::CleanEdge, vec![]),
        };
        v.push(Trace { effect: eff, edge: EffectEdge::Fwd(e), extent: Box::new(ext) });
        if bound_or("dbg", 0) == 1 && flag("debug extent") {
            let t = v.pop().unwrap();
            v.push(Trace { effect: Effect::Debug(None, None), edge: EffectEdge::None, extent: Box::new(vec![t]) });
        }
    }
    v
}
pub fn r03h<V: Val>() {
    let ts = a_trace(&mut bound("effects"), true, 0);
    count::<V>(&ts, &[]);
}
