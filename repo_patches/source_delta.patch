From c662fc8a4942ebb77c4c3c3e6af7f167069aa53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 01/29] fix: a mapped observation does not make a later full
 force of the same cell redundant

---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..0c9d5f5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1964,8 +1964,10 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // Only an earlier _full_ observation makes this one redundant;
+                            // mapped observations (where pred_dep is Some(_)) do not.
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 8aacdf29f71c51b5b7d4e46238f0d419c0f9056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 02/29] fix: dirty and clean every edge when a thunk observes a
 cell through several mappings

---
 src/engine.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0c9d5f5..f4100f3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -996,10 +996,13 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
-    for succ in succs.iter() {
+    for (succ_idx, succ) in succs.iter().enumerate() {
+        // There may be several edges from `loc` to the same successor
+        // (e.g., several mapped observations of one cell); so, we
+        // identify this edge by its position.
         let dirty = {
             let st = &mut *g.borrow_mut();
-            get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty
+            lookup_abs(st, loc).succs()[succ_idx].dirty
         } ;
         if dirty {
             dcg_effect_begin!(reflect::trace::Effect::CleanRec, Some(loc), succ);
@@ -1016,7 +1019,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             else {
                 let st : &mut DCG = &mut *g.borrow_mut();
                 //st.cnt.clean += 1 ;
-                get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                lookup_abs(st, loc).succs_mut()[succ_idx].dirty = false ;
                 dcg_effect!(reflect::trace::Effect::CleanEdge, Some(loc), succ);
             }
             dcg_effect_end!();
@@ -1303,6 +1306,12 @@ fn get_succ_mut<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Lo
     panic!("tgt_loc is dangling in src_node.dem_succs")
 }
 
+// Like `get_succ_mut`, but only considers edges that are not dirty; None if there are none.
+fn get_clean_succ_mut<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Loc>) -> Option<&'r mut Succ> {
+    lookup_abs( st, src_loc ).succs_mut().iter_mut()
+        .find(|succ| !succ.dirty && (succ.effect == eff) && (&succ.loc == tgt_loc))
+}
+
 fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     let pred_locs : Vec<(Rc<Loc>, Option<Rc<Box<dyn DCGDep>>>)> = lookup_abs( st, loc ).preds_obs() ;
     for (pred_loc, dep) in pred_locs {
@@ -1310,20 +1319,20 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
             None => false,
             Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
         };
-        let stop : bool = if stop { true } else {
-            // The stop bit communicates information from st for use below.
-            let succ = get_succ_mut(st, &pred_loc, Effect::Observe, &loc) ;
-            if succ.dirty { true } else {
+        if !stop {
+            // The predecessor may observe `loc` through several edges (viz.,
+            // through different mappings).  Dirty each of them that is clean.
+            // If there is one, then continue dirtying the predecessor's observers.
+            let mut first = true ;
+            while let Some(succ) = get_clean_succ_mut(st, &pred_loc, Effect::Observe, &loc) {
                 assert!(&pred_loc != loc);
                 dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
-                replace(&mut succ.dirty, true);
-                false
-            }}
-        ;
-        if !stop {
-            dirty_pred_observers(st,&pred_loc);
-            dcg_effect_end!();
-        } else { }
+                succ.dirty = true;
+                if first { dirty_pred_observers(st,&pred_loc) } ;
+                first = false ;
+                dcg_effect_end!();
+            }
+        }
     }
 }
 
-- 
2.43.0


From a1767f734a5ba3c7b424cc91072ba0bcbcb4e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 03/29] fix: dirty the thunks that observe a cell through an
 abstracted mapping

---
 src/engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index f4100f3..caf9135 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1317,7 +1317,10 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            // For an abstracted mapping, we do not have the cell's old
+            // content in hand, and so we cannot ask the family whether the
+            // change is relevant; it is always sound to assume that it is.
+            Some(dep) => dep.is_absmap() == None && dep.dirty(st, loc).changed == false
         };
         if !stop {
             // The predecessor may observe `loc` through several edges (viz.,
-- 
2.43.0


From 1724d303f644d1b880b59e9a3841569e3df6ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 04/29] fix: keep the observers of a name that is re-allocated
 as the other kind, and store the cell's content

---
 src/engine.rs | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index caf9135..2563a88 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1177,8 +1177,9 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
+        // The location held a cell when it was observed; it has been re-allocated since.
         Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+            DCGRes{changed:true}
     }
 }
 
@@ -1603,8 +1604,19 @@ impl Adapton for DCG {
                 }
             );
             if do_set   { set_(self, AbsArt::Loc(loc.clone()), val.clone()) };
-            if do_dirty { dirty_alloc(self, &loc) } ;
             match succs { Some(succs) => revoke_succs(self, &loc, &succs), None => () } ;
+            if do_dirty {
+                // Overwrite the computation with the value; its observers and allocators remain.
+                {
+                    let node : &mut Box<Node<T>> = res_node_of_loc(self, &loc) ;
+                    let preds = match **node {
+                        Node::Comp(ref nd) => nd.preds.clone(),
+                        _ => unreachable!(),
+                    } ;
+                    **node = Node::Mut(MutNode{ preds:preds, val:val.clone() }) ;
+                }
+                dirty_alloc(self, &loc)
+            } ;
             dcg_effect_end!();
 
             if do_insert {
@@ -1719,6 +1731,7 @@ impl Adapton for DCG {
                     }
                 ;
                 let top_loc = get_top_stack_loc( self );
+                let mut preds : Vec<Pred> = Vec::new() ;
                 let (do_dirty, do_insert, is_fresh) = { match self.table.get_mut( &loc ) {
                     None => {
                         // do_dirty=false; do_insert=true
@@ -1730,8 +1743,9 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref nd) => {
+                                preds = nd.preds.clone() ; // The cell's observers and allocators remain.
+                                (true, true, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1793,6 +1807,15 @@ impl Adapton for DCG {
                         dirty:false,
                         is_dup:false, // XXX -- Actually: Not checked here.
                     });
+                if do_insert {
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                } ;
                 if do_dirty {dirty_alloc(self, &loc) };
                 dcg_effect_end!();
 
@@ -1804,21 +1827,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From 377316e8ada7a49d65ac766c55d19f1f63898917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 05/29] fix: check the argument types before re-using a
 memoised or comparing a naive thunk

---
 src/engine.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 2563a88..f3cc2e2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -709,6 +709,8 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    /// Identifies the types of the arguments, which the program point alone does not
+    fn typeid(self:&Self) -> TypeId;
 }
 // Consume a value of type Arg.
 trait Consumer<Arg> : Debug {
@@ -760,11 +762,13 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
+        if &self.prog_pt == other.prog_pt() && self.typeid() == other.typeid() {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because both have the same argument and result types.
             let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
@@ -1750,9 +1754,13 @@ impl Adapton for DCG {
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
                                     comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
-                                if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
+                                if equal_producer_prog_pts {
+                                    if comp_nd.producer.typeid() != producer.typeid() {
+                                        panic!("Memoized function {:?} re-used with arguments of another type, at location: {:?}\n\twith Producer: {:?}\n\twas: {:?}",
+                                               producer.prog_pt(), &loc, &producer, &comp_nd.producer)
+                                    }
+                                    // => safe cast to Box<Consumer<Arg>>
                                     let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
                                         unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
                                     ;
                                     if app.get_arg() == arg {
@@ -2186,6 +2194,7 @@ trait Force<T> {
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
     fn hash_u64(self:&Self) -> u64;
+    fn typeid(self:&Self) -> TypeId;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
 
@@ -2225,13 +2234,16 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
         self.arg.hash( &mut hasher );
         hasher.finish()
     }
+    fn typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Force<T>) -> bool {
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
+            && self.typeid() == other.typeid()
         {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because both have the same argument and result types.
             let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
-- 
2.43.0


From 7ec613735df20f75e8f76fba2a807147ce741973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 06/29] fix: structural identity takes the types of the content
 and the arguments into account

---
 src/engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index f3cc2e2..293d6b3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1557,7 +1557,7 @@ impl Adapton for DCG {
                 if ! self.flags.ignore_nominal_use_structural {
                     (Rc::new(ArtId::Nominal(nm)), false) // Ordinary case: Use provided name.
                 } else {
-                    let hash = my_hash (&val) ;
+                    let hash = my_hash (&(TypeId::of::<T>(), &val)) ;
                     (Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization) // Ignore the name; do hash-consing instead.
                 }
             };
@@ -1683,7 +1683,8 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(&prog_pt, &arg)) ;
+                // (The program point does not determine the types; the hash of the argument neither.)
+                let hash = my_hash (&(&prog_pt, TypeId::of::<App<Arg,Spurious,Res>>(), &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
-- 
2.43.0


From 023fef8fa2310de846b2fea73542c2e74ed75425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 07/29] fix: observe a structural thunk unless it is known to
 be pure after its evaluation

---
 src/engine.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 293d6b3..114c54c 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1985,7 +1985,6 @@ impl Adapton for DCG {
             AbsArt::Loc(ref loc) => {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_pure_opt : bool = st.flags.use_purity_optimization ;
                     let is_cycle = { let mut is_cycle = false;
                                      for frame in st.stack.iter() {
                                          if &frame.loc == loc {
@@ -2008,9 +2007,6 @@ impl Adapton for DCG {
                         Node::Pure(ref mut nd) => (false, is_dup, true, false, Some(nd.val.clone())),
                         Node::Mut(ref mut nd)  => (false, is_dup, false, false, Some(nd.val.clone())),
                         Node::Comp(ref mut nd) => {
-                            let is_pure = match *loc.id {
-                                ArtId::Structural(_) => nd.succs.len() == 0 && is_pure_opt,
-                                ArtId::Nominal(_)    => false } ;
                             if is_cycle {
                                 // Cycle detected; check cycle_out to see if the caller expected this
                                 match cycle_out {
@@ -2020,12 +2016,12 @@ impl Adapton for DCG {
                                     // cycle, use this special output value now
                                     // (in particular, in the case of a cycle,
                                     // we do not use the thunk's cached result)
-                                    Some(out) => (true, is_dup, is_pure, true, Some(out)),
+                                    Some(out) => (true, is_dup, false, true, Some(out)),
                                 }
                             }
                             else {
                                 // "Ordinary case": No cycle, so clone the result we have cached, if any.
-                                (true, is_dup, is_pure, false, nd.res.clone())
+                                (true, is_dup, false, false, nd.res.clone())
                             }
                         }
                     }
@@ -2101,6 +2097,13 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                // Whether a structural thunk is pure is only known once it has been (re)evaluated.
+                let is_pure : bool = if is_comp && !is_cycle && st.flags.use_purity_optimization {
+                    match (&*loc.id, res_node_of_loc::<T>(st, &loc).as_ref()) {
+                        (&ArtId::Structural(_), &Node::Comp(ref nd)) => nd.succs.len() == 0,
+                        _ => false,
+                    }
+                } else { is_pure } ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From 75826c792b175f7c9f682dded58a02b2fa943301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 08/29] fix: tell thunk_map articulations over different
 sources or functions apart

---
 src/engine.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 114c54c..55d7b1b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2502,18 +2502,39 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
             prog_pt:ProgPt{symbol:"engine::thunk_map"},
-            fn_box:{Rc::new(Box::new(move |_,_| {
-                let res1 = force(&thunk);
-                let res2 = map_fn(res1);
+            fn_box:{Rc::new(Box::new(move |arg:ThunkMapArg<Res1,Res2>,_| {
+                let res1 = force(&arg.thunk);
+                let res2 = (arg.map_fn)(res1);
                 res2
             }))},
-            arg:(),
+            arg:ThunkMapArg{thunk:thunk, map_fn:map_fn},
             spurious:()
         }))
     }
     
 }
-    
+
+/// What `thunk_map` is given; identifies the articulation that it yields.
+struct ThunkMapArg<Res1,Res2> { thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2> }
+
+impl<Res1,Res2> Clone for ThunkMapArg<Res1,Res2> where Art<Res1>:Clone {
+    fn clone(&self) -> Self { ThunkMapArg{thunk:self.thunk.clone(), map_fn:self.map_fn.clone()} }
+}
+impl<Res1:Hash,Res2> Hash for ThunkMapArg<Res1,Res2> {
+    fn hash<H:Hasher>(&self, hasher: &mut H) { self.thunk.hash( hasher ) }
+}
+impl<Res1:Debug,Res2> Debug for ThunkMapArg<Res1,Res2> {
+    fn fmt(&self, f:&mut Formatter) -> fmt::Result { self.thunk.fmt(f) }
+}
+impl<Res1:PartialEq,Res2> PartialEq for ThunkMapArg<Res1,Res2> {
+    fn eq(&self, other:&Self) -> bool {
+        // Functions have no equality relation; we use the identity of their allocation
+        &*self.map_fn as *const _ as *const () == &*other.map_fn as *const _ as *const ()
+            && self.thunk == other.thunk
+    }
+}
+impl<Res1:Eq,Res2> Eq for ThunkMapArg<Res1,Res2> { }
+
 /// Demands and observes the value of an `&Art<T>`, returning a (cloned) value of type `T`.
 pub fn force<T:Hash+Eq+Debug+Clone+'static> (a:&Art<T>) -> T {
     match a.art {
-- 
2.43.0


From fa672b07accdddd85ab4e1ae6c4712b0ca05848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 09/29] fix: allocate eager and naive thunks under the DCG
 engine

---
 src/engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 55d7b1b..1f7fec6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2473,13 +2473,18 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
+            // Not stored in the DCG: Run the computation now, outside of any borrow of the DCG.
+            Engine::DCG(_) if id == NameChoice::Eager => {
+                Art{art:EnumArt::Rc(Rc::new((*fn_box)(arg, spurious)))}
+            },
+            Engine::DCG(ref dcg) if id != NameChoice::Naive => {
                 Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
                         (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
                     { loc } else { unreachable!() }})}
             },
-            Engine::Naive => {
+            // Naive engine, or naive thunk
+            _ => {
                 Art{art:EnumArt::Force(
                     Rc::new(NaiveThunk{
                         id:id,prog_pt:prog_pt,
-- 
2.43.0


From 68f0906657ec2a0086885e274545d9475f4a38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 10/29] fix: tell the bodies of thunk![[name] body] apart

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From 880a4ad7091352239a1c297719c8ac35988bb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 11/29] fix: list_gen generates all of its elements

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From 387212fbc8292b42969d96001191d18ccad0410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 12/29] fix: ListElim::is_name tests for a name, not for an
 element

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From 03b77745c1a72d9d0e3d35027b67f0797eb389a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 13/29] fix: vec_of_list with a limit of zero demands nothing

---
 src/catalog/collections.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..b6a5492 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -861,6 +861,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   (list:L, limit:Option<usize>) -> Vec<NameElse<X>>
 {
   let mut out = vec![];
+  if limit == Some(0) { return out }
   let mut list = list ;
   loop {
     let (hd, rest) =
-- 
2.43.0


From c2657323e64cb76982da7d767e32abb66241b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 14/29] fix: folding a list-backed map visits each key once,
 with its current value

---
 src/catalog/collections.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index b6a5492..8dc8db2 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
 use std::hash::{Hash,Hasher};
+use std::collections::HashSet;
 use std::collections::hash_map::DefaultHasher;
 use std::rc::Rc;
 
@@ -1199,7 +1200,13 @@ impl<Dom:Debug+Hash+PartialEq+Eq+Clone+'static,
   fn fold<Res,F> (map:Self, res:Res, body:Rc<F>) -> Res
     where F:Fn(Dom, Cod, Res) -> Res 
   {
-    list_fold(map, res, Rc::new(move |(d,c),r|(*body)(d,c,r)) )
+    // A later update hides the earlier ones: visit each key once, with the value that `find` gives.
+    let entries : Vec<(Dom,Cod)> =
+      list_fold(map, vec![], Rc::new(|e, mut es:Vec<(Dom,Cod)>| { es.push(e); es }));
+    let mut seen = HashSet::new();
+    let live : Vec<(Dom,Cod)> =
+      entries.into_iter().rev().filter(|&(ref d,_)| seen.insert(d.clone())).collect();
+    live.into_iter().rev().fold(res, |r,(d,c)| (*body)(d,c,r))
   }
   fn append(_map:Self, _other:Self) -> Self {
     unimplemented!()    
-- 
2.43.0


From 2bb19e128991b505130d11d06b7e85a5fdcea3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 15/29] fix: mergesort_list_of_tree2 names its merges apart
 from its leaves

---
 src/catalog/collections.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 8dc8db2..b8e02ed 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -1002,7 +1002,9 @@ pub fn mergesort_list_of_tree2
      Rc::new(|_,|         L::nil()),
      Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     // The leaf to the right of this node uses `n` itself, so the merge needs a name of its own.
+     Rc::new(|_, n, _, l, r| { let n = name_pair(n, name_of_str("merge"));
+                               list_merge_wrapper(None, l, Some(n), r) }),
      )
 }
 
-- 
2.43.0


From 1cc3437aecef0ee33b681782ce0c580481a09d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 16/29] fix: filter_tree_of_tree retains all names, as
 documented

---
 src/catalog/collections.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index b8e02ed..57f754c 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -786,7 +786,11 @@ pub fn filter_tree_of_tree
                 if !fx { Ti::nil()   }
                 else   { Ti::leaf(x) } }),
      Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
-     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
+     Rc::new(|n:Name,lev,l,r| ns(name_unit(),|| {
+       // Even if a sub-tree is empty, the name stays.
+       let (nl,nr) = name_fork(n.clone());
+       Ti::name(n, lev, Ti::art(cell(nl, l)), Ti::art(cell(nr, r)))
+     }))
      )
 }
 
-- 
2.43.0


From b2ad57d4dfb0832cfb5f0a7a06f2943b5f8644c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 17/29] fix: prune_tree_of_tree names its cells apart from its
 fold

---
 src/catalog/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 57f754c..2ad3ee5 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -848,8 +848,9 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     // The new cells are named apart from the fold's memoized calls.
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From 09bdba0e81d9ee5439ab64fd55706425a7c116c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 18/29] fix: trace_count counts the effects within debug
 extents

The arms for Effect::Debug had lost their bodies and fell through into the
next arm: the effects within a dcg_debug_begin/end extent were reported as
unexpected (editor) or not counted (archivist).
---
 src/reflect.rs | 59 +++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..1495fe1 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -541,16 +541,33 @@ archivist:
         }
     }
 
+    /// Whether an effect of a re-evaluation is (or, for `Effect::Debug`, contains) a change.
+    fn trace_is_change(tr:&Trace) -> bool {
+        match tr.effect {
+            Effect::Debug(_,_) => tr.extent.iter().any(trace_is_change),
+            Effect::Remove => false,
+            Effect::CleanEdge => false,
+            Effect::CleanEval => false,
+            Effect::CleanRec => false,
+            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => false,
+            Effect::Alloc(AllocCase::LocFresh, _)                           => true,
+            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => true,
+            Effect::Force(ForceCase::RefGet)        => false, /* XXX/TODO: This is undercounting?; do we need to know if gotten value was different? */
+            Effect::Force(ForceCase::CompCacheHit)  => false,
+            Effect::Force(ForceCase::CompCacheMiss) => true,
+            Effect::Dirty => true,
+        }
+    }
+
     pub fn trace_count_rec(role:Role, tr:&Trace, c:&mut TraceCount) {
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Editor, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,34 +596,16 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Archivist, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
                     Effect::CleanEval => {
-                        let mut change = false;
-                        for subtr in tr.extent.iter() {
-                            match subtr.effect {
-                                Effect::Debug(_,_) |
-                                //Effect::UserEffect(_,_) => unreachable!(),
-                                Effect::Remove => (),
-                                Effect::CleanEdge => (),
-                                Effect::CleanEval => (),
-                                Effect::CleanRec => (),
-                                Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => (),
-                                Effect::Alloc(AllocCase::LocFresh, _)                           => change = true,
-                                Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => change = true,
-                                Effect::Force(ForceCase::RefGet)        => (), /* XXX/TODO: This is undercounting?; do we need to know if gotten value was different? */
-                                Effect::Force(ForceCase::CompCacheHit)  => (),
-                                Effect::Force(ForceCase::CompCacheMiss) => change = true,
-                                Effect::Dirty => change = true,
-                            }
-                        }
+                        let change = tr.extent.iter().any(trace_is_change);
                         if change { c.reeval_change   += 1 }
                         else      { c.reeval_nochange += 1 };
                         for sub_tr in tr.extent.iter() { 
-- 
2.43.0


From acfbeb0ebbb8f1fcd58ef4a57ca804f6e3a4ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 19/29] fix: reflected strings keep their quotes, escapes and
 non-ASCII characters

The lexer ended a string at an escaped quote (panicking on, or garbling, what
followed), kept the other escape sequences in their escaped form, and
decoded UTF-8 as Latin-1.
---
 src/parse_val.rs | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..979000a 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -59,20 +59,19 @@ enum Tok {
 pub fn parse_val <V:Debug> (v:&V) -> Val {
     let s = format!("{:?}", v);
     //println!("reflect_val({:?})", v);
-    let toks = lex(s.into_bytes());
+    let toks = lex(s.chars().collect());
     //println!("toks = {:?}", toks);
     parse_toks(toks)
 }
 
 /// Tokenize the characters of input into lexical tokens of type `Tok`
-fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
+fn lex (mut chars: Vec<char>) -> Vec<Tok> {
     let mut toks = vec![];
     chars.reverse(); // TODO rewrite to avoid this
     loop {
         match chars.pop() {
             None => return toks,
             Some(c) => {
-                let c : char = c as char ;
                 if      c == ' ' { continue }
                 else if c == ':' { toks.push(Tok::Colon); continue }
                 else if c == ',' { toks.push(Tok::Comma); continue }
@@ -88,8 +87,9 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None => break,
                             Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
+                                if c == '"' { break }
+                                else if c == '\\' { string_chars.push(lex_escape(&mut chars)) }
+                                else { 
                                     string_chars.push(c);
                                     continue 
                                 }
@@ -107,12 +107,11 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if c >= '0' && c <= '9' { 
                                     digs.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -140,7 +139,6 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if (c >= 'a' && c <= 'z') ||
                                     (c >= 'A' && c <= 'Z') ||
                                     (c >= '0' && c <= '9') ||
@@ -149,7 +147,7 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                                     ident.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -163,6 +161,33 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
     } ;
 }
 
+/// Lex the rest of an escape sequence in a string, as written by
+/// `Debug` (just after its backslash): Return the character it denotes.
+fn lex_escape (chars: &mut Vec<char>) -> char {
+    match chars.pop() {
+        Some('t') => '\t',
+        Some('r') => '\r',
+        Some('n') => '\n',
+        Some('0') => '\0',
+        Some('u') => {
+            let mut code = 0;
+            loop {
+                match chars.pop() {
+                    Some('{') => continue,
+                    Some(c) => match c.to_digit(16) {
+                        Some(d) => code = code * 16 + d,
+                        None => break, // the closing brace
+                    },
+                    None => break,
+                }
+            };
+            std::char::from_u32(code).expect("a unicode escape sequence")
+        }
+        Some(c) => c,
+        None => panic!("expected an escape sequence, but no more characters"),
+    }
+}
+
 /// Parse a sequence of fields (appending to `fields`) until right
 /// balanced token `bal`.  Return fields and remaining tokens.
 fn parse_fields (mut toks:Vec<Tok>, mut fields:Vec<(Name, Val)>, bal:Tok) -> (Vec<(Name, Val)>, Vec<Tok>) {
-- 
2.43.0


From 8686dc77970ada60f2cd45a46b4d8c6d8b265741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 20/29] fix: values and locations with isize names can be
 reflected

Both conversions of a parsed name panicked on the Isize case.
---
 src/parse_val.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 979000a..f0c99aa 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -283,7 +283,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Num( ref n ) ) => n.clone(),
+                    Val::Const( Const::Nat( ref n ) ) => *n as isize,
+                    _ => panic!("expected a Num or a Nat"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -334,7 +338,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {          
+                        Val::Const( Const::Num( ref n ) ) => Some( name_of_isize( n.clone() ) ),
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_isize( *n as isize ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From 70cf2c38300b652bbdbfdddd708e5ada82a2f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 21/29] fix: values that hold structural articulations can be
 reflected

The identity of a structurally-identified location prints as its hash, which
the parser of articulations rejected with a panic.
---
 src/parse_val.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index f0c99aa..e9d988d 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -307,6 +307,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // A structurally-identified location is printed with its hash
+        Val::Const( Const::Nat( ref h ) ) => name_of_hash64( *h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
-- 
2.43.0


From ac392c63e87bf18a1299057391ecda87b53ace75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 22/29] fix: the unit name is reflected as a name

Like every other name; it was reflected as a constructor, because only
constructors with arguments were tried as names.
---
 src/parse_val.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index e9d988d..3bf919e 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -380,6 +380,13 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
     }
 }
 
+/// A first-class name, if the constructor `v` is that of a name; otherwise, just `v`.
+fn name_or_constr ( v:Val ) -> Val {
+    match name_option_of_val(&v) {
+        Some(n) => Val::Name(n),
+        None => v,
+    }
+}
 
 /// Attempts to parse a reflected value into an `Art` value case,
 /// which consists of parsing a location represented as a `Val`
@@ -441,7 +448,7 @@ fn parse_val_rec (mut toks:Vec<Tok>) -> (Val, Vec<Tok>) {
             match toks.pop() {
                 None => {
                     // Constructors with no arguments (e.g., Nil)
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (name_or_constr(Val::Constr(name_of_string(i), vec![])), toks)
                 }
                 Some(Tok::Left(BalTok::Brace)) => {
                     //println!("parsing struct: {:?}", i);
@@ -456,19 +463,15 @@ fn parse_val_rec (mut toks:Vec<Tok>) -> (Val, Vec<Tok>) {
                 Some(Tok::Left(BalTok::Paren)) => {
                     //println!("parsing constructor: {:?}", i);
                     let (vs, toks) = parse_vals(toks, vec![], Tok::Right(BalTok::Paren));
-                    let v = Val::Constr(name_of_string(i), vs);
-                    match name_option_of_val(&v) {
-                        Some(n) => (Val::Name(n), toks),
-                        None => (v, toks)
-                    }
+                    (name_or_constr(Val::Constr(name_of_string(i), vs)), toks)
                 },
                 Some(Tok::Comma) => {
                     toks.push(Tok::Comma);
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (name_or_constr(Val::Constr(name_of_string(i), vec![])), toks)
                 },
                 Some(Tok::Right(baltok)) => {
                     toks.push(Tok::Right(baltok));
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (name_or_constr(Val::Constr(name_of_string(i), vec![])), toks)
                 },
                 Some(t) => {
                     panic!("expected left balanced token, or comma, but instead found token {:?}", t)
-- 
2.43.0


From 49ad918af235a85656bf5348b141083810cb2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 23/29] fix: re-allocating an immutable cell is traced as
 unchanged

With structural naming, the allocation of an existing cell was traced as an
allocation of different content, which can never be the case.
---
 src/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.rs b/src/engine.rs
index 1f7fec6..911d2ed 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1373,6 +1373,7 @@ fn check_cell_change<T:'static+Eq+Debug> (st:&mut DCG, cell:AbsArt<T,Loc>, val:&
         let node = res_node_of_loc::<T>( st, loc ) ;
         match **node {
             Node::Mut(ref mut nd) => { &nd.val != val }
+            Node::Pure(ref nd) => { &nd.val != val }
             _ => { /* the location was previously _not_ a cell, so yes */ true }
         }
     }
-- 
2.43.0


From c7fa80ed013aaef5d99beebb6b1d1ae62ce66faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 24/29] fix: structural thunk allocations appear in traces

The structural case of thunk allocation returned without recording the
allocation effect that the nominal case records.
---
 src/engine.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 911d2ed..8f1d9b5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1688,6 +1688,21 @@ impl Adapton for DCG {
                 let hash = my_hash (&(&prog_pt, TypeId::of::<App<Arg,Spurious,Res>>(), &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
+                let is_fresh = ! self.table.contains_key(&loc) ;
+                dcg_effect!(
+                    reflect::trace::Effect::Alloc(
+                        if is_fresh { reflect::trace::AllocCase::LocFresh }
+                        else { reflect::trace::AllocCase::LocExists(reflect::trace::ChangeFlag::ContentSame) },
+                        reflect::trace::AllocKind::Thunk
+                    ),
+                    current_loc!(self),
+                    reflect::Succ{
+                        loc:loc.reflect(),
+                        effect:reflect::Effect::Alloc,
+                        value:reflect::Val::ValTODO,
+                        dirty:false,
+                        is_dup:false, // XXX -- Actually: Not checked here.
+                    });
                 {   // If the node exists, return early.
                     let node = self.table.get_mut(&loc);
                     match node { None    => { },
-- 
2.43.0


From 5863154bc0ebadabea4622af57df6c7a097278b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 25/29] fix: the well-formedness check names the inconsistent
 location

The panic had a placeholder but no argument (also an error in newer editions).
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8f1d9b5..6373180 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2730,7 +2730,7 @@ mod wf {
         match (old_status, new_status) {
             (NodeStatus::Clean, NodeStatus::Dirty) |
             (NodeStatus::Dirty, NodeStatus::Clean) => {
-                panic!("{:?}: Constrained to be both clean and dirty: Inconsistent status => DCG is not well-formed.")
+                panic!("{:?}: Constrained to be both clean and dirty: Inconsistent status => DCG is not well-formed.", loc)
             },
             (NodeStatus::Unknown, new_status) => { cs.insert(loc.clone(), new_status); () },
             (old_status, NodeStatus::Unknown) => { cs.insert(loc.clone(), old_status); () },
-- 
2.43.0


From 33fd064d5a69f8662da290a6de26d8fb0b078ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 26/29] fix: a demand cycle that an edit closes is detected
 while the thunks on it are being cleaned

---
 src/engine.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6373180..da7cd49 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -390,6 +390,8 @@ pub struct DCG {
     pub flags : Flags, // public because I dont want to write / design abstract accessors
     table : HashMap<Rc<Loc>, Box<dyn GraphNode>>,
     stack : Vec<Frame>,
+    /// locations of the computations that we are cleaning (but which are not (yet) re-evaluating)
+    cleaning : Vec<Rc<Loc>>,
     path  : Rc<Path>,
     //cnt   : Cnt,
     dcg_count : usize,
@@ -1228,8 +1230,13 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
     fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
         let res_succs = { // Handle cases where there is no internal computation to re-compute:
             let st = &mut *g.borrow_mut();
+            let is_active = st.cleaning.contains(loc) || st.stack.iter().any(|frame| &frame.loc == loc);
             let node : &mut Node<Res> = res_node_of_loc(st, loc) ;
             match *node {
+                // A cycle: The observer must demand `loc` again, to detect it.
+                Node::Comp(_) if is_active => {
+                    return DCGRes{changed:true}
+                },
                 Node::Comp(ref nd) => {
                     match nd.res {
                         Some(ref res) => Some((res.clone(), nd.succs.clone ())),
@@ -1245,7 +1252,12 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
         } ;
         let none : Option<Loc> = None ;
         match res_succs {
-            Some((res,succs)) => clean_comp(g, self, loc, res, succs),
+            Some((res,succs)) => {
+                g.borrow_mut().cleaning.push(loc.clone());
+                let res = clean_comp(g, self, loc, res, succs);
+                g.borrow_mut().cleaning.pop();
+                res
+            },
             None => {
                 dcg_effect_begin!(
                     reflect::trace::Effect::CleanEval,
@@ -1512,6 +1524,7 @@ impl Adapton for DCG {
             },
             table : table,
             stack : stack,
+            cleaning : Vec::new(),
             path  : path,
             dcg_count : 0,
             dcg_hash : 0, // XXX This makes assumptions about hashing implementation
@@ -2001,7 +2014,8 @@ impl Adapton for DCG {
             AbsArt::Loc(ref loc) => {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_cycle = { let mut is_cycle = false;
+                    // (To demand a computation that we are cleaning is a cycle, too.)
+                    let is_cycle = { let mut is_cycle = st.cleaning.contains(loc);
                                      for frame in st.stack.iter() {
                                          if &frame.loc == loc {
                                              is_cycle = true ; break
-- 
2.43.0


From b150d51efb10120ca86d219ae8325ee8cf8cc7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 27/29] fix: a change below a thunk that demands itself (with
 an alternative) does not panic

---
 src/engine.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index da7cd49..6a9cfbb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1345,7 +1345,6 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
             // If there is one, then continue dirtying the predecessor's observers.
             let mut first = true ;
             while let Some(succ) = get_clean_succ_mut(st, &pred_loc, Effect::Observe, &loc) {
-                assert!(&pred_loc != loc);
                 dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                 succ.dirty = true;
                 if first { dirty_pred_observers(st,&pred_loc) } ;
-- 
2.43.0


From 05ea0412f7806d2fe9363c36d27cd9ff1feea18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 28/29] fix: each demand that closes a cycle is recorded with
 its own alternative

---
 src/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6a9cfbb..7e65ddc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2026,7 +2026,8 @@ impl Adapton for DCG {
                         for &(ref succ, ref pred_dep) in frame.succs.iter() {
                             // Only an earlier _full_ observation makes this one redundant;
                             // mapped observations (where pred_dep is Some(_)) do not.
-                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
+                            // (Each demand that closes a cycle has an alternative of its own.)
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none() && !is_cycle
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 7f6c72c178cc2e0ab7ed8d66b5f546eca1ddb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:09 +0000
Subject: [PATCH 29/29] fix: the well-formedness checks accept cyclic graphs

---
 src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7e65ddc..7267ac9 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2755,12 +2755,15 @@ mod wf {
 
     // Constrains loc and all predecessors (transitive) to be dirty
     fn dirty (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
+        // (Visit each location once; the graph may be cyclic.)
+        if cs.get(loc) == Some(&NodeStatus::Dirty) { return } ;
         add_constraint(cs, loc, NodeStatus::Dirty) ;
         let node = match st.table.get(loc) { Some(x) => x, None => panic!("") } ;
         for (pred,_) in node.preds_obs () {
             // Todo: Assert that pred has a dirty succ edge that targets loc
             let succ = super::get_succ(st, &pred, super::Effect::Observe, loc) ;
-            if succ.dirty {} else {
+            // (An observer that re-evaluated while we are cleaning `loc` observed it in a cycle.)
+            if succ.dirty {} else if st.cleaning.contains(loc) { continue } else {
                 debug_dcg(st);
                 write_next_dcg(st, None);
                 panic!("Expected dirty edge, but found clean edge: {:?} --Observe--dirty:!--> {:?}", &pred, loc);
@@ -2771,6 +2774,7 @@ mod wf {
 
     // Constrains loc and all successors (transitive) to be clean
     fn clean (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
+        if cs.get(loc) == Some(&NodeStatus::Clean) { return } ;
         add_constraint(cs, loc, NodeStatus::Clean) ;
         let node = match st.table.get(loc) {
             Some(x) => x,
-- 
2.43.0

