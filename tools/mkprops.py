#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os
E="src/engine.rs"; M="src/macros.rs"; C="src/catalog/collections.rs"; P="src/parse_val.rs"; R="src/reflect.rs"; B="src/catalog/bitstring.rs"; T="src/catalog/trie.rs"; L="src/lib.rs"
props=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None):
    props.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("E01","Incremental results equal from-scratch results",
 "Under the DCG engine, forcing any thunk returns exactly the value that running the same program from scratch on the current contents of the mutable cells would return. This holds after every history of cell changes and forces, whatever the thunks compute, whatever values the cells hold, and however the thunks share, nest, branch on, or switch between the cells and thunks they demand.",
 ["inputs","programs","histories"],
 "all pure thunk bodies, all cell values (including values that return to an earlier one), all bounded demand graphs with data-dependent demand, all interleavings of set and force",
 "The tests run a dozen fixed programs with fixed edits; which edge is dirtied, cleaned or skipped depends on which values coincide, on re-convergence, on demand order and on the edit history.",
 [E],[("force/clean/re-evaluate","engine.rs: Adapton::force, clean_comp, loc_produce"),("dirtying","engine.rs: set_, dirty_alloc, dirty_pred_observers")],["engine::force after engine::set"])
p("E02","Memoised thunks re-run only when something they read changed",
 "A thunk body runs at its first demand and afterwards runs again only when its argument, or a value that its previous run observed (or a location that run allocated), has changed since; forcing again with nothing changed runs no body at all. In particular a change that is undone before the next demand, a set to an equal value, and a change whose effect is absorbed by an intermediate thunk returning an equal result re-run nothing above the absorption point.",
 ["inputs","programs","histories"],
 "all values and thunk functions, all bounded demand graphs and edit/force histories; execution counts are compared with a reference",
 "Correct answers hide redundant work: the tests check results, and only a few count evaluations on one fixed graph.",
 [E],[("memo hit and cleaning","engine.rs: Adapton::force, clean_comp"),("equality cut-off","engine.rs: ForceDep::clean, set_")],["side counters inside thunk bodies"])
p("E03","Evaluation is demand driven",
 "Creating thunks and cells and changing cells never runs a thunk body. A force runs only bodies that a from-scratch evaluation of that force on the current inputs would also run, so work that the current inputs no longer demand (such as a division guarded by a test that just became false) is never executed, and thunks that are not demanded stay unevaluated until they are.",
 ["inputs","programs","histories"],
 "all values, all bounded programs whose demand depends on values, all edit/force histories",
 "The documented switching example is tested for one program; the guarantee is about the order in which stale dependencies are revalidated, for every graph and history.",
 [E,L],[("lazy dirtying","engine.rs: dirty_alloc, dirty_pred_observers"),("in-order cleaning","engine.rs: clean_comp")],["side counters inside thunk bodies"])
p("E04","Re-allocated cells act as change firewalls",
 "When a computation allocates a cell under a name and the computation is later re-run, readers of that cell see its new content if it changed, and readers are neither re-run nor returned anything different if the re-run stored an equal value in the same name. Storing an equal value marks no observer of the cell for re-examination. Results always equal a from-scratch run.",
 ["inputs","programs","histories"],
 "all values and thunk functions, bounded producer/consumer graphs with nominal allocation (nested, chained, several cells), all edit/force histories",
 "The documentation's firewall example is tested with constants; whether the firewall is sound and effective depends on values coinciding across runs and on the alternation of allocation and observation edges.",
 [E,L],[("nominal cell allocation","engine.rs: Adapton::cell, set_"),("allocation edges","engine.rs: AllocCell, dirty_alloc, revoke_succs")],["results and run counts of consumers"])
p("E05","Mapped observations are sound",
 "A thunk that reads a cell through force_map is brought up to date whenever the mapped value changes: its result always equals a from-scratch run, also when the same thunk reads the cell through several different mappings or both mapped and in full, in any order, and when the articulation read is a thunk or an immutable value instead of a cell.",
 ["inputs","programs","histories"],
 "all projection functions and cell values, all bounded sequences of mapped and unmapped reads of shared cells, all edit/force histories",
 "The tests project one field of one tuple; staleness needs several observations of one cell by one thunk and an edit that changes only one of them.",
 [E],[("mapped dependency","engine.rs: Adapton::force_map, ForceMapDep"),("duplicate observation test","engine.rs: Adapton::force (is_dup), get_succ_mut")],["engine::force after engine::set"])
p("E06","Mapped observations are precise",
 "A thunk that reads a cell only through force_map is not re-run, and nothing above it is re-run, by edits to the cell that leave every mapped value it observed unchanged.",
 ["inputs","programs","histories"],
 "all projection functions and cell values, bounded graphs and edit/force histories, execution counts compared with a reference",
 "Precision is invisible in results; the tests count it for one projection of one tuple.",
 [E],[("projection-aware dirtying","engine.rs: dirty_pred_observers, ForceMapDep::dirty/clean")],["side counters inside thunk bodies"])
p("E07","Abstracted observations are sound",
 "A thunk that reads a cell through a mapping family with force_abs is brought up to date by every later change of that cell which the family's difference test calls relevant, and for every lawful family its result always equals a from-scratch run, alone or mixed with other reads of the same cell.",
 ["inputs","programs","histories"],
 "all cell values, all mapping functions of a lawful family, bounded edit/force histories",
 "No test uses force_abs.",
 [E],[("abstract dependency","engine.rs: Adapton::force_abs, ForceAbsDep, dirty_pred_observers")],["engine::force after engine::set"])
p("E08","Allocating an existing name updates that articulation",
 "Under the DCG engine, allocating a cell under a name already in use in the current namespace yields the same articulation, after which every holder of that articulation observes the new content, exactly as if it had been set; unnamed allocations always give fresh immutable articulations that later allocations never affect. A cell's content always equals the last value stored in it, by allocation or by set, whichever came last.",
 ["inputs","histories"],
 "all values, all bounded sequences of named and unnamed allocations, sets and forces over a small pool of names, with thunks observing the cells",
 "The documentation shows single instances; overwriting combined with cached observers and returning values is not sampled.",
 [E,M,L],[("nominal allocation","engine.rs: Adapton::cell, set_"),("cell! macro","macros.rs: cell")],["force of old and new articulations"])
p("E09","Re-allocating a named thunk with new arguments updates it",
 "Allocating a thunk under a name already used for the same code yields the same articulation; from then on forcing it, or anything that demanded it, returns the result for the new arguments and the current cell contents, never a result cached for earlier arguments. Re-allocating it with equal arguments keeps its cached result, and re-using the name for different code is rejected by a panic.",
 ["inputs","programs","histories"],
 "all argument values and thunk functions, all bounded interleavings of re-allocation (by the editor and by other thunks), set and force",
 "Tests re-allocate with a few constants; the argument cache, the result cache and the dirty bits of observers interact across histories.",
 [E,M],[("nominal thunk allocation","engine.rs: Adapton::thunk, NameChoice::Nominal"),("allocation dirtying","engine.rs: dirty_alloc, AllocNominalThunk")],["engine::force of thunk and observers, run counts"])
p("E10","A name may switch between cell and thunk",
 "When a name that identified a thunk is re-used for a cell of the same type, or a name that identified a cell is re-used for a thunk, the articulation's value becomes that of the new allocation, and every computation that observed the old content is brought up to date at its next demand.",
 ["inputs","histories"],
 "all values, all bounded histories that re-allocate a name as cell or thunk between sets and forces, with thunks observing the name in full or through a mapping",
 "No test re-uses a name across kinds.",
 [E],[("node replacement","engine.rs: Adapton::cell, Adapton::thunk (existing location cases)")],["engine::force of the name and of observers"])
p("E11","Names and namespaces isolate",
 "Allocations made under distinct names, or under equal names in distinct namespaces, never affect each other's content, identity, or results; entering the same namespace again reaches the same articulations. A namespace ends with its body, and a thunk's body allocates in the namespace the thunk was created in, no matter where it is forced from.",
 ["inputs","programs","histories"],
 "all bounded nestings of namespaces and names (including forks, pairs and numbers), all values, all orders of allocation, set and force",
 "Tests use namespaces as a precaution; none checks for interference, path restoration, or forcing from a foreign namespace.",
 [E],[("namespace paths","engine.rs: Adapton::ns, loc_produce (path), Path, Loc")],["articulation equality and forced values"])
p("E12","Structural identity is transparent",
 "Inside structural(..) names are ignored and thunks and cells are identified by namespace and content: equal code and arguments share one articulation that runs at most once per change, different arguments never share, and results always equal a from-scratch run after any edits. The previous naming mode is restored when the body ends.",
 ["inputs","programs","histories"],
 "all argument and cell values, all thunk functions, bounded structurally identified call graphs reading mutable cells, all edit/force histories",
 "One test checks pure caching without any mutation; structural thunks that read changing cells are not tested.",
 [E],[("hash consing","engine.rs: Adapton::structural, Adapton::thunk (Structural), Adapton::cell"),("purity optimisation","engine.rs: Adapton::force (is_pure)")],["engine::force, articulation equality, run counts"])
p("E13","Cyclic demand is detected exactly",
 "Forcing a thunk that is already being evaluated is detected at once: a plain force panics instead of diverging, and force_cycle returns its alternative value at exactly those forces that re-enter an active thunk, and the ordinary value at every other force. Demand graphs without cycles are never reported as cyclic. This holds whether a cycle was there from the start or an edit closed it, and a demand that no longer meets a cycle after an edit gives the from-scratch value.",
 ["programs","inputs"],
 "all bounded directed demand graphs (including self loops, diamonds and several cycles), all node values, forced from every node on a fresh engine and again without changes",
 "One test forces one node of one four-node graph.",
 [E],[("cycle test","engine.rs: Adapton::force (is_cycle, cycle_out)")],["engine::force_cycle result, panics"])
p("E14","Re-using a name at another type is caught",
 "Using a name for a cell or thunk whose result type differs from the existing one, or for a thunk whose argument type differs, is reported by a panic; the engine never reinterprets a stored value, argument or function at a type it was not stored at, and never answers with another type's data.",
 ["inputs","programs","histories"],
 "all pairs of uses (cell or thunk, several result and argument types, equal or different code labels) at one name, in both orders, with symbolic contents",
 "No test provokes a type clash; the code relies on unchecked casts guarded by comparisons of type and program point.",
 [E],[("dynamic type check","engine.rs: assert_graphnode_res_type, res_node_of_loc"),("unchecked casts","engine.rs: App::eq, Adapton::thunk, NaiveThunk::eq")],["panic versus returned value"])
p("E15","Only the editor mutates, and only cells",
 "set changes exactly the given cell and nothing else; it is rejected by a panic when called while a thunk is being evaluated, and when the articulation is an immutable put value, an unnamed allocation, or a non-memoised thunk, and a rejected set changes no articulation's value.",
 ["inputs","histories"],
 "all kinds of articulation, all values, set placed at the editor level or inside thunk bodies at every point of bounded histories",
 "No test calls set in a forbidden position.",
 [E],[("role check","engine.rs: set, Adapton::set (stack test)")],["panic versus effect on later forces"])
p("E16","Naive and DCG engines agree, and engines are isolated",
 "The same program gives the same results under the naive engine and under the DCG engine. Switching engines with the manage functions returns the engine that was in use, loses nothing and mixes nothing: after switching back, all earlier articulations, cached results and pending changes of that engine are as they were left, whatever ran in other engines in between.",
 ["inputs","programs","histories"],
 "all values and functions, bounded programs, all bounded interleavings of operations on two DCG engines and the naive engine",
 "Tests alternate engines for one program with fixed data.",
 [E,C],[("engine switch","engine.rs: manage::use_engine, init_dcg, init_naive"),("naive engine","engine.rs: cell, thunk, force (Engine::Naive)")],["engine::force under alternating engines"])
p("E17","Mapped thunks follow their source",
 "thunk_map yields an articulation whose value is always the mapping applied to the current value of the source articulation, under both engines, through any nesting of maps, and a DCG thunk that forces such an articulation is brought up to date when the source changes.",
 ["inputs","programs","histories"],
 "all mapping functions and values, sources of every kind, nested maps, bounded edit/force histories",
 "One documentation example maps a constant thunk.",
 [E],[("naive wrapper","engine.rs: thunk_map, NaiveThunk::force")],["engine::force of mapped art and of observers"])
p("E18","Articulation equality is identity or content, consistently",
 "Two articulations allocated by name are equal exactly when they have the same name and namespace, whatever they contain; two immutable articulations are equal exactly when their contents are; two naive thunks are equal exactly when their name choice, code label and arguments are. Equal articulations have equal hashes, and clones denote the same articulation.",
 ["inputs","histories"],
 "all pairs of articulations built from bounded names, namespaces, kinds and symbolic contents, under both engines",
 "Equality of articulations decides memo hits everywhere but is never tested on its own.",
 [E],[("articulation equality","engine.rs: EnumArt PartialEq/Hash, NaiveThunk::eq/hash_u64, Loc, Path")],["== and Hash on Art"])
p("E19","All allocation macros mean the same thing",
 "Each form of the cell!, thunk!, memo!, eager! and get! macros denotes allocating with the given (or freshly counted, or absent) name and then, for the forcing forms, demanding it: every form gives the same results as the plain function calls after any history of edits, different code written at the same name is never answered with the other code's result, and a form given no name denotes a plain uncached computation.",
 ["inputs","programs","histories"],
 "every macro form with named, counted and absent names, with ordinary and spurious arguments, symbolic argument and cell values, bounded edit/force histories, under both engines",
 "Documentation examples run each form once with constants, and no example uses the absent-name thunk forms.",
 [M,E],[("allocation macros","macros.rs: cell, thunk, memo, eager, get"),("eager name choice","engine.rs: thunk (NameChoice::Eager)")],["macro results compared with plain calls"])
p("E20","The engine's debugging modes change nothing",
 "With the environment variable ADAPTON_CHECK_DCG set, the engine's own well-formedness checks accept every graph that legal programs and edits produce (no demand, allocation or edit panics), and with it or ADAPTON_NO_PURITY set, results equal from-scratch results and bodies re-run exactly as without them. With ADAPTON_STRUCTURAL set, every allocation is structural, and programs that make no edits still give from-scratch results and run nothing that these do not need.",
 ["inputs","programs","histories"],
 "all bounded programs, values and edit/force histories under each combination of the modes",
 "No test runs with any of these variables set.",
 [E],[("checks","engine.rs: mod wf, check_dcg"),("modes","engine.rs: Flags, DCG::new, DCG::cell, DCG::thunk, DCG::force")],["engine::force, set and the allocating functions with the variables set"])
p("N01","Names are deterministic and unambiguous",
 "Building a name twice in the same way gives equal names with equal hashes and equal printed forms, and names built in different ways from numbers, strings, the unit name, pairs and (binary) forks are different names, at which different articulations are allocated; the parts of a fork, three-way and four-way fork are pairwise different and different from their origin, equal parts only come from equal origins, and forks of different names that are not themselves parts of a fork have no part in common.",
 ["inputs"],
 "all pairs of bounded name-building expressions, under every pattern of equality among their leaves",
 "One doc example compares a handful of forks.",
 [E,M],[("name constructors","engine.rs: name_of_*, name_pair, name_fork, name_fork3, name_fork4")],["== and Hash on Name, articulations allocated at them"])
p("R01","Reflection shows a well-formed graph and disturbs nothing",
 "After every editor operation the reflected graph has an empty stack and path, each recorded successor edge is matched by a predecessor edge and conversely, every recorded location exists, stored values appear with their current content, and an unevaluated or stale dependency is never shown as up to date: if some edge is dirty, every edge observing its source is dirty. Reflecting, and recording traces, changes no result and runs no computation.",
 ["inputs","programs","histories"],
 "all bounded programs, values and edit/force histories, reflecting after every step",
 "One test reflects one graph and looks at its size.",
 [E,R],[("edge maintenance","engine.rs: loc_produce, revoke_succs, preds_insert, preds_remove"),("reflection","engine.rs: reflect; reflect.rs")],["reflect::dcg_reflect_now"])
p("R02","Traces record what happened",
 "Between dcg_reflect_begin and dcg_reflect_end the recorded trace is well nested and faithful: every body execution appears as exactly one cache-miss force or one re-evaluation, every editor or thunk demand as one force of the right kind at the right location, every allocation as one allocation effect that says whether the location was fresh and whether its content changed, and every edge that becomes dirty as one dirtying effect, each recorded within the change or dirtying that caused it; an allocation that changes nothing has no effects.",
 ["inputs","programs","histories"],
 "all bounded programs, values and edit/force histories, traced from any point of the history",
 "Tests only print or count traces of one program.",
 [E,R],[("trace construction","engine.rs: dcg_effect_begin, dcg_effect_end, dcg_reflect_begin/end")],["reflect::dcg_reflect_end"])
p("R03","Trace statistics are exact",
 "trace_count counts every allocation, dirtying, recursive cleaning and re-evaluation in a recorded trace exactly once, in the role (editor or archivist) and category in which it occurred, however deeply it is nested, and never fails on a trace the engine can produce.",
 ["inputs","histories"],
 "all bounded traces produced by the engine, and all bounded hand-built traces of engine-producible shape",
 "One test compares a few totals of one trace.",
 [R],[("counting","reflect.rs: trace::trace_count, trace_count_rec, trace_count_dirty")],["reflect::trace::trace_count"])
p("R04","Reflected values mirror the program's data",
 "Parsing the Debug output of any value built from integers, strings, booleans, tuples, vectors, structs, enums, names and articulations (named or structural, in any namespace) yields a reflected value of the same shape with the same constants, field and constructor names, names and locations, whatever its strings contain, and never fails on such a value; a location so obtained leads, in the reflected graph, to what the articulation holds.",
 ["inputs"],
 "all bounded values of a universal data type, their payloads unconstrained, their strings over representatives of every character class",
 "The parser is exercised only on the values of one test; strings with quotes or escapes, negative numbers and nested names are not.",
 [P,R],[("lexer","parse_val.rs: lex"),("parser","parse_val.rs: parse_val_rec, parse_art_val, name_of_val")],["parse_val::parse_val"])
p("B01","Bit strings behave as bit vectors",
 "For bit strings of up to the documented maximum length, flipping, testing and prepending bits, raising powers and shifting left agree with ordinary bit-vector arithmetic for every value and position: prepending puts exactly the given bit above all existing bits and keeps them, flipping changes exactly one bit and is its own inverse, and shifting drops exactly the bits beyond the length.",
 ["inputs"],
 "all values and positions within the documented 30-bit limit",
 "The unit tests check about twenty constant cases.",
 [B],[("bit operations","bitstring.rs: BS::pow, flip, is_set, prepend, shift_left")],["catalog::bitstring::BS"])
p("C01","Lists and vectors convert faithfully",
 "Converting a vector of elements and names to a list and back gives the same vector; a demand limit yields exactly that many items (elements and names) from the front, or all if there are fewer, and forces nothing beyond them; generating, pushing, popping, testing for emptiness and for a leading name agree with the sequence the list denotes, wherever articulations and names occur in it.",
 ["inputs"],
 "all bounded sequences of symbolic elements, names and articulations, all limits, under both engines",
 "Tests convert lists of a few fixed shapes; limits and generation are not checked against a reference.",
 [C],[("conversions","collections.rs: list_of_vec, vec_of_list, list_demand, list_gen, ListElim, ListIntro")],["catalog::collections list functions"])
p("C02","Tree conversions preserve the sequence",
 "Converting a list to a balanced tree and back, in either direction and under either engine, preserves all elements, all names, their multiplicity and their order (mirrored exactly when the directions differ). Converting or copying a tree never loses, duplicates or reorders elements or names; pruning keeps every element in order, keeps every name that separates non-empty parts, and adds or reorders none.",
 ["inputs"],
 "all bounded sequences of symbolic elements with arbitrary levels, and names, in both directions, under both engines",
 "Tests compare naive and DCG outputs of the same code, which cannot see an element lost by both.",
 [C],[("conversions","collections.rs: tree_of_list, tree_of_list_rec, list_of_tree, prune_tree_of_tree, eager_tree_of_tree")],["elements and names of the output"])
p("C03","Trees have the canonical balanced shape",
 "The tree built from a sequence is heap ordered by level (no binary node has a descendant of higher level), each binary node carries the level of the element or name that introduced it, and the shape depends only on the sequence: it is the same under both engines and after incremental edits as when built from scratch.",
 ["inputs","histories"],
 "all bounded sequences of symbolic elements with arbitrary levels, and names; prefix edits between demands",
 "Tests only compare two engines on one sequence.",
 [C],[("level-directed building","collections.rs: tree_of_list_rec, Level")],["structure of the output tree"])
p("C04","List transformers compute the sequence functions",
 "Eager and lazy list map and filter, reverse, append and fold compute exactly the map, filter, reversal, concatenation and right fold of the sequence the list denotes, for every function and predicate and wherever names and articulations occur, with names kept by the eager operators and dropped by the lazy ones, whose demand for a prefix forces no more of the input than that prefix needs.",
 ["inputs","programs"],
 "all bounded sequences with symbolic elements and names, all element functions and predicates, under both engines",
 "Tests compare engines with each other on numeric lists with one function.",
 [C],[("list operators","collections.rs: list_map_*, list_filter_*, list_reverse, list_append, list_fold")],["vec_of_list of the output"])
p("C05","Tree transformers compute the sequence functions",
 "Folding a tree sequentially visits leaves and names in the given direction, folding it upwards with an associative operation equals folding its sequence, and filtering a tree to a list or a tree keeps exactly the elements satisfying the predicate, in order, with names retained exactly as documented.",
 ["inputs","programs"],
 "all bounded trees with symbolic elements and names, all predicates and fold functions, under both engines",
 "Tests compare engines with each other on one predicate; the documented retention of names is not tested.",
 [C],[("tree operators","collections.rs: tree_fold_seq, tree_fold_up, tree_fold_up_nm_dn, filter_list_of_tree, filter_tree_of_tree, monoid_of_tree")],["outputs compared with sequence functions"])
p("C06","Merge sort sorts",
 "Each merge-sort variant returns an ordered permutation of the tree's elements for every input and any total order, under both engines and when only a prefix is demanded; merging two ordered lists gives their ordered merge. Under the incremental engine a sort takes no more than about the comparisons of merging the subtrees bottom-up, each once, and demanding its output again takes none.",
 ["inputs"],
 "all bounded sequences of symbolic ordered elements (including duplicates) with names, all demand limits, under both engines",
 "Tests compare engines with each other, on an input list that is in fact empty.",
 [C],[("sorting","collections.rs: list_merge, mergesort_list_of_tree, mergesort_list_of_tree2, mergesort_list_of_tree3")],["vec_of_list of the output"])
p("C07","Collection pipelines are incrementally consistent",
 "After any sequence of edits to a named input list (inserting, deleting or replacing elements, re-allocating its cells) each collection pipeline re-demanded under the DCG engine gives exactly the output of a from-scratch run on the edited input.",
 ["inputs","histories"],
 "all bounded lists of symbolic elements and names, all bounded edit sequences at any position, for each list and tree pipeline",
 "Tests edit one list at fixed or random positions and compare with the naive engine for numeric data; coincidences of values are rarely sampled.",
 [C,E],[("memoised recursion","collections.rs: eager!/memo! call sites"),("change propagation","engine.rs")],["pipeline output after edits"])
p("C08","List-backed maps and sets agree with finite maps",
 "Looking up a key in a list-backed map returns the most recently updated value for an equal key, and nothing for a key never added; membership and adding agree with the mathematical set and map, folding visits each key once with its current value and each element once, and intersection holds exactly the common elements, wherever names and articulations occur.",
 ["inputs","histories"],
 "all bounded update sequences with symbolic keys and values, names and articulations in the list, all queried keys",
 "No stable test uses list-backed maps or sets.",
 [C],[("maps and sets","collections.rs: MapIntro/MapElim for List, SetIntro/SetElim")],["map_find, is_mem, fold"])
p("C09","Trie queries are exact",
 "On a well-formed trie (each element stored in the leaf its hash selects, no branch without elements) membership holds exactly for the stored elements, folding visits each stored element once, emptiness holds exactly when there is none, and splitting a leaf keeps the element reachable, wherever names and articulations occur.",
 ["inputs"],
 "all bounded well-formed tries over symbolic elements with arbitrary hash bits, all queried elements",
 "The trie tests fail at the pinned commit because insertion is not implemented, so no stable test reaches the queries.",
 [T],[("queries","trie.rs: find, mem, fold, is_empty, split_atomic, trie_fold")],["trie query results"])
p("C10","Trie insertion builds the set of inserted elements",
 "A trie built by adding elements one at a time, or from a list, contains exactly the added elements, and its shape does not depend on the order of insertion.",
 ["inputs","histories"],
 "all bounded insertion sequences",
 "The trie tests insert a few constants, and fail at the pinned commit.",
 [T],[("insertion","trie.rs: TrieIntro::extend, trie_of_list")],["trie contents"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in props:
    assert len(x["title"])<=80,x["id"]
print(len(props))
