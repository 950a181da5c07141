"""What each property's check runs: (harness, quick bounds, thorough bounds), and what it covers."""
REPO_FILES = ["/repo/src/engine.rs", "/repo/src/macros.rs", "/repo/src/lib.rs", "/repo/src/reflect.rs", "/repo/src/parse_val.rs",
              "/repo/src/catalog/collections.rs", "/repo/src/catalog/bitstring.rs", "/repo/src/catalog/trie.rs"]
ENGINE = ["DCG::{cell,set,thunk,force}", "set_", "check_cell_change", "loc_produce", "clean_comp", "ForceDep::{dirty,clean}", "AllocCell::{dirty,clean}", "AllocNominalThunk::{dirty,clean}",
          "dirty_pred_observers", "dirty_alloc", "revoke_succs", "get_succ_mut", "GraphNode for Node<Res>", "App::{produce,copy,eq,consume,get_arg}", "Name/Loc/Path equality and hashing"]
LAB = ["cell contents, and every later content, are unconstrained integers; what a body computes from what it reads is an uninterpreted function, what it branches on an uninterpreted predicate",
       "hash collisions between different values are outside the claim (equal values hash equally, different ones differently)"]
SPECS = {}
def spec(pid, features, functions, runs, outside="", assumptions=(), **kw):
    SPECS[pid] = dict(features=features, functions=functions, runs=runs, outside=outside, assumptions=list(assumptions), **kw)

# Programs of a given form whose size is the bound (see Env::fam_op): deep chains, wide bodies, many observers, many edges to one cell, ...
FAM = {
    "chain": ("fam=1,cells=2,progs=9,oplen=1,rounds=2,sets=1", "fam=1,cells=2,progs=9,oplen=1,rounds=2,sets=2"),
    "wide": ("fam=2,cells=12,progs=2,oplen=1,rounds=2,sets=2", "fam=2,cells=20,progs=2,oplen=1,rounds=2,sets=3"),
    "fan": ("fam=3,cells=2,progs=9,oplen=1,rounds=2,sets=1", "fam=3,cells=2,progs=14,oplen=1,rounds=2,sets=1"),
    "ladder": ("fam=4,cells=2,progs=8,oplen=1,rounds=2,sets=1", "fam=4,cells=2,progs=7,oplen=1,rounds=3,sets=1"),
    "maps": ("fam=5,cells=2,map=9,progs=2,oplen=1,rounds=2,sets=1", "fam=5,cells=2,map=12,progs=2,oplen=1,rounds=2,sets=1"),
    "abs": ("fam=5,cells=2,map=5,abs=5,progs=2,oplen=1,rounds=2,sets=1", "fam=5,cells=2,map=6,abs=6,progs=2,oplen=1,rounds=3,sets=1"),
    "allocs": ("fam=6,cells=1,alloc=9,progs=2,oplen=1,rounds=2,sets=1", "fam=6,cells=1,alloc=9,progs=2,oplen=1,rounds=3,sets=1"),
    "alloc": ("fam=6,retart=1,cells=1,alloc=4,progs=2,oplen=1,rounds=3,sets=1,dynset=2", "fam=6,retart=1,cells=1,alloc=8,progs=2,oplen=1,rounds=3,sets=1,dynset=2"),
    "nested": ("fam=7,cells=2,call=8,progs=2,oplen=1,rounds=2,sets=1", "fam=7,cells=2,call=11,progs=2,oplen=1,rounds=2,sets=1"),
    "calls": ("fam=8,cells=2,call=8,progs=2,oplen=1,rounds=2,sets=1", "fam=8,cells=2,call=10,progs=2,oplen=1,rounds=2,sets=1"),
    "switch": ("fam=9,cells=2,progs=9,oplen=1,rounds=2,sets=2", "fam=9,cells=2,progs=9,oplen=1,rounds=3,sets=1"),
    "shared": ("fam=10,cells=4,progs=9,oplen=1,rounds=2,sets=1", "fam=10,cells=4,progs=6,oplen=1,rounds=3,sets=1"),
}
# The same at sizes far beyond those, for bodies that compute alike (so that one decision settles all of them) and demands near the ends and in the middle.
LONG = {
    "chain": "fam=1,cells=1,progs={n},oplen=1", "wide": "fam=2,cells={n},progs=2,oplen=1", "fan": "fam=3,cells=3,progs={n},oplen=1",
    "maps": "fam=5,cells=2,map={n},progs=2,oplen=1", "abs": "fam=5,cells=2,map={h},abs={h},progs=2,oplen=1", "allocs": "fam=6,cells=1,alloc={n},progs=2,oplen=1",
    "alloc": "fam=6,retart=1,cells=1,alloc={n},progs=2,oplen=1,dynset=2",
    "nested": "fam=7,cells=2,call={n},progs=2,oplen=1", "calls": "fam=8,cells=2,call={n},progs=2,oplen=1", "switch": "fam=9,cells=2,progs={n},oplen=1", "shared": "fam=10,cells=4,progs={n},oplen=1",
}
def longs(h, names, extra="", n=80, deep=200):
    return [(h, LONG[k].format(n=n, h=n // 2) + ",long=1,rounds=2,sets=1" + extra,
             [LONG[k].format(n=m, h=m // 2) + f",long=1,rounds={r},sets={t}" + extra for m, r, t in ((n // 4, 3, 2), (deep, 2, 1))]) for k in names.split()]
# Longer histories: an edit of one cell and a demand of the last thunk, again and again.
def steady(h, form="fam=1,cells=1,progs=2,oplen=1", rounds=7):
    return [(h, f"{form},steady=1,rounds={rounds},sets=1", f"{form},steady=1,rounds={rounds + 2},sets=1")]
def fams(h, names, extra="", deep=True):
    return [(h, FAM[n][0] + extra, FAM[n][1] + extra if deep else None) for n in names.split()]

spec("E01", "core", ENGINE, [
    ("e01", "cells=2,progs=2,oplen=3,rounds=2,sets=2", "cells=2,progs=2,oplen=3,rounds=3,sets=2"),
    ("e01", "cells=2,progs=2,oplen=2,rounds=3,sets=2", None),
    ("e01", "cells=2,progs=3,oplen=2,rounds=2,sets=1,rootlen=3", "cells=2,progs=3,oplen=2,rounds=3,sets=1,rootlen=3"),
    ("e01", "cells=1,progs=5,oplen=1,branch=0,rounds=2,sets=1", "cells=1,progs=5,oplen=1,branch=0,rounds=3,sets=1"),
    ("e01", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=1", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=2"),
    ("e01", "cells=1,progs=2,oplen=1,rounds=5,sets=1", "cells=1,progs=2,oplen=1,rounds=6,sets=1"),
    ("e01", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=2,sets=1", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=3,sets=1"),
    ("e01", "cells=2,progs=2,oplen=2,rounds=2,sets=2,coarse=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2,coarse=1"),
    ("e01", "cells=1,progs=3,oplen=2,rounds=3,sets=1,branch=0,coarse=1", None),
] + fams("e01", "chain wide fan ladder nested calls switch shared") + longs("e01", "chain wide fan nested calls switch shared", n=130, deep=300) + steady("e01"), "longer bodies, more thunks, more cells and longer histories than the bounds", LAB)
spec("E02", "core", ENGINE, [
    ("e02", "cells=2,progs=2,oplen=3,rounds=2,sets=2", "cells=2,progs=2,oplen=3,rounds=3,sets=2"),
    ("e02", "cells=2,progs=2,oplen=2,rounds=3,sets=2", None),
    ("e02", "cells=2,progs=3,oplen=2,rounds=2,sets=1,rootlen=3", "cells=2,progs=3,oplen=2,rounds=3,sets=1,rootlen=3"),
    ("e02", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=3,sets=1,dynset=1", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=3,sets=2,dynset=2,branch=0"),
    ("e02", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=2,sets=1,dynset=2", None),
    ("e02", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=1,dyncall=1,dyndemand=1,branch=0", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=2,dyncall=1,dyndemand=1,branch=0"),
    ("e02", "cells=1,progs=5,oplen=1,branch=0,rounds=2,sets=1", "cells=1,progs=5,oplen=1,branch=0,rounds=3,sets=1"),
    ("e02", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=1", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=2"),
    ("e02", "cells=1,progs=2,oplen=1,rounds=5,sets=1", "cells=1,progs=2,oplen=1,rounds=6,sets=1"),
    ("e02", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=2,sets=1", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=3,sets=1"),
    ("e02", "cells=1,progs=2,oplen=2,rounds=3,sets=1,coarse=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2,coarse=1"),
    ("e02s", "allocs=2,steps=5", "allocs=2,steps=6"),
    ("e02s", "allocs=5,steps=4", "allocs=4,steps=5"),
] + fams("e02", "chain wide fan ladder nested calls switch shared") + longs("e02", "chain wide fan nested calls switch shared", n=130, deep=300) + steady("e02"), "longer bodies, more thunks, more cells and longer histories than the bounds", LAB)
spec("E03", "core", ENGINE, [
    ("e03", "cells=2,progs=2,oplen=3,rounds=2,sets=2", "cells=2,progs=2,oplen=3,rounds=3,sets=2"),
    ("e03", "cells=2,progs=2,oplen=2,rounds=3,sets=2", None),
    ("e03", "cells=2,progs=3,oplen=2,rounds=2,sets=1,rootlen=3", "cells=2,progs=3,oplen=2,rounds=3,sets=1,rootlen=3"),
    ("e03", "cells=1,progs=1,oplen=3,call=1,rounds=2,sets=1,dyncall=1", "cells=1,progs=1,oplen=3,call=1,rounds=3,sets=1,dyncall=1,dyndemand=1"),
    ("e03", "cells=1,progs=2,oplen=2,call=1,rounds=2,sets=1,dyncall=1", "cells=1,progs=2,oplen=2,call=1,rounds=3,sets=1,dyncall=1"),
    ("e03", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=3,sets=1,dynset=1", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,dynset=2,branch=0"),
    ("e03", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=2,sets=1,dynset=2", None),
    ("e03", "cells=1,progs=5,oplen=1,branch=0,rounds=2,sets=1", "cells=1,progs=5,oplen=1,branch=0,rounds=3,sets=1"),
    ("e03", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=1", "cells=5,progs=1,oplen=6,branch=0,rounds=2,sets=2"),
    ("e03", "cells=1,progs=2,oplen=1,rounds=5,sets=1", "cells=1,progs=2,oplen=1,rounds=6,sets=1"),
    ("e03", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=2,sets=1", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=3,sets=1"),
    ("e03", "cells=1,progs=2,oplen=2,rounds=3,sets=1,coarse=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2,coarse=1"),
] + fams("e03", "chain wide fan ladder nested calls switch shared") + longs("e03", "chain wide fan nested calls switch shared", n=130, deep=300) + steady("e03"), "longer bodies, more thunks, more cells and longer histories than the bounds", LAB)
MAPPED = ENGINE + ["DCG::force_map", "ForceMapDep::{dirty,clean}", "check_force_map_dep", "get_clean_succ_mut"]
LONGER = "longer bodies, more thunks, more cells and longer histories than the bounds"
spec("E04", "core", ENGINE, [
    ("e04", "cells=1,progs=1,oplen=4,call=1,alloc=1,rounds=2,sets=1,branch=0", "cells=1,progs=1,oplen=3,call=1,alloc=1,rounds=3,sets=2,branch=1"),
    ("e04", "cells=1,progs=1,oplen=3,call=1,alloc=1,rounds=3,sets=1,branch=0", "cells=2,progs=1,oplen=3,calllen=2,call=2,alloc=1,rounds=3,sets=1,branch=0"),
    ("e04", "cells=1,progs=2,oplen=2,rootlen=3,alloc=2,retart=1,rounds=3,sets=1,branch=0", None),
    ("e04", "cells=2,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=2,sets=2,branch=1", None),
    ("e04", "cells=2,progs=1,oplen=3,calllen=2,call=2,alloc=1,rounds=2,sets=1,branch=0", None),
    ("e04", "firewall=1,cells=1,progs=2,oplen=2,rootlen=2,alloc=2,retart=1,rounds=3,sets=1,branch=0", "firewall=1,cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,branch=0"),
    ("e04", "cells=1,progs=2,oplen=2,rootlen=2,alloc=2,retart=1,rounds=3,sets=1,branch=0,dynset=1", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,branch=0,dynset=2"),
    ("e04", "cells=1,progs=2,oplen=2,rootlen=2,alloc=1,retart=1,rounds=2,sets=1,branch=0,dynset=2", None),
    ("e04", "cells=1,progs=1,oplen=5,alloc=4,rounds=2,sets=1,branch=0", "cells=1,progs=1,oplen=6,alloc=5,rounds=2,sets=1,branch=0"),
    ("e04", "cells=1,progs=3,oplen=1,rootlen=2,alloc=2,retart=1,rounds=3,sets=1,branch=0", "cells=1,progs=3,oplen=1,rootlen=3,alloc=2,retart=1,rounds=3,sets=1,branch=0"),
    ("e04", "cells=1,progs=1,oplen=2,call=3,calllen=2,rounds=2,sets=1,alloc=1,branch=0", "cells=1,progs=1,oplen=2,call=3,calllen=2,rounds=3,sets=1,alloc=1,branch=0"),
    ("e04", "cells=1,progs=2,oplen=2,rootlen=2,alloc=2,retart=1,rounds=3,sets=1,branch=0,coarse=1", None),
    ("e04", "cells=1,progs=1,oplen=3,call=1,alloc=1,rounds=2,sets=1,branch=0,coarse=1", "cells=1,progs=1,oplen=3,call=1,alloc=1,rounds=3,sets=1,branch=0,coarse=1"),
] + fams("e04", "allocs alloc") + longs("e04", "allocs alloc") + steady("e04", "fam=6,cells=1,alloc=1,progs=2,oplen=1", 6), LONGER + "; one allocating thunk per name (two thunks that allocate the same name at once, and a running thunk that re-allocates what a sibling has read, are illegal uses the engine rejects)", LAB)
spec("E05", "core", MAPPED, [
    ("e05", "cells=1,progs=1,oplen=4,map=2,rounds=2,sets=1", "cells=1,progs=1,oplen=4,map=3,rounds=3,sets=1"),
    ("e05", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=1", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=2"),
    ("e05", "cells=2,progs=2,oplen=2,map=1,rounds=2,sets=2", "cells=2,progs=2,oplen=3,map=1,rounds=2,sets=2"),
    ("e05", "cells=1,progs=2,oplen=2,map=1,tmap=1,lmap=1,put=1,alloc=1,rounds=2,sets=1", "cells=1,progs=2,oplen=2,map=1,tmap=1,lmap=1,put=1,alloc=1,rounds=3,sets=1"),
    ("e05", "cells=1,progs=2,oplen=2,rootlen=3,map=1,lmap=1,alloc=1,retart=1,read=0,branch=0,rounds=3,sets=1", None),
    ("e05", "cells=1,progs=1,oplen=5,map=3,read=0,rounds=2,sets=1,branch=0", "cells=1,progs=1,oplen=5,map=3,rounds=2,sets=2,branch=0"),
    ("e05", "cells=1,progs=4,oplen=1,rootlen=2,map=1,rounds=2,sets=1,branch=0", "cells=1,progs=4,oplen=1,rootlen=3,map=1,rounds=2,sets=1,branch=0"),
    ("e05", "cells=1,progs=1,oplen=2,map=2,rounds=4,sets=1,branch=0", "cells=1,progs=1,oplen=2,map=2,rounds=5,sets=1"),
    ("e05", "cells=1,progs=2,oplen=2,map=1,tmap=1,lmap=1,alloc=1,rounds=2,sets=1,coarse=1", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=1,coarse=1"),
] + fams("e05", "maps") + longs("e05", "maps", n=130, deep=400) + steady("e05", "fam=5,cells=1,map=2,abs=0,progs=1,oplen=1", 6) + fams("e05", "wide fan", ",map=1", deep=False), LONGER, LAB)
spec("E06", "core", MAPPED, [
    ("e06", "cells=1,progs=1,oplen=3,map=2,rounds=3,sets=2,branch=0", "cells=1,progs=1,oplen=4,map=2,rounds=3,sets=2"),
    ("e06", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=1", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=2"),
    ("e06", "cells=2,progs=2,oplen=2,map=1,tmap=1,rounds=2,sets=2", "cells=2,progs=2,oplen=3,map=1,tmap=1,rounds=2,sets=2"),
    ("e06", "cells=1,progs=2,oplen=2,rootlen=3,map=1,lmap=1,alloc=1,retart=1,read=0,branch=0,rounds=3,sets=1", None),
    ("e06", "cells=1,progs=1,oplen=5,map=3,read=0,rounds=2,sets=1,branch=0", "cells=1,progs=1,oplen=5,map=3,rounds=2,sets=2,branch=0"),
    ("e06", "cells=1,progs=3,oplen=1,map=1,tmap=1,rounds=3,sets=1", "cells=1,progs=4,oplen=1,map=1,tmap=1,rounds=3,sets=1"),
    ("e06", "cells=1,progs=2,oplen=2,map=1,rounds=3,sets=1,coarse=1", "cells=1,progs=2,oplen=2,map=2,rounds=3,sets=1,coarse=1"),
] + fams("e06", "maps") + longs("e06", "maps", n=130, deep=400) + steady("e06", "fam=5,cells=1,map=2,abs=0,progs=1,oplen=1", 6), LONGER, LAB)
spec("E07", "core", MAPPED + ["DCG::force_abs", "ForceAbsDep::{is_absmap,clean}"], [
    ("e07", "cells=1,progs=1,oplen=4,map=1,abs=2,rounds=2,sets=1", "cells=1,progs=1,oplen=4,map=1,abs=2,rounds=3,sets=2"),
    ("e07", "cells=1,progs=1,oplen=3,map=1,abs=2,rounds=3,sets=1", None),
    ("e07", "cells=1,progs=2,oplen=2,map=1,abs=1,rounds=3,sets=1", "cells=1,progs=2,oplen=2,map=1,abs=1,rounds=3,sets=2"),
    ("e07", "cells=2,progs=2,oplen=2,abs=1,rounds=2,sets=2", "cells=2,progs=2,oplen=3,abs=1,rounds=2,sets=2"),
    ("e07", "cells=1,progs=3,oplen=1,rootlen=2,abs=2,read=0,rounds=2,sets=2,branch=0", "cells=1,progs=3,oplen=1,rootlen=2,abs=2,rounds=3,sets=1,branch=0"),
    ("e07", "cells=1,progs=1,oplen=5,abs=3,read=0,rounds=2,sets=2,branch=0", "cells=1,progs=1,oplen=5,abs=3,rounds=2,sets=2,branch=0"),
    ("e07", "cells=1,progs=2,oplen=2,abs=1,rounds=3,sets=1,coarse=1", "cells=1,progs=2,oplen=2,map=1,abs=1,rounds=3,sets=2,coarse=1"),
] + fams("e07", "abs") + longs("e07", "abs", n=130, deep=400) + steady("e07", "fam=5,cells=1,map=0,abs=2,progs=1,oplen=1", 6), LONGER + "; one mapping family, whose members are uninterpreted functions", LAB)
spec("E08", "alloc", ENGINE + ["put", "cell!", "next_name"], [
    ("e08", "cells=2,progs=2,oplen=2,rounds=2,sets=2,realloc=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2,realloc=1"),
    ("e08", "cells=1,progs=2,oplen=2,rounds=3,sets=1,realloc=1", "cells=1,progs=2,oplen=2,rounds=3,sets=2,realloc=1,branch=0"),
    ("e08b", "steps=5", "steps=6"),
    ("e08", "cells=1,progs=2,oplen=2,alloc=1,retart=1,rounds=3,sets=1,dynset=2", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,branch=0,dynset=2"),
    ("e08", "cells=1,progs=2,oplen=2,rounds=3,sets=1,realloc=1,coarse=1", "cells=2,progs=2,oplen=2,rounds=2,sets=2,realloc=1,coarse=1"),
] + fams("e08", "fan chain", ",realloc=1", deep=False) + longs("e08", "wide fan chain", ",realloc=1") + longs("e08d", "alloc") + steady("e08", "fam=1,cells=1,realloc=1,progs=2,oplen=1", 5) + [("e08", "fam=2,cells=10,progs=2,oplen=1,rounds=2,sets=1,realloc=1", "fam=2,cells=10,progs=2,oplen=1,rounds=2,sets=2,realloc=1")] + fams("e08d", "alloc"), LONGER, LAB)
spec("E09", "alloc", ENGINE, [
    ("e09", "cells=1,progs=2,oplen=2,rounds=3,sets=1,args=1", "cells=1,progs=2,oplen=2,rounds=3,sets=2,args=1"),
    ("e09", "cells=1,progs=1,oplen=3,rounds=3,sets=2,args=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2,args=1"),
    ("e09", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=1,dyncall=1,dyndemand=1,branch=0", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=2,dyncall=1,dyndemand=1,branch=0"),
    ("e09", "cells=1,progs=2,oplen=2,rounds=2,sets=1,args=1,coarse=1", "cells=1,progs=2,oplen=2,rounds=3,sets=1,args=1,coarse=1"),
] + fams("e09", "chain fan", ",args=1", deep=False) + longs("e09", "chain", ",args=1", n=60, deep=120), LONGER, LAB)
spec("E10", "alloc", MAPPED + ["DCG::force_abs"], [
    ("e10", "rounds=3,edits=1", "rounds=3,edits=2"),
    ("e10", "rounds=2,edits=2,readers=2", "rounds=3,edits=1,readers=2"),
    ("e10b", "rounds=3,edits=1", "rounds=3,edits=2"),
    ("e10", "rounds=2,edits=1,coarse=1", "rounds=3,edits=1,coarse=1"),
    ("e10b", "rounds=2,edits=1,coarse=1", "rounds=3,edits=1,coarse=1"),
], "more than one name that switches, and longer histories", LAB)
spec("E11", "names", ENGINE + ["ns", "DCG::ns", "current_path", "loc_of_id"], [
    ("e11", "steps=5,depth=2,thunks=2", "steps=6,depth=2,thunks=2"),
    ("e11", "steps=4,depth=3,thunks=3", "steps=5,depth=3,thunks=3"),
    ("e11d", "depth=20", "depth=60"),
], "deeper nesting, more allocations", LAB[:1] + LAB[1:])
spec("E12", "names", ENGINE + ["structural", "DCG::structural", "DCG::thunk (NameChoice::Structural)"], [
    ("e12", "structural=1,share=1,cells=1,progs=2,oplen=2,calllen=2,call=1,rounds=2,sets=1", "structural=1,share=1,cells=1,progs=2,oplen=2,calllen=2,call=1,rounds=3,sets=1"),
    ("e12", "structural=1,share=1,cells=1,progs=1,oplen=3,calllen=1,call=2,rounds=2,sets=1,retart=1,alloc=1", "structural=1,share=1,cells=1,progs=1,oplen=2,calllen=2,call=2,alloc=1,rounds=2,sets=1"),
    ("e12t", "steps=2", "steps=3"),
    ("e12n", "steps=3,depth=2", "steps=4,depth=3"),
] + longs("e12", "nested", ",structural=1") + [("e12", "structural=1,fam=7,cells=2,call=3,progs=2,oplen=1,rounds=2,sets=1", "structural=1,fam=7,cells=2,call=6,progs=2,oplen=1,rounds=2,sets=1"), ("e12", "structural=1,fam=8,cells=2,call=4,progs=2,oplen=1,rounds=2,sets=1", "structural=1,fam=8,cells=2,call=6,progs=2,oplen=1,rounds=2,sets=1")], LONGER, LAB)
spec("E13", "names", ENGINE + ["force_cycle"], [
    ("e13", "thunks=3,oplen=2,demands=2", "thunks=3,oplen=2,demands=2,cond=1"),
    ("e13", "thunks=2,oplen=2,demands=2,cond=1", "thunks=2,oplen=3,demands=2,cond=1"),
    ("e13b", "cyc=1,cells=1,progs=3,oplen=2,rounds=3,sets=1", "cyc=1,cells=2,progs=3,oplen=2,rounds=3,sets=1"),
    ("e13b", "cyc=1,cells=1,progs=2,oplen=3,rounds=2,sets=1", None),
    ("e13", "ring=1,thunks=10,oplen=2,demands=1", "ring=1,thunks=16,oplen=2,demands=1,cond=1"),
    ("e13", "ring=1,thunks=40,oplen=1,demands=1", "ring=1,thunks=100,oplen=1,demands=1"),
    ("e13", "thunks=2,oplen=2,demands=2,spaces=1", "thunks=3,oplen=2,demands=2,spaces=1"),
    ("e13c", "cells=1,thunks=2,oplen=2,rounds=3,cond=1", "cells=2,thunks=2,oplen=2,rounds=3,cond=1"),
    ("e13c", "cells=1,thunks=2,oplen=2,rounds=2,alts=1,cond=1", "cells=1,thunks=2,oplen=2,rounds=3,alts=1,cond=1"),
    ("e13c", "cells=1,thunks=2,oplen=2,rounds=3,alts=1", "cells=2,thunks=2,oplen=3,rounds=2,alts=1"),
    ("e13c", "cells=1,thunks=3,oplen=1,rounds=3,alts=1", "cells=1,thunks=3,oplen=2,rounds=2,alts=1"),
    ("e13c", "cells=1,thunks=3,oplen=2,rounds=2,cond=1", "cells=1,thunks=3,oplen=2,rounds=2,alts=1,cond=1"),
    ("e13c", "inside=1,cells=1,thunks=2,oplen=2,rounds=2,alts=1,cond=1", "inside=1,cells=1,thunks=3,oplen=2,rounds=2,alts=1"),
], "after an edit, the value of a demand that meets a cycle while results obtained from alternatives by other demands are still in use (what memoised alternatives mean then is not documented); what is claimed then is that it comes back", LAB)
spec("E14", "names", ["DCG::{cell,thunk,force,force_map,force_abs}", "assert_graphnode_res_type", "res_node_of_loc", "GraphNode::res_typeid", "App::{typeid,eq}", "NaiveThunk::eq"], [
    ("e14", "tys=2,steps=3,spurious=1", "tys=3,steps=3,spurious=1"),
    ("e14", "tys=4,steps=2,spurious=1", "tys=5,steps=2,spurious=1"),
], "types outside the harness's list (integers, strings, pairs, articulations, unit)", LAB)
spec("E15", "names", ["set", "DCG::set", "set_", "put", "thunk (naive)", "cell!"], [
    ("e15", "steps=3", "steps=4"),
], "set on a cell under the naive engine (documented there as unimplemented)", LAB)
spec("E18", "names", ["PartialEq/Hash for EnumArt, Art, NaiveThunk, Loc, Path, ArtId", "Art::clone", "NaiveThunk::hash_u64"], [
    ("e18", "arts=3", "arts=4"),
], "more articulations than the bound", LAB)
spec("E20", "core", ["mod wf::{check_dcg,dirty,clean,add_constraint}", "Flags, DCG::new"] + MAPPED, [
    ("e20", "mode=1,cells=2,progs=2,oplen=3,rounds=2,sets=1", "mode=1,cells=2,progs=2,oplen=3,rounds=3,sets=1"),
    ("e20", "mode=1,cells=1,progs=3,oplen=2,rounds=2,sets=2,branch=0", None),
    ("e20", "mode=3,cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=2,sets=1,branch=0,dynset=2", "mode=3,cells=1,progs=2,oplen=2,rootlen=3,alloc=2,retart=1,rounds=3,sets=1,branch=0"),
    ("e20", "mode=1,map=1,abs=1,cells=1,progs=2,oplen=2,rounds=2,sets=1", "mode=1,map=1,abs=1,cells=1,progs=2,oplen=2,rounds=3,sets=1"),
    ("e20", "mode=1,map=2,cells=1,progs=2,oplen=2,rounds=3,sets=1,branch=0", "mode=1,map=2,cells=1,progs=2,oplen=3,rounds=3,sets=1,branch=0"),
    ("e20", "mode=1,cells=1,progs=2,oplen=2,map=1,tmap=1,lmap=1,alloc=1,retart=1,rounds=2,sets=1", None),
    ("e20", "mode=1,cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=1,dyncall=1,dyndemand=1,branch=0", None),
    ("e20", "mode=3,structural=1,share=1,cells=1,progs=2,oplen=2,calllen=2,call=1,rounds=2,sets=1", None),
    ("e20", "mode=2,structural=1,share=1,cells=1,progs=1,oplen=3,calllen=1,call=2,rounds=2,sets=1,retart=1,alloc=1", None),
    ("e20", "mode=4,cells=2,progs=2,oplen=3,rounds=2,sets=0,alloc=1,retart=1", None),
    ("e20", "mode=5,cells=1,progs=2,oplen=2,rounds=2,sets=0,alloc=1,retart=1", None),
    ("e20", "mode=6,cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=2,sets=0,share=1", "mode=6,cells=1,progs=1,oplen=3,call=2,calllen=2,rounds=2,sets=0,share=1"),
    ("e20c", "mode=1,cells=1,thunks=2,oplen=2,rounds=3,alts=1", "mode=1,cells=2,thunks=2,oplen=3,rounds=2,alts=1"),
    ("e20c", "mode=1,inside=1,cells=1,thunks=2,oplen=2,rounds=3,alts=1", None),
    ("e20c", "mode=1,cells=1,thunks=3,oplen=1,rounds=3,alts=1", "mode=1,cells=1,thunks=3,oplen=2,rounds=2,alts=1"),
] + fams("e20", "chain wide fan ladder nested maps alloc", ",mode=1", deep=False) + longs("e20", "chain wide fan nested maps alloc shared", ",mode=1", n=40, deep=100), LONGER + "; ADAPTON_WRITE_DCG, which writes files, and ADAPTON_GMLOG_DCG, which nothing reads", LAB)
spec("E16", "forms", ENGINE + ["manage::{use_engine,init_engine,init_dcg,init_naive,engine_is_naive,engine_is_dcg}", "cell/thunk/force/force_map under Engine::Naive", "NaiveThunk::force"], [
    ("e16", "cells=1,progs=2,oplen=2,steps=4", "cells=2,progs=2,oplen=2,steps=4"),
    ("e16", "cells=1,progs=1,oplen=2,call=1,alloc=1,steps=4,branch=0", "cells=1,progs=1,oplen=3,call=1,alloc=1,steps=4,branch=0"),
    ("e16", "cells=1,progs=1,oplen=2,steps=5", "cells=1,progs=1,oplen=2,steps=6"),
    ("e16b", "steps=6", "steps=7"),
], LONGER + "; more than two DCG engines and a naive one; switching engines inside a thunk body (which the engine's borrow of its own state forbids)", LAB)
spec("E17", "forms", ["thunk_map", "NaiveThunk::{force,eq,hash_u64}", "PartialEq/Hash for EnumArt"] + ENGINE, [
    ("e17", "cells=1,maps=2,mappings=2,rounds=2", "cells=2,maps=2,mappings=2,rounds=3"),
    ("e17", "chain=1,cells=1,maps=8,mappings=2,rounds=2", "chain=1,cells=1,maps=24,mappings=2,rounds=2"),
    ("e17b", "cells=2,maps=1,mappings=2,rounds=2", "cells=2,maps=1,mappings=2,rounds=3"),
], "deeper nesting of maps, longer histories", LAB)
spec("E19", "forms", ["macros cell!, thunk!, memo!, eager!, get!, cell_call!, let_cell!, let_thunk!, let_memo!, fork!, forko!, prog_pt!", "thunk (NameChoice::Eager)"] + ENGINE, [
    ("e19", "steps=2", "steps=2"),
    ("e19s", "steps=2,structural=1,sub=1", "steps=2,structural=1"),
    ("e19s", "steps=2,sub=1", "steps=3,sub=1"),
    ("e19b", "rounds=2,edits=2", "rounds=3,edits=2"),
    ("e19c", "x=1", None),
], "the code and the argument labels are those of the harness: two codes at each of 25 forms, applied to symbolic values", LAB)
DATA = ["elements are unconstrained integers, numeric and string names are distinct constants; element functions and predicates are uninterpreted; articulations (named cells, named thunks, immutable and naive ones) may stand at any tail or subtree within the bound",
        "hash collisions between different values are outside the claim (equal values hash equally, different ones differently)"]
BIGGER = "longer sequences, more articulations and deeper shapes than the bounds"
spec("C01", "lists", ["list_of_vec", "vec_of_list", "list_demand", "list_gen", "ListIntro/ListElim/ListElimMove for List"], [
    ("c01", "n=3,arts=1", "n=3,arts=2"),
    ("c01", "n=4,arts=2", "n=5,arts=2"),
    ("c01", "n=24,arts=1,forms=8", "n=60,arts=1,forms=8"),
], BIGGER, DATA)
spec("C02", "trees", ["tree_of_list", "tree_of_list_rec", "list_of_tree", "prune_tree_of_tree", "eager_tree_of_tree", "TreeIntro/TreeElim for Tree", "tree_fold_seq"], [
    ("c02", "n=3,arts=1,levels=2", "n=4,arts=1,levels=2"),
    ("c02", "n=3,arts=0,levels=3,namelevels=2", "n=4,arts=0,levels=3,namelevels=2"),
    ("c02", "n=0,hand=4", "n=0,hand=6"),
    ("c02", "n=5,arts=0,levels=2", "n=6,arts=0,levels=2"),
    ("c02", "n=30,arts=0,forms=8,levelforms=5,namelevels=2", "n=100,arts=0,forms=8,levelforms=5,namelevels=2"),
], BIGGER, DATA + ["element levels are symbolic small numbers obtained from the low bits of the element's hash, as the code derives them"])
spec("C03", "trees", ["tree_of_list", "tree_of_list_rec", "Level for u32 and Name", "TreeIntro/TreeElim for Tree"], [
    ("c03", "n=3,arts=1,levels=2,namelevels=2", "n=4,arts=1,levels=2,namelevels=2"),
    ("c03", "n=5,arts=0,levels=2,namelevels=2", "n=6,arts=0,levels=2,namelevels=2"),
    ("c03e", "n=3,edits=1,levels=2,namelevels=2", None),
    ("c03e", "n=4,edits=2,levels=2,namelevels=2", "n=4,edits=2,levels=2,namelevels=2"),
    ("c03", "n=30,arts=0,forms=8,levelforms=5,namelevels=2", "n=100,arts=0,forms=8,levelforms=5,namelevels=2"),
    ("c03e", "n=12,edits=1,grow=1,forms=8,levelforms=4,namelevels=2", "n=12,edits=2,grow=1,forms=8,levelforms=2,namelevels=2"),
], BIGGER, DATA)
spec("C04", "lists", ["list_map_lazy", "list_map_eager", "list_map_eager2", "list_filter_lazy", "list_filter_eager", "list_reverse", "list_append", "list_fold"], [
    ("c04", "n=3,arts=1", "n=4,arts=1"),
    ("c04", "n=4,arts=2,m=2", "n=5,arts=1,m=2"),
    ("c04", "n=9,arts=1,forms=8,keep=6,m=4", "n=20,arts=1,forms=8,keep=6,m=4"),
    ("c04", "n=40,arts=0,forms=8,keep=6,m=8", "n=100,arts=0,forms=8,keep=6,m=8"),
], BIGGER, DATA)
spec("C05", "trees", ["tree_fold_seq", "tree_fold_up", "tree_fold_up_nm_dn", "filter_list_of_tree", "filter_tree_of_tree", "monoid_of_tree"], [
    ("c05", "n=4,arts=0,levels=2", "n=5,arts=0,levels=2"),
    ("c05", "n=4,arts=1,levels=2", None),
    ("c05", "n=0,hand=4", "n=0,hand=5"),
    ("c05", "n=20,arts=0,forms=8,keep=6,levelforms=4,namelevels=2", "n=40,arts=0,forms=8,keep=6,levelforms=4,namelevels=2"),
    ("c05", "n=10,arts=1,forms=3,keep=2,levelforms=1,namelevels=2", "n=12,arts=1,forms=4,keep=2,levelforms=2,namelevels=2"),
], BIGGER, DATA)
spec("C06", "trees", ["list_merge", "list_merge_wrapper", "mergesort_list_of_tree", "mergesort_list_of_tree2", "mergesort_list_of_tree3"], [
    ("c06", "n=4,arts=0,levels=2,merge=2", "n=5,arts=0,levels=2,merge=2"),
    ("c06h", "n=3,hand=4", "n=4,hand=5"),
    ("c06p", "n=0,hand=5,engines=1,prefix=0", "n=5,arts=0,levels=2,merge=0,engines=1,prefix=0"),
    ("c06", "n=16,arts=0,forms=6,ord=5,levelforms=2,namelevels=2", "n=30,arts=0,forms=8,ord=5,levelforms=5,namelevels=2"),
    ("c06", "n=3,merge=12,arts=0,forms=6", "n=3,merge=24,arts=0,forms=8"),
], BIGGER, DATA)
spec("C07", "pipes", ENGINE + ["every list and tree transformer of catalog::collections, composed as 20 pipelines"], [
    ("c07", "n=3,rounds=2,levels=2", "n=4,rounds=2,levels=2,namelevels=2"),
    ("c07g", "n=2,rounds=3,levels=1,grow=1", "n=2,rounds=3,levels=2,prefix=1"),
    ("c07g", "n=4,rounds=2,levels=1,prefix=1", "n=5,rounds=2,levels=1,maxnames=3"),
    ("c07p", "n=4,rounds=3,levels=1,pipes=1024", None),
    ("c07", "n=10,rounds=2,grow=1,forms=3,levelforms=2,keep=1,ord=1,namelevels=2", "n=16,rounds=2,grow=1,forms=6,levelforms=2,keep=2,ord=2,namelevels=2"),
], BIGGER + "; edits that re-order names or use one name twice in one list", DATA)
spec("C08", "lists", ["MapIntro/MapElim for List", "SetIntro/SetElim for List"], [
    ("c08", "n=3,arts=1,m=2", "n=4,arts=1,m=3"),
    ("c08", "n=8,m=2,arts=0,forms=1", "n=14,m=2,arts=0,forms=1"),
    ("c08", "n=20,m=1,arts=0,forms=1", "n=40,m=1,arts=0,forms=1"),
    ("c08", "n=5,m=1,arts=1,forms=1", "n=8,m=1,arts=1,forms=1"),
], BIGGER + "; map removal and append and set difference, which the crate leaves unimplemented", DATA)
spec("C09", "tries", ["trie.rs: find, mem, fold, is_empty, split_atomic, trie_fold", "BS::{prepend,is_set,length}"], [
    ("c09", "n=2,bits=2", "n=3,bits=2"),
    ("c09", "n=2,bits=3,arts=1", None),
    ("c09", "n=3,bits=2,arts=1,deep=0", None),
    ("c09e", "n=1,bits=2,rounds=2,deep=0,engines=1", None),
    ("c09e", "n=2,bits=1,rounds=2,deep=0,engines=1", None),
    ("c09", "n=15,bits=4,arts=0,deep=0,forms=2", None),
    ("c09", "n=6,bits=3,arts=1,deep=0,forms=2", "n=8,bits=3,arts=1,deep=0,forms=2"),
    ("c09e", "n=7,bits=4,rounds=2,deep=0,engines=1,arts=0,forms=1", "n=12,bits=4,rounds=2,deep=0,engines=1,arts=0,forms=1"),
], BIGGER + "; adding elements, which the crate leaves unimplemented", DATA)
REFL = ["reflect::{dcg_reflect_now,dcg_reflect_begin,dcg_reflect_end,debug_begin,debug_end,debug_effect}", "Reflect for DCG, Node, CompNode, Succ, Pred, Loc, Path, Frame", "parse_val (of the values in the graph)"]
STRUCT = "structural=1,share=1,cells=1,progs=1,oplen=3,calllen=1,call=2,rounds=2,sets=1,retart=1,alloc=1"
spec("R01", "reflect", ENGINE + REFL, [
    ("r01", "cells=2,progs=2,oplen=2,rounds=2,sets=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2"),
    ("r01", "map=1,abs=1,cells=1,progs=2,oplen=2,rounds=2,sets=1", "map=1,abs=1,cells=1,progs=2,oplen=2,rounds=3,sets=1"),
    ("r01a", "cells=1,progs=2,oplen=2,rootlen=3,alloc=2,retart=1,rounds=2,sets=1,branch=0", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,put=1,retart=1,rounds=3,sets=1"),
    ("r01s", STRUCT, None),
    ("r01a", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=2,sets=1,branch=0,dynset=2", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,branch=0,dynset=1"),
    ("r01", "cells=2,progs=1,oplen=3,rounds=2,sets=1,map=1", "cells=2,progs=1,oplen=3,rounds=3,sets=1,map=1"),
    ("r01", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=2,sets=1", "cells=1,progs=5,oplen=1,branch=0,rounds=3,sets=1"),
    ("r01", "cells=1,progs=2,oplen=2,rounds=3,sets=1,args=1,branch=0", "cells=1,progs=2,oplen=3,rounds=3,sets=1,args=1,branch=0"),
    ("r01", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=1,dyncall=1,dyndemand=1,branch=0", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=2,dyncall=1,dyndemand=1,branch=0"),
    ("r01c", "cells=1,thunks=2,oplen=2,rounds=3,alts=1", "cells=1,thunks=3,oplen=2,rounds=2,alts=1"),
] + fams("r01", "wide fan ladder maps abs nested", deep=False) + longs("r01", "chain wide fan maps abs nested calls shared", n=40, deep=80) + longs("r01a", "alloc", n=40, deep=80) + fams("r01a", "alloc", deep=False), LONGER, LAB)
spec("R02", "reflect", ENGINE + REFL + ["macros dcg_effect, dcg_effect_begin, dcg_effect_end"], [
    ("r02", "cells=2,progs=2,oplen=3,rounds=2,sets=1", "cells=2,progs=2,oplen=3,rounds=2,sets=2"),
    ("r02", "map=1,cells=1,progs=2,oplen=2,rounds=3,sets=1", "map=1,cells=2,progs=2,oplen=2,rounds=3,sets=1"),
    ("r02", "cells=1,progs=2,oplen=2,rounds=2,sets=1,dbg=1", "cells=2,progs=2,oplen=2,rounds=2,sets=1,dbg=1"),
    ("r02", "abs=1,cells=1,progs=2,oplen=2,rounds=2,sets=1", "map=1,abs=1,cells=1,progs=2,oplen=2,rounds=3,sets=1"),
    ("r02a", "cells=1,progs=2,oplen=2,rootlen=3,alloc=2,retart=1,rounds=2,sets=1,branch=0", "cells=1,progs=2,oplen=2,rootlen=3,alloc=2,retart=1,rounds=3,sets=1,branch=0"),
    ("r02a", "cells=1,progs=1,oplen=3,calllen=1,call=2,rounds=2,sets=1,retart=1,alloc=1", None),
    ("r02s", STRUCT, None),
    ("r02k", "rounds=2,edits=2", "rounds=3,edits=1"),
    ("r02a", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=2,sets=1,branch=0,dynset=2", "cells=1,progs=2,oplen=2,rootlen=3,alloc=1,retart=1,rounds=3,sets=1,branch=0,dynset=1"),
    ("r02", "cells=1,progs=4,oplen=1,rootlen=3,branch=0,rounds=2,sets=1", "cells=1,progs=5,oplen=1,branch=0,rounds=3,sets=1"),
    ("r02", "cells=1,progs=2,oplen=2,rounds=3,sets=1,args=1,branch=0", "cells=1,progs=2,oplen=3,rounds=3,sets=1,args=1,branch=0"),
    ("r02", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=1,dyncall=1,dyndemand=1,branch=0", "cells=1,progs=1,oplen=3,call=1,calllen=2,rounds=3,sets=2,dyncall=1,dyndemand=1,branch=0"),
    ("r02c", "cells=1,thunks=2,oplen=2,rounds=3,alts=1", "cells=1,thunks=3,oplen=2,rounds=2,alts=1"),
] + fams("r02f", "chain wide fan ladder maps nested switch", deep=False) + longs("r02f", "chain wide fan maps nested calls switch shared", n=40, deep=100) + longs("r02a", "alloc", n=40, deep=80) + fams("r02a", "alloc", deep=False), LONGER, LAB)
spec("R03", "reflect", ["reflect::trace::{trace_count,trace_count_rec,trace_count_dirty}"] + ENGINE + REFL, [
    ("r03", "cells=2,progs=2,oplen=2,rounds=2,sets=1", "cells=2,progs=2,oplen=3,rounds=2,sets=1"),
    ("r03", "cells=1,progs=2,oplen=2,rounds=2,sets=1,dbg=1", None),
    ("r03h", "effects=4", "effects=5"),
    ("r03h", "effects=3,dbg=1", "effects=4,dbg=1"),
] + fams("r03", "ladder", deep=False) + longs("r03", "chain fan wide shared", n=40, deep=80) + [("r03", "fam=3,cells=1,progs=6,oplen=1,rounds=2,sets=1", "fam=3,cells=2,progs=9,oplen=1,rounds=2,sets=1")], "longer traces than the bounds", LAB)
SHAPES = "shapes, positions of the leaves and (for names) which leaves are equal are explored exhaustively; leaf payloads that the code must not look into are unconstrained values"
spec("R04", "vals", ["parse_val::{parse_val,lex,lex_escape,parse_val_rec,parse_vals,parse_fields,parse_art_val,path_of_val,name_of_val,name_option_of_val,name_or_constr}", "Debug for Name, Loc, Path, ArtId, EnumArt", "reflect::dcg_reflect_now"], [
    ("r04", "nodes=0,chars=1,nameops=0", "nodes=0,chars=2,nameops=0"),
    ("r04", "nodes=1,small=1,path=0", "nodes=2,small=1,path=0"),
    ("r04l", "n=30,small=1", "n=100,small=1"),
    ("r04s", "nodes=0,only=4,chars=3", "nodes=0,only=4,chars=4"),
    ("r04n", "nodes=0,only=6,nameops=2,chars=1", "nodes=0,only=6,nameops=3,chars=1"),
    ("r04a", "nodes=0,only=7,nameops=0,path=2,chars=1", "nodes=0,only=7,nameops=1,path=1,chars=1"),
], "longer strings and strings over other characters than the 26 representatives (one of each class the lexer or the Debug format distinguishes), integers other than the boundary ones, deeper values; characters, maps and sets, which the parser does not claim to handle; names made from hashes",
   [SHAPES, "integers and string characters are representatives of their classes, not symbolic: the parser reads them as text"])
spec("N01", "vals", ["name_of_{usize,isize,str,string}", "name_unit", "name_pair", "name_fork", "name_fork3", "name_fork4", "PartialEq/Hash/Debug for Name", "DCG::{cell,thunk,ns}"], [
    ("n01", "ops=2", "ops=3"),
    ("n01d", "depth=20", "depth=40"),
    ("n01f", "ops=2", "ops=3"),
], "deeper names; names made from hashes (name_of_hash64, which is not for users)", [SHAPES, "numbers and strings that are different are represented by distinct constants (name construction only hashes and compares them)",
   "hash collisions between different values are outside the claim (equal values hash equally, different ones differently)"])
spec("B01", None, ["BS::{pow,flip,is_set,prepend,length,shift_left}"], [], "lengths beyond the documented 30 bits; bases beyond 8 and exponents beyond 6 of pow, other than powers of two", ["bit strings are well formed: 0 <= value < 2^length"],
     kani=[("bits::b_pow2", "2^n, n<=30"), ("bits::b_pow", "b^n, |b|<=8, n<=6"), ("bits::b_flip", "all 30-bit values and positions"), ("bits::b_is_set", "all 30-bit values and positions"),
           ("bits::b_prepend", "all bit strings of length <= 29 and bits"), ("bits::b_build", "all sequences of 30 bits"), ("bits::b_shift", "all bit strings of length <= 30, shifts <= 30")], engine="kani",
     technique="Kani (CBMC bit-precise bounded model checking, SAT) of the real functions compiled from /repo, values symbolic over the stated ranges, native replay of counterexamples",
     note="Bounded: all well-formed bit strings of up to the documented 30 bits; nothing outside (longer ones; pow with |base| > 8 or exponent > 6 other than powers of two). Trusts rustc, Kani and CBMC. Counterexamples count only when a native dev or release build reproduces them.")
