use crate::sx::*;
use crate::Harness;
macro_rules! hh { ($v:ident, $n:expr, $m:ident :: $f:ident, [$($c:expr),*]) => { $v.push(Harness { name: $n, sym: crate::$m::$f::<Sym>, con: crate::$m::$f::<Con>, covers: &[$($c),*] }) } }
pub fn harnesses() -> Vec<Harness> {
    let mut v = vec![];
    #[cfg(feature = "core")]
    {
        hh!(v, "e01", h_core::e01, ["ran", "reused", "second round"]);
        hh!(v, "e02", h_core::e02, ["ran", "reused", "needed", "second round"]);
        hh!(v, "e02s", h_core::e02s, ["changed", "kept", "assigned", "restored", "allocated again"]);
        hh!(v, "e03", h_core::e03, ["ran", "spared", "second round"]);
        hh!(v, "e04", h_core::e04, ["ran", "reused", "needed", "second round"]);
        hh!(v, "e20", h_core::e20, ["ran", "reused", "second round"]);
        hh!(v, "e20c", h_cycles::e13c, ["value", "stayed cyclic"]);
        hh!(v, "e05", h_core::e01, ["ran", "reused", "second round"]);
        hh!(v, "e06", h_core::e02, ["ran", "reused", "needed", "second round"]);
        hh!(v, "e07", h_core::e01, ["ran", "reused", "second round"]);
    }
    #[cfg(feature = "alloc")]
    {
        hh!(v, "e08", h_alloc::e08, ["ran", "realloc", "second round"]);
        hh!(v, "e08d", h_alloc::e08, ["ran", "second round", "stored into a thunk's cell"]);
        hh!(v, "e08b", h_alloc::e08b, ["set", "end"]);
        hh!(v, "e09", h_alloc::e09, ["ran", "rethunk", "same argument", "new argument"]);
        hh!(v, "e10", h_alloc::e10, ["cell", "thunk"]);
        hh!(v, "e10b", h_alloc::e10b, ["cell", "thunk"]);
    }
    #[cfg(feature = "names")]
    {
        hh!(v, "e11", h_names::e11, ["left a namespace", "forced from elsewhere", "re-entered", "re-run", "identified by content"]);
        hh!(v, "e11d", h_names::e11d, ["same", "different", "entered from within"]);
        hh!(v, "e13", h_names::e13, ["cycle", "rejected", "value"]);
        hh!(v, "e13c", h_cycles::e13c, ["value"]);
        hh!(v, "e13b", h_core::e01, ["ran", "reused", "second round"]);
        hh!(v, "e12", h_core::e04, ["ran", "reused", "needed", "shared", "second round"]);
        hh!(v, "e14", h_types::e14, ["caught", "accepted"]);
        hh!(v, "e12t", h_types::e12t, ["shared", "apart"]);
        hh!(v, "e12n", h_names::e12n, ["left structural", "left an inner structural", "shared", "re-run", "named thunk with a structural scope"]);
        hh!(v, "e18", h_types::e18, ["equal", "different"]);
        hh!(v, "e15", h_names::e15, ["accepted", "rejected"]);
    }
    #[cfg(feature = "forms")]
    {
        hh!(v, "e16b", h_forms::e16b, ["back", "first", "forced"]);
        hh!(v, "e16", h_forms::e16, ["naive", "back", "ran", "reused"]);
        hh!(v, "e17", h_forms::e17, ["map", "nested", "edited"]);
        hh!(v, "e17b", h_forms::e17, ["map", "edited"]);
        hh!(v, "e19", h_forms::e19, ["edited", "clash", "unnamed", "cached"]);
        hh!(v, "e19s", h_forms::e19, ["edited", "unnamed"]);
        hh!(v, "e19b", h_forms::e19b, ["edited", "user"]);
        hh!(v, "e19c", h_forms::e19c, ["end"]);
    }
    #[cfg(feature = "lists")]
    {
        hh!(v, "c01", h_lists::c01, ["generated", "all", "prefix", "tests", "popped after a name", "walked", "walked by move", "pushed", "named", "cell", "nested", "thunk", "naive"]);
        hh!(v, "c04", h_lists::c04, ["map lazy", "map eager", "map eager2", "filter lazy", "filter eager", "reverse", "append", "fold", "cell", "thunk", "naive"]);
        hh!(v, "c08", h_lists::c08, ["map folded", "found", "not found", "member", "set folded", "common", "name", "cell", "thunk", "naive"]);
    }
    #[cfg(feature = "trees")]
    {
        hh!(v, "c02", h_trees::c02, ["listed", "copied", "pruned", "eliminated articulations", "naive"]);
        hh!(v, "c03", h_trees::c03, ["nodes"]);
        hh!(v, "c03e", h_trees::c03, ["nodes", "inserted", "deleted", "replaced"]);
        hh!(v, "c05", h_trees::c05, ["monoid", "seq", "up", "names down", "filtered to a list", "filtered to a tree", "one of several names", "naive"]);
        hh!(v, "c06", h_trees::c06, ["merged", "variant 1", "variant 2", "variant 3", "prefix", "naive"]);
        hh!(v, "c06h", h_trees::c06, ["variant 1", "variant 2", "variant 3", "prefix", "naive"]);
        hh!(v, "c06p", h_trees::c06, ["variant 1", "variant 2", "variant 3"]);
    }
    #[cfg(feature = "pipes")]
    {
        hh!(v, "c07", h_pipes::c07, ["direct", "cell", "argument", "inserted", "deleted", "replaced"]);
        hh!(v, "c07g", h_pipes::c07, ["direct", "cell", "argument"]);
        hh!(v, "c07p", h_pipes::c07, ["direct", "cell", "argument"]);
    }
    #[cfg(feature = "tries")]
    {
        hh!(v, "c09", h_tries::c09, ["split", "cell", "thunk", "name", "member", "not a member", "folded", "memo folded", "emptiness", "naive"]);
        hh!(v, "c09e", h_tries::c09, ["cell", "thunk", "name", "member", "folded", "memo folded", "edited"]);
    }
    #[cfg(feature = "reflect")]
    {
        hh!(v, "r01", h_reflect::r01, ["clean edge to a thunk", "dirty edge", "up to date", "stale", "second round"]);
        hh!(v, "r01a", h_reflect::r01, ["clean edge to a thunk", "dirty edge", "up to date", "stale", "articulation", "second round"]);
        hh!(v, "r01s", h_reflect::r01, ["up to date", "articulation", "second round"]);
        hh!(v, "r01c", h_reflect::r01c, ["clean edge to a thunk", "dirty edge", "stayed cyclic"]);
        hh!(v, "r02c", h_reflect::r02c, ["dirtying", "stayed cyclic"]);
        hh!(v, "r02", h_reflect::r02, ["cleaning", "re-evaluation", "dirtying", "hit", "duplicate"]);
        hh!(v, "r02f", h_reflect::r02, ["cleaning", "re-evaluation", "dirtying", "hit"]);
        hh!(v, "r02a", h_reflect::r02, ["cleaning", "re-evaluation", "dirtying", "allocation", "changed allocation", "unchanged allocation"]);
        hh!(v, "r02s", h_reflect::r02, ["cleaning", "re-evaluation", "dirtying", "structural thunk", "structural cell"]);
        hh!(v, "r02k", h_reflect::r02k, ["cell", "thunk", "dirtying", "cleaning"]);
        hh!(v, "r03", h_reflect::r03, ["counted", "no change"]);
        hh!(v, "r03h", h_reflect::r03h, ["counted", "change", "no change"]);
    }
    #[cfg(feature = "vals")]
    {
        hh!(v, "n01", h_vals::n01, ["equal", "different"]);
        hh!(v, "n01d", h_vals::n01d, ["equal", "different"]);
        hh!(v, "r04l", h_vals::r04l, ["long vector", "deep value", "long string", "deep name", "deep location"]);
        hh!(v, "n01f", h_vals::n01f, ["equal", "different", "unrelated"]);
        hh!(v, "r04", h_vals::r04, ["integer", "string", "name", "cell", "thunk", "structural cell", "structural thunk", "put"]);
        hh!(v, "r04s", h_vals::r04, ["string"]);
        hh!(v, "r04n", h_vals::r04, ["name", "string name"]);
        hh!(v, "r04a", h_vals::r04, ["cell", "thunk", "structural cell", "structural thunk", "put"]);
    }
    v
}
