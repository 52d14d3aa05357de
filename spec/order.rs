// ------------------------------------------------------------------ the derived order of identifiers: first by start, then end, then the rest
pub mod idle {
    use vstd::prelude::*;
    use super::{Identifier, Point, IdentifierType};
    pub uninterp spec fn id_le(a: Identifier, b: Identifier) -> bool;
    pub open spec fn start_first(a: Identifier, b: Identifier) -> bool { a.start.row < b.start.row || (a.start.row == b.start.row && (a.start.column < b.start.column || (a.start.column == b.start.column && (a.end.row < b.end.row || (a.end.row == b.end.row && a.end.column <= b.end.column))))) }
}
pub use idle::id_le;
pub mod idord {
    use vstd::prelude::*;
    use super::Identifier;
    use super::idle::*;
    pub broadcast axiom fn ax_le(a: Identifier, b: Identifier) ensures #[trigger] id_le(a, b) ==> start_first(a, b);
    pub broadcast axiom fn ax_tot(a: Identifier, b: Identifier) ensures #[trigger] id_le(a, b) || id_le(b, a);
    pub broadcast axiom fn ax_trans(a: Identifier, b: Identifier, c: Identifier) ensures #![trigger id_le(a, b), id_le(b, c)] id_le(a, b) && id_le(b, c) ==> id_le(a, c);
}
//@broadcast idord::ax_le idord::ax_tot idord::ax_trans
// Iterator::max keeps the last of equal elements
#[verifier::external_body]
pub fn vmax<'a>(acc: Option<&'a Identifier>, x: &'a Identifier) -> (r: Option<&'a Identifier>)
    ensures r is Some, match acc { Some(a) => *r->0 == if id_le(*a, *x) { *x } else { *a }, None => *r->0 == *x }
{ unimplemented!() }
/// m is the greatest of the first n elements of vs that satisfy ok (None: there is none)
pub open spec fn greatest(vs: Seq<Identifier>, n: int, ok: spec_fn(Identifier) -> bool, m: Option<Identifier>) -> bool {
    match m {
        None => forall|j: int| 0 <= j < n ==> !ok(#[trigger] vs[j]),
        Some(x) => ok(x) && (exists|k: int| 0 <= k < n && #[trigger] vs[k] == x) && forall|j: int| 0 <= j < n && ok(#[trigger] vs[j]) ==> id_le(vs[j], x),
    }
}
