// abstract identifiers
pub struct AId { pub name: Seq<char>, pub start: Point, pub end: Point, pub scope: (usize, Point), pub kind: IdentifierType }
pub open spec fn idv(i: Identifier) -> AId { AId { name: i.name@, start: i.start, end: i.end, scope: i.scope_ends, kind: i.identifier_type } }
pub open spec fn idvs(s: Seq<Identifier>) -> Seq<AId> { s.map_values(|i: Identifier| idv(i)) }
pub broadcast proof fn lemma_idvs_push_b(s: Seq<Identifier>, i: Identifier) ensures #[trigger] idvs(s.push(i)) == idvs(s).push(idv(i)) { assert(idvs(s.push(i)) =~= idvs(s).push(idv(i))); }
pub broadcast proof fn lemma_idvs_empty_b(s: Seq<Identifier>) requires s.len() == 0 ensures #[trigger] idvs(s) == Seq::<AId>::empty() { assert(idvs(s) =~= Seq::<AId>::empty()); }
