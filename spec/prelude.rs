#![allow(non_camel_case_types, unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, unreachable_patterns, unused_labels)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;

verus! {
global size_of usize == 8;

// ------------------------------------------------------------------ iteration
// VI<T> stands for "an iterator that yields exactly the elements of all(), in order".
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VI<T> { _p: PhantomData<T> }
impl<T> VI<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r == (self.pos() < self.all().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).all().len(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1,
            r == old(self).all()[old(self).pos()],
    { unimplemented!() }
}
pub trait VIter: Sized {
    type Item;
    spec fn vseq(self) -> Seq<Self::Item>;
    fn viter(self) -> (r: VI<Self::Item>)
        ensures r.all() == self.vseq(), r.pos() == 0, r.all().len() <= usize::MAX;
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vseq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn viter(self) -> VI<&'a T> { unimplemented!() }
}
impl<T> VIter for Vec<T> {
    type Item = T;
    open spec fn vseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter(self) -> VI<T> { unimplemented!() }
}
impl<T, const N: usize> VIter for [T; N] {
    type Item = T;
    open spec fn vseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter(self) -> VI<T> { unimplemented!() }
}
impl<'a, T> VIter for &'a [T] {
    type Item = &'a T;
    open spec fn vseq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn viter(self) -> VI<&'a T> { unimplemented!() }
}
pub trait VIterRef {
    type E;
    spec fn vrefs(&self) -> Seq<Self::E>;
    fn v_iter(&self) -> (r: VI<&Self::E>)
        ensures r.all() == refs(self.vrefs()), r.pos() == 0, r.all().len() <= usize::MAX;
}
impl<T> VIterRef for Vec<T> {
    type E = T;
    open spec fn vrefs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> VI<&T> { unimplemented!() }
}
impl<T> VIterRef for [T] {
    type E = T;
    open spec fn vrefs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> VI<&T> { unimplemented!() }
}

// ------------------------------------------------------------------ strings
pub mod strax {
    use super::*;
    pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
    pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_refstr_eq<'a>(a: &'a str, b: String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn ax_refstr_obeys<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
    // a String is its characters
    pub broadcast axiom fn ax_string_ext(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
/*BROADCAST*/
//@broadcast strax::ax_string_eq strax::ax_string_obeys strax::ax_refstr_eq strax::ax_refstr_obeys strax::ax_string_ext

#[verifier::external_body]
pub fn vstreq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vconcat(a: String, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VDisp { spec fn vd(&self) -> Seq<char>; }
impl VDisp for &str { open spec fn vd(&self) -> Seq<char> { (*self)@ } }
impl VDisp for String { open spec fn vd(&self) -> Seq<char> { self@ } }
impl VDisp for &String { open spec fn vd(&self) -> Seq<char> { (*self)@ } }
impl VDisp for &&String { open spec fn vd(&self) -> Seq<char> { (**self)@ } }
impl VDisp for &&str { open spec fn vd(&self) -> Seq<char> { (**self)@ } }
#[verifier::external_body]
pub fn vdisp<T: VDisp>(a: T) -> (r: String) ensures r@ == a.vd() { unimplemented!() }

pub trait VToOwned {
    type O;
    spec fn vown(&self, r: Self::O) -> bool;
    fn v_to_owned(&self) -> (r: Self::O) ensures self.vown(r);
}
impl VToOwned for str {
    type O = String;
    open spec fn vown(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn v_to_owned(&self) -> String { unimplemented!() }
}
impl VToOwned for String {
    type O = String;
    open spec fn vown(&self, r: String) -> bool { r == *self }
    #[verifier::external_body]
    fn v_to_owned(&self) -> String { unimplemented!() }
}
pub trait VToString {
    spec fn vts(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.vts();
}
impl VToString for str {
    open spec fn vts(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { unimplemented!() }
}
impl VToString for String {
    open spec fn vts(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { unimplemented!() }
}
pub trait VCloneInto {
    fn v_clone_into(&self, t: &mut String);
}
impl VCloneInto for String {
    #[verifier::external_body]
    fn v_clone_into(&self, t: &mut String) ensures final(t)@ == self@ { unimplemented!() }
}
impl VCloneInto for str {
    #[verifier::external_body]
    fn v_clone_into(&self, t: &mut String) ensures final(t)@ == self@ { unimplemented!() }
}

pub trait VCloneFrom { fn v_clone_from(&mut self, t: &Self); }
impl<T: Clone> VCloneFrom for Vec<T> {
    // element clones are exact copies (derived Clone)
    #[verifier::external_body]
    fn v_clone_from(&mut self, t: &Vec<T>) ensures final(self)@ == t@ { unimplemented!() }
}
pub trait VFrom<A>: Sized {
    spec fn vfrom_ens(a: A, r: Self) -> bool;
    fn vfrom(a: A) -> (r: Self) ensures Self::vfrom_ens(a, r);
}
impl VFrom<&str> for String {
    open spec fn vfrom_ens(a: &str, r: String) -> bool { r@ == a@ }
    #[verifier::external_body]
    fn vfrom(a: &str) -> String { unimplemented!() }
}
impl VFrom<&String> for String {
    open spec fn vfrom_ens(a: &String, r: String) -> bool { r@ == a@ }
    #[verifier::external_body]
    fn vfrom(a: &String) -> String { unimplemented!() }
}

pub trait VUnwrapOr: Sized { type O; spec fn ur(self, r: Self::O) -> bool; fn v_unwrap_or_default(self) -> (r: Self::O) ensures self.ur(r); }
impl<'a, E> VUnwrapOr for Result<&'a str, E> {
    type O = &'a str;
    open spec fn ur(self, r: &'a str) -> bool { match self { Ok(t) => r@ == t@, Err(_) => r@ == Seq::<char>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> &'a str { unimplemented!() }
}
impl<E> VUnwrapOr for Result<String, E> {
    type O = String;
    open spec fn ur(self, r: String) -> bool { match self { Ok(t) => r == t, Err(_) => r@ == Seq::<char>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> String { unimplemented!() }
}
impl VUnwrapOr for Option<String> {
    type O = String;
    open spec fn ur(self, r: String) -> bool { match self { Some(t) => r == t, None => r@ == Seq::<char>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> String { unimplemented!() }
}

// substring relation
pub open spec fn has_at(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p
}
pub open spec fn contains_str(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| has_at(s, p, k) }
pub open spec fn starts_with_str(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub trait VPat { spec fn pt(&self) -> Seq<char>; }
impl VPat for str { open spec fn pt(&self) -> Seq<char> { self@ } }
impl VPat for String { open spec fn pt(&self) -> Seq<char> { self@ } }
pub trait VStr {
    spec fn vv(&self) -> Seq<char>;
    fn v_contains<P: VPat + ?Sized>(&self, p: &P) -> (r: bool) ensures r == contains_str(self.vv(), p.pt());
    fn v_starts_with(&self, p: &String) -> (r: bool) ensures r == starts_with_str(self.vv(), p@);
}
impl VStr for str {
    open spec fn vv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains<P: VPat + ?Sized>(&self, p: &P) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, p: &String) -> bool { unimplemented!() }
}
impl VStr for String {
    open spec fn vv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains<P: VPat + ?Sized>(&self, p: &P) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, p: &String) -> bool { unimplemented!() }
}

// ------------------------------------------------------------------ tree_sitter::Point (derived lexicographic order)
#[derive(Copy, Clone)]
pub struct Point { pub row: usize, pub column: usize }
impl Point {
    pub fn new(row: usize, column: usize) -> (r: Point) ensures r == (Point { row, column }) { Point { row, column } }
    pub fn default() -> (r: Point) ensures r == (Point { row: 0, column: 0 }) { Point { row: 0, column: 0 } }
}
pub open spec fn p0() -> Point { Point { row: 0, column: 0 } }
pub open spec fn ple(a: Point, b: Point) -> bool { a.row < b.row || (a.row == b.row && a.column <= b.column) }
pub open spec fn plt(a: Point, b: Point) -> bool { a.row < b.row || (a.row == b.row && a.column < b.column) }
impl PartialEq for Point {
    #[verifier::external_body]
    fn eq(&self, o: &Point) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Point) -> bool { *self == *o }
}
impl PartialOrd for Point {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Point) -> Option<Ordering> { unimplemented!() }
}
impl PartialOrdSpecImpl for Point {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Point) -> Option<Ordering> {
        if plt(*self, *o) { Some(Ordering::Less) } else if *self == *o { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}

// ------------------------------------------------------------------ lsp_types
#[derive(Copy, Clone)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position {
    pub fn new(line: u32, character: u32) -> (r: Position) ensures r == (Position { line, character }) { Position { line, character } }
    pub fn default() -> (r: Position) ensures r == (Position { line: 0, character: 0 }) { Position { line: 0, character: 0 } }
}
impl PartialEq for Position {
    #[verifier::external_body]
    fn eq(&self, o: &Position) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for Position {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Position) -> bool { *self == *o }
}
pub open spec fn poslt(a: Position, b: Position) -> bool { a.line < b.line || (a.line == b.line && a.character < b.character) }
impl PartialOrd for Position {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Position) -> Option<Ordering> { unimplemented!() }
}
impl PartialOrdSpecImpl for Position {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Position) -> Option<Ordering> {
        if poslt(*self, *o) { Some(Ordering::Less) } else if *self == *o { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
#[derive(Copy, Clone)]
pub struct Range { pub start: Position, pub end: Position }
impl Range {
    pub fn new(start: Position, end: Position) -> (r: Range) ensures r == (Range { start, end }) { Range { start, end } }
    pub fn default() -> (r: Range) ensures r == r0() { Range { start: Position::default(), end: Position::default() } }
}
pub open spec fn pos0() -> Position { Position { line: 0, character: 0 } }
pub open spec fn r0() -> Range { Range { start: pos0(), end: pos0() } }
pub open spec fn pos_of(p: Point) -> Position { Position { line: p.row as u32, character: p.column as u32 } }
pub open spec fn range_of(a: Point, b: Point) -> Range { Range { start: pos_of(a), end: pos_of(b) } }

