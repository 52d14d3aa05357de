// ------------------------------------------------------------------ ropey::Rope as the sequence of its characters
pub mod utf8 {
    use vstd::prelude::*;
    pub open spec fn w8(c: char) -> int { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
    pub open spec fn bytes(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + w8(s.last()) } }
}
pub use utf8::*;
pub open spec fn w16(c: char) -> int { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub trait VChar { fn v_len_utf8(&self) -> usize; fn v_len_utf16(&self) -> usize; }
impl VChar for char {
    #[verifier::external_body]
    fn v_len_utf8(&self) -> (r: usize) ensures r == w8(*self) { unimplemented!() }
    #[verifier::external_body]
    fn v_len_utf16(&self) -> (r: usize) ensures r == w16(*self) { unimplemented!() }
}

pub mod rope_stub {
use vstd::prelude::*; use super::utf8::*;
#[verifier::external_body]
pub struct Rope { _p: u8 }
impl Clone for Rope { #[verifier::external_body] fn clone(&self) -> (r: Rope) ensures r@ == self@ { unimplemented!() } }
impl Rope {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Rope) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len_chars(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn char(&self, i: usize) -> (r: char) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn char_to_byte(&self, i: usize) -> (r: usize) requires i <= self@.len() ensures r == bytes(self@.subrange(0, i as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, g: core::ops::Range<usize>)
        requires g.start <= g.end, g.end <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(0, g.start as int) + old(self)@.subrange(g.end as int, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, s: &str)
        requires i <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(0, i as int) + s@ + old(self)@.subrange(i as int, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
}
pub use rope_stub::*;
pub mod ropeax {
    use vstd::prelude::*;
    use super::Rope; use super::utf8::*;
    // a rope cannot hold more than isize::MAX bytes
    pub broadcast axiom fn ax_rope_size(r: Rope) ensures bytes(#[trigger] r@) <= 0x7fff_ffff_ffff_ffff;
}
//@broadcast ropeax::ax_rope_size
