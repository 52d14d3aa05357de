pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
pub trait VTrim { spec fn vt(&self) -> Seq<char>;
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trimmed_end(self.vt());
    fn v_ends_with(&self, c: char) -> (r: bool) ensures r == (self.vt().len() > 0 && self.vt().last() == c); }
impl VTrim for str { open spec fn vt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_trim_end(&self) -> &str { unimplemented!() }
    #[verifier::external_body] fn v_ends_with(&self, c: char) -> bool { unimplemented!() } }
