// ------------------------------------------------------------------ str::split
/// the text before the first c
pub open spec fn upto(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() == 0 || s[0] == c { Seq::empty() } else { seq![s[0]] + upto(s.drop_first(), c) }
}
pub uninterp spec fn split_of(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub trait VSplit { spec fn vsp(&self) -> Seq<char>;
    fn v_split(&self, c: char) -> (r: VI<&str>) ensures r.pos() == 0, 0 < r.all().len() <= usize::MAX, texts(r.all()) == split_of(self.vsp(), c), r.all()[0]@ == upto(self.vsp(), c); }
impl VSplit for str { open spec fn vsp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split(&self, c: char) -> VI<&str> { unimplemented!() } }
impl VSplit for String { open spec fn vsp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split(&self, c: char) -> VI<&str> { unimplemented!() } }
