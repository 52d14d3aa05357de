// ------------------------------------------------------------------ std::collections as mathematical maps and sets
pub mod vkey {
    use vstd::prelude::*;
    use super::Point;
    pub trait VKey { type S; spec fn kv(&self) -> Self::S; }
    impl VKey for String { type S = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl VKey for str { type S = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl<'a> VKey for &'a String { type S = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl<'a> VKey for &'a str { type S = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl VKey for usize { type S = usize; open spec fn kv(&self) -> usize { *self } }
    impl VKey for Point { type S = Point; open spec fn kv(&self) -> Point { *self } }
}
pub use vkey::VKey;
pub mod hashmap {
    use vstd::prelude::*;
    use core::marker::PhantomData;
    use super::vkey::VKey;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct HashMap<K, V> { _p: PhantomData<(K, V)> }
    impl<K: VKey, V> HashMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K::S, V>;
        /// the entries in the (unspecified, but fixed) iteration order of this map
        pub uninterp spec fn vpairs(&self) -> Seq<(K, V)>;
    }
    pub open spec fn lists_map<K: VKey, V>(p: Seq<(K, V)>, m: Map<K::S, V>) -> bool {
        &&& forall|i: int| 0 <= i < p.len() ==> m.dom().contains((#[trigger] p[i]).0.kv()) && m[p[i].0.kv()] == p[i].1
        &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0.kv() != (#[trigger] p[j]).0.kv()
        &&& forall|k: K::S| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.kv() == k
    }
}
pub use hashmap::*;
pub mod hashmapax {
    use vstd::prelude::*;
    use super::hashmap::*;
    use super::vkey::VKey;
    pub broadcast axiom fn ax_pairs<K: VKey, V>(m: HashMap<K, V>) ensures lists_map(#[trigger] m.vpairs(), m.view());
}
//@broadcast hashmapax::ax_pairs
impl<K: VKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VKey<S = K::S> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.dom().contains(k.kv()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<S = K::S> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VI<(&K, &V)>) ensures r.all() == ref_pairs(self.vpairs()), r.pos() == 0, r.all().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: VI<&K>) ensures r.all() == ref_keys(self.vpairs()), r.pos() == 0, r.all().len() <= usize::MAX { unimplemented!() }
    // stand-ins for values_mut(): the keys once each, then the value of a key that is known to be there
    #[verifier::external_body]
    pub fn v_key_list(&self) -> (r: VI<K>) ensures r.all() == own_keys(self.vpairs()), r.pos() == 0, r.all().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_mut_known(&mut self, k: &K) -> (r: &mut V)
        requires old(self)@.dom().contains(k.kv()),
        ensures *r == old(self)@[k.kv()], final(self)@ == old(self)@.insert(k.kv(), *final(r)),
    { unimplemented!() }
}
pub open spec fn ref_pairs<'a, K, V>(p: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(p.len(), |i: int| (&p[i].0, &p[i].1)) }
pub open spec fn ref_keys<'a, K, V>(p: Seq<(K, V)>) -> Seq<&'a K> { Seq::new(p.len(), |i: int| &p[i].0) }
pub open spec fn own_keys<K, V>(p: Seq<(K, V)>) -> Seq<K> { Seq::new(p.len(), |i: int| p[i].0) }
impl<'a, K: VKey, V> VIter for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vseq(self) -> Seq<(&'a K, &'a V)> { ref_pairs(self.vpairs()) }
    #[verifier::external_body]
    fn viter(self) -> VI<(&'a K, &'a V)> { unimplemented!() }
}
impl<K: VKey, V> VIter for HashMap<K, V> {
    type Item = (K, V);
    open spec fn vseq(self) -> Seq<(K, V)> { self.vpairs() }
    #[verifier::external_body]
    fn viter(self) -> VI<(K, V)> { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _p: PhantomData<K> }
impl<K: VKey> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::S>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::S>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K::S>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains<Q: VKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<S = K::S> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.kv()), r == old(self)@.contains(k.kv()) { unimplemented!() }
    /// the elements, once each, in some order
    pub uninterp spec fn velems(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn ax_elems(&self) ensures forall|k: K::S| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < self.velems().len() && (#[trigger] self.velems()[i]).kv() == k, forall|i: int| 0 <= i < self.velems().len() ==> self@.contains((#[trigger] self.velems()[i]).kv()) { unimplemented!() }
}
impl<'a, K: VKey> VIter for &'a HashSet<K> {
    type Item = &'a K;
    open spec fn vseq(self) -> Seq<&'a K> { refs(self.velems()) }
    #[verifier::external_body]
    fn viter(self) -> VI<&'a K> { unimplemented!() }
}

// ------------------------------------------------------------------ paths and urls
// A path is its text; extension, join, canonical form and the url mapping stay uninterpreted.
pub uninterp spec fn path_ext(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_join(p: Seq<char>, q: Seq<char>) -> Seq<char>;
/// what the file system says about a path: its canonical form, or the kind of the error
pub uninterp spec fn fs_canon(p: Seq<char>) -> Result<Seq<char>, ErrorKind>;
pub uninterp spec fn url_of_path(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_of_url(u: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn url_parse(u: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_strip(p: Seq<char>, root: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn utf8_path(p: Seq<char>) -> bool;
pub trait VText { spec fn tx(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vteq<T: VText>(a: &T, b: &str) -> (r: bool) ensures r == (a.tx() == b@) { unimplemented!() }
impl VText for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for &str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for &String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for PathBuf { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for &PathBuf { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for Path { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VText for &Path { open spec fn tx(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct Path { _p: u8 }
#[verifier::external_body]
pub struct OsStr { _p: u8 }
impl OsStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@, r is Some == utf8_path(self@) { unimplemented!() }
}
impl Path {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new<T: VText + ?Sized>(s: &T) -> (r: &Path) ensures r@ == s.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(e) => path_ext(self@) == Some(e@), None => path_ext(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@, r is Some == utf8_path(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@, r is Some == utf8_path(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: VText>(&mut self, q: T) ensures final(self)@ == path_join(old(self)@, q.tx()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_strip_prefix<T: VText>(&self, root: T) -> (r: Result<&Path, ()>)
        ensures match r { Ok(p) => path_strip(self@, root.tx()) == Some(p@), Err(_) => path_strip(self@, root.tx()) is None } { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, NotADirectory, InvalidInput, Other }
#[verifier::external_body]
pub struct IoError { _p: u8 }
impl IoError {
    pub uninterp spec fn view(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn v_std_fs_canonicalize<T: VText>(p: T) -> (r: Result<PathBuf, IoError>)
    ensures match r { Ok(q) => fs_canon(p.tx()) == Ok::<Seq<char>, ErrorKind>(q@), Err(e) => fs_canon(p.tx()) == Err::<Seq<char>, ErrorKind>(e@) }
{ unimplemented!() }
#[verifier::external_body]
pub struct Url { _p: u8 }
impl Url {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_owned(&self) -> (r: Url) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: VText + ?Sized>(s: &T) -> (r: Result<Url, ()>)
        ensures match r { Ok(u) => url_parse(s.tx()) == Some(u@), Err(_) => url_parse(s.tx()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_file_path<T: VText>(p: T) -> (r: Result<Url, ()>)
        ensures match r { Ok(u) => url_of_path(p.tx()) == Some(u@), Err(_) => url_of_path(p.tx()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_file_path(&self) -> (r: Result<PathBuf, ()>)
        ensures match r { Ok(p) => path_of_url(self@) == Some(p@), Err(_) => path_of_url(self@) is None } { unimplemented!() }
}
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() } }
