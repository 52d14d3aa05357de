// ------------------------------------------------------------------ HashMap::entry, String::push, owned copies
impl VToOwned for Point { type O = Point; open spec fn vown(&self, r: Point) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> Point { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, V> { _p: PhantomData<&'a mut V> }
pub trait VDef { spec fn is_def(&self) -> bool; }
impl<T> VDef for Vec<T> { open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<'a, V> Entry<'a, V> {
    /// the value the key had, and the value it has once the entry has been used
    pub uninterp spec fn was(&self) -> Option<V>;
    pub uninterp spec fn will(&self) -> V;
    #[verifier::external_body]
    pub fn or_insert(self, d: V) -> (r: &'a mut V)
        ensures *r == (match self.was() { Some(v) => v, None => d }), self.will() == *final(r),
    { unimplemented!() }
}
impl<'a, V: VDef> Entry<'a, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures match self.was() { Some(v) => *r == v, None => r.is_def() }, self.will() == *final(r),
    { unimplemented!() }
}
impl<K: VKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, V>)
        ensures r.was() == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None }),
            final(self)@ == old(self)@.insert(k.kv(), r.will()),
    { unimplemented!() }
}
