// ------------------------------------------------------------------ LinkedList, used as a stack: its front is the top
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct LinkedList<T> { _p: PhantomData<T> }
impl<T> LinkedList<T> {
    /// bottom to top (back to front)
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.drop_last().push(*final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
