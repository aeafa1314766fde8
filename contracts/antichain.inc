// ---- Trusted contract of timely::progress::Antichain (external crate, not under /repo) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Antichain<T> { elements: Vec<T> }
impl<T: PartialOrder> Antichain<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_elem(e: T) -> (r: Self) ensures r@ == seq![e] { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn elements(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, element: T) -> (r: bool)
        ensures
            r == !up(old(self)@, element),
            forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || element.le(&t)),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]) || final(self)@[i] == element,
            antichain(old(self)@) ==> antichain(final(self)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_ref(&mut self, element: &T) -> (r: bool)
        ensures
            r == !up(old(self)@, *element),
            forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || element.le(&t)),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]) || final(self)@[i] == *element,
            antichain(old(self)@) ==> antichain(final(self)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == up(self@, *t) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
// `AntichainRef` dereferences to the slice of its elements.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AntichainRef<'a, T> { frontier: &'a [T] }
impl<'a, T> Copy for AntichainRef<'a, T> {}
impl<'a, T> Clone for AntichainRef<'a, T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<'a, T: PartialOrder> AntichainRef<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &'a [T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == up(self@, *t) { unimplemented!() }
}
