// ---- chains: sequences of containers, read as the concatenation of their contents ----
pub trait Run: Sized { type X; spec fn items(&self) -> Seq<Self::X>; }
impl<X> Run for Vec<X> { type X = X; open spec fn items(&self) -> Seq<X> { self@ } }
pub open spec fn flat<C: Run>(s: Seq<C>) -> Seq<C::X> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().items() } }
pub proof fn flat_push<C: Run>(s: Seq<C>, x: C) ensures flat(s.push(x)) == flat(s) + x.items() { assert(s.push(x).drop_last() =~= s); }
pub proof fn flat_append<C: Run>(s: Seq<C>, t: Seq<C>) ensures flat(s + t) == flat(s) + flat(t) decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(flat(s) + flat(t) =~= flat(s)); }
    else { assert(s + t =~= (s + t.drop_last()).push(t.last())); flat_push(s + t.drop_last(), t.last()); flat_append(s, t.drop_last()); assert(flat(s) + flat(t.drop_last()) + t.last().items() =~= flat(s) + flat(t)); }
}
pub proof fn flat_one<C: Run>(x: C) ensures flat(seq![x]) == x.items() { assert(seq![x].drop_last() =~= Seq::<C>::empty()); assert(flat(seq![x].drop_last()) =~= Seq::<C::X>::empty()); assert(flat(seq![x]) =~= x.items()); }
pub proof fn flat_front<C: Run>(s: Seq<C>) requires s.len() > 0 ensures flat(s) == s[0].items() + flat(s.skip(1))
{ assert(s =~= seq![s[0]] + s.skip(1)); flat_append(seq![s[0]], s.skip(1)); flat_one(s[0]); }
pub open spec fn filled<C: Run>(s: Seq<C>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).items().len() > 0 }
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::is_empty](q: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (q@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::front](q: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures q@.len() == 0 ==> r.is_none(), q@.len() > 0 ==> r == Some(&q@[0]);
