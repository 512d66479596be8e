//@ file src/is_index_container.rs
//@ trait IsIndexContainer
//@ header pub trait IsIndexContainer : Sized + Clone
//@ ghost
    /// abstract value: the sequence of stored indices
    spec fn iv(&self) -> Seq<usize>;
    /// the indices this container can hold without loss
    spec fn admits(x: usize) -> bool;
    /// a stored sequence fits the address space
    proof fn iv_len(&self) ensures self.iv().len() <= usize::MAX;
    /// supertrait Default, restated with its contract
    fn default() -> (r: Self)
        ensures r.iv() == Seq::<usize>::empty();
//@ fn reserve
//@ spec
        ensures final(self).iv() == old(self).iv(),
//@ fn ensure_supported
//@ spec
        ensures final(self).iv() == old(self).iv(),
//@ fn len
//@ ret r
//@ spec
        ensures r == self.iv().len(),
//@ fn get
//@ ret r
//@ spec
        requires index < self.iv().len(),
        ensures r == self.iv()[index as int],
//@ fn set
//@ spec
        requires index < old(self).iv().len(), Self::admits(value),
        ensures final(self).iv() == old(self).iv().update(index as int, value),
//@ fn push
//@ spec
        requires Self::admits(value),
        ensures final(self).iv() == old(self).iv().push(value),
//@ fn with_capacity
//@ ret r
//@ spec
        ensures r.iv() == Seq::<usize>::empty(),
//@ fn with_support_for
//@ ret r
//@ spec
        ensures r.iv() == Seq::<usize>::empty(),
//@ fn with_capacity_and_support_for
//@ ret r
//@ spec
        ensures r.iv() == Seq::<usize>::empty(),
//@ enditem
