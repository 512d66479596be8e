//@ file src/is_index_container.rs
//@ struct IsIndexContainerIterator
//@ enditem
//@ impl IsIndexContainerIterator
//@ fn new
//@ ret r
//@ spec
        ensures r.parent == parent, r.max == parent.iv().len(), r.index == 0,
//@ enditem
//@ impl Iterator for IsIndexContainerIterator
//@ header impl<'a, IC> IsIndexContainerIterator<'a, IC> where IC: IsIndexContainer
//@ fn next
//@ ret r
//@ spec
        requires old(self).max == old(self).parent.iv().len(), old(self).index <= old(self).max,
        ensures
            final(self).parent == old(self).parent, final(self).max == old(self).max,
            old(self).index < old(self).max ==> r == Some(old(self).parent.iv()[old(self).index as int]) && final(self).index == old(self).index + 1,
            old(self).index >= old(self).max ==> r.is_none() && final(self).index == old(self).index,
//@ enditem
