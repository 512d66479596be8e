/// ghost only: the elements in order
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
//@ file src/is_pushable.rs
//@ trait IsPushable
//@ header pub trait IsPushable<T>: Listed<T>
//@ fn push
//@ spec
        ensures final(self).list() == old(self).list().push(x),
//@ fn reserve
//@ spec
        ensures final(self).list() == old(self).list(),
//@ enditem
