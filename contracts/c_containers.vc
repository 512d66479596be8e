#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::collections::VecDeque;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
//@include dc_trait.inc
/// ghost only: the elements in order
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
impl<T> Listed<T> for Vec<T> { open spec fn list(&self) -> Seq<T> { self@ } }
impl<T> Listed<T> for VecDeque<T> { open spec fn list(&self) -> Seq<T> { self@ } }
//@ file src/is_random_accessible.rs
//@ trait IsRandomAccessible
//@ header pub trait IsRandomAccessible<T>: Listed<T>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.list().len(),
//@ enditem
//@ file src/is_random_insertible.rs
//@ trait IsRandomInsertible
//@ fn insert
//@ ret r
//@ spec
        ensures r.is_ok() == (index <= old(self).list().len()),
            final(self).list() == (if index <= old(self).list().len() { old(self).list().insert(index as int, x) } else { old(self).list() }),
//@ enditem
//@ file src/is_pushable.rs
//@ trait IsPushable
//@ header pub trait IsPushable<T>: Listed<T>
//@ fn push
//@ spec
        ensures final(self).list() == old(self).list().push(x),
//@ fn reserve
//@ spec
        ensures final(self).list() == old(self).list(),
//@ enditem
//@ file src/impls/vec.rs
//@ impl IsRandomAccessible for Vec
//@ fn len
//@ enditem
//@ impl IsRandomInsertible for Vec
//@ fn insert
//@ enditem
//@ impl IsPushable for Vec
//@ fn push
//@ fn reserve
//@ enditem
//@ impl IsDataContainer for Vec
//@ ghost
    open spec fn dlen(&self) -> nat { self@.len() }
    open spec fn holds(&self, i: int, x: T) -> bool { cloned(self@[i], x) }
    open spec fn rep(x: T, y: T) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T, A>::get ](v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None });
//@ file src/impls/vec_deque.rs
//@ impl IsRandomAccessible for VecDeque
//@ fn len
//@ enditem
//@ impl IsRandomInsertible for VecDeque
//@ fn insert
//@ enditem
//@ impl IsPushable for VecDeque
//@ fn push
//@ fn reserve
//@ enditem
//@ impl IsDataContainer for VecDeque
//@ ghost
    open spec fn dlen(&self) -> nat { self@.len() }
    open spec fn holds(&self, i: int, x: T) -> bool { cloned(self@[i], x) }
    open spec fn rep(x: T, y: T) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ replace `P: Is2D,` => `` ; position traits are not needed by the verified functions
//@ enditem
impl<P> Listed<P> for PointCloud2D<P> { open spec fn list(&self) -> Seq<P> { self.data@ } }
//@ impl PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn new
//@ ret r
//@ spec
        ensures r.list() == Seq::<P>::empty(),
//@ fn with_capacity
//@ ret r
//@ spec
        ensures r.list() == Seq::<P>::empty(),
//@ enditem
//@ impl IsRandomAccessible for PointCloud2D
//@ header impl<P> IsRandomAccessible<P> for PointCloud2D<P>
//@ fn len
//@ enditem
//@ impl IsRandomInsertible for PointCloud2D
//@ header impl<P> IsRandomInsertible<P> for PointCloud2D<P>
//@ fn insert
//@ enditem
//@ impl IsPushable for PointCloud2D
//@ header impl<P> IsPushable<P> for PointCloud2D<P>
//@ fn push
//@ fn reserve
//@ enditem
//@ impl Index for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn index
//@ ret r
//@ spec
        requires i < self.list().len(),
        ensures *r == self.list()[i as int],
//@ enditem
//@ impl IndexMut for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn index_mut
//@ ret r
//@ spec
        requires i < old(self).list().len(),
        ensures *r == old(self).list()[i as int], final(self).list() == old(self).list().update(i as int, *final(r)),
//@ enditem
//@ impl IsDataContainer for PointCloud2D
//@ header impl<P: Clone> IsDataContainer<P> for PointCloud2D<P>
//@ ghost
    open spec fn dlen(&self) -> nat { self.data@.len() }
    open spec fn holds(&self, i: int, x: P) -> bool { cloned(self.data@[i], x) }
    open spec fn rep(x: P, y: P) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ replace `P: Is3D,` => `` ; position traits are not needed by the verified functions
//@ enditem
impl<P> Listed<P> for PointCloud3D<P> { open spec fn list(&self) -> Seq<P> { self.data@ } }
//@ impl PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn new
//@ ret r
//@ spec
        ensures r.list() == Seq::<P>::empty(),
//@ fn with_capacity
//@ ret r
//@ spec
        ensures r.list() == Seq::<P>::empty(),
//@ enditem
//@ impl IsRandomAccessible for PointCloud3D
//@ header impl<P> IsRandomAccessible<P> for PointCloud3D<P>
//@ fn len
//@ enditem
//@ impl IsRandomInsertible for PointCloud3D
//@ header impl<P> IsRandomInsertible<P> for PointCloud3D<P>
//@ fn insert
//@ enditem
//@ impl IsPushable for PointCloud3D
//@ header impl<P> IsPushable<P> for PointCloud3D<P>
//@ fn push
//@ fn reserve
//@ enditem
//@ impl Index for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn index
//@ ret r
//@ spec
        requires i < self.list().len(),
        ensures *r == self.list()[i as int],
//@ enditem
//@ impl IndexMut for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn index_mut
//@ ret r
//@ spec
        requires i < old(self).list().len(),
        ensures *r == old(self).list()[i as int], final(self).list() == old(self).list().update(i as int, *final(r)),
//@ enditem
//@ impl IsDataContainer for PointCloud3D
//@ header impl<P: Clone> IsDataContainer<P> for PointCloud3D<P>
//@ ghost
    open spec fn dlen(&self) -> nat { self.data@.len() }
    open spec fn holds(&self, i: int, x: P) -> bool { cloned(self.data@[i], x) }
    open spec fn rep(x: P, y: P) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
} // verus!
fn main() {}
