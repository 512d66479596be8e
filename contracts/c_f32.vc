#![allow(warnings)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::ops::*;
verus! {
//@include float.inc
//@include float32.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, fl32::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
use fl32::*;
//@ file src/point_cloud_3d_f32.rs
//@ struct PointCloud3Df32
//@ enditem
impl<P: IsBuildable3D> PointCloud3Df32<P> {
    /// number of whole points
    pub open spec fn n(&self) -> int { self.data@.len() as int / 3 }
    /// coordinate i of point j as stored
    pub open spec fn st(&self, j: int, i: int) -> f32 { self.data@[3 * j + i] }
}
//@ impl PointCloud3Df32
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<f32>::empty(),
//@ enditem
//@ impl IsPushable for PointCloud3Df32
//@ header impl<P: IsBuildable3D> PointCloud3Df32<P>
//@ fn push
//@ spec
        ensures final(self).data@ == old(self).data@.push(down(p.at(0))).push(down(p.at(1))).push(down(p.at(2))),
//@ fn reserve
//@ spec
        requires 3 * n <= usize::MAX,
        ensures final(self).data@ == old(self).data@,
//@ enditem
//@ impl IsDataContainer for PointCloud3Df32
//@ header impl<P: IsBuildable3D> PointCloud3Df32<P>
//@ fn reserve_d
//@ spec
        requires 3 * n <= usize::MAX,
        ensures final(self).data@ == old(self).data@,
//@ fn len_d
//@ ret r
//@ spec
        ensures r == self.n(),
//@ fn push_d
//@ spec
        ensures final(self).data@ == old(self).data@.push(down(p.at(0))).push(down(p.at(1))).push(down(p.at(2))),
//@ fn get_d
//@ ret r
//@ start
        proof { assert(self.data.len() <= usize::MAX); }
//@ spec
        ensures r.is_some() == (index < self.n()),
            r.is_some() ==> r->Some_0.at(0) == up(self.st(index as int, 0)) && r->Some_0.at(1) == up(self.st(index as int, 1)) && r->Some_0.at(2) == up(self.st(index as int, 2)),
//@ fn set_d
//@ start
        proof { assert(self.data.len() <= usize::MAX); }
//@ spec
        requires index < old(self).n(),
        ensures final(self).data@ == old(self).data@.update(3 * index, down(p.at(0))).update(3 * index + 1, down(p.at(1))).update(3 * index + 2, down(p.at(2))),
//@ enditem
//@ impl IsMovable3D for PointCloud3Df32
//@ header impl<P: IsBuildable3D> PointCloud3Df32<P>
//@ floatassign
//@ fn move_by
//@ spec
        ensures final(self).data@.len() == old(self).data@.len(),
            forall|j: int| 0 <= j < old(self).n() ==> #[trigger] final(self).st(j, 0) == old(self).st(j, 0).ieee_add(down(x)) && final(self).st(j, 1) == old(self).st(j, 1).ieee_add(down(y)) && final(self).st(j, 2) == old(self).st(j, 2).ieee_add(down(z)),
//@ loop 0 end
            proof { assert forall|j: int| 0 <= j <= index implies #[trigger] self.st(j, 0) == old(self).st(j, 0).ieee_add(down(x)) && self.st(j, 1) == old(self).st(j, 1).ieee_add(down(y)) && self.st(j, 2) == old(self).st(j, 2).ieee_add(down(z)) by {
                if j < index { assert(l0.st(j, 0) == old(self).st(j, 0).ieee_add(down(x))); assert(3 * j + 2 < 3 * index); } else { assert(l0.data@[3 * index] == old(self).data@[3 * index] && l0.data@[3 * index + 1] == old(self).data@[3 * index + 1] && l0.data@[3 * index + 2] == old(self).data@[3 * index + 2]); } } }
//@ loop 0 start
            let ghost l0 = *self;
//@ loop 0 inv
            invariant self.data@.len() == old(self).data@.len(),
                forall|j: int| 0 <= j < index ==> #[trigger] self.st(j, 0) == old(self).st(j, 0).ieee_add(down(x)) && self.st(j, 1) == old(self).st(j, 1).ieee_add(down(y)) && self.st(j, 2) == old(self).st(j, 2).ieee_add(down(z)),
                forall|j: int| 3 * index <= j < old(self).data@.len() ==> #[trigger] self.data@[j] == old(self).data@[j],
//@ enditem
//@ impl From<Vec<f32>> for PointCloud3Df32<P>
//@ header impl<P: IsBuildable3D> PointCloud3Df32<P>
//@ fn from
//@ ret r
//@ spec
        ensures r.data@ == data@,
//@ enditem
//@ impl Into<Vec<f32>> for PointCloud3Df32<P>
//@ header impl<P: IsBuildable3D> PointCloud3Df32<P>
//@ fn into
//@ ret r
//@ spec
        ensures r@ == self.data@,
//@ enditem
fn main() {}
}
