#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@include norm3.inc
//@include vec3.inc
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait Normalize3: IsBuildable3D
//@ fn normalized default
//@ ret r
//@ spec
        requires nneg(len3(*self)),
        ensures match r { Ok(n) => !len3(*self).ieee_eq(0.0f64) && (forall|i: int| 0 <= i < 3 ==> #[trigger] n.at(i) == self.at(i).ieee_div(len3(*self))), Err(_) => len3(*self).ieee_eq(0.0f64) },
//@ enditem
impl<T: IsBuildable3D> Normalize3 for T {}
//@ file src/matrix4.rs
//@ struct Matrix4
//@ enditem
/// the k-th coordinate of the cross product
pub open spec fn crossed<P: Is3D, Q: Is3D>(p: P, q: Q, k: int) -> f64 { if k == 0 { minor(p, q, 1, 2) } else if k == 1 { minor(p, q, 2, 0) } else { minor(p, q, 0, 1) } }
/// the rows of the matrix: across (up x target), over (n x across) and along the view (n), without translation
pub open spec fn looks<P: Is3D, N: Is3D>(m: Matrix4, target: P, up: N) -> bool {
    exists|n: P, u: P| #[trigger] viewed(m, target, up, n, u)
}
pub open spec fn viewed<P: Is3D, N: Is3D>(m: Matrix4, target: P, up: N, n: P, u: P) -> bool {
    &&& forall|k: int| 0 <= k < 3 ==> #[trigger] n.at(k) == target.at(k).ieee_div(len3(target))
    &&& forall|k: int| 0 <= k < 3 ==> #[trigger] u.at(k) == crossed(up, target, k)
    &&& forall|k: int| 0 <= k < 3 ==> m.data[0][k] == #[trigger] u.at(k)
    &&& forall|k: int| 0 <= k < 3 ==> #[trigger] m.data[1][k] == crossed(n, u, k)
    &&& forall|k: int| 0 <= k < 3 ==> m.data[2][k] == #[trigger] n.at(k)
    &&& forall|i: int| 0 <= i < 3 ==> #[trigger] m.data[i][3] == 0.0f64
    &&& forall|k: int| 0 <= k < 3 ==> #[trigger] m.data[3][k] == 0.0f64
    &&& m.data[3][3] == 1.0f64
}
//@ impl Default for Matrix4
//@ fn default
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ enditem
//@ impl Matrix4
//@ fn identity
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ fn zeroes
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == 0.0f64,
//@ fn look_at
//@ ret r
//@ spec
        requires nneg(len3(*target)),
        ensures r.is_ok() == !len3(*target).ieee_eq(0.0f64), r.is_ok() ==> looks(r->Ok_0, *target, *up),
//@ tail
        proof { assert(viewed(result, *target, *up, n, u)); }
//@ enditem
//@ file src/matrix4_pipe.rs
//@ struct Matrix4Pipe
//@ enditem
//@ impl Matrix4Pipe
//@ fn add_look_at
//@ ret r
//@ spec
        requires nneg(len3(*target)),
        ensures r.is_ok() == !len3(*target).ieee_eq(0.0f64), r.is_ok() ==> looks(final(self).mcamlook, *target, *up), r.is_err() ==> final(self).mcamlook == old(self).mcamlook,
            final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale, final(self).mperspective == old(self).mperspective, final(self).mcamtrans == old(self).mcamtrans,
//@ enditem
} fn main() {}
