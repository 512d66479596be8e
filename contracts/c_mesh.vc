#![allow(warnings)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
//@include ic_trait.inc
//@include dc_trait.inc
//@include mesh_trait.inc
//@include mesh_edit.inc
//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `P: Is3D,` => `` ; position traits are not needed by the verified functions, dropping the bound makes the proof more general
//@ enditem
impl<P, ID: IsDataContainer<P>, IC: IsIndexContainer> Mesh3D<P, ID, IC> {
    pub open spec fn topo(&self) -> Seq<usize> { self.topology.iv() }
}
//@ impl IsMesh for Mesh3D
//@ header impl<P, ID, IC> IsMesh<P, Face3> for Mesh3D<P, ID, IC> where ID: IsDataContainer<P>, IC: IsIndexContainer
//@ ghost
    open spec fn mwf(&self) -> bool { self.pc.wf() }
    open spec fn nf(&self) -> nat { self.topo().len() / 3 }
    open spec fn nv(&self) -> nat { self.pc.dlen() }
    open spec fn unit(&self, i: int) -> Face3 { Face3 { a: VId(self.topo()[3 * i]), b: VId(self.topo()[3 * i + 1]), c: VId(self.topo()[3 * i + 2]) } }
    open spec fn vert(&self, i: int, x: P) -> bool { self.pc.holds(i, x) }
    open spec fn corner(t: Face3, k: int) -> nat { (if k == 0 { t.a.0 } else if k == 1 { t.b.0 } else { t.c.0 }) as nat }
//@ fn num_faces
//@ fn num_vertices
//@ fn face_vertex_ids
//@ start
        proof { self.topology.iv_len(); }
//@ fn face_vertices
//@ fn vertex
//@ enditem
//@ impl IsVertexEditableMesh for Mesh3D
//@ header impl<P, ID, IC> IsVertexEditableMesh<P, Face3> for Mesh3D<P, ID, IC> where ID: IsDataContainer<P>, IC: IsIndexContainer
//@ ghost
    open spec fn ewf(&self) -> bool { self.topo().len() % 3 == 0 }
    open spec fn vrep(x: P, y: P) -> bool { ID::rep(x, y) }
//@ fn add_vertex
//@ tail
        proof { kept_valid::<P, Face3, Self>(*old(self), *self); }
//@ fn change_vertex
//@ tailwrap
        proof { kept_valid::<P, Face3, Self>(*old(self), *self); }
//@ fn reserve_vertices
//@ enditem
//@ impl IsFaceEditableMesh for Mesh3D
//@ header impl<P, ID, IC> IsFaceEditableMesh<P, Face3> for Mesh3D<P, ID, IC> where ID: IsDataContainer<P>, IC: IsIndexContainer
//@ ghost
    open spec fn ids_ok(n: nat) -> bool { forall|x: usize| x < n ==> IC::admits(x) }
//@ fn add_face
//@ after `let vid1 = `
        let ghost m1 = *self;
//@ after `let vid2 = `
        let ghost m2 = *self;
//@ after `let vid3 = `
        let ghost m3 = *self;
//@ tail
        proof {
            kept_unit::<P, Face3, Self>(*old(self), m1); kept_unit::<P, Face3, Self>(m1, m2); kept_unit::<P, Face3, Self>(m2, m3);
            assert(faces_kept::<P, Face3, Self>(m3, *self));
            kept_valid::<P, Face3, Self>(*old(self), *self);
        }
//@ fn try_add_connection
//@ fn reserve_faces
//@ enditem
//@ file src/impls/vec.rs
//@ impl IsDataContainer for Vec
//@ ghost
    open spec fn dlen(&self) -> nat { self@.len() }
    open spec fn holds(&self, i: int, x: T) -> bool { cloned(self@[i], x) }
    open spec fn rep(x: T, y: T) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ replace `P: Is3D,` => `` ; as above
//@ enditem
//@ impl IsPushable for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn push
//@ spec
        ensures final(self).data@ == old(self).data@.push(point),
//@ enditem
//@ impl IsDataContainer for PointCloud3D
//@ header impl<P: Clone> IsDataContainer<P> for PointCloud3D<P>
//@ ghost
    open spec fn dlen(&self) -> nat { self.data@.len() }
    open spec fn holds(&self, i: int, x: P) -> bool { cloned(self.data@[i], x) }
    open spec fn rep(x: P, y: P) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ replace `P: Is2D,` => `` ; as above
//@ enditem
//@ impl IsPushable for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn push
//@ spec
        ensures final(self).data@ == old(self).data@.push(point),
//@ enditem
//@ impl IsDataContainer for PointCloud2D
//@ header impl<P: Clone> IsDataContainer<P> for PointCloud2D<P>
//@ ghost
    open spec fn dlen(&self) -> nat { self.data@.len() }
    open spec fn holds(&self, i: int, x: P) -> bool { cloned(self.data@[i], x) }
    open spec fn rep(x: P, y: P) -> bool { cloned(x, y) }
    open spec fn wf(&self) -> bool { true }
//@ fn reserve_d
//@ fn len_d
//@ fn push_d
//@ fn get_d
//@ fn set_d
//@ enditem
} // verus!
fn main() {}
