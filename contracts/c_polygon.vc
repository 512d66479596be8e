#![allow(warnings)]
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
/// Clone yields an equal value (derived Clone of the position types)
pub open spec fn faithful<V: Clone>() -> bool { forall|a: V, b: V| #![trigger cloned(a, b)] #![trigger call_ensures(V::clone, (&a,), b)] cloned(a, b) ==> a == b }
//@ file src/is_polygon.rs
//@ trait IsPolygon
//@ header pub trait IsPolygon<V: Clone> : Sized
//@ ghost
    /// the vertices in order
    spec fn pv(&self) -> Seq<V>;
//@ fn num_segments
//@ ret r
//@ spec
        ensures r == self.pv().len(),
//@ fn segment_vertex_ids
//@ ret r
//@ spec
        ensures r.is_some() == (segmentid.0 < self.pv().len()),
            r.is_some() ==> r.unwrap() == (VId(segmentid.0), VId(if segmentid.0 + 1 == self.pv().len() { 0 } else { (segmentid.0 + 1) as usize })),
//@ fn segment_vertices
//@ ret r
//@ spec
        ensures r.is_some() == (segmentid.0 < self.pv().len()),
            faithful::<V>() && r.is_some() ==> r.unwrap() == (self.pv()[segmentid.0 as int], self.pv()[if segmentid.0 + 1 == self.pv().len() { 0 } else { segmentid.0 + 1 }]),
//@ fn vertex
//@ ret r
//@ spec
        ensures r.is_some() == (vertexid.0 < self.pv().len()), faithful::<V>() && r.is_some() ==> r.unwrap() == self.pv()[vertexid.0 as int],
//@ fn num_vertices
//@ ret r
//@ spec
        ensures r == self.pv().len(),
//@ enditem
//@ file src/is_editable_polygon.rs
//@ trait IsEditablePolygon
//@ header pub trait IsEditablePolygon<V: Clone> : IsPolygon<V>
//@ fn add_vertex
//@ ret r
//@ spec
        ensures r.0 == old(self).pv().len(), final(self).pv() == old(self).pv().push(vertex),
//@ fn change_vertex
//@ ret r
//@ spec
        ensures r.is_ok() == (vid.0 < old(self).pv().len()),
            final(self).pv() == (if vid.0 < old(self).pv().len() { old(self).pv().update(vid.0 as int, vertex) } else { old(self).pv() }),
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ replace `P: Is2D,` => `` ; position traits are not needed by the verified functions
//@ enditem
pub proof fn pc2_len<P>(v: PointCloud2D<P>) ensures v.data@.len() <= usize::MAX { let l = v.data.len(); }
//@ impl IsRandomAccessible for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl IsDataContainer for PointCloud2D
//@ header impl<P: Clone> PointCloud2D<P>
//@ fn get_d
//@ ret r
//@ spec
        ensures r.is_some() == (index < self.data@.len()), r.is_some() ==> cloned(self.data@[index as int], r.unwrap()),
//@ enditem
//@ impl Index for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn index
//@ ret r
//@ spec
        requires i < self.data@.len(),
        ensures *r == self.data@[i as int],
//@ enditem
//@ impl IndexMut for PointCloud2D
//@ header impl<P> PointCloud2D<P>
//@ fn index_mut
//@ ret r
//@ spec
        requires i < old(self).data@.len(),
        ensures *r == old(self).data@[i as int], final(self).data@ == old(self).data@.update(i as int, *final(r)),
//@ enditem
//@ file src/polygon_2d.rs
//@ struct Polygon2D
//@ replace `P: IsBuildable2D,` => `` ; as above
//@ enditem
//@ impl IsPolygon for Polygon2D
//@ header impl<P: Clone> IsPolygon<P> for Polygon2D<P>
//@ ghost
    open spec fn pv(&self) -> Seq<P> { self.pc.data@ }
//@ fn num_segments
//@ fn segment_vertex_ids
//@ start
        proof { pc2_len(self.pc); }
//@ fn segment_vertices
//@ start
        proof { pc2_len(self.pc); }
//@ replace `self.pc[vid1.0].clone(), self.pc[vid2.0].clone()` => `self.pc.index(vid1.0).clone(), self.pc.index(vid2.0).clone()` ; indexing operator written as the trait method it calls
//@ fn vertex
//@ enditem
//@ impl IsEditablePolygon for Polygon2D
//@ header impl<P: Clone> IsEditablePolygon<P> for Polygon2D<P>
//@ fn add_vertex
//@ fn change_vertex
//@ replace `self.pc[vertexid.0] = vertex;` => `*self.pc.index_mut(vertexid.0) = vertex;` ; as above
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ replace `P: Is3D,` => `` ; position traits are not needed by the verified functions
//@ enditem
pub proof fn pc3_len<P>(v: PointCloud3D<P>) ensures v.data@.len() <= usize::MAX { let l = v.data.len(); }
//@ impl IsRandomAccessible for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl IsDataContainer for PointCloud3D
//@ header impl<P: Clone> PointCloud3D<P>
//@ fn get_d
//@ ret r
//@ spec
        ensures r.is_some() == (index < self.data@.len()), r.is_some() ==> cloned(self.data@[index as int], r.unwrap()),
//@ enditem
//@ impl Index for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn index
//@ ret r
//@ spec
        requires i < self.data@.len(),
        ensures *r == self.data@[i as int],
//@ enditem
//@ impl IndexMut for PointCloud3D
//@ header impl<P> PointCloud3D<P>
//@ fn index_mut
//@ ret r
//@ spec
        requires i < old(self).data@.len(),
        ensures *r == old(self).data@[i as int], final(self).data@ == old(self).data@.update(i as int, *final(r)),
//@ enditem
//@ file src/polygon_3d.rs
//@ struct Polygon3D
//@ replace `P: IsBuildable3D,` => `` ; as above
//@ enditem
//@ impl IsPolygon for Polygon3D
//@ header impl<P: Clone> IsPolygon<P> for Polygon3D<P>
//@ ghost
    open spec fn pv(&self) -> Seq<P> { self.pc.data@ }
//@ fn num_segments
//@ fn segment_vertex_ids
//@ start
        proof { pc3_len(self.pc); }
//@ fn segment_vertices
//@ start
        proof { pc3_len(self.pc); }
//@ replace `self.pc[vid1.0].clone(), self.pc[vid2.0].clone()` => `self.pc.index(vid1.0).clone(), self.pc.index(vid2.0).clone()` ; indexing operator written as the trait method it calls
//@ fn vertex
//@ enditem
//@ impl IsEditablePolygon for Polygon3D
//@ header impl<P: Clone> IsEditablePolygon<P> for Polygon3D<P>
//@ fn add_vertex
//@ fn change_vertex
//@ replace `self.pc[vertexid.0] = vertex;` => `*self.pc.index_mut(vertexid.0) = vertex;` ; as above
//@ enditem
} // verus!
fn main() {}
