//@ file src/is_topology_unit.rs
//@ trait IsTopologyUnit
//@ ghost
    spec fn n() -> nat;
    spec fn id(&self, i: int) -> VId;
//@ fn n_vids
//@ ret r
//@ spec
        ensures r == Self::n(),
//@ fn vid
//@ ret r
//@ spec
        ensures r.is_some() == (index < Self::n()), r.is_some() ==> r.unwrap() == self.id(index as int),
//@ enditem
//@ file src/face3.rs
//@ struct Face3
//@ attrs
#[derive(PartialEq, Eq, Structural)]
//@ enditem
//@ impl Face3
//@ fn new
//@ ret r
//@ spec
        ensures r.a == a, r.b == b, r.c == c,
//@ enditem
//@ impl IsTopologyUnit for Face3
//@ ghost
    open spec fn n() -> nat { 3 }
    open spec fn id(&self, i: int) -> VId { if i == 0 { self.a } else if i == 1 { self.b } else { self.c } }
//@ fn n_vids
//@ fn vid
//@ enditem
//@ file src/is_mesh.rs
//@ trait IsMesh
//@ header pub trait IsMesh<V, TU>: Sized where TU: IsTopologyUnit
//@ ghost
    spec fn mwf(&self) -> bool;
    spec fn nf(&self) -> nat;
    spec fn nv(&self) -> nat;
    /// the topology unit of face i
    spec fn unit(&self, i: int) -> TU;
    /// vertex i may be reported as x
    spec fn vert(&self, i: int, x: V) -> bool;
    /// vertex id of corner k of the unit
    spec fn corner(t: TU, k: int) -> nat;
//@ fn num_faces
//@ ret r
//@ spec
        requires self.mwf(),
        ensures r == self.nf(),
//@ fn num_vertices
//@ ret r
//@ spec
        requires self.mwf(),
        ensures r == self.nv(),
//@ fn face_vertex_ids
//@ ret r
//@ spec
        requires self.mwf(),
        ensures r.is_some() == (faceid.0 < self.nf()), r.is_some() ==> r.unwrap() == self.unit(faceid.0 as int),
//@ fn face_vertices
//@ ret r
//@ spec
        requires self.mwf(),
        ensures r.is_some() == (faceid.0 < self.nf() && Self::corner(self.unit(faceid.0 as int), 0) < self.nv()
                && Self::corner(self.unit(faceid.0 as int), 1) < self.nv() && Self::corner(self.unit(faceid.0 as int), 2) < self.nv()),
            r.is_some() ==> self.vert(Self::corner(self.unit(faceid.0 as int), 0) as int, r.unwrap()[0])
                && self.vert(Self::corner(self.unit(faceid.0 as int), 1) as int, r.unwrap()[1])
                && self.vert(Self::corner(self.unit(faceid.0 as int), 2) as int, r.unwrap()[2]),
//@ fn vertex
//@ ret r
//@ spec
        requires self.mwf(),
        ensures r.is_some() == (vertexid.0 < self.nv()), r.is_some() ==> self.vert(vertexid.0 as int, r.unwrap()),
//@ enditem
