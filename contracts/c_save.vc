#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::*;
use std::io::{Error as ioError, Write};
verus! {
//@ strings
//@include float.inc
//@include float32.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl32::ax};
//@include base.inc
global size_of f32 == 4;
global size_of f64 == 8;
//@include mesh_trait.inc
//@include save.inc
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
/// the number whose big-endian base 256 digits are s
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
/// the n big-endian base 256 digits of x
pub open spec fn be_digits(x: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be_digits(x / 256, (n - 1) as nat).push((x % 256) as u8) } }
/// `x.to_be_bytes()`
pub trait BeOctets<const N: usize> { spec fn number(&self) -> nat; fn be_octets(&self) -> (r: [u8; N]) ensures r@ == be_digits(self.number(), N as nat); }
/// (assumed: std)
impl BeOctets<1> for u8 { open spec fn number(&self) -> nat { *self as nat } #[verifier::external_body] fn be_octets(&self) -> (r: [u8; 1]) { self.to_be_bytes() } }
/// (assumed: std)
impl BeOctets<4> for u32 { open spec fn number(&self) -> nat { *self as nat } #[verifier::external_body] fn be_octets(&self) -> (r: [u8; 4]) { self.to_be_bytes() } }
/// (assumed: std)
impl BeOctets<4> for f32 { open spec fn number(&self) -> nat { self.to_bits_spec() as nat } #[verifier::external_body] fn be_octets(&self) -> (r: [u8; 4]) { self.to_be_bytes() } }
/// (assumed: std)
impl BeOctets<8> for f64 { open spec fn number(&self) -> nat { self.to_bits_spec() as nat } #[verifier::external_body] fn be_octets(&self) -> (r: [u8; 8]) { self.to_be_bytes() } }
/// ghost only: the coordinates of a position
pub trait Coords { spec fn at(&self, i: int) -> f64; }
//@ file src/is_2d.rs
//@ trait Is2D
//@ header pub trait Is2D: Coords
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ fn to_str default
//@ ret r
//@ spec
        ensures r.txt() == num(self.at(0)) + t" " + num(self.at(1)),
//@ enditem
//@ file src/is_3d.rs
//@ trait Is3D
//@ header pub trait Is3D: Coords
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ fn z
//@ ret r
//@ spec
        ensures r == self.at(2),
//@ fn to_str default
//@ ret r
//@ spec
        ensures r.txt() == num(self.at(0)) + t" " + num(self.at(1)) + t" " + num(self.at(2)),
//@ enditem
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait IsBuildable3D: Is3D + Sized
//@ enditem
/// a sequence with elements of type T
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
//@ file src/is_random_accessible.rs
//@ trait IsRandomAccessible
//@ header pub trait IsRandomAccessible<T>: Listed<T>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.list().len(),
//@ enditem
/// `&ra[i]` (the Index implementations are verified under C21)
#[verifier::external_body]
pub fn item<T, RA: IsRandomAccessible<T>>(ra: &RA, i: usize) -> (r: &T) requires i < ra.list().len() ensures *r == ra.list()[i as int] { unimplemented!() }
/// one position per line
pub open spec fn cloud_text2<P: Coords>(l: Seq<P>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); cloud_text2(l.drop_last()) + (num(p.at(0)) + t" " + num(p.at(1))) + t"\n" } }
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl PointCloud2D
//@ fn to_str
//@ ret r
//@ replace `String::new()` => `no_text()` ; see no_text
//@ spec
        ensures r.txt() == cloud_text2(self.data@),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *#[trigger] it.seq()[i] == self.data@[i], result.txt() =~= cloud_text2(self.data@.take(it.index@)),
//@ loop 0 start
            proof { assert(self.data@.take(it.index@ + 1).drop_last() == self.data@.take(it.index@)); }
//@ loop 0 after
        proof { assert(self.data@.take(self.data@.len() as int) == self.data@); }
//@ enditem
/// one position per line
pub open spec fn cloud_text3<P: Coords>(l: Seq<P>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); cloud_text3(l.drop_last()) + (num(p.at(0)) + t" " + num(p.at(1)) + t" " + num(p.at(2))) + t"\n" } }
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl PointCloud3D
//@ fn to_str
//@ ret r
//@ replace `String::new()` => `no_text()` ; see no_text
//@ spec
        ensures r.txt() == cloud_text3(self.data@),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *#[trigger] it.seq()[i] == self.data@[i], result.txt() =~= cloud_text3(self.data@.take(it.index@)),
//@ loop 0 start
            proof { assert(self.data@.take(it.index@ + 1).drop_last() == self.data@.take(it.index@)); }
//@ loop 0 after
        proof { assert(self.data@.take(self.data@.len() as int) == self.data@); }
//@ enditem
// ---- xyz and xy
//@include rows.inc
//@ file src/io/xyz.rs
//@ enum XyzError
//@ enditem
pub type XyzResult<T> = std::result::Result<T, XyzError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for XyzError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { XyzError::AccessFile } }
//@ impl From for XyzError
//@ fn from
//@ enditem
//@ freefn save_xyz
//@ ret r
//@ replace `ra[i]` => `(*item(ra, i))` ; indexing of a random accessible collection
//@ spec
    ensures r.is_ok() ==> (*final(write)).written() == (*old(write)).written() + xyz_rows(ra.list(), delim_coord.txt(), delim_pos.txt()), (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
//@ loop 0 inv
        invariant n == ra.list().len(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), (*write).written() =~= before + xyz_rows(ra.list().take(i as int), delim_coord.txt(), delim_pos.txt()),
//@ loop 0 start
        proof { assert(ra.list().take(i + 1).drop_last() == ra.list().take(i as int)); }
//@ loop 0 after
    proof { assert(ra.list().take(n as int) == ra.list()); }
//@ enditem
//@ file src/io/xy.rs
//@ enum XyError
//@ enditem
pub type XyResult<T> = std::result::Result<T, XyError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for XyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { XyError::AccessFile } }
//@ impl From for XyError
//@ fn from
//@ enditem
//@ freefn save_xy
//@ ret r
//@ replace `ra[i]` => `(*item(ra, i))` ; indexing of a random accessible collection
//@ spec
    ensures r.is_ok() ==> (*final(write)).written() == (*old(write)).written() + xy_rows(ra.list(), delim_coord.txt(), delim_pos.txt()), (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
//@ loop 0 inv
        invariant n == ra.list().len(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), (*write).written() =~= before + xy_rows(ra.list().take(i as int), delim_coord.txt(), delim_pos.txt()),
//@ loop 0 start
        proof { assert(ra.list().take(i + 1).drop_last() == ra.list().take(i as int)); }
//@ loop 0 after
    proof { assert(ra.list().take(n as int) == ra.list()); }
//@ enditem
// ---- ply
//@ file src/rgb.rs
//@ struct Rgb
//@ enditem
//@ file src/enums.rs
//@ enum Precision
//@ enditem
//@ file src/io/ply/types.rs
//@ enum Type
//@ enditem
//@ enum PlyError
//@ enditem
pub type PlyResult<T> = std::result::Result<T, PlyError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for PlyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { PlyError::AccessFile } }
//@ impl From for PlyError
//@ fn from
//@ enditem
/// the vertices a mesh may report, in order
pub open spec fn reported<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, l: Seq<P>) -> bool { l.len() == m.nv() && forall|i: int| 0 <= i < l.len() ==> m.vert(i, #[trigger] l[i]) }
pub open spec fn units<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M) -> Seq<Face3> { Seq::new(m.nf(), |i: int| m.unit(i)) }
/// the header, from the lines that differ between the formats
pub open spec fn ply_header(format: Seq<u8>, nv: nat, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, colored: bool, nf: nat, list: Seq<u8>) -> Seq<u8> {
    let s = t"ply\n" + format + t"comment Created by rust-3d\n" + t"element vertex " + digits(nv) + t"\n" + x + y + z;
    let s = if colored { s + t"property uchar red\n" + t"property uchar green\n" + t"property uchar blue\n" } else { s };
    s + t"element face " + digits(nf) + t"\n" + list + t"end_header\n"
}
pub open spec fn ascii_rows<P: Coords>(l: Seq<P>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); ascii_rows(l.drop_last()) + (num(p.at(0)) + t" " + num(p.at(1)) + t" " + num(p.at(2)) + t"\n") } }
pub open spec fn ascii_colored_rows<P: Coords>(l: Seq<P>, c: Seq<Rgb>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let (p, k) = (l.last(), c[l.len() - 1]); ascii_colored_rows(l.drop_last(), c) + (num(p.at(0)) + t" " + num(p.at(1)) + t" " + num(p.at(2)) + t" " + digits(k.r as nat) + t" " + digits(k.g as nat) + t" " + digits(k.b as nat) + t"\n") } }
pub open spec fn b32(x: f64) -> Seq<u8> { be_digits(fl32::down(x).to_bits_spec() as nat, 4) }
pub open spec fn b64(x: f64) -> Seq<u8> { be_digits(x.to_bits_spec() as nat, 8) }
pub open spec fn rows32<P: Coords>(l: Seq<P>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); rows32(l.drop_last()) + (b32(p.at(0)) + b32(p.at(1)) + b32(p.at(2))) } }
pub open spec fn colored_rows32<P: Coords>(l: Seq<P>, c: Seq<Rgb>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let (p, k) = (l.last(), c[l.len() - 1]); colored_rows32(l.drop_last(), c) + (b32(p.at(0)) + b32(p.at(1)) + b32(p.at(2)) + be_digits(k.r as nat, 1) + be_digits(k.g as nat, 1) + be_digits(k.b as nat, 1)) } }
pub open spec fn rows64<P: Coords>(l: Seq<P>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = l.last(); rows64(l.drop_last()) + (b64(p.at(0)) + b64(p.at(1)) + b64(p.at(2))) } }
pub open spec fn colored_rows64<P: Coords>(l: Seq<P>, c: Seq<Rgb>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let (p, k) = (l.last(), c[l.len() - 1]); colored_rows64(l.drop_last(), c) + (b64(p.at(0)) + b64(p.at(1)) + b64(p.at(2)) + be_digits(k.r as nat, 1) + be_digits(k.g as nat, 1) + be_digits(k.b as nat, 1)) } }
pub open spec fn ascii_faces(l: Seq<Face3>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let t = l.last(); ascii_faces(l.drop_last()) + (t"3 " + digits(t.a.0 as nat) + t" " + digits(t.b.0 as nat) + t" " + digits(t.c.0 as nat) + t"\n") } }
pub open spec fn binary_faces(l: Seq<Face3>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let t = l.last(); binary_faces(l.drop_last()) + (be_digits(3, 1) + be_digits(t.a.0 as nat, 4) + be_digits(t.b.0 as nat, 4) + be_digits(t.c.0 as nat, 4)) } }
/// the ids fit into the 32 bits the format has for them
pub open spec fn ids_fit<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M) -> bool { forall|i: int| 0 <= i < m.nf() ==> (#[trigger] m.unit(i)).a.0 <= u32::MAX && m.unit(i).b.0 <= u32::MAX && m.unit(i).c.0 <= u32::MAX }
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_ascii<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format ascii 1.0\n", m.nv(), t"property float x\n", t"property float y\n", t"property float z\n", false, m.nf(), t"property list uchar uint vertex_indices\n") + ascii_rows(l) + ascii_faces(units::<P, M>(m))
}
//@ file src/io/ply/save.rs
//@ freefn save_ply_ascii
//@ ret r
//@ spec
    requires mesh.mwf(),
    ensures r.is_ok() ==> saved_save_ply_ascii::<P, M>(*mesh, (*old(write)).written(), (*final(write)).written()), (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
    let ghost mut vs__: Seq<P> = Seq::empty();
    let ghost h = ply_header(t"format ascii 1.0\n", mesh.nv(), t"property float x\n", t"property float y\n", t"property float z\n", false, mesh.nf(), t"property list uchar uint vertex_indices\n");
//@ loop 0 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + ascii_rows(vs) =~= before + h); }
//@ loop 0 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + ascii_rows(vs),
//@ loop 0 start
        let ghost now = (*write).written();
//@ loop 0 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 0 after
    proof { vs__ = vs; }
//@ loop 1 before
    let ghost now = (*write).written();
    proof { assert(now + ascii_faces(units::<P, M>(*mesh).take(0)) =~= now); assert(reported::<P, M>(*mesh, vs__)); }
//@ loop 1 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), (*write).written() =~= now + ascii_faces(units::<P, M>(*mesh).take(i as int)),
//@ loop 1 start
        proof { let u = units::<P, M>(*mesh); assert(u.take(i + 1).drop_last() == u.take(i as int)); }
//@ loop 1 after
    proof { let u = units::<P, M>(*mesh); assert(u.take(u.len() as int) == u); reveal(saved_save_ply_ascii); }
//@ enditem
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_ascii_colored<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, c: Seq<Rgb>, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format ascii 1.0\n", m.nv(), t"property float x\n", t"property float y\n", t"property float z\n", true, m.nf(), t"property list uchar uint vertex_indices\n") + ascii_colored_rows(l, c) + ascii_faces(units::<P, M>(m))
}
//@ file src/io/ply/save.rs
//@ freefn save_ply_ascii_colored
//@ ret r
//@ spec
    requires mesh.mwf(),
    ensures r.is_ok() ==> saved_save_ply_ascii_colored::<P, M>(*mesh, colors@, (*old(write)).written(), (*final(write)).written()), colors@.len() != mesh.nv() ==> r.is_err() && (*final(write)).written() == (*old(write)).written(), colors@.len() == mesh.nv() && (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
    let ghost mut vs__: Seq<P> = Seq::empty();
    let ghost h = ply_header(t"format ascii 1.0\n", mesh.nv(), t"property float x\n", t"property float y\n", t"property float z\n", true, mesh.nf(), t"property list uchar uint vertex_indices\n");
//@ loop 0 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + ascii_colored_rows(vs, colors@) =~= before + h); }
//@ loop 0 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), colors@.len() == mesh.nv(), n_vertices == mesh.nv(), n_faces == mesh.nf(), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + ascii_colored_rows(vs, colors@),
//@ loop 0 start
        let ghost now = (*write).written();
//@ loop 0 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 0 after
    proof { vs__ = vs; }
//@ loop 1 before
    let ghost now = (*write).written();
    proof { assert(now + ascii_faces(units::<P, M>(*mesh).take(0)) =~= now); assert(reported::<P, M>(*mesh, vs__)); }
//@ loop 1 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), colors@.len() == mesh.nv(), n_vertices == mesh.nv(), n_faces == mesh.nf(), (*write).written() =~= now + ascii_faces(units::<P, M>(*mesh).take(i as int)),
//@ loop 1 start
        proof { let u = units::<P, M>(*mesh); assert(u.take(i + 1).drop_last() == u.take(i as int)); }
//@ loop 1 after
    proof { let u = units::<P, M>(*mesh); assert(u.take(u.len() as int) == u); reveal(saved_save_ply_ascii_colored); }
//@ enditem
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_binary0<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format binary_big_endian 1.0\n", m.nv(), t"property float x\n", t"property float y\n", t"property float z\n", false, m.nf(), t"property list uint8 uint32 vertex_indices\n") + rows32(l) + binary_faces(units::<P, M>(m))
}
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_binary1<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format binary_big_endian 1.0\n", m.nv(), t"property double x\n", t"property double y\n", t"property double z\n", false, m.nf(), t"property list uint8 uint32 vertex_indices\n") + rows64(l) + binary_faces(units::<P, M>(m))
}
//@ file src/io/ply/save.rs
//@ freefn save_ply_binary
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
//@ ret r
//@ spec
    requires mesh.mwf(), ids_fit::<P, M>(*mesh),
    ensures r.is_ok() ==> match *precision { Precision::P32 => saved_save_ply_binary0::<P, M>(*mesh, (*old(write)).written(), (*final(write)).written()), Precision::P64 => saved_save_ply_binary1::<P, M>(*mesh, (*old(write)).written(), (*final(write)).written()) }, (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
    let ghost mut vs__: Seq<P> = Seq::empty();
    let ghost h = match *precision { Precision::P32 => ply_header(t"format binary_big_endian 1.0\n", mesh.nv(), t"property float x\n", t"property float y\n", t"property float z\n", false, mesh.nf(), t"property list uint8 uint32 vertex_indices\n"), Precision::P64 => ply_header(t"format binary_big_endian 1.0\n", mesh.nv(), t"property double x\n", t"property double y\n", t"property double z\n", false, mesh.nf(), t"property list uint8 uint32 vertex_indices\n") };
//@ loop 0 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + rows32(vs) =~= before + h); }
//@ loop 0 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), ids_fit::<P, M>(*mesh), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + rows32(vs),
//@ loop 0 start
        let ghost now = (*write).written();
//@ loop 0 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 0 after
    proof { vs__ = vs; }
//@ loop 1 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + rows64(vs) =~= before + h); }
//@ loop 1 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), ids_fit::<P, M>(*mesh), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + rows64(vs),
//@ loop 1 start
        let ghost now = (*write).written();
//@ loop 1 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 1 after
    proof { vs__ = vs; }
//@ loop 2 before
    let ghost now = (*write).written();
    proof { assert(now + binary_faces(units::<P, M>(*mesh).take(0)) =~= now); assert(reported::<P, M>(*mesh, vs__)); }
//@ loop 2 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), ids_fit::<P, M>(*mesh), (*write).written() =~= now + binary_faces(units::<P, M>(*mesh).take(i as int)),
//@ loop 2 start
        proof { let u = units::<P, M>(*mesh); assert(u.take(i + 1).drop_last() == u.take(i as int)); }
//@ loop 2 after
    proof { let u = units::<P, M>(*mesh); assert(u.take(u.len() as int) == u); reveal(saved_save_ply_binary0); reveal(saved_save_ply_binary1); }
//@ enditem
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_binary_colored0<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, c: Seq<Rgb>, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format binary_big_endian 1.0\n", m.nv(), t"property float x\n", t"property float y\n", t"property float z\n", true, m.nf(), t"property list uint8 uint32 vertex_indices\n") + colored_rows32(l, c) + binary_faces(units::<P, M>(m))
}
/// b is a, the header and the vertices and faces of the mesh
#[verifier::opaque]
pub open spec fn saved_save_ply_binary_colored1<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, c: Seq<Rgb>, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<P>| #[trigger] reported::<P, M>(m, l) && b == a + ply_header(t"format binary_big_endian 1.0\n", m.nv(), t"property double x\n", t"property double y\n", t"property double z\n", true, m.nf(), t"property list uint8 uint32 vertex_indices\n") + colored_rows64(l, c) + binary_faces(units::<P, M>(m))
}
//@ file src/io/ply/save.rs
//@ freefn save_ply_binary_colored
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
//@ ret r
//@ spec
    requires mesh.mwf(), ids_fit::<P, M>(*mesh),
    ensures r.is_ok() ==> match *precision { Precision::P32 => saved_save_ply_binary_colored0::<P, M>(*mesh, colors@, (*old(write)).written(), (*final(write)).written()), Precision::P64 => saved_save_ply_binary_colored1::<P, M>(*mesh, colors@, (*old(write)).written(), (*final(write)).written()) }, colors@.len() != mesh.nv() ==> r.is_err() && (*final(write)).written() == (*old(write)).written(), colors@.len() == mesh.nv() && (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
    let ghost mut vs__: Seq<P> = Seq::empty();
    let ghost h = match *precision { Precision::P32 => ply_header(t"format binary_big_endian 1.0\n", mesh.nv(), t"property float x\n", t"property float y\n", t"property float z\n", true, mesh.nf(), t"property list uint8 uint32 vertex_indices\n"), Precision::P64 => ply_header(t"format binary_big_endian 1.0\n", mesh.nv(), t"property double x\n", t"property double y\n", t"property double z\n", true, mesh.nf(), t"property list uint8 uint32 vertex_indices\n") };
//@ loop 0 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + colored_rows32(vs, colors@) =~= before + h); }
//@ loop 0 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), colors@.len() == mesh.nv(), n_vertices == mesh.nv(), n_faces == mesh.nf(), ids_fit::<P, M>(*mesh), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + colored_rows32(vs, colors@),
//@ loop 0 start
        let ghost now = (*write).written();
//@ loop 0 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 0 after
    proof { vs__ = vs; }
//@ loop 1 before
    let ghost mut vs: Seq<P> = Seq::empty();
    proof { assert(before + h + colored_rows64(vs, colors@) =~= before + h); }
//@ loop 1 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), colors@.len() == mesh.nv(), n_vertices == mesh.nv(), n_faces == mesh.nf(), ids_fit::<P, M>(*mesh), vs.len() == i, forall|j: int| 0 <= j < vs.len() ==> mesh.vert(j, #[trigger] vs[j]), (*write).written() =~= before + h + colored_rows64(vs, colors@),
//@ loop 1 start
        let ghost now = (*write).written();
//@ loop 1 end
        proof { let vt = vs.push(vertex); assert(vt.drop_last() == vs); vs = vt; }
//@ loop 1 after
    proof { vs__ = vs; }
//@ loop 2 before
    let ghost now = (*write).written();
    proof { assert(now + binary_faces(units::<P, M>(*mesh).take(0)) =~= now); assert(reported::<P, M>(*mesh, vs__)); }
//@ loop 2 inv
        invariant mesh.mwf(), before == (*old(write)).written(), (*write).keeps() == (*old(write)).keeps(), colors@.len() == mesh.nv(), n_vertices == mesh.nv(), n_faces == mesh.nf(), ids_fit::<P, M>(*mesh), (*write).written() =~= now + binary_faces(units::<P, M>(*mesh).take(i as int)),
//@ loop 2 start
        proof { let u = units::<P, M>(*mesh); assert(u.take(i + 1).drop_last() == u.take(i as int)); }
//@ loop 2 after
    proof { let u = units::<P, M>(*mesh); assert(u.take(u.len() as int) == u); reveal(saved_save_ply_binary_colored0); reveal(saved_save_ply_binary_colored1); }
//@ enditem
// ---- stl
//@ file src/io/stl.rs
//@ enum StlError
//@ enditem
pub type StlResult<T> = std::result::Result<T, StlError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for StlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { StlError::AccessFile } }
//@ impl From<ioError> for StlError
//@ fn from
//@ enditem
//@ file src/norm_3d.rs
//@ struct Norm3D
//@ enditem
impl Coords for Norm3D { closed spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } } }
//@ impl Is3D for Norm3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ file src/is_normalized_3d.rs
//@ trait IsNormalized3D
//@ header pub trait IsNormalized3D: Sized + Is3D
//@ fn norm_z trusted
//@ enditem
impl IsNormalized3D for Norm3D { }
/// no face has a normal whose length is not a number (Norm3D::new panics then)
pub uninterp spec fn normals_computable<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M) -> bool;
/// `let [a, b, c] = x` (assumed: the language)
#[verifier::external_body]
pub fn three<P>(x: [P; 3]) -> (r: (P, P, P)) ensures r.0 == x[0], r.1 == x[1], r.2 == x[2] { let [a, b, c] = x; (a, b, c) }
/// `x.unwrap_or(y)` (assumed: std)
#[verifier::external_body]
pub fn unwrap_or<T>(x: Result<T>, y: T) -> (r: T) ensures r == (match x { Ok(x) => x, Err(e) => y }) { x.unwrap_or(y) }
//@ file src/is_mesh_3d.rs
//@ trait IsMesh3D
//@ fn face_normal trusted
//@ spec
        requires self.mwf(), normals_computable::<P, Self>(*self),
//@ enditem
pub open spec fn exp3(a: f64, b: f64, c: f64) -> Seq<u8> { num_exp(a) + t" " + num_exp(b) + t" " + num_exp(c) }
/// a face and some normal
pub struct Facet<P> { pub n: (f64, f64, f64), pub a: P, pub b: P, pub c: P }
pub open spec fn facets<P: Coords>(l: Seq<Facet<P>>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let t = l.last();
        facets(l.drop_last()) + (t"facet normal " + exp3(t.n.0, t.n.1, t.n.2) + t"\n" + t"    outer loop\n"
            + t"        vertex " + exp3(t.a.at(0), t.a.at(1), t.a.at(2)) + t"\n" + t"        vertex " + exp3(t.b.at(0), t.b.at(1), t.b.at(2)) + t"\n" + t"        vertex " + exp3(t.c.at(0), t.c.at(1), t.c.at(2)) + t"\n"
            + t"    endloop\n" + t"endfacet\n") }
}
/// the corners are those of the faces of the mesh, in order
pub open spec fn corners<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, l: Seq<Facet<P>>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> m.vert(M::corner(m.unit(i), 0) as int, (#[trigger] l[i]).a) && m.vert(M::corner(m.unit(i), 1) as int, l[i].b) && m.vert(M::corner(m.unit(i), 2) as int, l[i].c)
}
/// b is a and the faces of the mesh
#[verifier::opaque]
pub open spec fn saved_stl<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|l: Seq<Facet<P>>| l.len() == m.nf() && #[trigger] corners::<P, M>(m, l) && b == a + t"solid STL generated by rust-3d\n" + facets(l) + t"endsolid STL generated by rust-3d\n"
}
/// every face refers to existing vertices
pub open spec fn valid<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(m: M) -> bool {
    forall|i: int, k: int| 0 <= i < m.nf() && 0 <= k < 3 ==> #[trigger] M::corner(m.unit(i), k) < m.nv()
}
//@ file src/io/stl.rs
//@ freefn str_exp
//@ ret r
//@ spec
    ensures r.txt() == exp3(p.at(0), p.at(1), p.at(2)),
//@ enditem
//@ freefn save_stl_ascii
//@ ret r
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ replace `mesh.face_normal($1).unwrap_or($2)` => `unwrap_or(mesh.face_normal($1), $2)` ; see unwrap_or
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), normals_computable::<P, M>(*mesh),
    ensures r.is_ok() ==> saved_stl::<P, M>(*mesh, (*old(write)).written(), (*final(write)).written()), (*old(write)).keeps() ==> r.is_ok(),
//@ start
    let ghost before = (*write).written();
//@ loop 0 before
    let ghost mut l: Seq<Facet<P>> = Seq::empty();
    let ghost now = (*write).written();
//@ loop 0 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), normals_computable::<P, M>(*mesh), now == before + t"solid STL generated by rust-3d\n", (*write).keeps() == (*old(write)).keeps(), l.len() == i, corners::<P, M>(*mesh, l), (*write).written() =~= now + facets(l),
//@ loop 0 end
        proof { let t = l.push(Facet { n: (n.at(0), n.at(1), n.at(2)), a: v1, b: v2, c: v3 }); assert(t.drop_last() == l); l = t; }
//@ loop 0 after
    proof { reveal(saved_stl); }
//@ enditem
fn main() {}
}
